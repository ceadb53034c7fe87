// Drives the event tree (E01) through histories generated from specs/EventTreeDesign.tla and archives from
// specs/EventTreeArchives.tla and records what the real code did.
// SRC: projects/dataclasses/ projects/serialization/ projects/math/private/(Vector3D|Matrix3D|Quaternion|EulerAngles|Euler) projects/utilities/private/(Errors|Random|StringManip)
#include "vdrv.h"
#include "SIREN/dataclasses/InteractionTree.h"
#include <memory>
#include <unistd.h>
using namespace siren::dataclasses;
using namespace vd;

// Look-alikes of the version-0 classes, to write the archives an older release wrote
struct OldRecord {
    InteractionRecord r;
    template<class A> void save(A & archive, std::uint32_t const) const {
        archive(::cereal::make_nvp("InteractionSignature", r.signature));
        archive(::cereal::make_nvp("PrimaryID", r.primary_id));
        archive(::cereal::make_nvp("PrimaryInitialPosition", r.primary_initial_position));
        archive(::cereal::make_nvp("PrimaryMass", r.primary_mass));
        archive(::cereal::make_nvp("PrimaryMomentum", r.primary_momentum));
        archive(::cereal::make_nvp("PrimaryHelicity", r.primary_helicity));
        archive(::cereal::make_nvp("TargetID", r.target_id));
        archive(::cereal::make_nvp("TargetMass", r.target_mass));
        archive(::cereal::make_nvp("TargetHelicity", r.target_helicity));
        archive(::cereal::make_nvp("InteractionVertex", r.interaction_vertex));
        archive(::cereal::make_nvp("SecondaryIDs", r.secondary_ids));
        archive(::cereal::make_nvp("SecondaryMasses", r.secondary_masses));
        archive(::cereal::make_nvp("SecondaryMomenta", r.secondary_momenta));
        archive(::cereal::make_nvp("SecondaryHelicities", r.secondary_helicities));
        archive(::cereal::make_nvp("InteractionParameters", r.interaction_parameters));
    }
    template<class A> void load(A &, std::uint32_t const) {}
};
struct OldDatum {
    OldRecord record; std::shared_ptr<OldDatum> parent; std::vector<std::shared_ptr<OldDatum>> daughters;
    template<class A> void save(A & archive, std::uint32_t const) const {
        archive(::cereal::make_nvp("Record", record));
        archive(::cereal::make_nvp("Parent", parent));
        archive(::cereal::make_nvp("Daughters", daughters));
    }
    template<class A> void load(A &, std::uint32_t const) {}
};
struct OldTree {
    std::vector<std::shared_ptr<OldDatum>> tree;
    template<class A> void save(A & archive, std::uint32_t const) const { archive(::cereal::make_nvp("Tree", tree)); }
    template<class A> void load(A &, std::uint32_t const) {}
};
CEREAL_CLASS_VERSION(OldRecord, 0); CEREAL_CLASS_VERSION(OldDatum, 0); CEREAL_CLASS_VERSION(OldTree, 0);

static long long idx(std::uint32_t v) { return v == kNoParent ? -1 : (long long)v; }
static InteractionRecord mkrec(int tag) {
    InteractionRecord r;
    r.signature.primary_type = ParticleType::NuMu; r.signature.target_type = ParticleType::PPlus;
    r.signature.secondary_types = {ParticleType::MuMinus, ParticleType::Hadrons};
    r.primary_mass = tag; r.primary_momentum = {10. * tag, 0, 0, 3. * tag};
    r.secondary_momenta = {{1.*tag, 0, 0, .5}, {2.*tag, 0, .25, 0}}; r.secondary_masses = {0.1, 0.2}; r.secondary_helicities = {0, 0};
    r.secondary_times = {0, 0}; r.secondary_ids = {ParticleID(7, tag), ParticleID(8, tag)};
    r.interaction_parameters["q"] = tag;
    return r;
}
static std::string nodes(InteractionTree const & t) {
    return arr(t.tree, [](std::shared_ptr<InteractionTreeDatum> const & d) {
        if(!d) return std::string("{\"id\":-9,\"parent\":-9,\"daughters\":[],\"tag\":-9}");
        int tag = (int) d->record.primary_mass;
        if(!(d->record == mkrec(tag))) tag = -tag - 1000;
        Obj o; o.i("id", idx(d->node_id)).i("parent", idx(d->parent_index)).i("tag", tag);
        o.raw("daughters", arr(d->daughter_indices, [](std::uint32_t x){ return std::to_string(idx(x)); }));
        return o.done();
    });
}
static std::string depths(InteractionTree const & t) {
    std::vector<int> v;
    for(std::size_t k = 0; k < t.tree.size(); ++k) {
        int a = -2, b = -2;
        try { a = t.depth(k); } catch(std::exception const &) { a = -2; }
        try { b = t.tree[k]->depth(t); } catch(std::exception const &) { b = -2; }
        v.push_back(a == b ? a : -100);
    }
    return arr(v, [](int x){ return std::to_string(x); });
}
static std::string roots(InteractionTree const & t) { return arr(t.tree, [](std::shared_ptr<InteractionTreeDatum> const & d) { return std::string(d && d->is_root() ? "true" : "false"); }); }
static std::string hdr(InteractionTreeHeader const & h) {
    std::string s = std::to_string(h.event_number) + "|";
    for(double w : h.weights) s += hex(w) + ",";
    for(auto const & kv : h.provenance) s += "|" + kv.first + "=" + kv.second;
    return s;
}
static void obs(Obj & o, InteractionTree const & t) { o.raw("tree", nodes(t)).raw("depths", depths(t)).raw("roots", roots(t)); }

int main(int argc, char ** argv) {
    Script S(argc, argv);
    long hist = 0;
    for(auto const & line : S.lines) {
        rj::Document d; parse(d, line);
        std::string kind = gs(d, "kind");
        if(kind == "hist") {
            ++hist;
            S.emit(Obj().str("op", "new").i("h", hist).done());
            auto t = std::make_shared<InteractionTree>();
            auto other = std::make_shared<InteractionTree>(); // donor of stale data
            for(int k = 0; k < 3; ++k) { auto r = mkrec(90 + k); other->add_entry(r, k ? other->tree[k-1] : nullptr); }
            int tag = 0;
            std::vector<std::shared_ptr<InteractionTreeDatum>> keep;
            for(auto const & op : ga(d, "ops").GetArray()) {
                ++tag;
                std::string ov = gs(op, "ov"), st = gs(op, "stale"); int p = (int) gi(op, "parent");
                std::shared_ptr<InteractionTreeDatum> par = p < 0 ? nullptr : t->tree.at(p), got;
                InteractionRecord rec = mkrec(tag);
                InteractionTreeDatum stale(rec);
                if(st == "other") { stale = *other->tree[1]; stale.record = rec; }
                else if(st == "same") { if(!t->tree.empty()) stale = *t->tree.back(); stale.record = rec; }
                else if(st == "wild") { stale.node_id = 77; stale.parent_index = 55; stale.daughter_indices = {1, 99, 0}; }
                std::string threw;
                try {
                    if(ov == "record") got = p < 0 ? t->add_entry(rec) : t->add_entry(rec, par);
                    else if(ov == "datum") got = p < 0 ? t->add_entry(stale) : t->add_entry(stale, par);
                    else { auto sp = std::make_shared<InteractionTreeDatum>(stale); got = p < 0 ? t->add_entry(sp) : t->add_entry(sp, par); }
                } catch(std::exception const & e) { threw = e.what(); }
                Obj o; o.str("op", "add").i("h", hist).str("ov", ov).str("stale", st).i("parent", p).i("tag", tag).str("threw", threw);
                obs(o, *t);
                S.emit(o.done());
            }
            // header
            t->header.event_number = 18446744073709551615ULL - (std::uint64_t) hist;
            t->header.weights = {0.1, 1e-300, -2.5e17 + hist};
            t->header.provenance = {{"generator", "x"}, {"tag", "a b\"c" + std::to_string(hist)}, {"", ""}};
            for(auto const & fv : ga(d, "loads").GetArray()) {
                std::string fmt = fv.GetString();
                Obj o; o.str("op", "load").i("h", hist).str("fmt", fmt);
                std::vector<std::shared_ptr<InteractionTree>> in, back; bool threw = false; bool legacy = false; std::string what;
                try {
                    if(fmt == "file") {
                        auto second = std::make_shared<InteractionTree>(); auto r = mkrec(500); second->add_entry(r); auto r2 = mkrec(501); second->add_entry(r2, second->tree[0]);
                        auto third = std::make_shared<InteractionTree>();
                        in = {t, second, third};
                        std::string fn = "ev" + std::to_string(hist);
                        SaveInteractionTrees(in, fn); back = LoadInteractionTrees(fn);
                        ::unlink((fn + ".siren_events").c_str());
                        // the other trees of the file come back in order too
                        for(std::size_t k = 1; k < back.size() && k < in.size(); ++k) if(!back[k] || !(*back[k] == *in[k])) throw std::runtime_error("companion tree changed");
                    } else if(fmt == "bin" || fmt == "json") {
                        in = {t};
                        std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary);
                        auto b = std::make_shared<InteractionTree>();
                        if(fmt == "bin") { { ::cereal::BinaryOutputArchive a(ss); a(*t); } ::cereal::BinaryInputArchive a(ss); a(*b); }
                        else { { ::cereal::JSONOutputArchive a(ss); a(*t); } ::cereal::JSONInputArchive a(ss); a(*b); }
                        back = {b};
                    } else {
                        legacy = true;
                        OldTree ot; in = {t};
                        for(auto const & n : t->tree) { auto od = std::make_shared<OldDatum>(); od->record.r = n->record; ot.tree.push_back(od); }
                        for(std::size_t k = 0; k < t->tree.size(); ++k) {
                            if(t->tree[k]->parent_index != kNoParent) ot.tree[k]->parent = ot.tree.at(t->tree[k]->parent_index);
                            for(auto x : t->tree[k]->daughter_indices) ot.tree[k]->daughters.push_back(ot.tree.at(x));
                        }
                        std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary);
                        auto b = std::make_shared<InteractionTree>();
                        if(fmt == "oldbin") { { ::cereal::BinaryOutputArchive a(ss); a(ot); } ::cereal::BinaryInputArchive a(ss); a(*b); }
                        else { { ::cereal::JSONOutputArchive a(ss); a(ot); } ::cereal::JSONInputArchive a(ss); a(*b); }
                        for(auto & n : ot.tree) { n->parent = nullptr; n->daughters.clear(); }
                        back = {b};
                    }
                } catch(std::exception const & e) { threw = true; what = e.what(); back.clear(); }
                InteractionTree empty; InteractionTree const & b = back.empty() || !back[0] ? empty : *back[0];
                o.b("threw", threw).str("what", what).b("legacy", legacy).i("saved", in.size()).i("count", back.size());
                o.str("hdr0", legacy ? hdr(InteractionTreeHeader()) : hdr(t->header)).str("hdr1", hdr(b.header)).b("equal", b == *t);
                obs(o, b);
                S.emit(o.done());
            }
            // equality: itself, a rebuilt copy, and copies changed in one respect
            {
                auto copy = [&]() { auto c = std::make_shared<InteractionTree>(); c->header = t->header; for(auto const & n : t->tree) c->tree.push_back(std::make_shared<InteractionTreeDatum>(*n)); return c; };
                std::vector<bool> ch;
                auto chk = [&](std::shared_ptr<InteractionTree> c) { ch.push_back(*c == *t || *t == *c); };
                { auto c = copy(); c->header.event_number ^= 1; chk(c); }
                { auto c = copy(); c->header.weights[1] *= 2; chk(c); }
                { auto c = copy(); c->header.weights.push_back(1); chk(c); }
                { auto c = copy(); c->header.provenance["tag"] += "x"; chk(c); }
                { auto c = copy(); auto r = mkrec(1); c->add_entry(r); chk(c); }
                for(std::size_t k = 0; k < t->tree.size(); ++k) {
                    { auto c = copy(); c->tree[k]->node_id += 1; chk(c); }
                    { auto c = copy(); c->tree[k]->parent_index = c->tree[k]->parent_index == kNoParent ? 0 : kNoParent; chk(c); }
                    { auto c = copy(); c->tree[k]->daughter_indices.push_back(0); chk(c); }
                    { auto c = copy(); c->tree[k]->record.primary_mass += 1; chk(c); }
                    { auto c = copy(); c->tree[k] = nullptr; chk(c); }
                }
                Obj o; o.str("op", "eq").i("h", hist).b("eqself", *t == *t).b("eqcopy", *copy() == *t);
                o.raw("changed", arr(ch, [](bool x){ return std::string(x ? "true" : "false"); }));
                S.emit(o.done());
            }
        } else { // archive with arbitrary indices
            InteractionTree t; int k = 0;
            for(auto const & n : ga(d, "nodes").GetArray()) {
                ++k;
                if(gb(n, "null")) { t.tree.push_back(nullptr); continue; }
                auto r = mkrec(k); auto p = std::make_shared<InteractionTreeDatum>(r);
                p->node_id = gi(n, "id"); p->parent_index = gi(n, "parent") < 0 ? kNoParent : (std::uint32_t) gi(n, "parent");
                for(auto const & x : ga(n, "daughters").GetArray()) p->daughter_indices.push_back(x.GetInt());
                t.tree.push_back(p);
            }
            for(int json = 0; json < 2; ++json) {
                std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary);
                InteractionTree b; bool threw = false; std::string what;
                try {
                    if(!json) { { ::cereal::BinaryOutputArchive a(ss); a(t); } ::cereal::BinaryInputArchive a(ss); a(b); }
                    else { { ::cereal::JSONOutputArchive a(ss); a(t); } ::cereal::JSONInputArchive a(ss); a(b); }
                } catch(std::exception const & e) { threw = true; what = e.what(); b = InteractionTree(); }
                Obj o; o.str("op", "arch").b("json", json).b("threw", threw).str("what", what);
                std::string raw = line.substr(line.find("\"nodes\":") + 8); raw.pop_back();
                o.raw("raw", raw).raw("tree", nodes(b)).raw("depths", depths(b));
                S.emit(o.done());
                if(!gb(d, "both")) break;
            }
        }
    }
    return 0;
}
