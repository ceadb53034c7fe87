// Drives injection/physical processes (I01) and interaction collections (I02).
// SRC: projects/dataclasses/ projects/serialization/ projects/math/private/(Vector3D|Matrix3D|Quaternion|EulerAngles|Euler) projects/utilities/private/(Errors|Random|StringManip) injection/private/Process distributions/private/Distributions.cxx interactions/private/(InteractionCollection|CrossSection|Decay|Interaction)\.cxx
#include "vdrv.h"
#include <memory>
#include <algorithm>
#include <cereal/types/map.hpp>
#include <cereal/types/string.hpp>
#include "SIREN/injection/Process.h"
#include "SIREN/interactions/InteractionCollection.h"
#include "SIREN/dataclasses/InteractionRecord.h"
#include "SIREN/utilities/Constants.h"
using namespace siren; using namespace siren::dataclasses; using namespace vd;
typedef distributions::WeightableDistribution WD;
typedef std::shared_ptr<detector::DetectorModel const> DM; typedef std::shared_ptr<interactions::InteractionCollection const> IC;

#define DIST(NAME, BASE, RECORD) \
class NAME : virtual public distributions::BASE { \
public: int v; NAME(int v = 0) : v(v) {} \
    double GenerationProbability(DM, IC, InteractionRecord const &) const override { return 1; } \
    std::string Name() const override { return #NAME; } \
    void Sample(std::shared_ptr<utilities::SIREN_random>, DM, IC, RECORD &) const override {} \
    std::shared_ptr<distributions::BASE> clone() const override { return std::make_shared<NAME>(*this); } \
    bool equal(WD const & o) const override { auto x = dynamic_cast<NAME const *>(&o); return x && x->v == v; } \
    bool less(WD const & o) const override { auto x = dynamic_cast<NAME const *>(&o); return x && v < x->v; } \
    template<class A> void save(A & a, std::uint32_t const) const { a(cereal::make_nvp("v", v)); a(cereal::virtual_base_class<distributions::BASE>(this)); } \
    template<class A> void load(A & a, std::uint32_t const) { a(cereal::make_nvp("v", v)); a(cereal::virtual_base_class<distributions::BASE>(this)); } \
};
DIST(PrimA, PrimaryInjectionDistribution, PrimaryDistributionRecord)
DIST(PrimB, PrimaryInjectionDistribution, PrimaryDistributionRecord)
DIST(SecA, SecondaryInjectionDistribution, SecondaryDistributionRecord)
DIST(SecB, SecondaryInjectionDistribution, SecondaryDistributionRecord)
#define REG(NAME, BASE) CEREAL_CLASS_VERSION(NAME, 0); CEREAL_REGISTER_TYPE(NAME); CEREAL_REGISTER_POLYMORPHIC_RELATION(siren::distributions::BASE, NAME);
REG(PrimA, PrimaryInjectionDistribution) REG(PrimB, PrimaryInjectionDistribution) REG(SecA, SecondaryInjectionDistribution) REG(SecB, SecondaryInjectionDistribution)

static int value(WD const * d) {
    if(auto x = dynamic_cast<PrimA const *>(d)) return x->v; if(auto x = dynamic_cast<SecA const *>(d)) return x->v;
    if(auto x = dynamic_cast<PrimB const *>(d)) return x->v + 2; if(auto x = dynamic_cast<SecB const *>(d)) return x->v + 2;
    return -1;
}
static const ParticleType TY[] = {ParticleType::unknown, ParticleType::NuMu, ParticleType::NuE};
static int tcode(ParticleType t) { for(int k = 0; k < 3; ++k) if(TY[k] == t) return k; return 99; }

struct Phys {
    typedef injection::PhysicalProcess P; typedef WD D; static constexpr bool inj = false;
    static std::shared_ptr<D> make(int v) { return v <= 2 ? std::static_pointer_cast<D>(std::make_shared<PrimA>(v)) : std::static_pointer_cast<D>(std::make_shared<PrimB>(v - 2)); }
    static void add(P & p, std::shared_ptr<D> d) { p.AddPhysicalDistribution(d); }
    static void set(P & p, std::vector<std::shared_ptr<D>> const & d) { p.SetPhysicalDistributions(d); }
    static std::vector<std::shared_ptr<D>> get(P const &) { return {}; }
};
struct Prim {
    typedef injection::PrimaryInjectionProcess P; typedef distributions::PrimaryInjectionDistribution D; static constexpr bool inj = true;
    static std::shared_ptr<D> make(int v) { return v <= 2 ? std::static_pointer_cast<D>(std::make_shared<PrimA>(v)) : std::static_pointer_cast<D>(std::make_shared<PrimB>(v - 2)); }
    static void add(P & p, std::shared_ptr<D> d) { p.AddPrimaryInjectionDistribution(d); }
    static void set(P & p, std::vector<std::shared_ptr<D>> const & d) { p.SetPrimaryInjectionDistributions(d); }
    static std::vector<std::shared_ptr<D>> get(P const & p) { return p.GetPrimaryInjectionDistributions(); }
};
struct Sec {
    typedef injection::SecondaryInjectionProcess P; typedef distributions::SecondaryInjectionDistribution D; static constexpr bool inj = true;
    static std::shared_ptr<D> make(int v) { return v <= 2 ? std::static_pointer_cast<D>(std::make_shared<SecA>(v)) : std::static_pointer_cast<D>(std::make_shared<SecB>(v - 2)); }
    static void add(P & p, std::shared_ptr<D> d) { p.AddSecondaryInjectionDistribution(d); }
    static void set(P & p, std::vector<std::shared_ptr<D>> const & d) { p.SetSecondaryInjectionDistributions(d); }
    static std::vector<std::shared_ptr<D>> get(P const & p) { return p.GetSecondaryInjectionDistributions(); }
};
template<class K> static void history(Script & S, JV const & v, std::string const & kind) {
    typedef typename K::P P; typedef typename K::D D;
    std::vector<std::shared_ptr<P>> p = { std::make_shared<P>(TY[1], nullptr), std::make_shared<P>(TY[2], nullptr) };
    std::map<int, std::shared_ptr<D>> keep; // one object per value, for operations that reuse the same object
    std::map<void *, int> colls; std::vector<std::shared_ptr<interactions::InteractionCollection>> held;
    auto obj = [&](int val, bool same) { if(!same) return K::make(val); auto & k = keep[val]; if(!k) k = K::make(val); return k; };
    auto view = [&](Obj & o) {
        std::string s = "[";
        for(int k = 0; k < 2; ++k) {
            auto inj = K::get(*p[k]); auto const & ph = p[k]->GetPhysicalDistributions();
            bool mirror = true; if(K::inj) { mirror = inj.size() == ph.size(); for(size_t j = 0; mirror && j < ph.size(); ++j) mirror = static_cast<WD *>(inj[j].get()) == ph[j].get(); }
            auto c = p[k]->GetInteractions(); int id = 0; if(c) { auto & r = colls[c.get()]; if(!r) { r = colls.size(); held.push_back(c); } id = r; }
            s += (k ? "," : "") + Obj().raw("inj", arr(inj, [](auto const & d){ return std::to_string(value(static_cast<WD const *>(d.get()))); })).raw("phys", arr(ph, [](auto const & d){ return std::to_string(value(d.get())); }))
                .b("mirror", mirror).i("type", tcode(p[k]->GetPrimaryType())).i("coll", id).i("colltype", c ? tcode(c->GetPrimaryType()) : 0).done();
        }
        o.raw("p", s + "]").b("eq", *p[0] == *p[1]).b("head", p[0]->MatchesHead(p[1]));
    };
    { Obj o; o.str("op", "new").str("kind", kind); view(o); S.emit(o.done()); }
    for(auto const & x : ga(v, "ops").GetArray()) {
        std::string op = gs(x, "op"); int k = gi(x, "k") - 1, val = gi(x, "v"); bool same = gb(x, "same"), threw = false;
        std::vector<int> sv; for(auto const & y : ga(x, "s").GetArray()) sv.push_back(y.GetInt());
        try {
            if(op == "add") K::add(*p[k], obj(val, same));
            else if(op == "addphys") p[k]->AddPhysicalDistribution(std::static_pointer_cast<WD>(obj(val, same)));
            else if(op == "set") { std::vector<std::shared_ptr<D>> ds; for(int y : sv) ds.push_back(obj(y, same)); K::set(*p[k], ds); }
            else if(op == "copy") p[1-k] = std::make_shared<P>(*p[k]);
            else if(op == "assign") *p[1-k] = *p[k];
            else if(op == "moveassign") { P tmp(*p[k]); P tmp2(std::move(tmp)); *p[1-k] = std::move(tmp2); }
            else if(op == "type") p[k]->SetPrimaryType(TY[val]);
            else if(op == "coll") p[k]->SetInteractions(std::make_shared<interactions::InteractionCollection>(TY[val], std::vector<std::shared_ptr<interactions::Decay>>()));
            else if(op == "reload") {
                std::stringstream ss; std::shared_ptr<P> q2;
                if(same) { { cereal::BinaryOutputArchive a(ss); a(p[k]); } cereal::BinaryInputArchive b(ss); b(q2); }
                else { { cereal::JSONOutputArchive a(ss); a(p[k]); } cereal::JSONInputArchive b(ss); b(q2); }
                p[k] = q2;
            }
        } catch(std::runtime_error const & e) { threw = true; }
        Obj o; o.str("op", op).i("k", k + 1).i("v", val).b("same", same).raw("s", arr(sv, [](int y){ return std::to_string(y); })).b("threw", threw); view(o); S.emit(o.done());
    }
}
// ---- interaction collections -------------------------------------------------------------------
static const ParticleType TG[] = {ParticleType::unknown, ParticleType::PPlus, ParticleType::Neutron, ParticleType::EMinus};
static int gcode(ParticleType t) { for(int k = 0; k < 4; ++k) if(TG[k] == t) return k; return 99; }
static std::vector<ParticleType> FS(int f) { return f == 1 ? std::vector<ParticleType>{ParticleType::MuMinus, ParticleType::Hadrons} : std::vector<ParticleType>{ParticleType::NuMu, ParticleType::Gamma}; }
struct Channel { int t, f, s; template<class A> void serialize(A & a) { a(t, f, s); } };
static bool rec_ok = true; static double want_x = 0;
static void look(InteractionRecord const & r) { rec_ok = rec_ok && r.interaction_vertex[0] == want_x && r.primary_mass == 3; }
class FXS : public interactions::CrossSection {
public: int id = 0; std::vector<Channel> ch;
    bool equal(interactions::CrossSection const & o) const override { auto x = dynamic_cast<FXS const *>(&o); return x && x->id == id; }
    double TotalCrossSection(InteractionRecord const & r) const override { look(r); double t = 0; for(auto const & c : ch) if(TG[c.t] == r.signature.target_type && FS(c.f) == r.signature.secondary_types) t += c.s; return t * r.primary_momentum[0]; }
    double DifferentialCrossSection(InteractionRecord const & r) const override { return TotalCrossSection(r); }
    double InteractionThreshold(InteractionRecord const &) const override { return 0; }
    void SampleFinalState(CrossSectionDistributionRecord &, std::shared_ptr<utilities::SIREN_random>) const override {}
    std::vector<ParticleType> GetPossibleTargets() const override { std::vector<ParticleType> v; for(auto const & c : ch) if(std::find(v.begin(), v.end(), TG[c.t]) == v.end()) v.push_back(TG[c.t]); return v; }
    std::vector<ParticleType> GetPossibleTargetsFromPrimary(ParticleType) const override { return GetPossibleTargets(); }
    std::vector<ParticleType> GetPossiblePrimaries() const override { return {ParticleType::NuMu}; }
    std::vector<InteractionSignature> GetPossibleSignatures() const override { std::vector<InteractionSignature> v; for(auto const & c : ch) { InteractionSignature s; s.primary_type = ParticleType::NuMu; s.target_type = TG[c.t]; s.secondary_types = FS(c.f); v.push_back(s); } return v; }
    std::vector<InteractionSignature> GetPossibleSignaturesFromParents(ParticleType p, ParticleType t) const override { std::vector<InteractionSignature> v; for(auto const & s : GetPossibleSignatures()) if(s.primary_type == p && s.target_type == t) v.push_back(s); return v; }
    double FinalStateProbability(InteractionRecord const &) const override { return 1; }
    std::vector<std::string> DensityVariables() const override { return {}; }
    template<class A> void save(A & a, std::uint32_t const) const { a(id, ch); a(cereal::base_class<interactions::CrossSection>(this)); }
    template<class A> void load(A & a, std::uint32_t const) { a(id, ch); a(cereal::base_class<interactions::CrossSection>(this)); }
};
class FDec : public interactions::Decay {
public: int id = 0; std::vector<Channel> ch;
    bool equal(interactions::Decay const & o) const override { auto x = dynamic_cast<FDec const *>(&o); return x && x->id == id; }
    double TotalDecayWidthAllFinalStates(InteractionRecord const & r) const override { look(r); double t = 0; for(auto const & c : ch) t += c.s; return t; }
    double TotalDecayWidth(ParticleType) const override { double t = 0; for(auto const & c : ch) t += c.s; return t; }
    double TotalDecayWidth(InteractionRecord const & r) const override { look(r); double t = 0; for(auto const & c : ch) if(FS(c.f) == r.signature.secondary_types) t += c.s; return t; }
    double DifferentialDecayWidth(InteractionRecord const & r) const override { return TotalDecayWidth(r); }
    void SampleFinalState(CrossSectionDistributionRecord &, std::shared_ptr<utilities::SIREN_random>) const override {}
    std::vector<InteractionSignature> GetPossibleSignatures() const override { std::vector<InteractionSignature> v; for(auto const & c : ch) { InteractionSignature s; s.primary_type = ParticleType::NuMu; s.target_type = ParticleType::Decay; s.secondary_types = FS(c.f); v.push_back(s); } return v; }
    std::vector<InteractionSignature> GetPossibleSignaturesFromParent(ParticleType p) const override { return p == ParticleType::NuMu ? GetPossibleSignatures() : std::vector<InteractionSignature>(); }
    double FinalStateProbability(InteractionRecord const &) const override { return 1; }
    std::vector<std::string> DensityVariables() const override { return {}; }
    template<class A> void save(A & a, std::uint32_t const) const { a(id, ch); a(cereal::base_class<interactions::Decay>(this)); }
    template<class A> void load(A & a, std::uint32_t const) { a(id, ch); a(cereal::base_class<interactions::Decay>(this)); }
};
CEREAL_CLASS_VERSION(FXS, 0); CEREAL_REGISTER_TYPE(FXS); CEREAL_REGISTER_POLYMORPHIC_RELATION(siren::interactions::CrossSection, FXS);
CEREAL_CLASS_VERSION(FDec, 0); CEREAL_REGISTER_TYPE(FDec); CEREAL_REGISTER_POLYMORPHIC_RELATION(siren::interactions::Decay, FDec);

static void collection(Script & S, JV const & v) {
    using namespace interactions;
    std::vector<std::shared_ptr<CrossSection>> xs; std::vector<std::shared_ptr<Decay>> ds; std::vector<std::shared_ptr<Interaction>> all;
    int n = 0; for(auto const & x : ga(v, "xsdata").GetArray()) { auto p = std::make_shared<FXS>(); p->id = ++n; for(auto const & c : x.GetArray()) p->ch.push_back({c[0].GetInt(), c[1].GetInt(), c[2].GetInt()}); xs.push_back(p); }
    n = 0; for(auto const & x : ga(v, "decdata").GetArray()) { auto p = std::make_shared<FDec>(); p->id = ++n; for(auto const & c : x.GetArray()) p->ch.push_back({0, c[0].GetInt(), c[1].GetInt()}); ds.push_back(p); }
    std::string how = gs(v, "how"); std::shared_ptr<InteractionCollection> c;
    for(size_t a = 0, b = 0; a < xs.size() || b < ds.size(); ) { if(b < ds.size()) all.push_back(ds[b++]); if(a < xs.size()) all.push_back(xs[a++]); }
    if(how == "mixed") c = std::make_shared<InteractionCollection>(ParticleType::NuMu, all);
    else if(ds.empty() && how == "only") c = std::make_shared<InteractionCollection>(ParticleType::NuMu, xs);
    else if(xs.empty() && how == "only") c = std::make_shared<InteractionCollection>(ParticleType::NuMu, ds);
    else c = std::make_shared<InteractionCollection>(ParticleType::NuMu, xs, ds);
    if(how == "reload" || how == "json") {
        std::stringstream ss; std::shared_ptr<InteractionCollection> c2;
        if(how == "reload") { { cereal::BinaryOutputArchive a(ss); a(c); } cereal::BinaryInputArchive b(ss); b(c2); }
        else { { cereal::JSONOutputArchive a(ss); a(c); } cereal::JSONInputArchive b(ss); b(c2); }
        c = c2;
    }
    InteractionRecord r; int f = gi(v, "f"), e = gi(v, "e"), p = gi(v, "p"), m = 3; want_x = 17; rec_ok = true;
    r.signature.primary_type = ParticleType::NuMu; r.signature.target_type = TG[gi(v, "rt")]; r.signature.secondary_types = FS(f); r.primary_mass = m; r.primary_momentum = {(double) e, p * 2./3, p * 1./3, p * 2./3}; r.interaction_vertex = {17, 0, 0}; r.interaction_time = 4.5;
    InteractionRecord const before = r; auto const & rr = r;
    auto id = [](std::shared_ptr<CrossSection> const & x) { return std::to_string(std::dynamic_pointer_cast<FXS>(x)->id); };
    auto in = [](auto k) { return std::to_string(k); }; auto fxs = [](double x) { return std::to_string(fx(x, 1)); };
    Obj o; o.i("f", f).i("e", e).i("p", p).i("m", m).str("how", how);
    for(char const * k : {"xs", "dec"}) { o.raw(k, arr(ga(v, k).GetArray(), [](auto const & y){ return std::to_string(y.GetInt()); })); }
    std::vector<int> tk, kk, tt, at; std::vector<double> tv, av; std::string by = "[", fo = "[";
    for(auto t : c->TargetTypes()) tk.push_back(gcode(t)); for(auto const & kv : c->GetCrossSectionsByTarget()) kk.push_back(gcode(kv.first));
    std::sort(tk.begin(), tk.end()); std::sort(kk.begin(), kk.end());
    for(int t = 1; t <= 3; ++t) { auto const & m2 = c->GetCrossSectionsByTarget(); auto it = m2.find(TG[t]); by += (t > 1 ? "," : "") + (it == m2.end() ? std::string("[]") : arr(it->second, id)); fo += (t > 1 ? "," : "") + arr(c->GetCrossSectionsForTarget(TG[t]), id); }
    auto mt = c->TotalCrossSectionByTarget(rr), ma = c->TotalCrossSectionByTargetAllFinalStates(rr);
    for(int t = 1; t <= 3; ++t) { if(mt.count(TG[t])) { tt.push_back(t); tv.push_back(mt[TG[t]]); } if(ma.count(TG[t])) { at.push_back(t); av.push_back(ma[TG[t]]); } }
    if(mt.size() != tt.size()) tt.push_back(99); if(ma.size() != at.size()) at.push_back(99);
    bool xo = true, dor = true; for(size_t k = 0; k < c->GetCrossSections().size(); ++k) xo = xo && std::dynamic_pointer_cast<FXS>(c->GetCrossSections()[k])->id == (int) k + 1; for(size_t k = 0; k < c->GetDecays().size(); ++k) dor = dor && std::dynamic_pointer_cast<FDec>(c->GetDecays()[k])->id == (int) k + 1;
    o.raw("targets", arr(tk, in)).raw("keys", arr(kk, in)).raw("by", by + "]").raw("fort", fo + "]").b("none", c->GetCrossSectionsForTarget(ParticleType::PiPlus).empty());
    o.i("nx", c->GetCrossSections().size()).b("hasx", c->HasCrossSections()).b("xorder", xo).i("nd", c->GetDecays().size()).b("hasd", c->HasDecays()).b("dorder", dor);
    o.raw("tkeys", arr(tt, in)).raw("akeys", arr(at, in)).raw("tot", arr(tv, fxs)).raw("all", arr(av, fxs));
    double hbc = utilities::Constants::hbarc;
    double w = c->TotalDecayWidthAllFinalStates(rr), L = c->TotalDecayLengthAllFinalStates(rr);
    o.raw("width", fxs(w)).i("length", fx(L / hbc, 1e6));
    o.raw("single", arr(c->GetDecays(), [&](auto const & d){ return std::to_string(fx(d->TotalDecayLengthAllFinalStates(rr) / hbc, 1e6)); })).raw("singlef", arr(c->GetDecays(), [&](auto const & d){ return std::to_string(fx(d->TotalDecayLength(rr) / hbc, 1e6)); }));
    InteractionRecord other = r; other.signature.primary_type = ParticleType::NuE; bool match = c->MatchesPrimary(r) && !c->MatchesPrimary(other) && c->GetPrimaryType() == ParticleType::NuMu;
    bool prim = true; { InteractionCollection c3 = *c; c3.SetPrimaryType(ParticleType::NuE); prim = c3.GetPrimaryType() == ParticleType::NuE && c3.MatchesPrimary(other) && !c3.MatchesPrimary(r) && c->GetPrimaryType() == ParticleType::NuMu && (*c == *c) && !(c3 == *c); c3.SetPrimaryType(ParticleType::NuMu); prim = prim && c3 == *c; }
    bool dt = true; { CrossSectionDistributionRecord cr(r); FXS a; FDec b; dt = a.SampleInteractionTime(cr, nullptr) == 4.5 && b.SampleDecayTime(cr, nullptr) == 4.5; cr.SetInteractionTime(-2); dt = dt && a.SampleInteractionTime(cr, nullptr) == -2 && b.SampleDecayTime(cr, nullptr) == -2; }
    o.b("same", rec_ok && r == before).b("primary", prim).b("match", match).b("dtime", dt);
    S.emit(o.done());
}
int main(int argc, char ** argv) {
    Script S(argc, argv);
    for(auto const & l : S.lines) {
        rj::Document d; parse(d, l);
        std::string kind = gs(d, "kind");
        if(kind == "coll") collection(S, d); else if(kind == "phys") history<Phys>(S, d, kind); else if(kind == "prim") history<Prim>(S, d, kind); else history<Sec>(S, d, kind);
    }
}
