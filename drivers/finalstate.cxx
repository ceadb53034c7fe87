// Drives the final-state record and the hand-off to secondary interactions (E04).
// SRC: projects/dataclasses/ projects/serialization/ projects/math/private/(Vector3D|Matrix3D|Quaternion|EulerAngles|Euler) projects/utilities/private/(Errors|Random|StringManip)
#include "vdrv.h"
#include "SIREN/dataclasses/InteractionRecord.h"
#include <set>
using namespace siren::dataclasses;
using namespace vd;
typedef std::array<double,3> V3; typedef std::array<double,4> V4;
static const double K = 1000, C = 0.299792458;
static std::string l(double x) { return std::to_string(fx(x, K)); }
static std::string la(std::vector<double> const & v) { return arr(v, [](double x){ return l(x); }); }

int main(int argc, char ** argv) {
    Script S(argc, argv);
    for(auto const & line : S.lines) {
        rj::Document d; parse(d, line);
        bool preset = gb(d, "preset"); // identities already assigned in the input record
        bool rest = gb(d, "rest");     // second outgoing particle at rest
        S.emit(Obj().str("op", "new").done());
        InteractionRecord rec; rec.signature.primary_type = ParticleType::NuMu; rec.signature.target_type = ParticleType::PPlus;
        rec.signature.secondary_types = {ParticleType::MuMinus, ParticleType::Hadrons};
        rec.primary_id = ParticleID::GenerateID(); rec.primary_initial_position = {1, 2, 3}; rec.primary_initial_time = 1; rec.primary_mass = 3; rec.primary_momentum = {5, 0, 0, 4}; rec.primary_helicity = -1;
        rec.interaction_vertex = {7, -2, 12}; rec.interaction_time = 3; rec.target_mass = 11; rec.interaction_parameters = {{"z", 4}};
        long givena = -999; if(gb(d, "givena")) { rec.interaction_parameters["a"] = 2; givena = 2; }
        if(preset) { rec.target_id = ParticleID(99, 1); rec.secondary_ids = {ParticleID(99, 2), ParticleID(99, 3)}; }
        if(gb(d, "shrink")) { rec.secondary_masses = {1, 1, 1, 1}; rec.secondary_momenta.resize(4); rec.secondary_helicities.resize(4); rec.secondary_times.resize(5); }
        InteractionRecord const before = rec;
        InteractionRecord out = rec;
        {
            CrossSectionDistributionRecord x(rec);
            std::vector<V4> mom = {{15, 8, 4, 8}, rest ? V4{20, 0, 0, 0} : V4{29, -21, 0, 0}};
            std::vector<double> mass = {9, 20}, hel = {-1, 1};
            for(int k = 0; k < 2; ++k) { auto & p = x.GetSecondaryParticleRecord(k); p.SetFourMomentum(mom[k]); p.SetMass(mass[k]); p.SetHelicity(hel[k]); }
            for(auto const & op : ga(d, "ops").GetArray()) {
                std::string n = gs(op, "op"); double t = gd(op, "t"); long k = gi(op, "k");
                if(n == "vtime") x.SetInteractionTime(t);
                else if(n == "stime") x.GetSecondaryParticleRecord(k - 1).SetTime(t);
                else if(n == "tmass") { if((long)t % 2) x.SetTargetMass(t); else x.GetTargetMass() = t; }
                else if(n == "thel") { if((long)t % 2) x.SetTargetHelicity(t); else x.GetTargetHelicity() = t; }
                else if(n == "pa") x.SetInteractionParameter("a", t);
                else if(n == "params") x.SetInteractionParameters({{"b", t}});
                std::vector<double> st; for(auto const & p : const_cast<CrossSectionDistributionRecord const &>(x).GetSecondaryParticleRecords()) st.push_back(p.GetTime());
                Obj o; o.str("op", n).i("k", k).i("t", (long) t).raw("vt", l(x.GetInteractionTime())).raw("st", la(st)).raw("tmass", l(const_cast<CrossSectionDistributionRecord const &>(x).GetTargetMass())).raw("thel", l(x.target_helicity));
                S.emit(o.done());
            }
            // reading views of the record do not change it, and finishing into the same or another record is the same
            InteractionRecord twice = rec;
            if(gb(d, "self")) { x.Finalize(rec); out = rec; } else x.Finalize(out);
            x.Finalize(twice); bool same = twice == out;
            Obj f; f.raw("vt", l(out.interaction_time)).raw("st", la(out.secondary_times)).raw("tmass", l(out.target_mass)).raw("thel", l(out.target_helicity));
            auto par = [&](char const * n) { return out.interaction_parameters.count(n) ? l(out.interaction_parameters[n]) : l(-999); };
            f.raw("pa", par("a")).raw("pb", par("b")).raw("pz", par("z"));
            f.raw("sizes", la({out.secondary_ids.size()/K, out.secondary_masses.size()/K, out.secondary_momenta.size()/K, out.secondary_helicities.size()/K, out.secondary_times.size()/K}));
            bool kin = same && out.secondary_masses == mass && out.secondary_momenta == mom && out.secondary_helicities == hel;
            std::set<ParticleID> ids(out.secondary_ids.begin(), out.secondary_ids.end()); ids.insert(out.target_id); ids.insert(out.primary_id);
            bool isset = out.target_id.IsSet(); for(auto const & y : out.secondary_ids) isset = isset && y.IsSet();
            f.b("kin", kin).b("idsunique", isset && ids.size() == 2 + out.secondary_ids.size());
            f.b("idskept", !preset || (out.target_id == before.target_id && out.secondary_ids == before.secondary_ids));
            f.b("primary", out.primary_id == before.primary_id && out.primary_initial_position == before.primary_initial_position && out.primary_initial_time == before.primary_initial_time && out.primary_mass == before.primary_mass && out.primary_momentum == before.primary_momentum && out.primary_helicity == before.primary_helicity && out.interaction_vertex == before.interaction_vertex);
            f.b("sig", out.signature == before.signature);
            S.emit(Obj().str("op", "final").i("givena", givena).raw("f", f.done()).done());
        }
        // hand-off of each outgoing particle
        struct H { V3 dirn; double dn, L, over; };
        for(int k = 0; k < 2; ++k) for(int variant = 0; variant < 4; ++variant) {
            InteractionRecord parent = out; double want = out.secondary_times.at(k);
            bool moving = !(rest && k == 1);
            if(variant == 2) { parent.secondary_times.clear(); want = parent.interaction_time; }      // archives without secondary times
            if(variant == 3) parent.secondary_ids[k] = ParticleID();                                  // no identity yet
            double L = (variant == 1) ? 0 : 6; static int nover = 0; static const double overs[] = {21, 0, -7}; double over = (variant == 3) ? overs[nover++ % 3] : -999;
            double p = k == 0 ? 12 : (moving ? 21 : 0), E = parent.secondary_momenta[k][0];
            V3 wd = k == 0 ? V3{2./3, 1./3, 2./3} : (moving ? V3{-1, 0, 0} : V3{0, 0, 0});
            Obj o; o.str("op", "hand").i("k", k).i("variant", variant).i("want", (long) want);
            bool threw = false, nolen = true; std::string what;
            Obj b;
            try {
                SecondaryDistributionRecord r(parent, k);
                { try { r.GetLength(); nolen = false; } catch(std::runtime_error const &) {}
                  SecondaryDistributionRecord r2(parent, k); r2.SetInteractionTime(9); InteractionRecord x; try { r2.Finalize(x); nolen = false; } catch(std::runtime_error const &) {} }
                r.SetLength(L); if(over != -999) r.SetInteractionTime(over);
                InteractionRecord fin; r.Finalize(fin);
                InteractionRecord viaset = SecondaryDistributionRecord::CreateSecondaryRecord(parent, k);
                o.b("same", r.type == parent.signature.secondary_types[k] && r.mass == parent.secondary_masses[k] && r.momentum == parent.secondary_momenta[k] && r.helicity == parent.secondary_helicities[k]);
                o.b("pos", r.initial_position == parent.interaction_vertex).b("index", (int) r.GetSecondaryIndex() == k);
                o.b("id", r.id.IsSet() && (variant == 3 || (r.id == parent.secondary_ids[k] && viaset.primary_id == r.id)) && fin.primary_id == r.id);
                o.raw("t0", l(r.initial_time)).raw("dir", la({r.direction[0], r.direction[1], r.direction[2]})).raw("wantdir", la({wd[0], wd[1], wd[2]}));
                o.raw("len", l(r.GetLength())).i("setlen", (long) L).i("over", (long) over).raw("time", l(r.GetInteractionTime()));
                o.raw("flight", l((r.GetInteractionTime() - r.initial_time) * C)).raw("wantflight", l(moving ? L * E / p : 0));
                o.raw("vtx", la({fin.interaction_vertex[0], fin.interaction_vertex[1], fin.interaction_vertex[2]})).raw("wantvtx", la({parent.interaction_vertex[0] + L*wd[0], parent.interaction_vertex[1] + L*wd[1], parent.interaction_vertex[2] + L*wd[2]}));
                bool final = fin.signature.primary_type == parent.signature.secondary_types[k] && fin.primary_initial_position == parent.interaction_vertex && fin.primary_initial_time == r.initial_time && fin.primary_mass == parent.secondary_masses[k] && fin.primary_momentum == parent.secondary_momenta[k] && fin.primary_helicity == parent.secondary_helicities[k] && fin.interaction_time == r.GetInteractionTime();
                final = final && viaset.primary_momentum == fin.primary_momentum && viaset.primary_mass == fin.primary_mass && viaset.primary_initial_position == fin.primary_initial_position && viaset.primary_initial_time == fin.primary_initial_time && viaset.signature.primary_type == fin.signature.primary_type && viaset.primary_helicity == fin.primary_helicity;
                // the other way of starting a secondary interaction: from a record that already describes it
                InteractionRecord direct = viaset; if(variant == 3) direct.primary_id = ParticleID();
                SecondaryDistributionRecord r3(direct); r3.SetLength(L); InteractionRecord fin3; r3.Finalize(fin3);
                final = final && r3.id.IsSet() && direct.primary_id == r3.id && fin3.primary_id == r3.id && (over != -999 || fin3.interaction_time == fin.interaction_time) && fin3.interaction_vertex == fin.interaction_vertex && fin3.primary_momentum == fin.primary_momentum;
                o.b("final", final);
            } catch(std::exception const & e) { threw = true; what = e.what(); }
            o.b("threw", threw).str("what", what).b("nolen", nolen);
            S.emit(o.done());
        }
    }
}
