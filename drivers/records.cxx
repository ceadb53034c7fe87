// Drives the primary and outgoing particle records (E03) through every subset of set quantities.
// SRC: projects/dataclasses/ projects/serialization/ projects/math/private/(Vector3D|Matrix3D|Quaternion|EulerAngles|Euler) projects/utilities/private/(Errors|Random|StringManip)
#include "vdrv.h"
#include "SIREN/dataclasses/InteractionRecord.h"
using namespace siren::dataclasses;
using namespace vd;
typedef std::array<double,3> V3; typedef std::array<double,4> V4;
static const double FX = 1e6;
static const double C = 0.299792458; // speed of light in m/ns, the library's units
static std::string v1(double x) { return "[" + std::to_string(fx(x, FX)) + "]"; }
template<class A> static std::string vn(A const & a) { return arr(a, [](double x){ return std::to_string(fx(x, FX)); }); }
static V3 g3(JV const & v, char const * k) { auto x = gdv(v, k); return {x.at(0), x.at(1), x.at(2)}; }
template<class F> static std::string get(F f) {
    try { return Obj().b("threw", false).raw("val", f()).done(); }
    catch(std::runtime_error const &) { return Obj().b("threw", true).raw("val", "[]").done(); }
}
struct Vals { double mass, energy, ke, len, vdist, idist, t0, hel; V3 mom, dir, x0, vtx, poca; };
static Vals vals(JV const & v) {
    Vals r; r.mass = gd(v, "mass"); r.energy = gd(v, "energy"); r.ke = gd(v, "ke"); r.len = gd(v, "len"); r.vdist = gd(v, "vdist"); r.idist = gd(v, "idist"); r.t0 = gd(v, "t0"); r.hel = gd(v, "hel");
    r.mom = g3(v, "mom"); r.dir = g3(v, "dir"); double dn = gd(v, "dn"); for(auto & x : r.dir) x /= dn; r.x0 = g3(v, "x0"); r.vtx = g3(v, "vtx"); r.poca = g3(v, "poca");
    return r;
}
template<class R> static void setk(R & r, std::string const & q, Vals const & v) {
    if(q == "mass") r.SetMass(v.mass); else if(q == "energy") r.SetEnergy(v.energy); else if(q == "ke") r.SetKineticEnergy(v.ke);
    else if(q == "dir") r.SetDirection(v.dir); else if(q == "mom") r.SetThreeMomentum(v.mom);
    else if(q == "four") r.SetFourMomentum({v.energy, v.mom[0], v.mom[1], v.mom[2]});
}
static void setp(PrimaryDistributionRecord & r, std::string const & q, Vals const & v) {
    setk(r, q, v);
    if(q == "len") r.SetLength(v.len); else if(q == "x0") r.SetInitialPosition(v.x0); else if(q == "vtx") r.SetInteractionVertex(v.vtx);
    else if(q == "poca") r.SetPointOfClosestApproach(v.poca); else if(q == "vdist") r.SetVertexDistanceFromClosestApproach(v.vdist); else if(q == "idist") r.SetInitialDistanceFromClosestApproach(v.idist);
    else if(q == "particle") { Particle p(r.GetID(), r.GetType(), v.mass, {v.energy, v.mom[0], v.mom[1], v.mom[2]}, v.x0, v.len, v.hel); r.SetParticle(p); }
}
template<class R> static std::string queryk(R const & r, std::string const & order, Obj & o) {
    for(char c : order) switch(c) {
        case 'm': o.raw("mass", get([&]{ return v1(r.GetMass()); })); break;
        case 'e': o.raw("energy", get([&]{ return v1(r.GetEnergy()); })); break;
        case 'k': o.raw("ke", get([&]{ return v1(r.GetKineticEnergy()); })); break;
        case 'd': o.raw("dir", get([&]{ return vn(r.GetDirection()); })); break;
        case 'p': o.raw("mom", get([&]{ return vn(r.GetThreeMomentum()); })); break;
        case 'f': o.raw("four", get([&]{ return vn(r.GetFourMomentum()); })); break;
    }
    return "";
}
static std::string query(PrimaryDistributionRecord const & r, std::string const & order) {
    Obj o;
    for(char c : order) switch(c) {
        case 'l': o.raw("len", get([&]{ return v1(r.GetLength()); })); break;
        case 'x': o.raw("x0", get([&]{ return vn(r.GetInitialPosition()); })); break;
        case 'v': o.raw("vtx", get([&]{ return vn(r.GetInteractionVertex()); })); break;
        case 'a': o.raw("poca", get([&]{ return vn(r.GetPointOfClosestApproach()); })); break;
        case 'V': o.raw("vdist", get([&]{ return v1(r.GetVertexDistanceFromClosestApproach()); })); break;
        case 'I': o.raw("idist", get([&]{ return v1(r.GetInitialDistanceFromClosestApproach()); })); break;
        case 't': o.raw("time", get([&]{ return v1((r.GetInteractionTime() - r.GetInitialTime()) * C); })); break;
        default: queryk(r, std::string(1, c), o);
    }
    return o.done();
}
static std::string params(std::map<std::string,double> const & m) { std::string s; for(auto const & kv : m) s += kv.first + "=" + hex(kv.second) + ";"; return s; }
static const double SENT = -987654.25;

int main(int argc, char ** argv) {
    Script S(argc, argv);
    std::map<long, Vals> scn;
    for(auto const & line : S.lines) {
        rj::Document d; parse(d, line);
        if(d.HasMember("vals")) { scn[gi(d, "scn")] = vals(d["vals"]); continue; }
        std::string op = gs(d, "op"), order = gs(d, "order");
        long k = gi(d, "scn"); Vals const & v = scn.at(k);
        Obj o; o.str("op", op).i("scn", k);
        // the quantities that count as set (setting a four momentum sets energy and momentum, etc.)
        std::string sraw = arr(ga(d, "sets").GetArray(), [](JV const & x){ return q(x.GetString()); });
        o.raw("sets", sraw);
        if(op == "primary") {
            PrimaryDistributionRecord r(ParticleType::NuMu);
            // earlier values, all overwritten below
            if(d.HasMember("pre")) { Vals const & w = scn.at(gi(d, "prescn")); for(auto const & x : ga(d, "pre").GetArray()) setp(r, x.GetString(), w); r.SetHelicity(w.hel); r.SetInitialTime(w.t0 + 5); query(r, order); }
            for(auto const & x : ga(d, "calls").GetArray()) setp(r, x.GetString(), v);
            r.SetHelicity(v.hel); r.SetInitialTime(v.t0); r.SetInteractionParameter("a", 0.25); r.SetInteractionParameter("b", v.len);
            o.raw("q", query(r, order));
            { // Finalize
                InteractionRecord rec; rec.interaction_parameters["z"] = 3; rec.interaction_parameters["a"] = 9; bool threw = false;
                try { r.Finalize(rec); } catch(std::runtime_error const &) { threw = true; }
                Obj f; f.b("threw", threw).raw("x0", vn(rec.primary_initial_position)).raw("vtx", vn(rec.interaction_vertex)).raw("mass", v1(rec.primary_mass)).raw("four", vn(rec.primary_momentum));
                f.raw("time", v1((rec.interaction_time - rec.primary_initial_time) * C)).i("t0", fx(rec.primary_initial_time, FX)).i("hel", fx(rec.primary_helicity, FX));
                f.b("idok", rec.primary_id == r.GetID() && rec.primary_id.IsSet()).b("typeok", rec.signature.primary_type == ParticleType::NuMu).str("params", params(rec.interaction_parameters));
                o.raw("fin", f.done());
                o.str("params", params({{"a", 0.25}, {"b", v.len}, {"z", 3}}));
            }
            { // FinalizeAvailable
                InteractionRecord rec; bool threw = false;
                rec.primary_initial_position = {SENT, SENT, SENT}; rec.interaction_vertex = rec.primary_initial_position; rec.primary_mass = SENT; rec.primary_momentum = {SENT, SENT, SENT, SENT}; rec.interaction_time = SENT;
                try { r.FinalizeAvailable(rec); } catch(...) { threw = true; }
                auto s1 = [](double x) { return x == SENT ? std::string("[]") : v1(x); };
                auto s3 = [](double a, double b, double c) { return (a == SENT && b == SENT && c == SENT) ? std::string("[]") : vn(V3{a, b, c}); };
                Obj f; f.b("threw", threw).raw("x0", s3(rec.primary_initial_position[0], rec.primary_initial_position[1], rec.primary_initial_position[2])).raw("vtx", s3(rec.interaction_vertex[0], rec.interaction_vertex[1], rec.interaction_vertex[2]));
                f.raw("mass", s1(rec.primary_mass)).raw("energy", s1(rec.primary_momentum[0])).raw("mom", s3(rec.primary_momentum[1], rec.primary_momentum[2], rec.primary_momentum[3]));
                f.raw("time", rec.interaction_time == SENT ? "[]" : v1((rec.interaction_time - rec.primary_initial_time) * C));
                f.i("t0", fx(rec.primary_initial_time, FX)).i("hel", fx(rec.primary_helicity, FX)).b("idok", rec.primary_id == r.GetID()).b("typeok", rec.signature.primary_type == ParticleType::NuMu);
                o.raw("avail", f.done());
            }
            { Particle p = r.GetParticle(); Obj f; f.raw("mass", v1(p.mass)).raw("four", vn(p.momentum)).raw("x0", vn(p.position)).raw("len", v1(p.length)).i("hel", fx(p.helicity, FX)).b("idok", p.id == r.GetID() && p.type == r.GetType()); o.raw("part", f.done()); }
            { std::string rev(order.rbegin(), order.rend()); o.raw("q2", query(r, rev)); }
            o.i("hel", fx(r.GetHelicity(), FX)).i("t0", fx(r.GetInitialTime(), FX));
            { // particles with another identity or type are refused
                bool a = false, b = false; Particle p = r.GetParticle(); p.id = ParticleID::GenerateID(); try { r.SetParticle(p); } catch(std::runtime_error const &) { a = true; }
                p = r.GetParticle(); p.type = ParticleType::NuE; try { r.SetParticle(p); } catch(std::runtime_error const &) { b = true; }
                o.b("foreign", a && b);
            }
            r.SetInteractionTime(77); o.i("overtime", fx(r.GetInteractionTime(), FX));
        } else {
            InteractionRecord rec; rec.signature.primary_type = ParticleType::NuMu; rec.signature.target_type = ParticleType::PPlus;
            rec.signature.secondary_types = {ParticleType::MuMinus, ParticleType::Hadrons}; rec.interaction_vertex = v.x0; rec.interaction_time = v.t0;
            SecondaryParticleRecord r(rec, 1);
            if(d.HasMember("pre")) { Vals const & w = scn.at(gi(d, "prescn")); for(auto const & x : ga(d, "pre").GetArray()) setk(r, x.GetString(), w); r.SetHelicity(w.hel); Obj tmp; queryk(r, order, tmp); }
            for(auto const & x : ga(d, "calls").GetArray()) {
                if(std::string(x.GetString()) == "particle") { Particle p(r.GetID(), r.GetType(), v.mass, {v.energy, v.mom[0], v.mom[1], v.mom[2]}, v.x0, 0, v.hel); r.SetParticle(p); }
                else setk(r, x.GetString(), v);
            }
            r.SetHelicity(v.hel);
            { Obj f; queryk(r, order, f); o.raw("q", f.done()); }
            { Particle p = r.GetParticle(); Obj f; f.raw("mass", v1(p.mass)).raw("four", vn(p.momentum)).raw("x0", vn(p.position)).raw("len", v1(p.length)).i("hel", fx(p.helicity, FX)).b("idok", p.id == r.GetID() && p.type == r.GetType()); o.raw("part", f.done()); }
            { rec.secondary_ids.resize(2); rec.secondary_masses.resize(2); rec.secondary_momenta.resize(2); rec.secondary_helicities.resize(2); rec.secondary_times.resize(2); bool threw = false;
              try { r.Finalize(rec); } catch(std::runtime_error const &) { threw = true; }
              Obj f; f.b("threw", threw).raw("mass", v1(rec.secondary_masses[1])).raw("four", vn(rec.secondary_momenta[1])).i("hel", fx(rec.secondary_helicities[1], FX)).b("idok", rec.secondary_ids[1] == r.GetID() && r.GetID().IsSet() && !rec.secondary_ids[0].IsSet() && rec.secondary_momenta[0] == V4{0,0,0,0});
              o.raw("fin", f.done()); }
            { bool a = false, b = false; Particle p = r.GetParticle(); p.id = ParticleID::GenerateID(); try { r.SetParticle(p); } catch(std::runtime_error const &) { a = true; }
              p = r.GetParticle(); p.type = ParticleType::NuE; try { r.SetParticle(p); } catch(std::runtime_error const &) { b = true; } o.b("foreign", a && b); }
        }
        S.emit(o.done());
    }
}
