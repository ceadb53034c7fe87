// Saves and loads event records (E02) in every format and compares records pairwise.
// SRC: projects/dataclasses/ projects/serialization/ projects/math/private/(Vector3D|Matrix3D|Quaternion|EulerAngles|Euler) projects/utilities/private/(Errors|Random|StringManip)
#include "vdrv.h"
#include "SIREN/dataclasses/InteractionRecord.h"
#include "SIREN/dataclasses/DecaySignature.h"
#include <limits>
using namespace siren::dataclasses;
using namespace vd;
typedef std::array<double,3> V3; typedef std::array<double,4> V4;
struct OldRecord {
    InteractionRecord r;
    template<class A> void save(A & archive, std::uint32_t const) const {
        archive(::cereal::make_nvp("InteractionSignature", r.signature)); archive(::cereal::make_nvp("PrimaryID", r.primary_id)); archive(::cereal::make_nvp("PrimaryInitialPosition", r.primary_initial_position));
        archive(::cereal::make_nvp("PrimaryMass", r.primary_mass)); archive(::cereal::make_nvp("PrimaryMomentum", r.primary_momentum)); archive(::cereal::make_nvp("PrimaryHelicity", r.primary_helicity));
        archive(::cereal::make_nvp("TargetID", r.target_id)); archive(::cereal::make_nvp("TargetMass", r.target_mass)); archive(::cereal::make_nvp("TargetHelicity", r.target_helicity));
        archive(::cereal::make_nvp("InteractionVertex", r.interaction_vertex)); archive(::cereal::make_nvp("SecondaryIDs", r.secondary_ids)); archive(::cereal::make_nvp("SecondaryMasses", r.secondary_masses));
        archive(::cereal::make_nvp("SecondaryMomenta", r.secondary_momenta)); archive(::cereal::make_nvp("SecondaryHelicities", r.secondary_helicities)); archive(::cereal::make_nvp("InteractionParameters", r.interaction_parameters));
    }
    template<class A> void load(A &, std::uint32_t const) {}
};
CEREAL_CLASS_VERSION(OldRecord, 0);
static const double EPS = std::numeric_limits<double>::denorm_min(), BIG = 1.7976931348623157e308;
static InteractionRecord mk(std::vector<int> const & v) {
    InteractionRecord r; int k = 0;
    auto num = [](int x, double a, double b, double c) { return x == 0 ? a : x == 1 ? b : c; };
    switch(v[k++]) { case 0: r.signature.primary_type = ParticleType::NuMu; break; case 1: r.signature.primary_type = ParticleType::NuMuBar; break; default: r.signature.primary_type = (ParticleType) 2147483640; }
    switch(v[k++]) { case 0: r.signature.target_type = ParticleType::PPlus; break; case 1: r.signature.target_type = ParticleType::EMinus; break; default: r.signature.target_type = ParticleType::unknown; }
    switch(v[k++]) { case 0: r.signature.secondary_types = {ParticleType::MuMinus, ParticleType::Hadrons}; break; case 1: r.signature.secondary_types = {ParticleType::Hadrons, ParticleType::MuMinus}; break; default: r.signature.secondary_types = {}; }
    switch(v[k++]) { case 0: r.primary_id = ParticleID(); break; case 1: r.primary_id = ParticleID(18446744073709551615ULL, 2147483647); break; default: r.primary_id = ParticleID(0, -5); }
    r.primary_initial_position = v[k] == 0 ? V3{0.1, -2, 3} : v[k] == 1 ? V3{0.1, -2, std::nextafter(3., 4.)} : V3{BIG, EPS, -1. / 3}; k++;
    r.primary_initial_time = num(v[k++], 0.7, 1e-9, -BIG);
    r.primary_mass = num(v[k++], 0.105, EPS, 172.76);
    r.primary_momentum = v[k] == 0 ? V4{5, 0, 3, 4} : v[k] == 1 ? V4{5, 3, 0, 4} : V4{1e300, -1e-300, 1. / 3, 2. / 3}; k++;
    r.primary_helicity = num(v[k++], -1, 1, 0.5);
    switch(v[k++]) { case 0: r.target_id = ParticleID(); break; case 1: r.target_id = ParticleID(0, 0); break; default: r.target_id = ParticleID(1, 0); }
    r.target_mass = num(v[k++], 0.938, 0.939, BIG);
    r.target_helicity = num(v[k++], 0, -1, 1);
    r.interaction_vertex = v[k] == 0 ? V3{1, 2, 3} : v[k] == 1 ? V3{1, 3, 2} : V3{-1e-17, 1e17, 0.30000000000000004}; k++;
    r.interaction_time = num(v[k++], 12.5, 12.500000000000002, -3);
    switch(v[k++]) { case 0: r.secondary_ids = {ParticleID(3, 1), ParticleID(3, 2)}; break; case 1: r.secondary_ids = {ParticleID(3, 2), ParticleID(3, 1)}; break; default: r.secondary_ids = {ParticleID(), ParticleID(9, 9), ParticleID(18446744073709551615ULL, -2147483647)}; }
    r.secondary_masses = v[k] == 0 ? std::vector<double>{0.1, 0.2} : v[k] == 1 ? std::vector<double>{0.2, 0.1} : std::vector<double>{}; k++;
    r.secondary_momenta = v[k] == 0 ? std::vector<V4>{{1, 2, 3, 4}, {5, 6, 7, 8}} : v[k] == 1 ? std::vector<V4>{{1, 2, 3, 4}, {5, 6, 7, 8.000000000000002}} : std::vector<V4>{{1, 0, 0, EPS}, {2, BIG, 0, 0}, {3, 0, -1, 0}}; k++;
    r.secondary_helicities = v[k] == 0 ? std::vector<double>{-1, 1} : v[k] == 1 ? std::vector<double>{1, -1} : std::vector<double>{0.5}; k++;
    r.secondary_times = v[k] == 0 ? std::vector<double>{12.5, 12.5} : v[k] == 1 ? std::vector<double>{12.5, 13.5} : std::vector<double>{-1, -2, -3}; k++;
    r.interaction_parameters = v[k] == 0 ? std::map<std::string,double>{{"bjorken_x", 0.25}, {"bjorken_y", 0.5}} : v[k] == 1 ? std::map<std::string,double>{{"bjorken_x", 0.5}, {"bjorken_y", 0.25}} : std::map<std::string,double>{{"", EPS}, {"q \"2\"\n", -BIG}};
    return r;
}
static std::string pid(ParticleID const & p) { return std::string(p.IsSet() ? "S" : "U") + std::to_string(p.GetMajorID()) + ":" + std::to_string(p.GetMinorID()); }
template<class C> static std::string dl(C const & c) { std::string s; for(double x : c) s += hex(x) + ","; return s; }
static std::string fields(InteractionRecord const & r) {
    std::vector<std::string> f; std::string s;
    f.push_back(std::to_string((long long) r.signature.primary_type)); f.push_back(std::to_string((long long) r.signature.target_type));
    for(auto t : r.signature.secondary_types) s += std::to_string((long long) t) + ",";
    f.push_back(s);
    f.push_back(pid(r.primary_id)); f.push_back(dl(r.primary_initial_position)); f.push_back(hex(r.primary_initial_time)); f.push_back(hex(r.primary_mass)); f.push_back(dl(r.primary_momentum)); f.push_back(hex(r.primary_helicity));
    f.push_back(pid(r.target_id)); f.push_back(hex(r.target_mass)); f.push_back(hex(r.target_helicity)); f.push_back(dl(r.interaction_vertex)); f.push_back(hex(r.interaction_time));
    s = ""; for(auto const & p : r.secondary_ids) s += pid(p) + ",";
    f.push_back(s);
    f.push_back(dl(r.secondary_masses)); s = ""; for(auto const & m : r.secondary_momenta) s += dl(m) + "|";
    f.push_back(s); f.push_back(dl(r.secondary_helicities)); f.push_back(dl(r.secondary_times));
    s = ""; for(auto const & kv : r.interaction_parameters) s += kv.first + "=" + hex(kv.second) + ";";
    f.push_back(s);
    return arr(f, [](std::string const & x){ return q(x); });
}
template<class X> static X round(X const & x, bool json) {
    std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary); X y;
    if(!json) { { ::cereal::BinaryOutputArchive a(ss); a(x); } ::cereal::BinaryInputArchive a(ss); a(y); }
    else { { ::cereal::JSONOutputArchive a(ss); a(x); } ::cereal::JSONInputArchive a(ss); a(y); }
    return y;
}
int main(int argc, char ** argv) {
    Script S(argc, argv);
    for(auto const & line : S.lines) {
        rj::Document d; parse(d, line);
        std::string op = gs(d, "op");
        if(op == "round") {
            std::vector<int> v; for(auto const & x : ga(d, "v").GetArray()) v.push_back(x.GetInt());
            InteractionRecord r = mk(v);
            for(auto const & fv : ga(d, "fmts").GetArray()) {
                std::string fmt = fv.GetString(); bool threw = false; std::string what;
                std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary);
                InteractionRecord b = mk(std::vector<int>(20, 1)); // stale content of the target
                try {
                    if(fmt == "bin") { { ::cereal::BinaryOutputArchive a(ss); a(r); } ::cereal::BinaryInputArchive a(ss); a(b); }
                    else if(fmt == "json") { { ::cereal::JSONOutputArchive a(ss); a(r); } ::cereal::JSONInputArchive a(ss); a(b); }
                    else if(fmt == "oldbin") { OldRecord o; o.r = r; { ::cereal::BinaryOutputArchive a(ss); a(o); } ::cereal::BinaryInputArchive a(ss); a(b); }
                    else { OldRecord o; o.r = r; { ::cereal::JSONOutputArchive a(ss); a(o); } ::cereal::JSONInputArchive a(ss); a(b); }
                } catch(std::exception const & e) { threw = true; what = e.what(); }
                InteractionRecord z = r; z.primary_initial_time = 0; z.interaction_time = 0; z.secondary_times.assign(r.secondary_momenta.size(), 0);
                S.emit(Obj().str("op", "round").str("fmt", fmt).b("threw", threw).str("what", what).b("equal", b == r).raw("before", fields(r)).raw("after", fields(b)).raw("zero", fields(z)).done());
            }
        } else if(op == "family") {
            std::vector<std::vector<int>> vs; std::vector<InteractionRecord> rs;
            for(auto const & a : ga(d, "vs").GetArray()) { std::vector<int> v; for(auto const & x : a.GetArray()) v.push_back(x.GetInt()); vs.push_back(v); rs.push_back(mk(v)); }
            auto mat = [&](std::function<bool(InteractionRecord const &, InteractionRecord const &)> f) { return arr(rs, [&](InteractionRecord const & a){ return arr(rs, [&](InteractionRecord const & b){ return std::string(f(a, b) ? "true" : "false"); }); }); };
            S.emit(Obj().str("op", "family").raw("v", arr(vs, [](std::vector<int> const & v){ return arr(v, [](int x){ return std::to_string(x); }); })).raw("eq", mat([](auto const & a, auto const & b){ return a == b; })).raw("lt", mat([](auto const & a, auto const & b){ return a < b; })).done());
            // the parts compare the same way
            auto fam = [&](auto const & xs, auto same, auto eq, auto lt) {
                // number the distinct values
                std::vector<int> cls; for(std::size_t a = 0; a < xs.size(); ++a) { int c = -1; for(std::size_t b = 0; b < a; ++b) if(same(xs[a], xs[b])) { c = cls[b]; break; } cls.push_back(c < 0 ? (int) a : c); }
                auto m = [&](auto f) { return arr(xs, [&](auto const & a){ return arr(xs, [&](auto const & b){ return std::string(f(a, b) ? "true" : "false"); }); }); };
                S.emit(Obj().str("op", "family").raw("v", arr(cls, [](int x){ return std::to_string(x); })).raw("eq", m(eq)).raw("lt", m(lt)).done());
            };
            std::vector<InteractionSignature> sg; for(auto const & r : rs) sg.push_back(r.signature);
            fam(sg, [](auto const & a, auto const & b){ return a.primary_type == b.primary_type && a.target_type == b.target_type && a.secondary_types == b.secondary_types; }, [](auto const & a, auto const & b){ return a == b && !(a != b); }, [](auto const & a, auto const & b){ return a < b; });
            std::vector<ParticleID> ids = {ParticleID(), ParticleID(0, 0), ParticleID(0, 1), ParticleID(1, 0), ParticleID(1, -1), ParticleID(18446744073709551615ULL, 0), ParticleID(18446744073709551615ULL, 2147483647), ParticleID(9223372036854775808ULL, -1), ParticleID()};
            fam(ids, [](auto const & a, auto const & b){ return pid(a) == pid(b); }, [](auto const & a, auto const & b){ return a == b && !(a != b); }, [](auto const & a, auto const & b){ return a < b; });
        } else {
            // small values
            std::vector<ParticleID> ids = {ParticleID(), ParticleID(0, 0), ParticleID(18446744073709551615ULL, 2147483647), ParticleID(5, -2147483647)};
            { ParticleID s; s.SetID(7, -3); ids.push_back(s); }
            for(auto const & p : ids) for(int j = 0; j < 2; ++j) {
                ParticleID b = round(p, j);
                bool set = (pid(p) != "U0:0");
                S.emit(Obj().str("op", "small").str("what", "ParticleID " + pid(p) + " -> " + pid(b)).b("round", pid(b) == pid(p) && b == p).b("isset", b.IsSet() == set && bool(b) == set).done());
                Particle x(p, ParticleType::TauMinus, 1.77, {3, EPS, -BIG, 0.1}, {1, 2, 1. / 3}, 1e-9, -1); Particle y = round(x, j);
                S.emit(Obj().str("op", "small").str("what", "Particle").b("round", y.id == x.id && y.type == x.type && y.mass == x.mass && y.momentum == x.momentum && y.position == x.position && y.length == x.length && y.helicity == x.helicity).b("isset", true).done());
            }
            for(int j = 0; j < 2; ++j) {
                DecaySignature ds; ds.primary_type = ParticleType::N4; ds.secondary_types = {ParticleType::NuMu, ParticleType::Gamma}; DecaySignature e = round(ds, j);
                DecaySignature f = ds; f.secondary_types = {ParticleType::Gamma, ParticleType::NuMu}; DecaySignature g = ds; g.primary_type = ParticleType::N5;
                S.emit(Obj().str("op", "small").str("what", "DecaySignature").b("round", e == ds && e.primary_type == ds.primary_type && e.secondary_types == ds.secondary_types && !(f == ds) && !(g == ds)).b("isset", true).done());
            }
        }
    }
}
