// Identity, order, copies and point laws of the primary distributions (D01, D02).
// SRC: projects/dataclasses/ projects/serialization/ projects/math/private/(Vector3D|Matrix3D|Quaternion|EulerAngles|Euler) projects/utilities/private/(Errors|Random|StringManip|Interpolator) distributions/private/(Distributions|primary/(energy|direction|energy_direction|mass|helicity)/|primary/PrimaryExternal)
#include "mkdist.h"
#include <set>
#include <cereal/types/memory.hpp>
#include <random>
using namespace vd; using siren::math::Vector3D;
typedef std::shared_ptr<sd::WeightableDistribution> WD;
static WD make(JV const & d, bool norm = false) {
    std::string k = gs(d, "k"); auto p = gdv(d, "p"); std::shared_ptr<sd::WeightableDistribution> r;
    if(k == "power") r = std::make_shared<sd::PowerLaw>(p[0] / 2, p[1], p[2]);
    if(k == "mono") r = std::make_shared<sd::Monoenergetic>(p[0]);
    if(k == "mass") r = std::make_shared<sd::PrimaryMass>(p[0]);
    if(k == "norm") return std::make_shared<sd::NormalizationConstant>(p[0]);
    if(k == "iso") r = std::make_shared<sd::IsotropicDirection>();
    if(k == "pidar") r = std::make_shared<sd::PiDARNuEDistribution>();
    if(k == "hel") r = std::make_shared<sd::PrimaryNeutrinoHelicityDistribution>();
    if(k == "cone") r = std::make_shared<sd::Cone>(Vector3D(p[0], p[1], p[2]), p[3] * M_PI / 180);
    if(k == "fix") r = std::make_shared<sd::FixedDirection>(Vector3D(p[0], p[1], p[2]));
    if(k == "moyal") r = std::make_shared<sd::ModifiedMoyalPlusExponentialEnergyDistribution>(p[0], p[1], p[2], p[3], p[4], p[5], p[6], norm);
    if(k == "flux") r = std::make_shared<sd::TabulatedFluxDistribution>(p[0] / 4, p[1] / 4, std::vector<double>{1, 2, 3}, std::vector<double>{p[2], p[3], p[4]}, norm);
    if(k == "flux2") r = std::make_shared<sd::Tabulated2DFluxDistribution>(p[0] / 4, p[1] / 4, p[2] / 4, p[3] / 4, std::vector<double>{1,1,1,2,2,2,3,3,3}, std::vector<double>{-1,0,1,-1,0,1,-1,0,1}, std::vector<double>{p[4],2,3,4,p[5],1,2,2,p[6]}, norm);
    if(k == "ext") {
        static int n = 0; std::string fn = "ext" + std::to_string(n++) + ".csv";
        { std::ofstream s(fn); s << (p[1] == 0 ? "E,m,px,py,pz,w\n" : "E,m,px,py,pz,v\n"); s << "9,0,1,2,3," << p[2] << "\n7,1,0,0,1,4\n8,2,1,1,1,2\n"; }
        r = std::make_shared<sd::PrimaryExternalDistribution>(fn, p[0]); std::remove(fn.c_str());
    }
    if(!r) { std::fprintf(stderr, "kind %s\n", k.c_str()); std::exit(3); }
    if(norm) if(auto n = std::dynamic_pointer_cast<sd::PhysicallyNormalizedDistribution>(r)) if(!n->IsNormalizationSet()) n->SetNormalization(12.5);
    return r;
}
static std::vector<double> densities(sd::WeightableDistribution const & d) {
    std::vector<double> r; std::mt19937 g(5); std::uniform_real_distribution<double> u(-1, 1);
    for(int k = 0; k < 60; ++k) { Vector3D v(u(g), u(g), u(g)); if(k % 6 == 0) v = Vector3D(0, 0, k % 4 ? 1 : -1); if(k % 6 == 1) v = Vector3D(1, 2, 2); if(k % 6 == 2) v = Vector3D(1, 0, 0); v.normalize(); auto e = event(std::exp(u(g) * 4), v, 0); if(k % 5 == 0) e.primary_momentum[0] = 5; e.primary_mass = k % 7; e.primary_helicity = k % 2 ? 0.5 : -0.5; e.signature.primary_type = k % 3 ? dc::ParticleType::NuMu : dc::ParticleType::NuEBar; r.push_back(gp(d, e)); }
    return r;
}
static std::vector<double> samples(sd::WeightableDistribution const & d, std::uint64_t seed, int n) {
    std::vector<double> r; auto p = dynamic_cast<sd::PrimaryInjectionDistribution const *>(&d); if(!p) return r;
    auto rnd = std::make_shared<siren::utilities::SIREN_random>(seed);
    for(int k = 0; k < n; ++k) {
        dc::PrimaryDistributionRecord rec(k % 3 ? dc::ParticleType::NuMu : dc::ParticleType::NuEBar); p->Sample(rnd, nullptr, nullptr, rec);
        for(int q = 0; q < 4; ++q) try { if(q == 0) r.push_back(rec.GetEnergy()); if(q == 1) for(double x : rec.GetDirection()) r.push_back(x); if(q == 2) r.push_back(rec.GetMass()); if(q == 3) r.push_back(rec.GetHelicity()); } catch(std::exception const &) { r.push_back(-77); }
    }
    return r;
}
static bool close(std::vector<double> const & a, std::vector<double> const & b) { if(a.size() != b.size()) return false; for(size_t i = 0; i < a.size(); ++i) if(!(std::fabs(a[i] - b[i]) <= 1e-9 * std::max(1.0, std::fabs(a[i])))) if(!(std::isnan(a[i]) && std::isnan(b[i]))) return false; return true; }
template<class O, class I> static WD reload(WD const & d) { std::stringstream ss; { O a(ss); a(cereal::make_nvp("d", d)); } WD r; { I a(ss); a(cereal::make_nvp("d", r)); } return r; }
int main(int argc, char ** argv) {
    Script sc(argc, argv);
    for(auto const & line : sc.lines) {
        rj::Document d; parse(d, line); std::string g = gs(d, "g"); Obj o; o.str("g", g);
        if(g == "pool") {
            std::vector<WD> w; for(auto const & e : ga(d, "pool").GetArray()) { w.push_back(make(e)); if(gs(e, "k") != "norm") if(auto n = std::dynamic_pointer_cast<sd::PhysicallyNormalizedDistribution>(w.back())) n->SetNormalization(7); }
            // half of the elements have been stored and reloaded, some are clones
            int k = 0; for(auto & x : w) { ++k; if(k % 4 == 0) x = reload<cereal::BinaryOutputArchive, cereal::BinaryInputArchive>(x); else if(k % 4 == 1) x = reload<cereal::JSONOutputArchive, cereal::JSONInputArchive>(x); else if(k % 4 == 2) if(auto p = std::dynamic_pointer_cast<sd::PrimaryInjectionDistribution>(x)) x = p->clone(); }
            auto mat = [&](std::function<bool(WD const &, WD const &)> f) { return arr(w, [&](WD const & a) { return arr(w, [&](WD const & b) { return std::string(f(a, b) ? "true" : "false"); }); }); };
            auto cmp = [](WD const & a, WD const & b) { return *a < *b; };
            std::set<WD, decltype(cmp)> s(cmp); for(auto const & x : w) s.insert(x);
            o.raw("pool", js(d["pool"])).raw("eq", mat([](WD const & a, WD const & b) { return *a == *b; })).raw("lt", mat([](WD const & a, WD const & b) { return *a < *b; }))
             .raw("areq", mat([](WD const & a, WD const & b) { return a->AreEquivalent(nullptr, nullptr, b, nullptr, nullptr); })).i("set", s.size());
        } else if(g == "elem") {
            std::uint64_t seed = gi(d, "seed"); bool norm = gb(d, "norm");
            auto base = [&]() { return make(d["d"], norm); };
            WD a = base(); auto dens = densities(*a); auto smp = samples(*a, seed, 30);
            std::vector<WD> cp;
            if(auto p = std::dynamic_pointer_cast<sd::PrimaryInjectionDistribution>(base())) cp.push_back(p->clone());
            cp.push_back(reload<cereal::BinaryOutputArchive, cereal::BinaryInputArchive>(base()));
            cp.push_back(reload<cereal::JSONOutputArchive, cereal::JSONInputArchive>(base()));
            cp.push_back(reload<cereal::BinaryOutputArchive, cereal::BinaryInputArchive>(cp[0]));
            o.raw("d", js(d["d"])).str("name", a->Name()).raw("vars", arr(a->DensityVariables(), [](std::string const & s) { return q(s); }));
            o.raw("copies", arr(cp, [&](WD const & c) {
                Obj x; bool n = true; auto na = std::dynamic_pointer_cast<sd::PhysicallyNormalizedDistribution>(a), nc = std::dynamic_pointer_cast<sd::PhysicallyNormalizedDistribution>(c);
                if(na || nc) n = na && nc && na->IsNormalizationSet() == nc->IsNormalizationSet() && (!na->IsNormalizationSet() || std::fabs(na->GetNormalization() / nc->GetNormalization() - 1) < 1e-12);
                x.b("eq", *c == *a && *a == *c && !(*a < *c) && !(*c < *a)).b("name", c->Name() == a->Name() && c->DensityVariables() == a->DensityVariables()).b("dens", close(densities(*c), dens)).b("smp", close(samples(*c, seed, 30), smp)).b("norm", n); return x.done(); }));
            // a fresh one gives the same samples for the same seed, others for another one (where anything is random)
            std::set<double> distinct(smp.begin(), smp.end()); std::string k = gs(d["d"], "k");
            bool fixed = k == "mono" || k == "mass" || k == "fix" || k == "hel" || k == "norm";
            o.b("again", samples(*base(), seed, 30) == smp).b("other", fixed || samples(*base(), seed + 1, 30) != smp).b("still", *a == *base() && close(densities(*a), dens));
        } else if(g == "point") {
            std::string k = gs(d["d"], "k"); WD a = make(d["d"]); auto v = gdv(d, "a"); auto p = gdv(d["d"], "p");
            auto e = event(3, Vector3D(0, 0, 1)); bool s = true;
            dc::PrimaryDistributionRecord rec(k == "hel" ? (dc::ParticleType)(int)v[0] : dc::ParticleType::NuMu); auto rnd = std::make_shared<siren::utilities::SIREN_random>(3);
            if(auto pd = std::dynamic_pointer_cast<sd::PrimaryInjectionDistribution>(a)) pd->Sample(rnd, nullptr, nullptr, rec);
            if(k == "mono") { e.primary_momentum = {v[0], 0, 0, v[0]}; s = rec.GetEnergy() == p[0]; }
            if(k == "mass") { e.primary_mass = v[0]; s = rec.GetMass() == p[0]; }
            if(k == "fix") { e.primary_momentum = {20, v[0] * 2, v[1] * 2, v[2] * 2}; auto r = rec.GetDirection(); double n = std::sqrt(p[0]*p[0] + p[1]*p[1] + p[2]*p[2]); for(int q = 0; q < 3; ++q) if(std::fabs(r[q] - p[q] / n) > 1e-9) s = false; }
            if(k == "hel") { e.signature.primary_type = (dc::ParticleType)(int)v[0]; e.primary_helicity = v[1] / 2; s = rec.GetHelicity() == (v[0] > 0 ? -0.5 : 0.5); }
            if(k == "norm") { auto n = std::dynamic_pointer_cast<sd::NormalizationConstant>(a); s = n->IsNormalizationSet() && n->GetNormalization() == p[0]; }
            std::streambuf * old = std::cerr.rdbuf(nullptr); double w = gp(*a, e); std::cerr.rdbuf(old);
            o.raw("d", js(d["d"])).raw("a", js(d["a"])).i("v", fx(w, 1e3)).b("sampled", s);
        }
        sc.emit(o.done());
    }
}
