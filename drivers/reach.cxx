// Drives range and depth functions (D05).
// SRC: projects/dataclasses/ projects/serialization/ projects/utilities/private/(Errors|Random|StringManip) projects/math/private/ distributions/private/primary/vertex/(DecayRangeFunction|DepthFunction|LeptonDepthFunction|RangeFunction)\.cxx
#include "vdrv.h"
#include <memory>
#include <set>
#include <cereal/types/memory.hpp>
#include <cereal/types/set.hpp>
#include <cereal/types/polymorphic.hpp>
#include "SIREN/dataclasses/Particle.h"
#include "SIREN/distributions/primary/vertex/DecayRangeFunction.h"
#include "SIREN/distributions/primary/vertex/LeptonDepthFunction.h"
using namespace siren; using namespace siren::dataclasses; using namespace vd; namespace ds = siren::distributions;
static const double HC = 1.973269804593025e-16, U = std::ldexp(1., -20), INF = std::numeric_limits<double>::infinity();
struct OtherRange : public ds::RangeFunction { int n; OtherRange(int n = 0) : n(n) {} double operator()(ParticleType const &, double) const override { return n; }
    template<class A> void serialize(A & a, std::uint32_t const) { a(n); }
    bool equal(ds::RangeFunction const & o) const override { auto x = dynamic_cast<OtherRange const *>(&o); return x && x->n == n; } bool less(ds::RangeFunction const & o) const override { return n < dynamic_cast<OtherRange const &>(o).n; } };
struct OtherDepth : public ds::DepthFunction { int n; OtherDepth(int n = 0) : n(n) {} double operator()(ParticleType const &, double) const override { return n; }
    bool equal(ds::DepthFunction const & o) const override { auto x = dynamic_cast<OtherDepth const *>(&o); return x && x->n == n; } bool less(ds::DepthFunction const & o) const override { return n < dynamic_cast<OtherDepth const &>(o).n; } };
static double beta(int b) { return b * U; } static double alpha(int b, int r) { return b * U * 1024 / r; }
static double cap(int c) { return std::log((double)c) / (2 * U); }
static void setMu(ds::LeptonDepthFunction & f, int b, int r) { f.SetMuParams(alpha(b, r), beta(b)); } static void setTau(ds::LeptonDepthFunction & f, int b, int r) { f.SetTauParams(alpha(b, r), beta(b)); }
static std::string which(double a, double b, double da, double db) { if(a == da && b == db) return "[0,0]"; for(int i : {1, 2}) for(int r : {1, 2, 3, 7}) if(a == alpha(i, r) && b == beta(i)) return "[" + std::to_string(i) + "," + std::to_string(r) + "]"; return "[9,9]"; }
static void gets(Obj & o, ds::LeptonDepthFunction const & f) {
    o.raw("mu", which(f.GetMuAlpha(), f.GetMuBeta(), 1.76666667e-3, 2.0916666667e-6)).raw("tau", which(f.GetTauAlpha(), f.GetTauBeta(), 1.473684210526e1, 2.6315789473684212e-7)).i("scale", fx(f.GetScale(), 1));
    int m = 99; if(f.GetMaxDepth() == 3e7) m = 0; for(int c : {1, 50, 3000, 100000}) if(f.GetMaxDepth() == cap(c)) m = c; o.i("max", m);
}
template<class OA, class IA, class T> static std::shared_ptr<T> reload(std::shared_ptr<T> const & p, bool & behind) { std::stringstream ss; { OA oa(ss); oa(p); oa(std::int64_t(424242)); } std::shared_ptr<T> r; std::int64_t n = 0; { IA ia(ss); ia(r); ia(n); } behind = behind && n == 424242; return r; }
template<class T> static std::shared_ptr<T> again(std::shared_ptr<T> const & p, bool json, bool & behind) { return json ? reload<cereal::JSONOutputArchive, cereal::JSONInputArchive, T>(p, behind) : reload<cereal::BinaryOutputArchive, cereal::BinaryInputArchive, T>(p, behind); }
static void decay(JV const & c, Obj & o) {
    auto const & t = ga(c, "t"); double u = gi(c, "u") / 16., m = t[0].GetInt() * u, e = t[2].GetInt() * u, w = gi(c, "w") * 1e-15, one = HC / w, mu = gi(c, "mu"), mx = gi(c, "mx") < 0 ? INF : gi(c, "mx") * one; ParticleType k = (ParticleType)gi(c, "k");
    ds::DecayRangeFunction f(m, w, mu, mx), g(m, 0, 2, 77); ds::RangeFunction const & b = f;
    o.i("length", fx(f.DecayLength(k, e) / one, 1e4)).i("static", fx(ds::DecayRangeFunction::DecayLength(m, w, e) / one, 1e4)).i("range", fx(f.Range(k, e) / one, 1e4)).i("call", fx(b(k, e) / one, 1e4)).b("stable", t[1].GetInt() == 0 || (g.Range(k, e) == 77 && g(k, e) == 77)).b("get", f.ParticleMass() == m && f.DecayWidth() == w && f.Multiplier() == mu && f.MaxDistance() == mx);
}
static void lepton(JV const & c, Obj & o) {
    auto f = std::make_shared<ds::LeptonDepthFunction>(); std::vector<std::string> xs; std::vector<std::shared_ptr<ds::LeptonDepthFunction>> keep;
    for(auto const & op : ga(c, "ops").GetArray()) {
        std::string k = gs(op, "o"); int a = gi(op, "a"), b = gi(op, "b"); Obj x; long long v = 0; bool same = true, be = true;
        if(k == "mu") setMu(*f, a, b); else if(k == "tau") setTau(*f, a, b); else if(k == "scale") f->SetScale(a); else if(k == "max") f->SetMaxDepth(cap(a));
        else if(k == "ask") { ds::DepthFunction const & d = *f; v = fx(std::exp(2 * U * d((ParticleType)a, b * 1024.)), 100); }
        else if(k == "rel") { if(a == 0) v = fx(std::exp((*f)(ParticleType::NuMu, b * f->GetMuAlpha() / f->GetMuBeta()) * f->GetMuBeta()), 1e5); else { double e = b * f->GetTauAlpha() / f->GetTauBeta(); v = fx(std::exp(((*f)(ParticleType::NuTauBar, e) - (*f)(ParticleType::NuEBar, e)) * f->GetTauBeta()), 1e5); } }
        else if(k == "copy") { auto g = std::make_shared<ds::LeptonDepthFunction>(*f); same = *g == *f; keep.push_back(f); f = g; }
        else { std::shared_ptr<ds::DepthFunction> p = f, r = again(p, a == 0, be); auto g = std::dynamic_pointer_cast<ds::LeptonDepthFunction>(r); same = g && be && *g == *f && !(*g < *f) && !(*f < *g); if(g) f = g; }
        gets(x, *f); x.i("v", v).b("same", same); xs.push_back(x.done());
    }
    o.raw("xs", arr(xs, [](std::string const & s) { return s; }));
}
template<class T> static void pool(std::vector<std::shared_ptr<T>> const & v, std::vector<bool> const & own, Obj & o) {
    auto mat = [&](std::function<bool(T const &, T const &)> f) { std::vector<std::string> rows; for(auto const & p : v) { std::string r = "["; for(size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + std::string(f(*p, *v[i]) ? "true" : "false"); rows.push_back(r + "]"); } return arr(rows, [](std::string const & s) { return s; }); };
    o.raw("eq", mat([](T const & a, T const & b) { return a == b; })).raw("lt", mat([](T const & a, T const & b) { return a < b; })); bool be = true; std::vector<bool> l;
    for(size_t i = 0; i < v.size(); ++i) { if(!own[i]) { l.push_back(true); continue; } auto r = again<T>(v[i], i % 2, be), s = again<T>(r, (i / 2) % 2, be); l.push_back(*r == *v[i] && *v[i] == *s); }
    o.raw("loaded", arr(l, [](bool x) { return std::string(x ? "true" : "false"); })).b("behind", be);
}
int main(int argc, char ** argv) {
    Script sc(argc, argv);
    for(auto const & l : sc.lines) {
        rj::Document d; parse(d, l); std::string g = gs(d, "g"); Obj o; o.str("g", g); 
        if(g == "range" || g == "depth") { rj::StringBuffer b; rj::Writer<rj::StringBuffer> w(b); ga(d, "pool").Accept(w); o.raw("pool", b.GetString()); } else o.raw("c", l);
        try {
            if(g == "decay") decay(d, o); else if(g == "lepton") lepton(d, o);
            else if(g == "range") { std::vector<std::shared_ptr<ds::RangeFunction>> v; std::vector<bool> own; for(auto const & x : ga(d, "pool").GetArray()) { bool k = gs(x, "k") == "decay"; own.push_back(k); if(k) v.push_back(std::make_shared<ds::DecayRangeFunction>(gi(x, "m") * 0.1, gi(x, "w") * 1e-15, gi(x, "mu") / 3., gi(x, "mx") < 0 ? 1e300 : gi(x, "mx") * 100.)); else v.push_back(std::make_shared<OtherRange>(gi(x, "m"))); } pool(v, own, o); }
            else { std::vector<std::shared_ptr<ds::DepthFunction>> v; std::vector<bool> own; for(auto const & x : ga(d, "pool").GetArray()) { bool k = gs(x, "k") == "lepton"; own.push_back(k); auto at = [&](char const * n, int i) { return ga(x, n)[i].GetInt(); }; if(!k) { v.push_back(std::make_shared<OtherDepth>(at("mu", 0))); continue; }
                auto f = std::make_shared<ds::LeptonDepthFunction>(); if(at("mu", 0)) setMu(*f, at("mu", 0), at("mu", 1)); if(at("tau", 0)) setTau(*f, at("tau", 0), at("tau", 1)); f->SetScale(gi(x, "scale")); if(gi(x, "max")) f->SetMaxDepth(cap(gi(x, "max"))); v.push_back(f); } pool(v, own, o); }
            o.b("failed", false);
        } catch(std::exception const & e) { o.b("failed", true).str("why", e.what()); }
        sc.emit(o.done());
    }
}
