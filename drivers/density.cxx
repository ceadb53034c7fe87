// Density profiles: values, integrals, inverses, copies (M01).
// SRC: projects/math/private/(Vector3D|Polynomial) projects/serialization/ projects/utilities/private/(Errors|StringManip) detector/private/(Axis1D|CartesianAxis|RadialAxis|ConstantD|ExponentialD|PolynomialD|Distribution1D|DensityD)
#include "vdrv.h"
#include <memory>
#include <cereal/types/memory.hpp>
#include "SIREN/math/Polynomial.h"
#include "SIREN/detector/DensityDistribution.h"
#include "SIREN/detector/ConstantDensityDistribution.h"
#include "SIREN/detector/CartesianAxisPolynomialDensityDistribution.h"
#include "SIREN/detector/CartesianAxisExponentialDensityDistribution.h"
#include "SIREN/detector/RadialAxisPolynomialDensityDistribution.h"
#include "SIREN/detector/RadialAxisExponentialDensityDistribution.h"
using namespace vd; using namespace siren::detector; using siren::math::Vector3D;
typedef std::shared_ptr<DensityDistribution> DD;
static inline std::string js(JV const & v) { rj::StringBuffer b; rj::Writer<rj::StringBuffer> w(b); v.Accept(w); return b.GetString(); }
static Vector3D vec(JV const & v) { return Vector3D(v[0].GetDouble(), v[1].GetDouble(), v[2].GetDouble()); }

static int salt = 0;
static DD make(JV const & c) {
    JV const & f = c["f"]; std::string t = gs(f, "t"); bool ax = gs(c, "ax") == "axis"; Vector3D A = vec(c["A"]), o = vec(c["o"]); ++salt;
    if(t == "const") { double a = gd(f, "a"); return salt % 2 ? std::make_shared<ConstantDensityDistribution>(a) : std::make_shared<ConstantDensityDistribution>(CartesianAxis1D(), ConstantDistribution1D(a)); }
    CartesianAxis1D ca(A, o); RadialAxis1D ra(o);
    if(t == "poly") { PolynomialDistribution1D p = salt % 2 ? PolynomialDistribution1D(gdv(f, "p")) : PolynomialDistribution1D(siren::math::Polynom(gdv(f, "p"))); if(ax) return std::make_shared<CartesianAxisPolynomialDensityDistribution>(ca, p); return std::make_shared<RadialAxisPolynomialDensityDistribution>(ra, p); }
    double a = gd(f, "a"), x0 = gd(f, "x0"), s = gd(f, "g") * std::log(2.0); ExponentialDistribution1D e = a == 1 && x0 == 0 && salt % 2 ? ExponentialDistribution1D(s) : ExponentialDistribution1D(s, a, x0);
    if(ax) return std::make_shared<CartesianAxisExponentialDensityDistribution>(ca, e); return std::make_shared<RadialAxisExponentialDensityDistribution>(ra, e);
}
template<class O, class I> static DD reload(DD const & d) { std::stringstream ss; { O a(ss); a(cereal::make_nvp("d", d)); } DD r; { I a(ss); a(cereal::make_nvp("d", r)); } return r; }
static long long F(double v) { return fx(v, 1e4); }
int main(int argc, char ** argv) {
    Script sc(argc, argv);
    for(auto const & line : sc.lines) {
        rj::Document d; parse(d, line); std::string g = gs(d, "g"); Obj o; o.str("g", g);
        if(g == "one") {
            JV const & c = d["c"]; DD p = make(c); Vector3D r = vec(c["r"]), D = vec(c["D"]), A = vec(c["A"]); double den = gd(c, "den"), T = den * gi(c, "k"); Vector3D u = D * (1 / den), e = r + u * T, m = u * -1.0;
            bool axis = gs(c, "ax") == "axis"; bool ln = gs(c["f"], "t") == "exp"; double l = ln ? std::log(2.0) : 1, li = (ln && axis && siren::math::scalar_product(A, D) == 0) ? 1 : l;
            double I = p->Integral(r, u, T), K = 0.75, lim = 2 * T;
            // the numerical integral does not look across the kink at the centre of a radial profile
            if(!axis) { double along = -siren::math::scalar_product(r - vec(c["o"]), u); if(along > 0) lim = std::max(std::min(lim, along), T * (1 + 1e-9)); }
            auto vals = [&](DensityDistribution const & q) { return std::vector<long long>{F(q.Evaluate(r)), F(q.Evaluate(e)), F(q.Derivative(r, u) / l), F(q.Integral(r, u, T) * li), F(q.Integral(r, e) * li), F(q.Integral(e, m, T) * li), F(q.Integral(r, u, 0)), F(q.Integral(e, u, -T) * li), F((q.AntiDerivative(e, u) - q.AntiDerivative(r, u)) * li)}; };
            auto inv = [&](DensityDistribution const & q) { return std::vector<long long>{F(q.InverseIntegral(r, u, I, lim)), F(q.InverseIntegral(r, u, I, T * (1 + 1e-9))), F(q.InverseIntegral(r, u, I, 0.9 * T)), F(q.InverseIntegral(r, u, 0, T)), F(q.InverseIntegral(r, u, K, I + K * T, lim)), F(q.InverseIntegral(r, u, K, I + K * T, 0.9 * T))}; };
            auto v = vals(*p); auto w = inv(*p);
            o.raw("c", js(c)).i("rho", v[0]).i("rhoEnd", v[1]).i("der", v[2]).i("depth", v[3]).i("depth2", v[4]).i("back", v[5]).i("none", v[6]).i("behind", v[7]).i("anti", v[8]);
            o.b("room", lim > 1.01 * T).i("dist", w[0]).i("distEnd", w[1]).i("distFar", w[2]).i("distZero", w[3]).i("distC", w[4]).i("distCFar", w[5]);
            std::vector<DD> cs = {DD(p->clone()), p->create(), reload<cereal::BinaryOutputArchive, cereal::BinaryInputArchive>(p), reload<cereal::JSONOutputArchive, cereal::JSONInputArchive>(p)}; p.reset();
            o.raw("copies", arr(cs, [&](DD const & q) { return std::string(vals(*q) == v && inv(*q) == w ? "true" : "false"); }));
        } else {
            std::vector<DD> w; for(auto const & c : ga(d, "pool").GetArray()) { DD p = make(c); int k = w.size() % 5; if(k == 1) p = DD(p->clone()); if(k == 2) p = reload<cereal::BinaryOutputArchive, cereal::BinaryInputArchive>(p); if(k == 3) p = reload<cereal::JSONOutputArchive, cereal::JSONInputArchive>(p); w.push_back(p); }
            auto mat = [&](std::function<bool(DD const &, DD const &)> f) { return arr(w, [&](DD const & a) { return arr(w, [&](DD const & b) { return std::string(f(a, b) ? "true" : "false"); }); }); };
            o.raw("pool", js(d["pool"])).raw("eq", mat([](DD const & a, DD const & b) { return *a == *b; })).raw("ne", mat([](DD const & a, DD const & b) { return *a != *b; }));
        }
        sc.emit(o.done());
    }
}
