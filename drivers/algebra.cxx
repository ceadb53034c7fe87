// Polynomials, root finding, vectors (N02).
// SRC: projects/math/private/(Vector3D|Matrix3D|Quaternion|EulerAngles|Polynomial) projects/serialization/ projects/utilities/private/(Errors|StringManip)
#include "vdrv.h"
#include <memory>
#include "SIREN/math/Polynomial.h"
#include "SIREN/math/Vector3D.h"
using namespace vd; using namespace siren::math;
static inline std::string js(JV const & v) { rj::StringBuffer b; rj::Writer<rj::StringBuffer> w(b); v.Accept(w); return b.GetString(); }
static std::string L(std::vector<double> const & v, double s = 1e3) { return arr(v, [&](double x) { return std::to_string(fx(x, s)); }); }
static std::string S(Vector3D const & v, double s = 1e3) { return L({v.GetX(), v.GetY(), v.GetZ()}, s); }
static Vector3D vec(JV const & v) { return Vector3D(v[0].GetDouble(), v[1].GetDouble(), v[2].GetDouble()); }
template<class O, class I, class T> static T reload(T const & d, T r) { std::stringstream ss; { O a(ss); a(cereal::make_nvp("d", d)); } { I a(ss); a(cereal::make_nvp("d", r)); } return r; }
// a vector without negative zeros
static Vector3D plain(Vector3D const & v) { return Vector3D(v.GetX() + 0.0, v.GetY() + 0.0, v.GetZ() + 0.0); }
int main(int argc, char ** argv) {
    Script sc(argc, argv);
    for(auto const & line : sc.lines) {
        rj::Document d; parse(d, line); Obj o; std::string g = gs(d, "g"); o.str("g", g); std::vector<std::string> steps;
        if(g == "poly") {
            Polynom p(std::vector<double>{});
            for(auto const & op : d["ops"].GetArray()) {
                std::string k = gs(op, "op"); double x = gi(op, "k");
                if(k == "make") { std::vector<double> c; for(auto const & e : op["c"].GetArray()) c.push_back(e.GetDouble()); p = Polynom(c); }
                else if(k == "shift") p.shift(x); else if(k == "scale") p.scale(x); else if(k == "derive") p = p.GetDerivative(); else if(k == "anti") p = p.GetAntiderivative(x);
                else if(k == "clone") { std::unique_ptr<Polynom> c(p.clone()); p = Polynom({7, 7}); p = *c; } else if(k == "assign") { Polynom c(p); c.shift(1); c.scale(2); Polynom e({1, 2}); e = p; p = e; }
                else if(k == "binary") p = reload<cereal::BinaryOutputArchive, cereal::BinaryInputArchive>(p, Polynom({4, 5, 6, 7, 8, 9})); else p = reload<cereal::JSONOutputArchive, cereal::JSONInputArchive>(p, Polynom({4, 5, 6, 7, 8, 9}));
                std::vector<double> at, fn, sh, der, anti; std::function<double(double)> f = p.GetFunction(); Polynom s(p), D = p.GetDerivative(), A = p.GetAntiderivative(2); s.shift(1);
                for(double y = -2; y <= 3; ++y) { at.push_back(p.evaluate(y)); fn.push_back(f(y)); sh.push_back(s.evaluate(y)); der.push_back(D.evaluate(y)); anti.push_back(A.evaluate(y)); }
                std::vector<double> c = p.GetCoefficient(), c2 = c, c3 = c; c3.push_back(1); Polynom same(c), longer(c3); bool diff = false;
                if(!c2.empty()) for(std::size_t j = 0; j < c2.size(); ++j) { std::vector<double> e = c2; e[j] += 1; if(Polynom(e) == p || !(p != Polynom(e))) diff = true; }
                steps.push_back(Obj().raw("c", L(c)).raw("at", L(at)).raw("fn", L(fn)).raw("sh", L(sh)).raw("der", L(der)).raw("anti", L(anti)).b("same", p == same && !(p != same)).b("diff", diff).b("longer", p == longer || longer == p).done());
            }
            o.raw("ops", js(d["ops"])).raw("steps", arr(steps, [](std::string const & s) { return s; }));
        } else if(g == "root") {
            JV const & c = d["c"]; double a = gi(c, "a"), r[3], lo = gi(c, "lo") / 2.0, hi = gi(c, "hi") / 2.0; for(int k = 0; k < 3; ++k) r[k] = c["r"][k].GetDouble();
            Polynom p({-a * r[0] * r[1] * r[2], a * (r[0] * r[1] + r[0] * r[2] + r[1] * r[2]), -a * (r[0] + r[1] + r[2]), a}); Polynom q = p.GetDerivative();
            double x0 = gi(c, "x0") == 0 ? lo : gi(c, "x0") == 1 ? hi : 0.5 * (lo + hi); bool thrown = false; double x = 0;
            try { x = NewtonRaphson(p.GetFunction(), q.GetFunction(), lo, hi, x0, 200, 1e-9); } catch(MathException const &) { thrown = true; }
            o.raw("c", js(c)).b("thrown", thrown).i("x", fx(x, 1e4));
        } else if(g == "vec") {
            Vector3D p[2];
            for(auto const & op : d["ops"].GetArray()) {
                std::string k = gs(op, "op"); int n = gi(op, "k") - 1; Vector3D & x = p[n], & y = p[1 - n]; double f = gi(op, "f");
                if(k == "set") { if(f == 1) x.SetCartesianCoordinates(op["v"][0].GetDouble(), op["v"][1].GetDouble(), op["v"][2].GetDouble()); } else if(k == "add") x += y; else if(k == "sub") x -= y; else if(k == "mul") x *= f; else if(k == "div") { x = x * f; x /= f; }
                else if(k == "cross") x = cross_product(x, y); else if(k == "invert") x.invert(); else if(k == "assign") { x = y; x = *&x; } else if(k == "copy") { Vector3D c(y); x.swap(c); } else if(k == "array") { std::array<double, 3> c = y; x = Vector3D(c); }
                else if(k == "move") { Vector3D c(std::move(y)); x = std::move(c); y = Vector3D(); } else if(k == "swap") x.swap(y);
                else if(k == "binary") x = reload<cereal::BinaryOutputArchive, cereal::BinaryInputArchive>(x, Vector3D(7, 8, 9)); else if(k == "json") x = reload<cereal::JSONOutputArchive, cereal::JSONInputArchive>(x, Vector3D(7, 8, 9));
                else if(k == "norm") (void) x.normalized(); else if(k == "spherical") { Vector3D c(x); c.CalculateSphericalCoordinates(); c.CalculateCartesianFromSpherical(); x = x + 0.0 * c; }
                std::vector<int> ks = {0, 1};
                steps.push_back(Obj().raw("p", arr(ks, [&](int j) { Vector3D const & z = p[j]; std::array<double, 3> a = z; Vector3D s(plain(z)), t, u(z); s.CalculateSphericalCoordinates(); u.normalize();
                    t.SetSphericalCoordinates(s.GetRadius(), s.GetPhi(), s.GetTheta()); t.CalculateCartesianFromSpherical();
                    double R = s.GetRadius(), ph = s.GetPhi(), th = s.GetTheta(); Vector3D w(R * std::sin(th) * std::cos(ph), R * std::sin(th) * std::sin(ph), R * std::cos(th));
                    return Obj().raw("v", S(z)).raw("arr", L({a[0], a[1], a[2]})).i("mag", fx(z.magnitude(), 1e3)).raw("neg", S(-z)).raw("inv", S(z.inverted())).raw("dbl", S(2.0 * z)).raw("dbr", S(z * 2.0)).raw("half", S(z / 2.0)).raw("unit", S(j ? u : z.normalized(), 1e4)).raw("unit2", S(j ? (0.001 * z).normalized() : (1e5 * z).normalized(), 1e4))
                        .i("rad", fx(R, 1e3)).b("inrange", th >= 0 && th <= 3.14159266 && ph >= -3.14159266 && ph <= 3.14159266).raw("sph", S(w)).raw("sph2", S(t)).raw("again", S(z)).done(); }))
                    .raw("sum", S(p[0] + p[1])).raw("dif", S(p[0] - p[1])).i("dot", fx(scalar_product(p[0], p[1]) + p[0] * p[1], 1)).raw("cross", S(vector_product(p[0], p[1]))).raw("cross2", S(cross_product(p[0], p[1])))
                    .b("eq", p[0] == p[1]).b("ne", p[0] != p[1]).b("lt", p[0] < p[1]).b("gt", p[1] < p[0]).done());
            }
            o.raw("ops", js(d["ops"])).raw("steps", arr(steps, [](std::string const & s) { return s; }));
        } else {
            JV const & c = d["c"]; double n = gi(c, "den"); Vector3D v(c["D"][0].GetDouble() / n, c["D"][1].GetDouble() / n, c["D"][2].GetDouble() / n);
            v.deflect(gi(c, "cp") / 5.0, std::atan2(gi(c, "st") / 5.0, gi(c, "ct") / 5.0));
            o.raw("c", js(c)).raw("v", S(v, 1e4));
        }
        sc.emit(o.done());
    }
}
