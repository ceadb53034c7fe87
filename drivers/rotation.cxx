// Rotations: quaternions, matrices, Euler angles (G01).
// SRC: projects/math/private/(Vector3D|Matrix3D|Quaternion|EulerAngles) projects/serialization/ projects/utilities/private/(Errors|StringManip)
#include "vdrv.h"
#include "SIREN/math/Quaternion.h"
#include "SIREN/math/Matrix3D.h"
#include "SIREN/math/EulerAngles.h"
#include "SIREN/math/Conversions.h"
#include "SIREN/math/EulerQuaternionConversions.h"
using namespace vd; using namespace siren::math;
static inline std::string js(JV const & v) { rj::StringBuffer b; rj::Writer<rj::StringBuffer> w(b); v.Accept(w); return b.GetString(); }
static Vector3D vec(JV const & v) { return Vector3D(v[0].GetDouble(), v[1].GetDouble(), v[2].GetDouble()); }
static Quaternion quat(JV const & v) { return Quaternion(v[0].GetDouble(), v[1].GetDouble(), v[2].GetDouble(), v[3].GetDouble()); }
static std::string L(std::vector<double> const & v, double s = 1e4) { return arr(v, [&](double x) { return std::to_string(fx(x, s)); }); }
static std::string S(Vector3D const & v, double s = 1e4) { return L({v.GetX(), v.GetY(), v.GetZ()}, s); }
static std::string S(Quaternion const & q, double s = 1e4) { return L({q.GetX(), q.GetY(), q.GetZ(), q.GetW()}, s); }
static std::string S(Matrix3D const & m, double s = 1e4) { return "[" + L({m.GetXX(), m.GetXY(), m.GetXZ()}, s) + "," + L({m.GetYX(), m.GetYY(), m.GetYZ()}, s) + "," + L({m.GetZX(), m.GetZY(), m.GetZZ()}, s) + "]"; }
static std::string CS(EulerAngles const & e) { auto p = [](double a) { return L({std::cos(a), std::sin(a)}); }; return "[" + p(e.GetAlpha()) + "," + p(e.GetBeta()) + "," + p(e.GetGamma()) + "]"; }
static const std::vector<std::pair<std::string, EulerOrder>> orders = {
#define O(x) {#x, EulerOrder::x}
    O(XYZs), O(XYXs), O(XZYs), O(XZXs), O(YZXs), O(YZYs), O(YXZs), O(YXYs), O(ZXYs), O(ZXZs), O(ZYXs), O(ZYZs), O(ZYXr), O(XYXr), O(YZXr), O(XZXr), O(XZYr), O(YZYr), O(ZXYr), O(YXYr), O(YXZr), O(ZXZr), O(XYZr), O(ZYZr)};
template<class O, class I, class T> static T reload(T const & d) { std::stringstream ss; { O a(ss); a(cereal::make_nvp("d", d)); } T r; { I a(ss); a(cereal::make_nvp("d", r)); } return r; }
template<class T> static bool both(T const & d) { return reload<cereal::BinaryOutputArchive, cereal::BinaryInputArchive>(d) == d && reload<cereal::JSONOutputArchive, cereal::JSONInputArchive>(d) == d; }
static Matrix3D times(Matrix3D m, double f) { return m * f; }
int main(int argc, char ** argv) {
    Script sc(argc, argv);
    for(auto const & line : sc.lines) {
        rj::Document d; parse(d, line); std::string g = gs(d, "g"); JV const & c = d["c"]; Obj o; o.str("g", g);
        if(g == "one") {
            Quaternion q = quat(c["q"]), u = q.normalized(); { Quaternion t(q); t.normalize(); if(!(t == u)) u = Quaternion(9, 9, 9, 9); }
            std::vector<Vector3D> vs = {Vector3D(1, 0, 0), Vector3D(0, 1, 0), Vector3D(0, 0, 1), Vector3D(2, -1, 3)};
            auto each = [&](std::function<Vector3D(Vector3D const &)> f) { return arr(vs, [&](Vector3D const & v) { return S(f(v)); }); };
            auto V = [](Quaternion const & p) { return p.GetW() == 0 || std::abs(p.GetW()) < 1e-12 ? Vector3D(p.GetX(), p.GetY(), p.GetZ()) : Vector3D(99, 99, 99); };
            o.raw("q", js(c["q"])).raw("vs", arr(vs, [](Vector3D const & v) { return S(v, 1); }));
            o.raw("rot", each([&](Vector3D const & v) { return u.rotate(v, false); })).raw("inv", each([&](Vector3D const & v) { return u.rotate(v, true); }));
            o.raw("rotU", each([&](Vector3D const & v) { return q.rotate(v, false); })).raw("invU", each([&](Vector3D const & v) { return q.rotate(v, true); }));
            o.raw("rotQ", each([&](Vector3D const & v) { Quaternion p; p.SetPosition(v); return V(q.rotate(p, false)); })).raw("invQ", each([&](Vector3D const & v) { return V(q.rotate(Quaternion(v), true)); }));
            Matrix3D m = u.GetMatrix(), m2; u.GetMatrix(m2); Quaternion f; f.SetMatrix(m); o.raw("mat", S(m == m2 ? m : Matrix3D())).raw("matU", S(Matrix3DFromQuaternion(q))).raw("fromM", S(f));
            Quaternion cj(q), iv(q); cj.conjugate(); iv.invert(); o.raw("conj", S(~q, 1)).raw("conj2", S(cj, 1)).raw("inverse", S(!q)).raw("inverse2", S(iv)).raw("unit", S(u)).i("sq", fx(q.magnitudesq(), 1)).i("len", fx(q.magnitude(), 1e3));
            auto aa = u.GetAxisAngle(); Vector3D ax; double an; u.GetAxisAngle(ax, an); Quaternion ba; ba.SetAxisAngle(std::get<0>(aa) * 3.0, std::get<1>(aa)); if(an != std::get<1>(aa)) ba = Quaternion(9, 9, 9, 9);
            o.raw("axisAngle", S(ba)).raw("axis", S(ax)).i("sinHalf", fx(std::sin(an / 2), 1e4)).i("cosHalf", fx(std::cos(an / 2), 1e4));
            o.raw("euler", arr(orders, [&](std::pair<std::string, EulerOrder> const & p) { EulerAngles e; u.GetEulerAngles(e, p.second); EulerAngles e2 = EulerAnglesFromMatrix3D(m, p.second); return Obj().str("n", e.GetOrder() == p.second ? p.first : "XYZs").raw("cs", CS(e)).raw("csm", CS(e2)).done(); }));
            double al, be, ga; u.GetEulerAnglesZXZr(al, be, ga); o.raw("zxz", CS(EulerAngles(EulerOrder::ZXZr, al, be, ga))); q.GetEulerAnglesXYZs(al, be, ga); o.raw("xyz", CS(EulerAngles(EulerOrder::XYZs, al, be, ga)));
            o.b("reload", both(q) && both(u) && both(m));
        } else if(g == "two") {
            Quaternion a = quat(c["a"]), b = quat(c["b"]); double na = a.magnitudesq(), nb = b.magnitudesq();
            Matrix3D ma = times(Matrix3DFromQuaternion(a), na), mb = times(Matrix3DFromQuaternion(b), nb), pl(ma), sc3(ma), dv(ma), ix; pl += mb; sc3 *= -3.0; dv = ma * 4.0; dv /= 2.0; dv = dv / 2.0;
            // integers up to rounding
            auto I = [](Matrix3D const & m) { return S(m, 1); };
            for(unsigned r = 0; r < 3; ++r) for(unsigned k = 0; k < 3; ++k) ix[{r, k}] = ((Matrix3D const &)ma)[{r, k}];
            o.raw("a", js(c["a"])).raw("b", js(c["b"])).raw("prod", S(a * b, 1)).raw("mm", I(ma * mb)).raw("mplus", I(ma + mb)).raw("mplus2", I(pl)).raw("mminus", I(ma - mb)).raw("mscale", I(ma * -3.0)).raw("mscale2", I(sc3 == -3.0 * ma ? sc3 : Matrix3D())).raw("mneg", I(-ma)).raw("mdiv", I(dv)).raw("mentry", I(scalar_product(ma, mb))).raw("mv", S(ma * Vector3D(b.GetX(), b.GetY(), b.GetZ()), 1)).raw("mindex", I(ix));
            Quaternion s2(a), m3(a); s2 += b; m3 *= -3.0; o.raw("sum", S(a + b, 1)).raw("sum2", S(s2, 1)).raw("scale", S(a * -3.0, 1)).raw("scale2", S(m3, 1)).i("dot", fx(a.DotProduct(b), 1)).raw("lerp", S(Quaternion::lerp(a, b, 0.25) * 4.0, 1));
            auto rnd = [](Matrix3D m) { Matrix3D r; for(unsigned i = 0; i < 3; ++i) for(unsigned k = 0; k < 3; ++k) r[{i, k}] = std::round(m[{i, k}]) + 0.0; return r; };
            Matrix3D ra = rnd(ma), rb = rnd(mb); o.b("eq", a == b).b("ne", a != b).b("lt", a < b).b("meq", ra == rb).b("mne", ra != rb);
            Quaternion ua = a.normalized(), ub = b.normalized(); o.raw("slerp0", S(Quaternion::slerp(ua, ub, 0))).raw("slerp1", S(Quaternion::slerp(ua, ub, 1))).raw("slerpHalf", S(Quaternion::slerp(ua, ub, 0.5)));
            Quaternion x(a), y(b), z, w(Quaternion(a.GetX(), a.GetY(), a.GetZ(), a.GetW())); x.swap(y); z = x; Quaternion t; t = std::move(z); Matrix3D mx(ma), my(mb), mz; mx.swap(my); mz = mx; o.b("swapped", x == b && y == a && t == b && w == a && mx == mb && my == ma && mz == mb);
        } else if(g == "euler") {
            EulerOrder ord = EulerOrder::XYZs; for(auto const & p : orders) if(p.first == gs(c, "n")) ord = p.second;
            double an[3]; for(int k = 0; k < 3; ++k) an[k] = std::atan2(c["a"][k][1].GetDouble(), c["a"][k][0].GetDouble());
            EulerAngles e(ord, an[0], an[1], an[2]); Quaternion q = QuaternionFromEulerAngles(e), s; s.SetEulerAngles(e); if(ord == EulerOrder::ZXZr) s.SetEulerAnglesZXZr(an[0], an[1], an[2]); if(ord == EulerOrder::XYZs) s.SetEulerAnglesXYZs(an[0], an[1], an[2]);
            EulerAngles f(e), h, k; h = e; k.SetOrder(ord); k.SetAlpha(an[0]); k.SetBeta(an[1]); k.SetGamma(an[2]); EulerAngles other(ord, an[0], an[1], an[2] + 1), p(other); p.swap(f);
            o.str("n", gs(c, "n")).raw("a", js(c["a"])).raw("mq", S(Matrix3DFromQuaternion(q))).raw("mset", S(s.GetMatrix())).raw("mm", S(Matrix3DFromEulerAngles(e))).b("value", p == e && h == e && k == e && f == other && e != other && !(e == other) && both(e));
        } else {
            Vector3D u = vec(c["u"]), v = vec(c["v"]); Quaternion q = rotation_between(u, v); Vector3D w = v * (u.magnitude() / v.magnitude()), x = cross_product(u, v);
            o.raw("u", js(c["u"])).raw("v", js(c["v"])).raw("got", S(q.rotate(u, false))).raw("want", S(w)).raw("perp", S(q.rotate(x, false))).i("len", fx(q.magnitude(), 1e4)).raw("q", S(q));
        }
        sc.emit(o.done());
    }
}
