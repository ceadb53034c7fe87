// Drives the lookup tables and the integrators (N01).
// SRC: projects/utilities/private/Interpolator.cxx
#include "vdrv.h"
#include "SIREN/utilities/Interpolator.h"
#include "SIREN/utilities/Integration.h"
using namespace siren::utilities; using namespace vd;
struct Axis { bool p; std::vector<int> a; double node(int i) const { return p ? std::exp2(a[i]) : a[i]; } double at(int q) const { return p ? std::exp2(q / 4.0) : q / 4.0; } };
static Axis axis(JV const & v) { Axis r; r.p = gb(v, "p"); for(auto const & x : ga(v, "a").GetArray()) r.a.push_back(x.GetInt()); return r; }
static double val(bool pw, int f) { return pw ? (f == -99 ? 0.0 : std::exp2(f)) : f; }
static std::string pt(double v) { Obj o; o.i("v", fx(v, 1e4)).i("l", v > 0 ? fx(std::log2(v), 1e4) : BAD); return o.done(); }
static std::string js(JV const & v) { rj::StringBuffer b; rj::Writer<rj::StringBuffer> w(b); v.Accept(w); return b.GetString(); }
template<class P> static std::vector<size_t> order(std::string const & how, size_t n, P) {
    std::vector<size_t> r(n); for(size_t i = 0; i < n; ++i) r[i] = i;
    if(how == "reverse") std::reverse(r.begin(), r.end());
    if(how == "rotate") std::rotate(r.begin(), r.begin() + n / 2, r.end());
    if(how == "swap" && n > 2) std::swap(r[0], r[n-2]);
    return r;
}
template<class T> static T through(std::string const & how, T const & t, T const & other) {
    if(how == "copy") { T u(t); return u; }
    if(how == "assign") { T u(other); u = t; return u; }
    if(how == "bin") { std::stringstream ss; { cereal::BinaryOutputArchive a(ss); a(t); } T u; { cereal::BinaryInputArchive a(ss); a(u); } return u; }
    if(how == "json") { std::stringstream ss; { cereal::JSONOutputArchive a(ss); a(t); } T u; { cereal::JSONInputArchive a(ss); a(u); } return u; }
    if(how == "binover") { std::stringstream ss; { cereal::BinaryOutputArchive a(ss); a(t); } T u(other); { cereal::BinaryInputArchive a(ss); a(u); } return u; }
    return t;
}
static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
int main(int argc, char ** argv) {
    Script sc(argc, argv);
    for(auto const & line : sc.lines) {
        rj::Document d; parse(d, line);
        std::string k = gs(d, "k");
        Obj o; for(auto const & m : d.GetObject()) if(std::string(m.name.GetString()) != "how" && std::string(m.name.GetString()) != "rows") o.raw(m.name.GetString(), js(m.value));
        if(k == "one") {
            Axis ax = axis(d["ax"]); auto const & f = ga(d, "f"); size_t n = ax.a.size();
            TableData1D<double> t, t2;
            for(size_t i : order(gs(d, "rows"), n, 0)) { t.x.push_back(ax.node(i)); t.f.push_back(val(ax.p, f[i].GetInt())); }
            t2 = t; t2.f[n - 1] += 1;
            // the other table: more nodes, other spacing
            TableData1D<double> w; for(int i = 0; i < 9; ++i) { w.x.push_back(ax.p ? 1 + i : std::exp2(i)); w.f.push_back(i % 3); }
            Interpolator1D<double> a(t), b(t2), other(w), u = through(gs(d, "how"), a, other);
            if(gs(d, "how") == "add") { Interpolator1D<double> v(w); v.AddTable(t); u = v; }
            bool bits = true;
            std::string s = arr(ga(d, "q").GetArray(), [&](JV const & q){ double x = ax.at(q.GetInt()); double v = u(x); bits = bits && same(v, a(x)); return pt(v); });
            o.raw("vals", s).b("bits", bits).b("eq", u == a).b("neq", !(u == b) && ((u < b) != (b < u)));
            Obj x; x.b("log", u.IsLog()).i("min", fx(u.MinX(), 1e4)).i("max", fx(u.MaxX(), 1e4)).i("range", fx(u.RangeX(), 1e4));
            o.raw("axis", x.done());
        } else if(k == "two") {
            Axis ax = axis(d["ax"]), ay = axis(d["ay"]); auto const & f = ga(d, "f"); bool pw = ax.p || ay.p; size_t n = ax.a.size(), m = ay.a.size();
            TableData2D<double> t, t2, w;
            for(size_t e : order(gs(d, "rows"), n * m, 0)) { size_t i = e / m, j = e % m; t.x.push_back(ax.node(i)); t.y.push_back(ay.node(j)); t.f.push_back(val(pw, f[i][j].GetInt())); }
            t2 = t; t2.f[0] += 1;
            for(int i = 0; i < 5; ++i) for(int j = 0; j < 5; ++j) { w.x.push_back(ax.p ? 1 + i : std::exp2(i)); w.y.push_back(ay.p ? j : std::exp2(j)); w.f.push_back((i + j) % 3); }
            Interpolator2D<double> a(t), b(t2), other(w), u = through(gs(d, "how"), a, other);
            if(gs(d, "how") == "add") { Interpolator2D<double> v(w); v.SetTable(t); u = v; }
            bool bits = true;
            std::string s = arr(ga(d, "q").GetArray(), [&](JV const & q){ double x = ax.at(q[0].GetInt()), y = ay.at(q[1].GetInt()); double v = u(x, y); bits = bits && same(v, a(x, y)); return pt(v); });
            o.raw("vals", s).b("bits", bits).b("eq", u == a).b("neq", !(u == b) && ((u < b) != (b < u)));
            Obj x; x.b("log", u.IsLogX()).i("min", fx(u.MinX(), 1e4)).i("max", fx(u.MaxX(), 1e4)).i("range", fx(u.RangeX(), 1e4));
            Obj y; y.b("log", u.IsLogY()).i("min", fx(u.MinY(), 1e4)).i("max", fx(u.MaxY(), 1e4)).i("range", fx(u.RangeY(), 1e4));
            o.raw("axisx", x.done()).raw("axisy", y.done());
        } else if(k == "trap") {
            auto x = gdv(d, "x"), y = gdv(d, "y");
            o.i("v", fx(trapezoidIntegrate(x, y, gi(d, "l") / 4.0, gi(d, "r") / 4.0), 1e4)).i("whole", fx(trapezoidIntegrate(x, y), 1e4));
        } else if(k == "poly") {
            auto p = gdv(d, "p"); double a = gi(d, "a"), b = gi(d, "b");
            auto f = [&](double x) { double r = 0; for(size_t n = p.size(); n > 0; --n) r = r * x + p[n-1]; return r; };
            double v; try { v = rombergIntegrate(f, a, b, 1e-9); } catch(std::exception const &) { v = NAN; }
            TrapezoidalIntegrator<decltype(f)> t(f, a, b);
            t.integrate(2);
            o.i("v", fx(v, 1e4)).i("fine", fx(t.integrate(6), 1e4));
        } else if(k == "poly2") {
            auto p = gdv(d, "p"), r = gdv(d, "r");
            auto ev = [](std::vector<double> const & c, double x) { double s = 0; for(size_t n = c.size(); n > 0; --n) s = s * x + c[n-1]; return s; };
            double v; try { v = simpsonIntegrate2D([&](double x, double y) { return ev(p, x) * ev(r, y); }, gi(d, "a"), gi(d, "b"), gi(d, "a2"), gi(d, "b2")); } catch(std::exception const &) { v = NAN; }
            o.i("v", fx(v, 1e4));
        }
        sc.emit(o.done());
    }
}
