// Samples primary distributions and evaluates their densities (D01).
// SRC: projects/dataclasses/ projects/serialization/ projects/math/private/(Vector3D|Matrix3D|Quaternion|EulerAngles|Euler) projects/utilities/private/(Errors|Random|StringManip|Interpolator) distributions/private/(Distributions|primary/(energy|direction|energy_direction|mass|helicity)/|primary/PrimaryExternal)
#include "mkdist.h"
#include <random>
#include <thread>
#include <mutex>
using namespace vd; using siren::math::Vector3D;
struct Job { PD d; bool energy = false, dir = false; std::vector<double> edges; std::function<int(double, Vector3D const &)> bin; int nbins = 0; std::function<double(int)> dens; bool norm = true, cdf = true; double out = 0; std::vector<double> pts; };
// moyal-plus-exponential: independent closed form of the cumulative distribution
struct Moyal { double lo, hi, mu, sg, A, l, B; double cum(double E) const { return A * (std::erf(std::exp((mu - lo) / (2 * sg)) / std::sqrt(2.0)) - std::erf(std::exp((mu - E) / (2 * sg)) / std::sqrt(2.0))) + B * (std::exp(-lo / l) - std::exp(-E / l)); } };
static int find(std::vector<double> const & e, double v) { if(v < e.front() || v > e.back()) return -1; int k = int(std::upper_bound(e.begin(), e.end(), v) - e.begin()) - 1; return std::min(k, int(e.size()) - 2); }
static void frame(Vector3D a, Vector3D & x, Vector3D & y) { a.normalize(); Vector3D h = std::fabs(a.GetZ()) < 0.9 ? Vector3D(0, 0, 1) : Vector3D(1, 0, 0); x = siren::math::cross_product(a, h); x.normalize(); y = siren::math::cross_product(a, x); y.normalize(); }
static Vector3D polar(Vector3D a, double c, double ph) { a.normalize(); Vector3D x, y; frame(a, x, y); double s = std::sqrt(std::max(0.0, 1 - c*c)); return Vector3D(a.GetX()*c + s*(x.GetX()*cos(ph) + y.GetX()*sin(ph)), a.GetY()*c + s*(x.GetY()*cos(ph) + y.GetY()*sin(ph)), a.GetZ()*c + s*(x.GetZ()*cos(ph) + y.GetZ()*sin(ph))); }
static std::string run(rj::Document & d) {
    JV const & c = d["c"]; std::string t = gs(c, "t"); long n = gi(d, "n"); Job j; Obj o; o.raw("c", js(c)).i("n", n);
    Vector3D Z(0, 0, 1); std::string at = "[]";
    auto edens = [&](double E) { return gp(*j.d, event(E, Z)); };
    auto integrate = [&](double a, double b) { int m = 4000; double s = 0; for(int k = 0; k < m; ++k) s += edens(a + (b - a) * (k + 0.5) / m); return s * (b - a) / m; };
    auto byedges = [&]() { j.energy = true; j.nbins = j.edges.size() - 1; j.bin = [&](double E, Vector3D const &) { return find(j.edges, E); }; j.dens = [&](int k) { return integrate(j.edges[k], j.edges[k+1]); }; };
    auto outside = [&](double E) { j.out = std::max(j.out, std::fabs(edens(E))); };
    std::vector<std::string> pat;
    if(t == "power") {
        double u = std::pow(10.0, gi(c, "u")), g = 1 - gi(c, "h") / 2.0;
        for(auto const & r : ga(c, "r").GetArray()) { double e = r.GetDouble(); j.edges.push_back(u * e * e); }
        auto p = std::make_shared<sd::PowerLaw>(g, j.edges.front(), j.edges.back()); j.d = p;
        byedges();
        for(auto const & r : ga(c, "r").GetArray()) { double e = r.GetDouble() * r.GetDouble() * u; j.pts.push_back(edens(e) * e); pat.push_back(std::to_string(r.GetInt())); }
        outside(j.edges.front() * 0.999); outside(j.edges.back() * 1.001); outside(j.edges.back() * 100); outside(j.edges.front() / 50);
        // the normalization is the one requested at the requested energy
        double e = j.edges.front() * 1.5; p->SetNormalizationAtEnergy(7, e); j.norm = p->IsNormalizationSet() && std::fabs(p->GetNormalization() * edens(e) - 7) < 1e-9;
    } else if(t == "pidar") {
        j.d = std::make_shared<sd::PiDARNuEDistribution>(); double m = siren::utilities::Constants::muonMass / 2;
        for(int k = 0; k <= 10; ++k) j.edges.push_back(m * k / 10);
        byedges();
        for(int k = 0; k <= 10; ++k) { j.pts.push_back(edens(m * k / 10) * m * k / 10); pat.push_back(std::to_string(k)); }
        outside(m * 1.001); outside(m * 3); outside(-0.001);
    } else if(t == "iso" || t == "cone") {
        Vector3D a = t == "cone" ? vec(c["d"]) : Z; double al = t == "cone" ? gi(c, "a") * M_PI / 180 : M_PI, ca = std::cos(al);
        if(t == "cone") j.d = std::make_shared<sd::Cone>(a, al); else j.d = std::make_shared<sd::IsotropicDirection>();
        Vector3D u = a, x, y; u.normalize(); frame(u, x, y);
        j.dir = true; j.nbins = 40;
        j.bin = [=](double, Vector3D const & v) { double w = siren::math::scalar_product(u, v); double f = (1 - w) / (1 - ca); if(f > 1 + 1e-9) return -1; double ph = std::atan2(siren::math::scalar_product(y, v), siren::math::scalar_product(x, v)) + M_PI; return std::min(4, int(f * 5)) * 8 + std::min(7, int(ph / (2 * M_PI) * 8)); };
        j.dens = [=, &j](int k) { int i = k / 8, p = k % 8, m = 10; double s = 0; for(int q = 0; q < m; ++q) for(int r = 0; r < m; ++r) s += gp(*j.d, event(3, polar(u, 1 - (1 - ca) * (i + (q + .5) / m) / 5, 2 * M_PI * (p + (r + .5) / m) / 8 + M_PI))); return s / (m * m) * (1 - ca) / 5 * 2 * M_PI / 8; };
        for(int k = 0; k < 6; ++k) { j.pts.push_back(gp(*j.d, event(3, polar(u, 1 - (1 - ca) * (0.02 + k * 0.19), k)))); pat.push_back("0"); }
        if(al < 3) for(double f : {1.001, 1.2}) for(double ph : {0., 2., 4.}) { double w = 1 - (1 - ca) * f; if(w > -1) j.out = std::max(j.out, gp(*j.d, event(3, polar(u, w, ph)))); }
    } else if(t == "flux") {
        auto x = gdv(c, "x"), f = gdv(c, "f"); double lo = gi(c, "lo") / 4.0, hi = gi(c, "hi") / 4.0; bool rom = gb(d, "rom"), phys = gb(d, "phys"); std::string how = gs(d, "how");
        std::shared_ptr<sd::TabulatedFluxDistribution> p;
        std::string fn = "flux" + std::to_string((size_t)&j) + ".txt";
        if(how == "file") { std::ofstream s(fn); s << "# energy flux\n\n"; for(size_t i = 0; i < x.size(); ++i) s << "  " << x[i] << "\t" << f[i] << (i % 2 ? " # row" : "") << "\n"; }
        if(how == "file") p = gb(c, "b") ? std::make_shared<sd::TabulatedFluxDistribution>(lo, hi, fn, phys, rom) : std::make_shared<sd::TabulatedFluxDistribution>(fn, phys, rom);
        else if(how == "set") { p = std::make_shared<sd::TabulatedFluxDistribution>(x, f, phys, rom); p->SetEnergyBounds(lo, hi); }
        else if(how == "reset") { p = std::make_shared<sd::TabulatedFluxDistribution>(x, f, phys, rom); p->SetEnergyBounds(lo, (lo + hi) / 2); p->SetEnergyBounds(lo, hi); }
        else p = gb(c, "b") ? std::make_shared<sd::TabulatedFluxDistribution>(lo, hi, x, f, phys, rom) : std::make_shared<sd::TabulatedFluxDistribution>(x, f, phys, rom);
        if(how == "file") std::remove(fn.c_str());
        j.d = p; if(how == "clone") j.d = p->clone();
        j.edges.push_back(lo); for(double v : x) if(v > lo && v < hi) j.edges.push_back(v); j.edges.push_back(hi);
        byedges();
        for(long q = gi(c, "lo"); q <= gi(c, "hi"); ++q) { j.pts.push_back(edens(q / 4.0)); pat.push_back(std::to_string(q)); }
        outside(lo - 0.01); outside(hi + 0.01); outside(hi + 50);
        if(how != "set" && how != "reset") j.norm = p->IsNormalizationSet() == phys && (!phys || std::fabs(p->GetNormalization() - p->GetIntegral()) < 1e-12);
        // the reported cumulative distribution: its nodes, its values, and their inverse
        auto cn = p->GetCDFEnergyNodes(), cv = p->GetCDF(); auto en = p->GetEnergyNodes();
        j.cdf = en == x && cn.size() == cv.size() && cn.size() >= 2 && cv.front() == 0 && std::fabs(cv.back() - 1) < 1e-9 && std::is_sorted(cn.begin(), cn.end()) && std::is_sorted(cv.begin(), cv.end());
        for(size_t k = 1; j.cdf && k < cn.size(); ++k) { if(cn[k] > hi + 1e-9 || cn[k] < lo) j.cdf = false; double s = integrate(lo, cn[k]); if(std::fabs(s - cv[k]) > 2e-3) j.cdf = false; if(std::fabs(p->InverseCDF((cv[k] + cv[k-1]) / 2) - (cn[k] + cn[k-1]) / 2) > 1e-6 && cv[k] - cv[k-1] > 1e-6) j.cdf = false; }
    } else if(t == "fluxl") {
        std::vector<double> x, f; for(int k = 0; k <= gi(c, "n"); ++k) { x.push_back(std::exp2(k)); f.push_back(1 / x.back()); }
        j.d = std::make_shared<sd::TabulatedFluxDistribution>(x, f, false); for(int k = 0; k <= 2 * gi(c, "n"); ++k) j.edges.push_back(std::exp2(k / 2.0)); byedges(); outside(x.back() + 1); outside(x[0] - 0.1);
    } else if(t == "flux2" || t == "flux2l") {
        std::vector<double> e, z, f, x; bool lg = t == "flux2l";
        if(lg) { int s = gi(c, "s"); for(int k = 0; k <= gi(c, "n"); ++k) x.push_back(std::exp2(k)); for(double v : x) for(int y = -1; y <= 1; ++y) { e.push_back(v); z.push_back(y); f.push_back(std::pow(v, s)); } }
        else { x = gdv(c, "x"); for(int i = 0; i < 3; ++i) for(int y = 0; y < 3; ++y) { e.push_back(x[i]); z.push_back(y - 1); f.push_back(c["f"][i][y].GetDouble()); } }
        bool phys = gb(d, "phys"); std::string how = gs(d, "how"); std::string fn = "flux2" + std::to_string((size_t)&j) + ".txt";
        std::shared_ptr<sd::Tabulated2DFluxDistribution> p;
        if(how == "file") { { std::ofstream s(fn); s << "# e cz f\n\n"; for(size_t i = 0; i < e.size(); ++i) s << " " << e[i] << " " << z[i] << "\t" << f[i] << "\n"; } p = std::make_shared<sd::Tabulated2DFluxDistribution>(fn, phys); std::remove(fn.c_str()); }
        else if(how == "set") { p = std::make_shared<sd::Tabulated2DFluxDistribution>(e, z, f, phys); p->SetCosZenithBounds(-1, 0); p->SetEnergyBounds(x[0], x[1]); p->SetCosZenithBounds(-1, 1); p->SetEnergyBounds(x[0], x.back()); }
        else if(how == "bounds") p = std::make_shared<sd::Tabulated2DFluxDistribution>(x[0], x.back(), -1.0, 1.0, e, z, f, phys);
        else p = std::make_shared<sd::Tabulated2DFluxDistribution>(e, z, f, phys);
        j.d = p; if(how == "clone") j.d = p->clone();
        j.norm = p->IsNormalizationSet() == phys && (!phys || std::fabs(p->GetNormalization() - p->GetIntegral()) < 1e-12 || how == "set") && p->GetEnergyNodes() == e && p->GetCosZenithNodes() == z;
        j.energy = j.dir = true; j.nbins = 2 * (x.size() - 1);
        j.bin = [=](double E, Vector3D const & v) { int k = find(x, E); if(k < 0) return -1; return 2 * k + (v.GetZ() < 0 ? 0 : 1); };
        auto den = [=, &j](double E, double w) { return gp(*j.d, event(E, polar(Z, w, E))); };
        j.dens = [=](int k) { int m = 60; double s = 0; int i = k / 2; double a = x[i], b = x[i+1], y0 = k % 2 ? 0 : -1; for(int q = 0; q < m; ++q) for(int r = 0; r < m; ++r) s += den(a + (b - a) * (q + .5) / m, y0 + (r + .5) / m); return s / (m * m) * (b - a); };
        if(!lg) for(int qx = 4 * x[0]; qx <= 4 * x[2]; ++qx) for(int qy = -4; qy <= 4; ++qy) { j.pts.push_back(den(qx / 4.0, qy / 4.0 * (1 - 1e-12))); pat.push_back("[" + std::to_string(qx) + "," + std::to_string(qy) + "]"); }
        j.out = std::max({den(x.back() * 1.001, .3), den(x[0] - .001, -.3), den(x.back() + 50, .3)});
    } else if(t == "expo" || t == "moyal") {
        Moyal m;
        if(t == "expo") { double l = gi(c, "u") == 0 ? 1 : 40; m = {0, l * std::log(2.0) * gi(c, "n"), 1, 1, 0, l, 3}; for(int k = 0; k <= gi(c, "n"); ++k) j.edges.push_back(l * std::log(2.0) * k); }
        else { Moyal ms[] = {{0, 6, 1, 1, 1, 1, 0}, {0.5, 8, 2, 1.5, 2, 3, 1}, {1, 20, 5, 4, 1, 10, 0.5}, {0, 3, -1, 2, 1.5, 1, 2}}; m = ms[gi(c, "m") - 1];
               double tot = m.cum(m.hi); j.edges.push_back(m.lo); for(int k = 1; k < 10; ++k) { double a = m.lo, b = m.hi; for(int s = 0; s < 80; ++s) { double h = (a + b) / 2; if(m.cum(h) < tot * k / 10) a = h; else b = h; } j.edges.push_back(a); } j.edges.push_back(m.hi); }
        bool phys = gb(d, "phys");
        auto p = std::make_shared<sd::ModifiedMoyalPlusExponentialEnergyDistribution>(m.lo, m.hi, m.mu, m.sg, m.A, m.l, m.B, phys); j.d = p;
        j.norm = p->IsNormalizationSet() == phys && (!phys || std::fabs(p->GetNormalization() / m.cum(m.hi) - 1) < 1e-5);
        n = std::min(n, 60000L); o = Obj(); o.raw("c", js(c)).i("n", n);
        byedges();
        outside(m.hi * 1.001); outside(m.lo - 0.001); outside(m.hi * 30);
    }
    auto rnd = std::make_shared<siren::utilities::SIREN_random>(gi(d, "seed"));
    std::vector<long> cnt(j.nbins, 0); long rest = 0, zero = 0; bool unit = true;
    for(long k = 0; k < n; ++k) {
        dc::PrimaryDistributionRecord rec(dc::ParticleType::NuMu);
        j.d->Sample(rnd, nullptr, nullptr, rec);
        double E = j.energy ? rec.GetEnergy() : 3; Vector3D v = Z;
        if(j.dir) { auto const & a = rec.GetDirection(); v = Vector3D(a[0], a[1], a[2]); if(std::fabs(v.magnitude() - 1) > 1e-9) unit = false; }
        int b = j.bin(E, v); if(b < 0) ++rest; else ++cnt[b];
        double g = gp(*j.d, event(E, v)); if(!(g > 0) || !std::isfinite(g)) ++zero;
    }
    o.raw("cnt", arr(cnt, [](long v) { return std::to_string(v); })).i("rest", rest).i("zero", zero).b("unit", unit).b("norm", j.norm).b("cdf", j.cdf).i("out", fx(j.out, 1e6));
    std::string s = "["; for(int k = 0; k < j.nbins; ++k) s += (k ? "," : "") + std::to_string(fx(j.dens(k), 1e4)); o.raw("dens", s + "]");
    o.raw("at", arr(pat, [](std::string const & v) { return v; })).raw("pts", arr(j.pts, [](double v) { return std::to_string(fx(v, 1e4)); }));
    return o.done();
}
int main(int argc, char ** argv) {
    Script sc(argc, argv);
    size_t n = sc.lines.size(); std::vector<std::string> out(n); std::mutex mx; size_t next = 0;
    auto work = [&]() { while(true) { size_t k; { std::lock_guard<std::mutex> g(mx); if(next >= n) return; k = next++; } rj::Document d; parse(d, sc.lines[k]); out[k] = run(d); } };
    std::vector<std::thread> th; for(int i = 0; i < 8; ++i) th.emplace_back(work); for(auto & t : th) t.join();
    for(auto const & s : out) sc.emit(s);
}
