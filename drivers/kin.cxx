// Drives the decays and cross sections that need no external tables (K01, K02).
// SRC: projects/dataclasses/ projects/serialization/ projects/math/private/(Vector3D|Matrix3D|Quaternion|EulerAngles|Euler) projects/utilities/private/(Errors|Random|StringManip|Interpolator) detector/private/(MaterialModel|AtomicMasses) interactions/private/(CrossSection|Decay|Interaction|DummyCrossSection|ElasticScattering|ElectroweakDecay|HNLDecay|HNLDipoleDecay|HNLDipoleFromTable|DarkNewsCrossSection|CharmMesonDecay|CharmMesonDecay3Body)\.cxx
#include "vdrv.h"
#include <memory>
#include <algorithm>
#include <set>
#include <cereal/types/map.hpp>
#include <cereal/types/string.hpp>
#include <rk/rk.hh>
#include <rk/geom3.hh>
#include "SIREN/interactions/DummyCrossSection.h"
#include "SIREN/interactions/ElasticScattering.h"
#include "SIREN/interactions/ElectroweakDecay.h"
#include "SIREN/interactions/HNLDecay.h"
#include "SIREN/interactions/HNLDipoleDecay.h"
#include "SIREN/interactions/HNLDipoleFromTable.h"
#include "SIREN/interactions/DarkNewsCrossSection.h"
#include "SIREN/interactions/CharmMesonDecay.h"
#include "SIREN/interactions/CharmMesonDecay3Body.h"
#include "SIREN/dataclasses/InteractionRecord.h"
#include "SIREN/dataclasses/ParticleMasses.h"
#include "SIREN/utilities/Random.h"
using namespace siren; using namespace siren::dataclasses; using namespace vd;
typedef interactions::CrossSection XS; typedef interactions::Decay DEC;

static double M5(long long m) { return m * 1e-5; }
// Upscattering whose cross section comes from outside: between two fractions a, b of the kinematic range of Q2 it is E (1 + slope f) / range
struct Dark : interactions::DarkNewsCrossSection {
    double m1, m2, m3, m4, slope, a, b; bool wide;
    void lim(double E, double & lo, double & hi) const {
        double s = m1*m1 + m2*m2 + 2*E*m2, w = std::sqrt(s), e1 = (s + m1*m1 - m2*m2) / (2*w), e3 = (s + m3*m3 - m4*m4) / (2*w), p1 = std::sqrt(e1*e1 - m1*m1), p3 = std::sqrt(e3*e3 - m3*m3);
        lo = 2*(e1*e3 - p1*p3) - m1*m1 - m3*m3; hi = 2*(e1*e3 + p1*p3) - m1*m1 - m3*m3; }
    static bool known(ParticleType p, ParticleType t) { return ((int)p == 12 || (int)p == -14) && ((int)t == 1000060120 || (int)t == 1000010010); }
    double integral() const { return (b - a) + slope * (b*b - a*a) / 2; }
    using DarkNewsCrossSection::TotalCrossSection; using DarkNewsCrossSection::DifferentialCrossSection;
    double TotalCrossSection(ParticleType p, double E, ParticleType t) const override { return known(p, t) ? E * integral() : 0; }
    double DifferentialCrossSection(ParticleType p, ParticleType t, double E, double Q2) const override { double lo, hi; lim(E, lo, hi); double f = (Q2 - lo) / (hi - lo); return known(p, t) && f > a - 1e-6 && (wide || f < b + 1e-6) ? E * (1 + slope * f) / (hi - lo) : 0; }
    double InteractionThreshold(InteractionRecord const &) const override { return 0; }
    double Q2Min(InteractionRecord const & r) const override { double lo, hi; lim(r.primary_momentum[0], lo, hi); return lo + a * (hi - lo); }
    double Q2Max(InteractionRecord const & r) const override { double lo, hi; lim(r.primary_momentum[0], lo, hi); return lo + (wide ? 1.15 : b) * (hi - lo); }
    double TargetMass(ParticleType const &) const override { return m2; }
    std::vector<double> SecondaryMasses(std::vector<ParticleType> const &) const override { return {m3, m4}; }
    std::vector<double> SecondaryHelicities(InteractionRecord const & r) const override { return {-r.primary_helicity, r.target_helicity}; }
    std::vector<ParticleType> GetPossibleTargets() const override { return {(ParticleType)1000060120, (ParticleType)1000010010}; }
    std::vector<ParticleType> GetPossibleTargetsFromPrimary(ParticleType) const override { return GetPossibleTargets(); }
    std::vector<ParticleType> GetPossiblePrimaries() const override { return {(ParticleType)12, (ParticleType)-14}; }
    std::vector<InteractionSignature> GetPossibleSignatures() const override { std::vector<InteractionSignature> r; for(auto p : GetPossiblePrimaries()) for(auto t : GetPossibleTargets()) for(auto & s : GetPossibleSignaturesFromParents(p, t)) r.push_back(s); return r; }
    std::vector<InteractionSignature> GetPossibleSignaturesFromParents(ParticleType p, ParticleType t) const override { if(!known(p, t)) return {}; InteractionSignature s; s.primary_type = p; s.target_type = t; s.secondary_types = {(ParticleType)((int)p > 0 ? 5914 : -5914), t}; return {s}; }
};
struct Proc { std::shared_ptr<Dark> dark; std::shared_ptr<XS> xs; std::shared_ptr<DEC> dec; std::shared_ptr<interactions::HNLDipoleFromTable> tab; };
static std::vector<double> coup(JV const & c) { std::vector<double> r; for(auto const & x : ga(c, "c").GetArray()) r.push_back(x.GetInt64() / 100.); return r; }
static std::set<ParticleType> prims(JV const & c) { std::set<ParticleType> r; for(auto const & x : ga(c, "ps").GetArray()) r.insert((ParticleType)x.GetInt64()); return r; }

static Proc make(JV const & c, std::vector<double> cp, bool flip = false) {
    std::string k = gs(c, "k"); Proc p;
    bool maj = gb(c, "maj") != flip;
    double M = M5(gi(c, "M"));
    auto ps = prims(c);
    if(k == "dipole") {
        auto n = maj ? interactions::HNLDipoleDecay::Majorana : interactions::HNLDipoleDecay::Dirac;
        p.dec = ps.empty() ? std::make_shared<interactions::HNLDipoleDecay>(M, cp, n) : std::make_shared<interactions::HNLDipoleDecay>(M, cp, n, ps);
    } else if(k == "hnl") {
        auto n = maj ? interactions::HNLDecay::Majorana : interactions::HNLDecay::Dirac;
        p.dec = ps.empty() ? std::make_shared<interactions::HNLDecay>(M, cp, n) : std::make_shared<interactions::HNLDecay>(M, cp, n, ps);
    } else if(k == "ew") p.dec = ps.empty() ? std::make_shared<interactions::ElectroweakDecay>(std::set<ParticleType>{ParticleType::WPlus, ParticleType::WMinus, ParticleType::Z0}) : std::make_shared<interactions::ElectroweakDecay>(ps);
    else if(k == "charm") p.dec = std::make_shared<interactions::CharmMesonDecay>();
    else if(k == "charm3") p.dec = std::make_shared<interactions::CharmMesonDecay3Body>();
    else if(k == "elastic") p.xs = ps.empty() ? std::make_shared<interactions::ElasticScattering>() : std::make_shared<interactions::ElasticScattering>(ps);
    else if(k == "dummy") p.xs = std::make_shared<interactions::DummyCrossSection>();
    else if(k == "dark") { p.dark = std::make_shared<Dark>(); p.xs = p.dark; p.dark->m1 = M5(gi(c, "pm")); p.dark->m2 = M5(gi(c, "tm")); p.dark->m3 = M; p.dark->m4 = p.dark->m2 + (gb(c, "inel") ? 0.1 : 0); p.dark->slope = gi(c, "slope"); p.dark->wide = gb(c, "z"); p.dark->a = 0.2; p.dark->b = gb(c, "z") ? 1.0 : 0.9; }
    else if(k == "table") {
        auto ch = maj ? interactions::HNLDipoleFromTable::Flipping : interactions::HNLDipoleFromTable::Conserving;
        bool z = gb(c, "z"), inv = gb(c, "inv"), inel = gb(c, "inel");
        p.tab = ps.empty() ? std::make_shared<interactions::HNLDipoleFromTable>(M, cp[0], ch, z, inv, inel) : std::make_shared<interactions::HNLDipoleFromTable>(M, cp[0], ch, z, inv, inel, ps);
        double slope = gi(c, "slope");
        // dsigma/dy = 1 + slope * v on the target, 2 on the proton; total 3 + E on the target, 5 on the proton
        auto t2 = [&](double a, double b) { utilities::TableData2D<double> t; for(double e = 0.5; e < 50.1; e += 0.5) for(double v : {0.0, 0.25, 0.5, 0.75, 1.0}) { t.x.push_back(e); t.y.push_back(v); t.f.push_back(a + b * v); } return utilities::Interpolator2D<double>(t); };
        auto t1 = [&](double a, double b) { utilities::TableData1D<double> t; for(double e = 0.5; e < 50.1; e += 0.5) { t.x.push_back(e); t.f.push_back(a + b * e); } return utilities::Interpolator1D<double>(t); };
        p.tab->AddDifferentialCrossSection(ParticleType::HNucleus, t2(2, 0)); p.tab->AddTotalCrossSection(ParticleType::HNucleus, t1(5, 0));
        for(auto tg : {ParticleType::C12Nucleus, ParticleType::Ar40Nucleus}) { p.tab->AddDifferentialCrossSection(tg, t2(1, slope)); p.tab->AddTotalCrossSection(tg, t1(3, 1)); }
        p.xs = p.tab;
    } else { std::fprintf(stderr, "unknown kind %s\n", k.c_str()); std::exit(3); }
    return p;
}
// the range of y for a massless particle of energy E that turns into one of mass m off a target of mass t at rest: from the centre-of-mass frame
static void yrange(double E, double m, double t, double & lo, double & hi) {
    double s = t*t + 2*E*t, w = std::sqrt(s), e4 = (s + t*t - m*m) / (2*w), p = std::sqrt(std::max(0., e4*e4 - t*t)), g = (E + t) / w, b = E / (E + t);
    lo = (g * (e4 - b*p) - t) / E; hi = (g * (e4 + b*p) - t) / E;
}
static const double DIRS[8][3] = {{0,0,1},{0,0,-1},{1,0,0},{-1,0,0},{0,1,0},{0,-1,0},{0.48,-0.6,0.64},{-0.36,0.48,-0.8}};

static InteractionRecord initial(JV const & c) {
    InteractionRecord r;
    r.signature.primary_type = (ParticleType)gi(c, "p"); r.signature.target_type = (ParticleType)gi(c, "t");
    for(auto const & x : ga(c, "s").GetArray()) r.signature.secondary_types.push_back((ParticleType)x.GetInt64());
    double m = M5(gi(c, "pm")), mom = M5(gi(c, "mom")) * gi(c, "x"); int d = gi(c, "dir");
    double e = std::sqrt(m * m + mom * mom);
    r.primary_mass = m; r.primary_momentum = {e, mom * DIRS[d][0], mom * DIRS[d][1], mom * DIRS[d][2]};
    r.primary_helicity = gi(c, "h") / 2.0; r.target_mass = gi(c, "t") == 11 ? GetParticleMass(ParticleType::EMinus) : M5(gi(c, "tm")); r.target_helicity = 0.5;
    r.interaction_vertex = {1, 2, 3}; r.primary_initial_position = {0, 0, 0};
    r.secondary_momenta.resize(r.signature.secondary_types.size()); r.secondary_masses.resize(r.secondary_momenta.size()); r.secondary_helicities.resize(r.secondary_momenta.size());
    return r;
}
static bool finite4(std::array<double, 4> const & p) { for(double x : p) if(!std::isfinite(x)) return false; return true; }
static double mdot(std::array<double, 4> const & a, std::array<double, 4> const & b) { return a[0]*b[0] - a[1]*b[1] - a[2]*b[2] - a[3]*b[3]; }

static void sample(JV const & c, Obj & o) {
    Proc pr = make(c, coup(c)); std::string k = gs(c, "k");
    auto rnd = std::make_shared<utilities::SIREN_random>((unsigned)gi(c, "seed"));
    int n = gi(c, "n"), ns = ga(c, "s").Size(), xi = gi(c, "xi");
    InteractionRecord in = initial(c);
    double M = in.primary_mass; bool decay = (bool)pr.dec;
    double smin = 2, smax = -1; int thrown = 0, types = 0, prim = 0, fin = 0, neg = 0, skipped = 0; std::string what;
    double cons = 0, shell = 0, ydiff = 0; std::vector<double> mlo(ns, 1e30), mhi(ns, -1e30), elo(ns, 1e30), ehi(ns, -1e30);
    std::map<long long, long> mix; std::vector<long> azi(8, 0), bins(8, 0); std::vector<std::array<long long, 3>> ev; std::set<std::vector<long long>> hels; long long fspbad = 0;
    double ylo = 0, yhi = 1;
    std::array<double, 3> u = {DIRS[gi(c, "dir")][0], DIRS[gi(c, "dir")][1], DIRS[gi(c, "dir")][2]};
    std::array<double, 3> h = std::fabs(u[2]) < 0.9 ? std::array<double,3>{0,0,1} : std::array<double,3>{1,0,0};
    auto cross = [](std::array<double,3> a, std::array<double,3> b) { return std::array<double,3>{a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]}; };
    auto dot3 = [](std::array<double,3> a, std::array<double,3> b) { return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; };
    auto e1 = cross(u, h); double l1 = std::sqrt(dot3(e1, e1)); for(auto & x : e1) x /= l1; auto e2 = cross(u, e1);
    double E = in.primary_momentum[0];
    if(k == "elastic") yhi = 2*E/(2*E + 0.000511);
    if(k == "table") yrange(E, M5(gi(c, "M")), in.target_mass, ylo, yhi);
    std::map<long long, std::vector<long>> qb; // charm: q2 bins per hadron mass
    for(int j = 0; j < n; ++j) {
        InteractionRecord r = in;
        try {
            CrossSectionDistributionRecord cs(in);
            if(decay) pr.dec->SampleFinalState(cs, rnd); else pr.xs->SampleFinalState(cs, rnd);
            r = in; cs.Finalize(r);
        } catch(std::exception const & e) { ++thrown; what = e.what(); continue; }
        if(!(r.signature == in.signature) || (int)r.secondary_momenta.size() != ns || (int)r.secondary_masses.size() != ns || (int)r.secondary_helicities.size() != ns) { ++types; continue; }
        if(r.primary_momentum != in.primary_momentum || r.primary_mass != in.primary_mass || r.primary_helicity != in.primary_helicity || r.target_mass != in.target_mass) ++prim;
        if(k == "dummy") { // kinematically impossible pairs of x and y are outside the property
            double x = r.interaction_parameters["bjorken_x"], y = r.interaction_parameters["bjorken_y"];
            if(2*E*(1-y) < in.target_mass*x*y*1.0001) { ++skipped; continue; }
        }
        bool bad = false; for(int a = 0; a < ns; ++a) if(!finite4(r.secondary_momenta[a]) || !std::isfinite(r.secondary_masses[a]) || !std::isfinite(r.secondary_helicities[a])) bad = true;
        if(bad) { ++fin; continue; }
        std::array<double, 4> P = r.primary_momentum; if(!decay) P[0] += in.target_mass;
        std::array<double, 4> S = {0, 0, 0, 0}; std::vector<long long> hs;
        for(int a = 0; a < ns; ++a) {
            auto const & p = r.secondary_momenta[a]; double m = r.secondary_masses[a];
            if(p[0] < 0) ++neg;
            for(int b = 0; b < 4; ++b) S[b] += p[b];
            shell = std::max(shell, std::fabs(mdot(p, p) - m * m) / (P[0] * P[0]));
            mlo[a] = std::min(mlo[a], m); mhi[a] = std::max(mhi[a], m);
            double es = decay ? mdot(p, P) / (M * M) : p[0] / P[0]; elo[a] = std::min(elo[a], es); ehi[a] = std::max(ehi[a], es);
            hs.push_back(fx(r.secondary_helicities[a], 2));
        }
        hels.insert(hs);
        for(int b = 0; b < 4; ++b) cons = std::max(cons, std::fabs(S[b] - P[b]) / P[0]);
        ++mix[fx(r.secondary_masses[0], 1e5)];
        auto const & p0 = r.secondary_momenta[xi]; std::array<double,3> v = {p0[1], p0[2], p0[3]};
        double a1 = dot3(v, e1), a2 = dot3(v, e2);
        if(a1 != 0 || a2 != 0) { int b = (int)std::floor((std::atan2(a2, a1) / M_PI + 1) * 4); ++azi[std::min(7, std::max(0, b))]; }
        double var = 0, fsp = 0;
        try { fsp = decay ? pr.dec->FinalStateProbability(r) : pr.xs->FinalStateProbability(r); } catch(std::exception const & e) { ++fspbad; what = e.what(); continue; }
        if(k == "charm" || k == "charm3") {
            if(ns == 3) {
                std::array<double,4> q; for(int b = 0; b < 4; ++b) q[b] = P[b] - r.secondary_momenta[0][b];
                double q2 = mdot(q, q), ml = r.secondary_masses[1], mk = r.secondary_masses[0], lo = ml*ml, hi = (M-mk)*(M-mk);
                auto & w = qb[fx(mk, 1e5)]; w.resize(8, 0); ++w[std::min(7, std::max(0, (int)std::floor((q2 - lo) / (hi - lo) * 8)))];
                // the direction of the hadron in the rest frame is isotropic
                rk::P4 pD(geom3::Vector3(P[1], P[2], P[3]), M), pK(geom3::Vector3(p0[1], p0[2], p0[3]), r.secondary_masses[xi]);
                rk::P4 kr = pK.boost(pD.restBoost()); double pl = (kr.px()*u[0]+kr.py()*u[1]+kr.pz()*u[2]) / std::sqrt(kr.px()*kr.px()+kr.py()*kr.py()+kr.pz()*kr.pz()); var = pl;
                ++bins[std::min(7, std::max(0, (int)std::floor((pl + 1) * 4)))];
            }
        } else if(decay) {
            rk::P4 pD(geom3::Vector3(P[1], P[2], P[3]), M), pK(geom3::Vector3(p0[1], p0[2], p0[3]), r.secondary_masses[xi]);
            rk::P4 kr = pK.boost(pD.restBoost()); var = (kr.px()*u[0]+kr.py()*u[1]+kr.pz()*u[2]) / std::sqrt(kr.px()*kr.px()+kr.py()*kr.py()+kr.pz()*kr.pz());
            ++bins[std::min(7, std::max(0, (int)std::floor((var + 1) * 4)))];
        } else if(k == "dummy") {
            var = r.interaction_parameters["bjorken_y"]; ydiff = std::max(ydiff, std::fabs(var - (1 - r.secondary_momenta[0][0] / E)));
            ++bins[std::min(7, std::max(0, (int)std::floor(var * 8)))];
        } else if(k == "dark") {
            auto const & P1 = r.primary_momentum; std::array<double,4> q; for(int b = 0; b < 4; ++b) q[b] = P1[b] - p0[b];
            double lo, hi; pr.dark->lim(P1[0], lo, hi); var = (-mdot(q, q) - lo) / (hi - lo); fsp *= hi - lo;
            double z = (var - pr.dark->a) / (pr.dark->b - pr.dark->a); smin = std::min(smin, z); smax = std::max(smax, z);
            ++bins[std::min(7, std::max(0, (int)std::floor(z * 8)))];
        } else {
            int nu = gi(c, "nu"); var = 1 - r.secondary_momenta[nu][0] / E;
            ydiff = std::max(ydiff, std::fabs(var - r.interaction_parameters["bjorken_y"]));
            double z = (var - ylo) / (yhi - ylo); smin = std::min(smin, z); smax = std::max(smax, z); if(k == "table" && gb(c, "z")) var = z;
            ++bins[std::min(7, std::max(0, (int)std::floor(z * 8)))];
        }
        if(ev.size() < 12) ev.push_back({fx(var, 1e4), fx(fsp, 1e4), fx(r.secondary_masses[0], 1e5)});
    }
    auto ll = [](long long x){ return std::to_string(x); };
    o.i("thrown", thrown).str("what", what.substr(0, 80)).i("types", types).i("prim", prim).i("nonfinite", fin).i("negative", neg).i("skipped", skipped).i("fspthrown", fspbad)
     .i("cons", fx(cons, 1e9)).i("shell", fx(shell, 1e9)).i("ydiff", fx(ydiff, 1e9)).i("ylo", fx(ylo, 1e4)).i("yhi", fx(yhi, 1e4)).i("zlo", fx(smin, 1e4)).i("zhi", fx(smax, 1e4));
    std::vector<std::array<long long,4>> per; for(int a = 0; a < ns; ++a) per.push_back({fx(mlo[a], 1e5), fx(mhi[a], 1e5), fx(elo[a], 1e4), fx(ehi[a], 1e4)});
    o.raw("per", arr(per, [&](std::array<long long,4> const & x) { return arr(x, ll); }));
    std::vector<std::array<long long,2>> mx; for(auto const & x : mix) if(mx.size() < 8) mx.push_back({x.first, x.second});
    o.raw("mix", arr(mx, [&](std::array<long long,2> const & x) { return arr(x, ll); })).raw("azi", arr(azi, ll)).raw("bins", arr(bins, ll));
    o.raw("ev", arr(ev, [&](std::array<long long,3> const & x) { return arr(x, ll); })).raw("hels", arr(hels, [&](std::vector<long long> const & x) { return arr(x, ll); }));
    // charm: the shares the density gives to the same bins
    std::string qs = "["; bool first = true;
    for(auto const & w : qb) {
        double mk = w.first * 1e-5, ml = 0, lo, hi; double ex[8];
        for(double t : {0.497614, 0.493677, 0.89167, 0.547862, 0.95778, 1.019461}) if(std::llround(t * 1e5) == w.first) mk = t;
        InteractionRecord r = in; ml = (std::abs((int)in.signature.secondary_types[1]) == 11) ? 0.000511 : 0.105658374; lo = ml*ml; hi = (M-mk)*(M-mk);
        rk::P4 pD(geom3::Vector3(in.primary_momentum[1], in.primary_momentum[2], in.primary_momentum[3]), M);
        for(int b = 0; b < 8; ++b) { ex[b] = 0; const int K = 400; for(int s = 0; s < K; ++s) {
            double q2 = lo + (hi - lo) * (b + (s + 0.5) / K) / 8; double l = (M*M - (mk+std::sqrt(q2))*(mk+std::sqrt(q2))) * (M*M - (mk-std::sqrt(q2))*(mk-std::sqrt(q2)));
            double pk = std::sqrt(std::max(0., l)) / (2*M); rk::P4 kk(geom3::Vector3(0.6*pk, 0, 0.8*pk), mk); rk::P4 lab = kk.boost(pD.labBoost());
            r.secondary_masses = {mk, ml, 0}; r.secondary_momenta = {{lab.e(), lab.px(), lab.py(), lab.pz()}, {0,0,0,0}, {0,0,0,0}};
            double f = 0; try { f = pr.dec->FinalStateProbability(r); } catch(std::exception const &) { f = NAN; }
            ex[b] += f * (hi - lo) / 8 / K; } }
        if(!first) qs += ","; first = false;
        qs += Obj().i("m", w.first).raw("n", arr(w.second, ll)).raw("share", arr(std::vector<double>(ex, ex + 8), [&](double x) { return ll(fx(x, 1e4)); })).done();
    }
    o.raw("q2", qs + "]");
}

// Widths and signatures of a decay
static void width(JV const & c, Obj & o) {
    Proc pr = make(c, coup(c)), ref = make(c, {1, 1, 1}), oth = make(c, coup(c), true); InteractionRecord in = initial(c);
    double M = M5(gi(c, "M"));
    auto ll = [](long long x){ return std::to_string(x); };
    auto sigj = [&](InteractionSignature const & s) { return "[" + ll((int)s.primary_type) + "," + ll((int)s.target_type) + "," + arr(s.secondary_types, [&](ParticleType t) { return ll((int)t); }) + "]"; };
    o.raw("all", arr(pr.dec->GetPossibleSignatures(), sigj));
    std::string ps = "["; bool f1 = true;
    for(auto const & x : ga(c, "parents").GetArray()) {
        ParticleType p = (ParticleType)x.GetInt64(); if(!f1) ps += ","; f1 = false; Obj w; w.i("p", (int)p);
        std::vector<InteractionSignature> sg; bool threw = false; try { sg = pr.dec->GetPossibleSignaturesFromParent(p); } catch(std::exception const &) { threw = true; }
        w.b("threw", threw);
        double sum = 0; std::vector<std::string> rows; std::vector<double> ws; std::vector<long long> unit, ratio, len, nat;
        InteractionRecord r = in; r.signature.primary_type = p; double bg = std::sqrt(std::max(0., in.primary_momentum[0]*in.primary_momentum[0] - in.primary_mass*in.primary_mass)) / in.primary_mass;
        std::string k = gs(c, "k"); const double G = 1.16639e-5, pi = M_PI;
        double U = (k == "dipole") ? M*M*M/(4*pi) : (k == "hnl") ? G*G*M*M*M/(16*pi) : (k == "ew") ? 1 : 6.58211957e-25;
        for(auto const & s : sg) {
            r.signature = s; r.secondary_momenta.resize(s.secondary_types.size()); r.secondary_masses.resize(s.secondary_types.size());
            double a = NAN, b = NAN, d = NAN; try { a = pr.dec->TotalDecayWidth(r); b = ref.dec->TotalDecayWidth(r); d = oth.dec->TotalDecayWidth(r); } catch(std::exception const &) {}
            nat.push_back(a == 0 ? (d == 0 ? -1 : -2) : fx(d / a, 1e4));
            bool boson = false; for(auto t : s.secondary_types) if(k == "hnl" && (std::abs((int)t) == 24 || (int)t == 23)) boson = true;
            sum += a; ws.push_back(a); rows.push_back(sigj(s));
            unit.push_back(k == "charm" || k == "charm3" ? fx(a / U, 1e-6) : boson ? fx(a / (0.64*0.64*M*M*M / (64*pi*80.379*80.379)), 1e6) : fx(a / U, k == "dipole" ? 1e4 : 1e6)); ratio.push_back(b == 0 ? (a == 0 ? -1 : -2) : fx(a / b, 1e4));
            double L = pr.dec->TotalDecayLength(r); len.push_back(a == 0 ? (std::isinf(L) && L > 0 ? -1 : -2) : fx(L * a / (bg * 197.3e-18), 1e6));
        }
        std::vector<long long> share; for(double a : ws) share.push_back(sum == 0 ? (a == 0 ? 0 : -2) : fx(a / sum, 1e6));
        w.raw("sigs", arr(rows, [](std::string const & s) { return s; })).raw("unit", arr(unit, ll)).raw("ratio", arr(ratio, ll)).raw("len", arr(len, ll)).raw("nat", arr(nat, ll)).raw("share", arr(share, ll));
        long long ti = -3, ai = -3, li = -3; try { double t = pr.dec->TotalDecayWidth(p); ti = sum == 0 ? (t == 0 ? 1000000 : -2) : fx(t / sum, 1e6); r.signature.primary_type = p; double t2 = pr.dec->TotalDecayWidthAllFinalStates(r); ai = sum == 0 ? (t2 == 0 ? 1000000 : -2) : fx(t2 / sum, 1e6);
            double L = pr.dec->TotalDecayLengthAllFinalStates(r); li = sum == 0 ? (std::isinf(L) && L > 0 ? -1 : -2) : fx(L * sum / (bg * 197.3e-18), 1e6); } catch(std::exception const &) {}
        w.i("total", ti).i("allfinal", ai).i("lenall", li);
        ps += w.done();
    }
    o.raw("parents", ps + "]");
}
// A signature that may not be on the list: its width against the total of its parent
static void query(JV const & c, Obj & o) {
    Proc pr = make(c, coup(c)); InteractionRecord r = initial(c); long long w = -3;
    try { double t = pr.dec->TotalDecayWidth(r.signature.primary_type), a = pr.dec->TotalDecayWidth(r); w = a == 0 ? 0 : fx(a / t, 1e6); } catch(std::exception const &) {}
    o.i("w", w);
}
// Totals, differentials and signatures of a cross section
static void xsec(JV const & c, Obj & o) {
    Proc pr = make(c, coup(c)); std::string k = gs(c, "k"); InteractionRecord in = initial(c); double E = in.primary_momentum[0];
    auto ll = [](long long x){ return std::to_string(x); };
    auto sigj = [&](InteractionSignature const & s) { return "[" + ll((int)s.primary_type) + "," + ll((int)s.target_type) + "," + arr(s.secondary_types, [&](ParticleType t) { return ll((int)t); }) + "]"; };
    auto pl = [&](std::vector<ParticleType> const & v) { return arr(v, [&](ParticleType t) { return ll((int)t); }); };
    o.raw("all", arr(pr.xs->GetPossibleSignatures(), sigj)).raw("targets", pl(pr.xs->GetPossibleTargets())).raw("primaries", pl(pr.xs->GetPossiblePrimaries()));
    o.raw("tfp", pl(pr.xs->GetPossibleTargetsFromPrimary(in.signature.primary_type))).raw("sfp", arr(pr.xs->GetPossibleSignaturesFromParents(in.signature.primary_type, in.signature.target_type), sigj));
    double G = 1.16639e-5, s = 2*0.000511*E + 0.000511*0.000511;
    double U = k == "elastic" ? G*G*s/M_PI/2.568189461147501e27 : k == "dummy" ? 1/(1e8*6.0221415e23) : (k == "table" && gb(c, "inv")) ? 1/2.568189461147501e27 : 1;
    double sc = k == "table" || k == "dark" ? 1e3 : 1e6;
    long long tot = -3, all = -3, th = -3; std::string what;
    try { th = fx(pr.xs->InteractionThreshold(in), 1e5); } catch(std::exception const &) {}
    try { tot = fx(pr.xs->TotalCrossSection(in) / U, sc); } catch(std::exception const &) {}
    try { all = fx(pr.xs->TotalCrossSectionAllFinalStates(in) / U, sc); } catch(std::exception const &) {}
    o.i("tot", tot).i("allfinal", all).i("thr", th);
    // the differential at final states built by hand: y -> value
    std::vector<std::array<long long, 3>> rows; double ylo = 0, yhi = 1, m3 = 0;
    if(k == "elastic") yhi = 2*E/(2*E + 0.000511);
    if(k == "table") { m3 = M5(gi(c, "M")); yrange(E, m3, in.target_mass, ylo, yhi); }
    int nu = gi(c, "nu");
    for(double f : {0.05, 0.25, 0.5, 0.75, 0.95}) {
        double y = ylo + f * (yhi - ylo); InteractionRecord r = in; double e3 = E * (1 - y), p3 = std::sqrt(std::max(0., e3*e3 - m3*m3));
        double ct = std::min(1., std::max(-1., (k == "table") ? (e3 - in.target_mass*y - m3*m3/(2*E)) / p3 : 1 - in.target_mass * y / e3));
        double st = std::sqrt(1 - ct*ct); std::array<double,3> u = {DIRS[gi(c,"dir")][0], DIRS[gi(c,"dir")][1], DIRS[gi(c,"dir")][2]};
        std::array<double,3> h = std::fabs(u[2]) < 0.9 ? std::array<double,3>{0,0,1} : std::array<double,3>{1,0,0}; std::array<double,3> w = {u[1]*h[2]-u[2]*h[1], u[2]*h[0]-u[0]*h[2], u[0]*h[1]-u[1]*h[0]}; double lw = std::sqrt(w[0]*w[0]+w[1]*w[1]+w[2]*w[2]);
        std::array<double,4> a, b; a[0] = e3; for(int i = 0; i < 3; ++i) a[i+1] = p3 * (ct*u[i] + st*w[i]/lw); b[0] = E + in.target_mass - e3; for(int i = 1; i < 4; ++i) b[i] = in.primary_momentum[i] - a[i];
        r.secondary_momenta.resize(2); r.secondary_masses.resize(2); r.secondary_momenta[nu] = a; r.secondary_momenta[1-nu] = b; r.secondary_masses[nu] = m3; r.secondary_masses[1-nu] = in.target_mass;
        double jac = 1, shown = y;
        if(k == "dark") { // the same two bodies at a momentum transfer of choice
            double lo, hi; pr.dark->lim(E, lo, hi); shown = pr.dark->a + f * (pr.dark->b - pr.dark->a); double Q2 = lo + shown * (hi - lo), m1 = pr.dark->m1, m2 = pr.dark->m2, m4 = pr.dark->m4; m3 = pr.dark->m3; jac = hi - lo;
            e3 = E + m2 - (Q2 + m2*m2 + m4*m4) / (2*m2); p3 = std::sqrt(e3*e3 - m3*m3); double p1 = std::sqrt(E*E - m1*m1); ct = std::min(1., (E*e3 - 0.5*(Q2 + m1*m1 + m3*m3)) / (p1*p3)); st = std::sqrt(1 - ct*ct);
            a[0] = e3; for(int i = 0; i < 3; ++i) a[i+1] = p3 * (ct*u[i] + st*w[i]/lw); b[0] = E + m2 - e3; for(int i = 1; i < 4; ++i) b[i] = in.primary_momentum[i] - a[i];
            r.secondary_momenta[0] = a; r.secondary_momenta[1] = b; r.secondary_masses = {m3, m4}; }
        long long v = -3, fsp = -3; try { v = fx(pr.xs->DifferentialCrossSection(r) * jac / U, sc); } catch(std::exception const & e) { what = e.what(); }
        try { fsp = fx(pr.xs->FinalStateProbability(r) * jac, 1e4); } catch(std::exception const &) {}
        rows.push_back({fx(shown, 1e4), v, fsp});
    }
    o.raw("diff", arr(rows, [&](std::array<long long,3> const & x) { return arr(x, ll); })).i("ylo", fx(ylo, 1e4)).i("yhi", fx(yhi, 1e4));
}
int main(int argc, char ** argv) {
    Script sc(argc, argv);
    std::streambuf * old = std::cout.rdbuf(); std::ostringstream sink; std::cout.rdbuf(sink.rdbuf());
    for(auto const & l : sc.lines) {
        rj::Document d; parse(d, l); Obj o; o.raw("c", l); std::string op = gs(d, "op");
        try { if(op == "sample") sample(d, o); else if(op == "width") width(d, o); else if(op == "query") query(d, o); else xsec(d, o); o.b("failed", false); }
        catch(std::exception const & e) { o.b("failed", true).str("why", e.what()); }
        sc.emit(o.done()); sink.str("");
    }
    std::cout.rdbuf(old);
}
