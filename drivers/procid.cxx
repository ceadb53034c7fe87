// Drives equality and archiving of decays and cross sections (K04).
// SRC: projects/dataclasses/ projects/serialization/ projects/math/private/(Vector3D|Matrix3D|Quaternion|EulerAngles|Euler) projects/utilities/private/(Errors|Random|StringManip|Interpolator) detector/private/(MaterialModel|AtomicMasses) interactions/private/(CrossSection|Decay|Interaction|DummyCrossSection|ElasticScattering|ElectroweakDecay|HNLDecay|HNLDipoleDecay|HNLDipoleFromTable|CharmMesonDecay|CharmMesonDecay3Body)\.cxx
#include "vdrv.h"
#include <memory>
#include <set>
#include <fstream>
#include <functional>
#include <unistd.h>
#include <dirent.h>
#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include <cereal/types/memory.hpp>
#include <cereal/types/vector.hpp>
#include <cereal/types/map.hpp>
#include <cereal/types/string.hpp>
#include "SIREN/interactions/DummyCrossSection.h"
#include "SIREN/interactions/ElasticScattering.h"
#include "SIREN/interactions/ElectroweakDecay.h"
#include "SIREN/interactions/HNLDecay.h"
#include "SIREN/interactions/HNLDipoleDecay.h"
#include "SIREN/interactions/HNLDipoleFromTable.h"
#include "SIREN/interactions/CharmMesonDecay.h"
#include "SIREN/interactions/CharmMesonDecay3Body.h"
#include "SIREN/dataclasses/InteractionRecord.h"
#include "SIREN/utilities/Random.h"
using namespace siren; using namespace siren::dataclasses; using namespace vd; namespace in = siren::interactions;
struct P { std::shared_ptr<in::CrossSection> x; std::shared_ptr<in::Decay> d; bool operator==(P const & o) const { return x ? (o.x && *x == *o.x) : (o.d && *d == *o.d); } };
static std::string dir;
static std::string name(int Z, int A, double M, std::string suf, std::string pre) { char b[200]; std::snprintf(b, 200, "%s_Z_%d_A_%d_mHNL_%.5f%s.dat", pre.c_str(), Z, A, M, suf.c_str()); return dir + "/" + b; }
// a table file that is missing or named after another nucleus or mass
static void refuse(JV const & d, Obj & o) {
    int Z = gi(d, "Z"), A = gi(d, "A"); double M = gi(d, "m") * 1e-5, T = gi(d, "tm") * 1e-5; ParticleType tg = (ParticleType)gi(d, "t"); bool total = gb(d, "total");
    in::HNLDipoleFromTable x(T, 1, in::HNLDipoleFromTable::Conserving); std::string f = name(Z, A, M, gs(d, "suf"), total ? "xsec" : "dxsec");
    if(gb(d, "there")) { std::ofstream s(f); for(double e : {0.5, 1., 2.}) { if(total) s << e << " " << 3 * e << "\n"; else for(double y : {0., 1.}) s << e << " " << y << " " << 1 + y << "\n"; } }
    bool threw = false; try { if(total) x.AddTotalCrossSectionFile(f, tg); else x.AddDifferentialCrossSectionFile(f, tg); } catch(std::exception const &) { threw = true; }
    ::unlink(f.c_str()); o.b("threw", threw);
}
static void clear() { if(DIR * d = ::opendir(dir.c_str())) { while(dirent * e = ::readdir(d)) if(e->d_name[0] != '.') ::unlink((dir + "/" + e->d_name).c_str()); ::closedir(d); } }
static P make(JV const & c) {
    std::string k = gs(c, "k"); P p; double M = gi(c, "m") * 1e-5; bool n = gb(c, "n"); std::set<ParticleType> ps; for(auto const & x : ga(c, "ps").GetArray()) ps.insert((ParticleType)x.GetInt64());
    std::vector<double> cp; for(auto const & x : ga(c, "c").GetArray()) cp.push_back(x.GetInt64() / 100.); bool def = ps.empty(), one = cp.size() == 1;
    if(k == "dummy") p.x = std::make_shared<in::DummyCrossSection>();
    else if(k == "elastic") p.x = def ? std::make_shared<in::ElasticScattering>() : std::make_shared<in::ElasticScattering>(ps);
    else if(k == "ew") p.d = std::make_shared<in::ElectroweakDecay>(def ? std::set<ParticleType>{ParticleType::WPlus, ParticleType::WMinus, ParticleType::Z0} : ps);
    else if(k == "charm") p.d = std::make_shared<in::CharmMesonDecay>();
    else if(k == "charm3") p.d = std::make_shared<in::CharmMesonDecay3Body>();
    else if(k == "hnl") { auto t = n ? in::HNLDecay::Majorana : in::HNLDecay::Dirac;
        p.d = one ? (def ? std::make_shared<in::HNLDecay>(M, cp[0], t) : std::make_shared<in::HNLDecay>(M, cp[0], t, ps)) : (def ? std::make_shared<in::HNLDecay>(M, cp, t) : std::make_shared<in::HNLDecay>(M, cp, t, ps)); }
    else if(k == "dipole") { auto t = n ? in::HNLDipoleDecay::Majorana : in::HNLDipoleDecay::Dirac;
        p.d = one ? (def ? std::make_shared<in::HNLDipoleDecay>(M, cp[0], t) : std::make_shared<in::HNLDipoleDecay>(M, cp[0], t, ps)) : (def ? std::make_shared<in::HNLDipoleDecay>(M, cp, t) : std::make_shared<in::HNLDipoleDecay>(M, cp, t, ps)); }
    else { auto t = n ? in::HNLDipoleFromTable::Flipping : in::HNLDipoleFromTable::Conserving; bool z = ga(c, "f")[0].GetBool(), i = ga(c, "f")[1].GetBool(), l = ga(c, "f")[2].GetBool();
        auto q = def ? ((z && i && l) ? std::make_shared<in::HNLDipoleFromTable>(M, cp[0], t) : l ? std::make_shared<in::HNLDipoleFromTable>(M, cp[0], t, z, i) : std::make_shared<in::HNLDipoleFromTable>(M, cp[0], t, z, i, l))
                     : ((z && i && l) ? std::make_shared<in::HNLDipoleFromTable>(M, cp[0], t, ps) : l ? std::make_shared<in::HNLDipoleFromTable>(M, cp[0], t, z, i, ps) : std::make_shared<in::HNLDipoleFromTable>(M, cp[0], t, z, i, l, ps));
        for(auto const & r : ga(c, "t").GetArray()) { ParticleType tg = (ParticleType)r[0].GetInt64(); int v = r[1].GetInt64();
            utilities::TableData1D<double> a; utilities::TableData2D<double> b; for(double e = 0.25; e < 20; e *= 2) { a.x.push_back(e); a.f.push_back((v == 2 || v == 4 ? 2 : 1) * e); for(double y : {0., 0.5, 1.}) { b.x.push_back(e); b.y.push_back(y); b.f.push_back(v == 3 || v == 4 ? 2 + y : 1 + y); } }
            if(gb(c, "file")) { int Z = ((long long)tg / 10000) % 1000, A = ((long long)tg / 10) % 1000; std::string fa = name(Z, A, M, gs(c, "suf"), "xsec"), fb = name(Z, A, M, gs(c, "suf"), "dxsec"); std::ofstream oa(fa), ob(fb); oa.precision(17); ob.precision(17);
                oa << "# energy total\n\n"; ob << "   # energy y value\n\t\n"; for(size_t i = 0; i < a.x.size(); ++i) oa << (i % 2 ? "  " : "") << a.x[i] << (i % 3 ? "\t" : "  ") << a.f[i] << (i % 2 ? "  # note\n" : " \r\n"); for(size_t i = 0; i < b.x.size(); ++i) ob << b.x[i] << " " << b.y[i] << "\t" << b.f[i] << (i % 5 ? "\n" : "\n\n"); oa.close(); ob.close();
                q->AddTotalCrossSectionFile(fa, tg); q->AddDifferentialCrossSectionFile(fb, tg); ::unlink(fa.c_str()); ::unlink(fb.c_str()); }
            else { q->AddTotalCrossSection(tg, utilities::Interpolator1D<double>(a)); q->AddDifferentialCrossSection(tg, utilities::Interpolator2D<double>(b)); } }
        p.x = q; }
    return p;
}
// what a process answers: its signatures, and for each the total, differential and probability of a fixed final state, and a sampled one
static std::string ask(P const & p) {
    std::ostringstream o; o.precision(15); auto put = [&](std::function<double()> f) { try { o << f() << ","; } catch(std::exception const &) { o << "!,"; } };
    auto sig = [&](InteractionSignature const & s) { o << (int)s.primary_type << ":" << (int)s.target_type << ">"; for(auto t : s.secondary_types) o << (int)t << " "; };
    auto rec = [&](InteractionSignature const & s) { InteractionRecord r; r.signature = s; double m = std::abs((int)s.primary_type) < 20 ? 0 : p.d ? (std::abs((int)s.primary_type) == 24 ? 80.4 : (int)s.primary_type == 23 ? 91.2 : std::abs((int)s.primary_type) == 5914 ? 0.5 : 1.9) : 0;
        r.primary_mass = m; r.primary_momentum = {std::sqrt(m*m + 4), 0, 0, 2}; r.primary_helicity = 0.5; r.target_mass = 11; r.secondary_momenta.resize(s.secondary_types.size()); r.secondary_masses.resize(s.secondary_types.size()); r.secondary_helicities.resize(s.secondary_types.size()); return r; };
    auto rnd = std::make_shared<utilities::SIREN_random>(7);
    if(p.x) { for(auto t : p.x->GetPossibleTargets()) o << (int)t << ";"; for(auto t : p.x->GetPossiblePrimaries()) o << (int)t << ";"; for(auto const & s : p.x->GetPossibleSignatures()) { sig(s); auto r = rec(s); put([&] { return p.x->TotalCrossSection(r); }); put([&] { return p.x->InteractionThreshold(r); });
        try { CrossSectionDistributionRecord cs(r); p.x->SampleFinalState(cs, rnd); cs.Finalize(r); for(auto const & q : r.secondary_momenta) for(double v : q) o << v << " "; for(double v : r.secondary_helicities) o << v << " "; } catch(std::exception const &) { o << "!"; }
        put([&] { return p.x->DifferentialCrossSection(r); }); put([&] { return p.x->FinalStateProbability(r); }); } for(auto const & v : p.x->DensityVariables()) o << v; }
    else { for(auto const & s : p.d->GetPossibleSignatures()) { sig(s); auto r = rec(s); put([&] { return p.d->TotalDecayWidth(r); }); put([&] { return p.d->TotalDecayLength(r); });
        if(s.secondary_types.size() == 2) { try { CrossSectionDistributionRecord cs(r); p.d->SampleFinalState(cs, rnd); cs.Finalize(r); for(auto const & q : r.secondary_momenta) for(double v : q) o << v << " "; } catch(std::exception const &) { o << "!"; }
            put([&] { return p.d->DifferentialDecayWidth(r); }); } } for(auto const & v : p.d->DensityVariables()) o << v; }
    return o.str();
}
template<class OA> static std::string save(std::vector<P> const & v) { std::ostringstream ss; { OA oa(ss); for(auto const & p : v) { if(p.x) oa(p.x); else oa(p.d); } if(v[0].x) oa(v[0].x); else oa(v[0].d); oa(std::int64_t(424242)); } return ss.str(); }
template<class IA> static std::vector<P> load(std::string const & s, std::vector<P> const & like, bool & shared, bool & behind) {
    std::istringstream ss(s); IA ia(ss); std::vector<P> r; for(auto const & p : like) { P q; if(p.x) ia(q.x); else ia(q.d); r.push_back(q); }
    P q; if(like[0].x) { ia(q.x); shared = q.x == r[0].x; } else { ia(q.d); shared = q.d == r[0].d; }
    std::int64_t n = 0; ia(n); behind = n == 424242; return r;
}
int main(int argc, char ** argv) {
    Script sc(argc, argv); char tmp[] = "/tmp/procid.XXXXXX"; dir = ::mkdtemp(tmp);
    std::streambuf * old = std::cout.rdbuf(); std::ostringstream sink; std::cout.rdbuf(sink.rdbuf());
    for(auto const & l : sc.lines) {
        rj::Document d; parse(d, l); if(gs(d, "g") == "refuse") { Obj r; r.str("g", "refuse").raw("c", l); refuse(d, r); sc.emit(r.done()); sink.str(""); continue; } Obj o; o.str("g", gs(d, "g")); std::string op = gs(d, "g");
        { rj::StringBuffer b; rj::Writer<rj::StringBuffer> w(b); ga(d, "pool").Accept(w); o.raw("pool", b.GetString()); }
        auto bl = [](bool x) { return std::string(x ? "true" : "false"); };
        try {
            std::vector<P> v; for(auto const & x : ga(d, "pool").GetArray()) v.push_back(make(x));
            auto mat = [&](std::vector<P> const & a, std::vector<P> const & b) { std::vector<std::string> rows; for(auto const & p : a) { std::string r = "["; for(size_t i = 0; i < b.size(); ++i) r += (i ? "," : "") + bl(p == b[i]); rows.push_back(r + "]"); } return arr(rows, [](std::string const & s) { return s; }); };
            if(op == "pool") {
                std::map<std::string, int> ids; std::vector<int> ans; for(auto const & p : v) { std::string a = ask(p); auto it = ids.emplace(a, (int)ids.size()).first; ans.push_back(it->second); }
                o.raw("eq", mat(v, v)).raw("ans", arr(ans, [](int x) { return std::to_string(x); }));
            } else {
                bool sh = false, be = false, again = true; std::vector<P> r;
                if(gs(d, "fmt") == "json") { auto s = save<cereal::JSONOutputArchive>(v); r = load<cereal::JSONInputArchive>(s, v, sh, be); again = save<cereal::JSONOutputArchive>(r) == s; }
                else { auto s = save<cereal::BinaryOutputArchive>(v); r = load<cereal::BinaryInputArchive>(s, v, sh, be); again = save<cereal::BinaryOutputArchive>(r) == s; }
                std::vector<bool> eq, same; for(size_t i = 0; i < v.size(); ++i) { eq.push_back(v[i] == r[i] && r[i] == v[i]); same.push_back(ask(v[i]) == ask(r[i])); }
                o.raw("eq", arr(eq, bl)).raw("same", arr(same, bl)).b("shared", sh).b("behind", be).b("again", again).raw("cross", mat(r, v));
            }
            o.b("failed", false);
        } catch(std::exception const & e) { clear(); o.b("failed", true).str("why", e.what()); }
        sc.emit(o.done()); sink.str("");
    }
    std::cout.rdbuf(old); clear(); ::rmdir(dir.c_str());
}
