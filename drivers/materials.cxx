// Material models: definition, redefinition, files, queries, nuclear masses (M02).
// SRC: projects/serialization/ projects/utilities/private/(Errors|StringManip) projects/dataclasses/private/Particle detector/private/(MaterialModel|AtomicMasses)
#include "vdrv.h"
#include <memory>
#include <list>
#include <unistd.h>
#include <sys/stat.h>
#include "SIREN/detector/MaterialModel.h"
using namespace vd; using namespace siren::detector; typedef siren::dataclasses::ParticleType PT;
static inline std::string js(JV const & v) { rj::StringBuffer b; rj::Writer<rj::StringBuffer> w(b); v.Accept(w); return b.GetString(); }
template<class O, class I> static MaterialModel reload(MaterialModel const & d) { std::stringstream ss; { O a(ss); a(cereal::make_nvp("d", d)); } MaterialModel r; { I a(ss); a(cereal::make_nvp("d", r)); } return r; }
static const double NA = 6.02214e23;
static std::vector<int> probe = {1000010010, 1000010020, 1000060120, 1000070140, 1000080160, 1000130270, 1000140280, 1000180400, 1000260560, 1000822080, 2112, 2212, 2000002112, 11, 1000020040};
static std::string ints(std::vector<long long> const & v) { return arr(v, [](long long x) { return std::to_string(x); }); }
static std::string dir;
static int salt = 0;
static std::string write(JV const & l, int v, bool cut = false) {
    std::string f = dir + "/m" + std::to_string(salt) + (v % 2 ? ".dat" : ".txt"); std::ofstream o(f); const char * sep = v % 3 == 0 ? " " : v % 3 == 1 ? "   " : "\t";
    o << "# materials\n"; if(v % 5 == 1) o << "\n   an indented line\n";
    for(unsigned i = 0; i < l.Size(); ++i) {
        o << gs(l[i], "n") << sep << l[i]["q"].Size() + (cut ? 1 : 0) << (v % 4 == 1 ? " # its components" : "") << "\n";
        for(auto const & q : l[i]["q"].GetArray()) { if(v % 7 == 3) o << "\n# a component\n\tindented\n"; o << q[0].GetInt() << sep << q[1].GetInt() / 1000.0 << ((v % 6 == 2 && i + 1 == l.Size() && &q == &*(l[i]["q"].End() - 1)) ? "" : "\n"); }
        if(v % 5 == 2) o << "\n";
    }
    return f;
}
static std::string state(MaterialModel & m, bool refused) {
    Obj o; o.b("refused", refused); int n = 0; while(m.HasMaterial(n)) ++n;
    o.i("n", n).b("hasNext", m.HasMaterial(n + 1)).b("hasNeg", m.HasMaterial(-1)).b("hasNone", m.HasMaterial(std::string("none")) || m.HasMaterial(std::string("")));
    std::vector<std::string> names = {"A", "B", "ROCK"};
    o.raw("ids", arr(names, [&](std::string const & s) { Obj p; p.str("n", s); if(m.HasMaterial(s)) p.i("id", m.GetMaterialId(s)); else { bool threw = false; try { m.GetMaterialId(s); } catch(std::exception const &) { threw = true; } p.i("id", threw ? -1 : -2); } return p.done(); }));
    MaterialModel c(m); o.b("equal", c == m && m == c);
    std::vector<PT> ps; for(int p : probe) ps.push_back((PT)p);
    std::vector<int> ks; for(int k = 0; k < n; ++k) ks.push_back(k);
    auto toi = [](std::vector<PT> const & v) { std::vector<long long> r; for(auto p : v) r.push_back((int)p); return ints(r); };
    o.raw("mats", arr(ks, [&](int k) {
        Obj x; std::string nm = m.GetMaterialName(k); x.str("name", nm).b("hasId", m.HasMaterial(k)).b("hasName", m.HasMaterial(nm) && m.GetMaterialId(nm) == k);
        x.raw("targets", toi(m.GetMaterialTargets(k))).raw("constituents", toi(m.GetMaterialConstituents(k))).raw("probe", toi(ps));
        std::vector<double> a = m.GetTargetMassFraction(k, ps), b = m.GetTargetParticleFraction(k, ps), r = m.GetTargetRadiationFraction(k, ps);
        std::vector<PT> lp(ps.begin(), ps.end()); bool same = m.GetTargetMassFraction(k, lp.begin(), lp.end()) == a && m.GetTargetParticleFraction(k, lp.begin(), lp.end()) == b && m.GetTargetRadiationFraction(k, lp.begin(), lp.end()) == r;
        std::vector<long long> A, B, R, S; for(unsigned j = 0; j < ps.size(); ++j) { same = same && a[j] == m.GetTargetMassFraction(k, ps[j]) && b[j] == m.GetTargetParticleFraction(k, ps[j]); A.push_back(fx(a[j], 1e9)); B.push_back(fx(b[j] / NA, 1e9)); R.push_back(fx(r[j], 1e4)); }
        // some of the targets: the first nucleus, every other one, and the light particles
        std::vector<PT> t = m.GetMaterialTargets(k), some; for(unsigned j = 0; j < t.size(); j += 2) some.push_back(t[j]); if(std::find(some.begin(), some.end(), PT::EMinus) == some.end()) some.push_back(PT::EMinus); some.push_back((PT)1000020040);
        std::vector<double> rs = m.GetTargetRadiationFraction(k, some); for(double v : rs) S.push_back(fx(v, 1e4)); same = same && m.GetTargetRadiationFraction(k, some.begin(), some.end()) == rs;
        x.raw("share", ints(A)).raw("part", ints(B)).raw("radall", ints(R)).raw("some", toi(some)).raw("radsome", ints(S)).b("same", same).i("rad", fx(1 / m.GetMaterialRadiationLength(k), 1e7));
        return x.done(); }));
    return o.done();
}
int main(int argc, char ** argv) {
    Script sc(argc, argv); char t[] = "/tmp/vmat.XXXXXX"; dir = mkdtemp(t); mkdir((dir + "/materials").c_str(), 0700);
    for(auto const & line : sc.lines) {
        rj::Document d; parse(d, line); std::string g = gs(d, "g"); Obj o; o.str("g", g);
        if(g == "hist") {
            MaterialModel m; std::vector<std::string> st; int v = gi(d, "v");
            for(auto const & op : d["ops"].GetArray()) {
                std::string k = gs(op, "op"); ++salt; ++v; bool refused = false;
                try {
                    if(k == "add") { std::map<int, double> c; for(auto const & q : op["l"][0]["q"].GetArray()) c[q[0].GetInt()] = q[1].GetInt() / 1000.0; m.AddMaterial(gs(op["l"][0], "n"), c); }
                    else if(k == "file") {
                        std::string f = write(op["l"], v), base = f.substr(dir.size() + 1), stem = base.substr(0, base.size() - 4); bool dat = base.substr(base.size() - 3) == "dat"; int how = v % 4;
                        if(how == 0) m.AddModelFile(f); else if(how == 1) { m.SetPath(dir); m.AddModelFile(dat ? stem : base); }
                        else if(how == 2 && st.empty()) m = MaterialModel(dir, dat ? stem : base); else if(how == 2) m.AddModelFiles({f});
                        else { rename(f.c_str(), (dir + "/materials/" + base).c_str()); m.SetPath(dir); m.AddModelFiles({dat ? stem : base}); unlink((dir + "/materials/" + base).c_str()); }
                        unlink(f.c_str());
                    } else if(k == "binary") { MaterialModel c = reload<cereal::BinaryOutputArchive, cereal::BinaryInputArchive>(m); if(!(c == m)) refused = true; m = c; }
                    else if(k == "json") { MaterialModel c = reload<cereal::JSONOutputArchive, cereal::JSONInputArchive>(m); m = c; }
                    else { MaterialModel c(m); m = MaterialModel(); m = c; }
                } catch(std::exception const & e) { refused = true; }
                st.push_back(state(m, refused));
            }
            o.raw("ops", js(d["ops"])).raw("steps", arr(st, [](std::string const & s) { return s; }));
        } else if(g == "badfile") {
            ++salt; std::string f = write(d["l"], gi(d, "v"), true); bool r = false; alarm(20); try { MaterialModel m(f); } catch(std::exception const &) { r = true; } alarm(0); unlink(f.c_str()); o.b("refused", r);
        } else if(g == "special") {
            auto q = [&](PT p) { return ints({MaterialModel::GetProtonCount(p), MaterialModel::GetNeutronCount(p), MaterialModel::GetNucleonCount(p), MaterialModel::GetStrangeCount(p), fx(MaterialModel::GetMolarMass(p), 1e6)}); };
            o.raw("p", q(PT::PPlus)).raw("n", q(PT::Neutron)).raw("N", q(PT::Nucleon)).raw("e", q(PT::EMinus));
        } else {
            auto code = [](int L, int Z, int A, int I) { return (PT)(1000000000 + L * 10000000 + Z * 10000 + A * 10 + I); };
            std::vector<std::string> l; auto push = [&](int L, int Z, int A, int I) {
                PT p = code(L, Z, A, I); Obj x; x.i("L", L).i("Z", Z).i("A", A).i("s", MaterialModel::GetStrangeCount(p)).i("z", MaterialModel::GetProtonCount(p)).i("a", MaterialModel::GetNucleonCount(p)).i("n", MaterialModel::GetNeutronCount(p)).i("m", fx(MaterialModel::GetMolarMass(p), 1e6));
                auto tab = [&](int a) -> double { auto it = MaterialModel::atomic_masses.find(std::make_tuple(0, a - Z, Z, a)); return it == MaterialModel::atomic_masses.end() ? -1 : it->second; };
                double u = tab(A - 2), c = tab(A), w = tab(A + 2); if(L == 0 && u > 0 && w > 0 && c > 0) x.i("d", fx(u + w - 2 * c, 1e6)); else x.i("d", 2147483647);
                // difference to the mass formula
                if(L == 0 && c > 0 && A > 1) x.i("b", fx(c - ((A - Z) * 1.0086649159 + Z * 1.00782503189 - MaterialModel::GetEmpericalNuclearBindingEnergy(0, A - Z, Z, A) / 0.9314941024171441), 1e6)); else x.i("b", 0);
                l.push_back(x.done()); };
            int lo = gi(d, "lo"), hi = gi(d, "hi"); for(auto const & kv : MaterialModel::atomic_masses) { int Z = std::get<2>(kv.first), A = std::get<3>(kv.first); if(Z >= lo && Z <= hi && Z > 0) push(std::get<0>(kv.first), Z, A, (Z + A) % 3); }
            for(auto const & w : d["more"].GetArray()) push(w[0].GetInt(), w[1].GetInt(), w[2].GetInt(), 0);
            o.raw("l", arr(l, [](std::string const & s) { return s; }));
        }
        sc.emit(o.done());
    }
    rmdir((dir + "/materials").c_str()); rmdir(dir.c_str());
}
