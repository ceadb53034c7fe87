// External event lists (D04).
// SRC: projects/dataclasses/ projects/serialization/ projects/math/private/(Vector3D|Matrix3D|Quaternion|EulerAngles|Euler) projects/utilities/private/(Errors|Random|StringManip|Interpolator) distributions/private/(Distributions|primary/(energy|direction|energy_direction|mass|helicity)/|primary/PrimaryExternal)
#include "mkdist.h"
#include <cereal/types/memory.hpp>
using namespace vd;
typedef std::shared_ptr<sd::PrimaryExternalDistribution> X;
static const std::map<std::string, int> BASE = {{"px",1},{"py",2},{"pz",2},{"E",5},{"m",4},{"t0",7},{"x0",3},{"y0",-1},{"z0",6},{"x",11},{"y",-4},{"z",8},{"w",13},{"X",-9},{"e",17}};
template<class A> static std::string va(A const & a) { return arr(a, [](double v) { return std::to_string(fx(v, 1)); }); }
template<class F> static std::string get(F f) { try { return f(); } catch(std::runtime_error const &) { return "[]"; } }
static std::string one(dc::PrimaryDistributionRecord const & r, std::vector<std::string> const & keys) {
    dc::InteractionRecord ir; 
    Obj o; o.raw("E", get([&]{ return va(std::vector<double>{r.GetEnergy()}); })).raw("m", get([&]{ return va(std::vector<double>{r.GetMass()}); })).raw("mom", get([&]{ return va(r.GetThreeMomentum()); }))
     .raw("x0", get([&]{ return va(r.GetInitialPosition()); })).raw("vtx", get([&]{ return va(r.GetInteractionVertex()); })).i("t0", fx(r.GetInitialTime(), 1));
    return o.done();
}
template<class O, class I> static X reload(X const & d) { std::stringstream ss; std::shared_ptr<sd::PrimaryInjectionDistribution> b = d; { O a(ss); a(cereal::make_nvp("d", b)); } std::shared_ptr<sd::PrimaryInjectionDistribution> r; { I a(ss); a(cereal::make_nvp("d", r)); } return std::dynamic_pointer_cast<sd::PrimaryExternalDistribution>(r); }
int main(int argc, char ** argv) {
    Script sc(argc, argv); int num = 0;
    for(auto const & line : sc.lines) {
        rj::Document d; parse(d, line); JV const & c = d["c"]; Obj o; o.raw("c", js(c)); std::string fn = "ev" + std::to_string(num++) + ".csv", sep = gs(d, "sep"); long n = gi(d, "n"); double emin = gi(c, "emin");
        std::vector<std::string> keys; for(auto const & k : ga(c, "keys").GetArray()) keys.push_back(k.GetString());
        std::string eol = sep == "crlf" ? "\r\n" : "\n", com = sep == "space" ? " , " : sep == "tab" ? ",\t" : ",", pre = sep == "space" ? "  " : "";
        { std::ofstream s(fn); s << pre; for(size_t i = 0; i < keys.size(); ++i) s << (i ? com : "") << keys[i]; s << eol;
          bool last = false; size_t q = 0, nr = ga(c, "rows").Size();
          for(auto const & r : ga(c, "rows").GetArray()) { ++q; last = q == nr && sep == "noeol"; std::string k = gs(r, "k"); int m = gi(r, "s");
            if(k == "blank") { s << eol; continue; } if(k == "hash") { s << (m == 1 ? "# 1,2,3" : "  #comment") << eol; continue; } if(k == "spaces") { s << " \t " << eol; continue; }
            size_t cols = keys.size() + (k == "long" ? m : 0) - (k == "short" ? 1 : 0); if(k == "padded") s << "  ";
            for(size_t i = 0; i < cols; ++i) { s << (i ? (k == "padded" ? " , " : com) : ""); if(k == "word" && i == cols - (m == 1 ? 1 : cols)) { s << "abc"; continue; } int v = i < keys.size() ? BASE.at(keys[i]) * m : 3; if(m % 2) s << v; else s << v << ".0e0"; }
            if(!last) s << eol; } }
        if(gb(c, "missing")) std::remove(fn.c_str());
        X x; bool threw = false, thr2 = false; try { x = emin == 0 && n % 2 ? std::make_shared<sd::PrimaryExternalDistribution>(fn) : std::make_shared<sd::PrimaryExternalDistribution>(fn, emin); } catch(std::exception const &) { threw = true; }
        o.b("threw", threw).i("n", n);
        if(!threw) {
            std::remove(fn.c_str());
            auto walk = [&](sd::PrimaryExternalDistribution const & y, long cnt, std::map<std::string, long> * h) { auto rnd = std::make_shared<siren::utilities::SIREN_random>(std::uint64_t(gi(d, "seed"))); std::string all;
                for(long k = 0; k < cnt; ++k) { dc::PrimaryDistributionRecord r(dc::ParticleType::NuMu); y.Sample(rnd, nullptr, nullptr, r);
                    std::string e = one(r, keys);
                    // the interaction parameters become visible in the finished record; complete what is missing
                    std::string fk = keys[0]; auto get1 = [&](std::function<void()> f) { try { f(); } catch(std::runtime_error const &) {} };
                    bool hm = true, hE = true, hp = true, hx = true, hv = true; try { r.GetMass(); } catch(std::runtime_error const &) { hm = false; } try { r.GetEnergy(); } catch(std::runtime_error const &) { hE = false; } try { r.GetThreeMomentum(); } catch(std::runtime_error const &) { hp = false; } try { r.GetInitialPosition(); } catch(std::runtime_error const &) { hx = false; } try { r.GetInteractionVertex(); } catch(std::runtime_error const &) { hv = false; }
                    if(!hp) r.SetThreeMomentum({0, 0, 1}); if(!hE && !hm) r.SetMass(0); else { try { r.GetMass(); } catch(std::runtime_error const &) { r.SetMass(0); } try { r.GetEnergy(); } catch(std::runtime_error const &) { r.SetEnergy(100); } } if(!hx) r.SetInitialPosition({0, 0, 0}); if(!hv) r.SetInteractionVertex({0, 0, 1}); try { r.GetHelicity(); } catch(std::runtime_error const &) {} r.SetHelicity(0.5);
                    dc::InteractionRecord ir; r.Finalize(ir); std::string par = "["; bool f = true; for(auto const & kv : ir.interaction_parameters) { par += (f ? "" : ",") + Obj().str("k", kv.first).i("v", fx(kv.second, 1)).done(); f = false; }
                    e = e.substr(0, e.size() - 1) + ",\"par\":" + par + "]"; 
                    // the multiplier of the row, from its first column
                    double v = 0; if(BASE.count(fk)) { if(fk == "E") v = r.GetEnergy(); else if(fk == "m") v = r.GetMass(); else if(fk == "px") v = r.GetThreeMomentum()[0]; else if(fk == "py") v = r.GetThreeMomentum()[1]; else if(fk == "pz") v = r.GetThreeMomentum()[2]; else if(fk == "t0") v = r.GetInitialTime(); else if(fk == "x0") v = r.GetInitialPosition()[0]; else if(fk == "y0") v = r.GetInitialPosition()[1]; else if(fk == "z0") v = r.GetInitialPosition()[2]; else if(fk == "x") v = r.GetInteractionVertex()[0]; else if(fk == "y") v = r.GetInteractionVertex()[1]; else if(fk == "z") v = r.GetInteractionVertex()[2]; else { auto it = ir.interaction_parameters.find(fk); v = it == ir.interaction_parameters.end() ? 0 : it->second; } }
                    e += ",\"s\":" + std::to_string(fx(v / BASE.at(fk), 1));
                    if(h) (*h)[e]++; all += e; (void) get1; }
                return all; };
            std::map<std::string, long> h; walk(*x, n, &h); std::string ev = "["; bool f = true; for(auto const & kv : h) { ev += (f ? "" : ",") + kv.first + ",\"n\":" + std::to_string(kv.second) + "}"; f = false; }
            o.raw("ev", ev + "]").i("num", x->GetPhysicalNumEvents());
            std::string de = "["; for(int E = 0; E <= 30; ++E) de += (E ? "," : "") + Obj().i("E", E).i("v", fx(gp(*x, event(E, {0, 0, 1})), 1000)).done(); o.raw("dens", de + "]");
            std::string a = walk(*x, 30, nullptr), cp = "["; std::vector<X> ys = {std::dynamic_pointer_cast<sd::PrimaryExternalDistribution>(x->clone()), std::make_shared<sd::PrimaryExternalDistribution>(*x), reload<cereal::BinaryOutputArchive, cereal::BinaryInputArchive>(x), reload<cereal::JSONOutputArchive, cereal::JSONInputArchive>(x)};
            for(size_t k = 0; k < ys.size(); ++k) { bool ok = ys[k] && *ys[k] == *x && ys[k]->GetPhysicalNumEvents() == x->GetPhysicalNumEvents() && walk(*ys[k], 30, nullptr) == a; for(int E = 0; ok && E <= 30; ++E) ok = gp(*ys[k], event(E, {0, 0, 1})) == gp(*x, event(E, {0, 0, 1})); cp += std::string(k ? "," : "") + (ok ? "true" : "false"); }
            o.raw("copies", cp + "]");
        } else { std::remove(fn.c_str()); o.raw("ev", "[]").i("num", 0).raw("dens", "[]").raw("copies", "[]"); }
        (void) thr2; sc.emit(o.done());
    }
}
