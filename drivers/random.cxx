// Random number streams (D03).
// SRC: projects/utilities/private/Random
#include "vdrv.h"
#include "SIREN/utilities/Random.h"
#include <memory>
using namespace vd; using siren::utilities::SIREN_random;
static inline std::string js(JV const & v) { rj::StringBuffer b; rj::Writer<rj::StringBuffer> w(b); v.Accept(w); return b.GetString(); }
static const std::uint64_t SEEDS[] = {0, 1, 2, 4294967296ull, 4294967297ull, 9223372036854775808ull, 18446744073709551615ull, 0, 1234567};
static int idx(std::uint64_t s) { for(int k = 1; k < 9; ++k) { int m = k == 7 ? 0 : k; if(SEEDS[m] == s) return k; } return 99; }
static std::uint64_t sd(int k) { return k == 7 ? 0 : SEEDS[k]; }
static const double P[][3] = {{1, 16, -1}, {1, 4, -2}, {2, 8, 0}, {1, 3, 2}, {0.5, 9, -0.5}, {2, 3, 1}};
static double quantile(double v, double a, double b, double n) { return n == -1 ? std::log(v / a) / std::log(b / a) : (std::pow(v, n + 1) - std::pow(a, n + 1)) / (std::pow(b, n + 1) - std::pow(a, n + 1)); }
template<class O, class I> static std::unique_ptr<SIREN_random> rl(SIREN_random const & r) { std::stringstream s; { O a(s); a(cereal::make_nvp("r", r)); } auto x = std::unique_ptr<SIREN_random>(new SIREN_random(std::uint64_t(777))); x->Uniform(); { I a(s); a(cereal::make_nvp("r", *x)); } return x; }
int main(int argc, char ** argv) {
    Script sc(argc, argv);
    std::string ref = "["; for(int k = 1; k < 9; ++k) { SIREN_random r(sd(k)); ref += (k > 1 ? ",[" : "["); for(int j = 0; j < 12; ++j) ref += (j ? "," : "") + std::to_string(fx(r.Uniform(), 1e9)); ref += "]"; } ref += "]";
    for(auto const & line : sc.lines) {
        rj::Document d; parse(d, line); std::string g = gs(d, "g"); Obj o; o.str("g", g);
        if(g == "hist") {
            std::unique_ptr<SIREN_random> r[2] = {std::unique_ptr<SIREN_random>(new SIREN_random(sd(1))), std::unique_ptr<SIREN_random>(new SIREN_random(sd(2)))}; int c = gi(d, "c"); std::string res = "["; bool first = true;
            for(auto const & p : ga(d, "ops").GetArray()) {
                std::string op = gs(p, "op"); int k = gi(p, "k") - 1; double u = 0; bool in = true; ++c; SIREN_random & x = *r[k];
                double a = (c % 7) - 3, b = a + 1 + c % 5;
                if(op == "unit") { u = x.Uniform(); in = u >= 0 && u < 1; }
                if(op == "range") { double v = x.Uniform(a, b); in = v >= a && v <= b; u = (v - a) / (b - a); }
                if(op == "flip") { double v = x.Uniform(b, a); in = v >= a && v <= b; u = (v - a) / (b - a); }
                if(op == "point") { double v = x.Uniform(a, a); in = v == a; }
                if(op == "pow") { auto & w = P[c % 6]; double v = c % 2 ? x.PowerLaw(w[0], w[1], w[2]) : x.PowerLaw(w[1], w[0], w[2]); in = v >= w[0] * (1 - 1e-12) && v <= w[1] * (1 + 1e-12); u = quantile(v, w[0], w[1], w[2]); }
                if(op == "new") r[k].reset(new SIREN_random(sd(gi(p, "v"))));
                if(op == "set") x.set_seed(sd(gi(p, "v")));
                if(op == "copy") { if(c % 2) r[1-k].reset(new SIREN_random(x)); else *r[1-k] = x; }
                if(op == "reload") r[k] = c % 2 ? rl<cereal::BinaryOutputArchive, cereal::BinaryInputArchive>(x) : rl<cereal::JSONOutputArchive, cereal::JSONInputArchive>(x);
                res += (first ? "" : ",") + Obj().i("u", fx(u, 1e9)).b("inr", in).i("s1", idx(r[0]->get_seed())).i("s2", idx(r[1]->get_seed())).done(); first = false;
            }
            o.raw("ops", js(d["ops"])).raw("res", res + "]").raw("ref", ref);
        } else if(g == "stat") {
            std::string t = gs(d, "t"); long n = gi(d, "n"); SIREN_random r((std::uint64_t)gi(d, "seed")); int nb = t == "pair" || t == "lag" ? 25 : 10; std::vector<long> cnt(nb, 0); long rest = 0; double prev = r.Uniform(), prev2 = r.Uniform();
            for(long k = 0; k < n; ++k) {
                double u;
                if(t == "uniform") u = r.Uniform(); else if(t == "range") { u = (r.Uniform(-3, 5) + 3) / 8; } else if(t == "flip") { u = (r.Uniform(5, -3) + 3) / 8; }
                else if(t == "seeds") { SIREN_random s((std::uint64_t)(gi(d, "seed") + k)); u = s.Uniform(); }
                else if(t == "highseeds") { SIREN_random s((std::uint64_t)(gi(d, "seed") + k) << 32); u = s.Uniform(); }
                else if(t == "pair" || t == "lag") { double v = r.Uniform(); double w = t == "pair" ? prev : prev2; u = (std::min(4, int(v * 5)) * 5 + std::min(4, int(w * 5)) + 0.5) / 25; prev2 = prev; prev = v; if(t == "pair") prev = r.Uniform(); }
                else { auto & w = P[gi(d, "p")]; u = quantile(r.PowerLaw(w[0], w[1], w[2]), w[0], w[1], w[2]); }
                if(!(u >= -1e-12 && u <= 1 + 1e-12)) ++rest; else ++cnt[std::max(0, std::min(nb - 1, int(u * nb)))];
            }
            o.i("n", n).i("rest", rest).raw("cnt", arr(cnt, [](long v) { return std::to_string(v); }));
        } else { SIREN_random a; SIREN_random b(a.get_seed()); bool s = true; for(int k = 0; k < 20; ++k) s = s && a.Uniform() == b.Uniform(); SIREN_random c2; c2.set_seed(a.get_seed()); SIREN_random e(a.get_seed()); for(int k = 0; k < 20; ++k) s = s && c2.Uniform() == e.Uniform(); o.b("same", s); }
        sc.emit(o.done());
    }
}
