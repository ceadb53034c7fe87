// Real threads and real forks against the identity generator (E05).
// SRC: projects/dataclasses/private/ParticleID.cxx projects/utilities/private/(Errors|StringManip)
#include "vdrv.h"
#include "SIREN/dataclasses/ParticleID.h"
#include <thread>
#include <atomic>
#include <unistd.h>
#include <sys/wait.h>
using siren::dataclasses::ParticleID;
using namespace vd;
static std::vector<std::string> burst(int nt, int n) {
    std::vector<std::vector<ParticleID>> r(nt); std::atomic<int> ready(0); std::vector<std::thread> ts;
    for(int t = 0; t < nt; ++t) ts.emplace_back([&, t]() { ready++; while(ready.load() < nt) {} for(int k = 0; k < n; ++k) r[t].push_back(ParticleID::GenerateID()); });
    for(auto & t : ts) t.join();
    std::vector<std::string> out; for(auto const & v : r) for(auto const & x : v) out.push_back(std::to_string(x.GetMajorID()) + ":" + std::to_string(x.GetMinorID()) + (x.IsSet() ? "" : "U"));
    return out;
}
int main(int argc, char ** argv) {
    Script S(argc, argv);
    for(auto const & line : S.lines) {
        rj::Document d; parse(d, line);
        int nt = gi(d, "threads"), n = gi(d, "calls"), nf = gi(d, "forks"); bool first = gb(d, "first");
        int fd[2]; if(pipe(fd)) return 3;
        std::vector<std::string> all; long want = 0;
        if(first) { all = burst(nt, n); want += nt * n; }
        std::vector<pid_t> kids;
        for(int f = 0; f < nf; ++f) { pid_t k = fork(); if(k == 0) { close(fd[0]); alarm(60); auto v = burst(nt, n);
                pid_t g = fork(); if(g == 0) { alarm(60); v = burst(nt, n); }
                for(auto const & s : v) { std::string l = s + "\n"; if(write(fd[1], l.data(), l.size()) < 0) _exit(3); }
                if(g > 0) { int st; waitpid(g, &st, 0); } _exit(0); } kids.push_back(k); want += 2 * nt * n; }
        close(fd[1]);
        { auto v = burst(nt, n); all.insert(all.end(), v.begin(), v.end()); want += nt * n; }
        std::string buf; char b[65536]; ssize_t c; while((c = read(fd[0], b, sizeof b)) > 0) buf.append(b, c);
        close(fd[0]); for(auto k : kids) { int st; waitpid(k, &st, 0); }
        std::stringstream ss(buf); std::string l; while(std::getline(ss, l)) all.push_back(l);
        bool set = true; for(auto const & s : all) if(s.back() == 'U') set = false;
        S.emit(Obj().str("op", "real").i("want", want).b("set", set).raw("ids", arr(all, [](std::string const & x){ return q(x); })).done());
    }
}
