// Runs the real identity generator (E05) under every thread schedule, one atomic operation at a
// time: the source is compiled here with its atomics, mutex, getpid, time and gethostid replaced
// by versions that hand control to a scheduler, threads are coroutines, and a fork is a copy of
// the shared state.
// LIBS: none
// EXTRA: -DVD_SOURCE=\"@REPO@/projects/dataclasses/private/ParticleID.cxx\"
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <cstring>
#include <ctime>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <ostream>
#include <random>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <pthread.h>
#include <sys/types.h>
#include <ucontext.h>
#include <unistd.h>
#include "vdrv.h"
#include "SIREN/dataclasses/ParticleID.h"
#include "SIREN/utilities/StringManipulation.h"

namespace sched {
    struct Reg { virtual std::uint64_t get() = 0; virtual void put(std::uint64_t) = 0; std::uint64_t init = 0; };
    inline std::vector<Reg *> & regs() { static std::vector<Reg *> r; return r; }
    inline int & pid() { static int p = 100; return p; }
    struct Fiber { ucontext_t ctx; std::vector<char> stack; std::function<void()> body; bool done = false; bool blocked = false; };
    inline Fiber *& cur() { static Fiber * f = nullptr; return f; }
    inline ucontext_t & home() { static ucontext_t c; return c; }
    inline void yield() { if(Fiber * f = cur()) swapcontext(&f->ctx, &home()); }
}
namespace std {
    template<class T> struct vatomic : sched::Reg {
        T v;
        vatomic() : v() { sched::regs().push_back(this); init = get(); }
        vatomic(T x) : v(x) { sched::regs().push_back(this); init = get(); }
        vatomic(vatomic const &) = delete;
        std::uint64_t get() override { std::uint64_t u = 0; std::memcpy(&u, &v, sizeof(T)); return u; }
        void put(std::uint64_t u) override { std::memcpy(&v, &u, sizeof(T)); }
        T load(std::memory_order = std::memory_order_seq_cst) const { sched::yield(); return v; }
        void store(T x, std::memory_order = std::memory_order_seq_cst) { sched::yield(); v = x; }
        T exchange(T x, std::memory_order = std::memory_order_seq_cst) { sched::yield(); T o = v; v = x; return o; }
        template<class D> T fetch_add(D d, std::memory_order = std::memory_order_seq_cst) { sched::yield(); T o = v; v += d; return o; }
        template<class D> T fetch_sub(D d, std::memory_order = std::memory_order_seq_cst) { sched::yield(); T o = v; v -= d; return o; }
        bool compare_exchange_strong(T & e, T x, std::memory_order = std::memory_order_seq_cst, std::memory_order = std::memory_order_seq_cst) { sched::yield(); if(v == e) { v = x; return true; } e = v; return false; }
        bool compare_exchange_weak(T & e, T x, std::memory_order a = std::memory_order_seq_cst, std::memory_order b = std::memory_order_seq_cst) { return compare_exchange_strong(e, x, a, b); }
        operator T() const { return load(); }
        T operator=(T x) { store(x); return x; }
        T operator++() { return fetch_add(1) + 1; }
        T operator++(int) { return fetch_add(1); }
        T operator+=(T d) { return fetch_add(d) + d; }
    };
    struct vmutex : sched::Reg {
        bool held = false;
        constexpr vmutex() {}
        bool known = false;
        void reg() { if(!known) { known = true; sched::regs().push_back(this); } }
        std::uint64_t get() override { return held; }
        void put(std::uint64_t u) override { held = u; }
        void lock() { reg(); sched::yield(); while(held) { if(sched::cur()) sched::cur()->blocked = true; sched::yield(); } if(sched::cur()) sched::cur()->blocked = false; held = true; }
        bool try_lock() { reg(); sched::yield(); if(held) return false; held = true; return true; }
        void unlock() { sched::yield(); held = false; }
        void lock_shared() { lock(); }
        void unlock_shared() { unlock(); }
    };
}
static int v_getpid() { return sched::pid(); }
static long v_time() { return 1700000000L; }
static long v_hostid() { return 42; }
#define atomic vatomic
#define mutex vmutex
#define recursive_mutex vmutex
#define shared_mutex vmutex
#define getpid() v_getpid()
#define time(x) v_time()
#define gethostid() v_hostid()
#include VD_SOURCE
#undef atomic
#undef mutex
#undef recursive_mutex
#undef shared_mutex
#undef getpid
#undef time
#undef gethostid
using siren::dataclasses::ParticleID;
using namespace vd;

struct Got { int proc, thread; ParticleID id; };
typedef std::vector<std::uint64_t> Snap;
static Snap snap() { Snap s; for(auto r : sched::regs()) s.push_back(r->get()); return s; }
static void restore(Snap const & s) { for(std::size_t k = 0; k < sched::regs().size(); ++k) sched::regs()[k]->put(k < s.size() ? s[k] : sched::regs()[k]->init); }
static bool locked() { for(auto r : sched::regs()) if(auto m = dynamic_cast<std::vmutex *>(r)) if(m->held) return true; return false; }

static void entry() { sched::cur()->body(); sched::cur()->done = true; swapcontext(&sched::cur()->ctx, &sched::home()); }

// One process: its threads and how many identities each asks for; children fork from it after a
// given number of its scheduling steps (-1: when all of its calls have returned).
struct Proc { int pid; std::vector<int> calls; int parent; int forkstep; };

// Replays choices; extends with 0 (keep running the same thread); records the branching degree.
struct Chooser {
    std::vector<int> pre; std::vector<int> taken, degree; int preemptions = 0, bound = 99;
    int choose(int n, bool preempting) {
        // alternative 0 never costs a preemption
        int m = (preempting && preemptions >= bound) ? 1 : n;
        int k = taken.size() < pre.size() ? pre[taken.size()] : 0;
        if(k >= m) k = m - 1;
        taken.push_back(k); degree.push_back(m);
        if(preempting && k) ++preemptions;
        return k;
    }
    bool advance() { // next path in depth-first order
        while(!taken.empty()) { if(taken.back() + 1 < degree.back()) { taken.back()++; pre = taken; taken.clear(); degree.clear(); preemptions = 0; return true; } taken.pop_back(); degree.pop_back(); }
        return false;
    }
};
static bool deadlock = false;
static void runproc(Proc const & p, int pi, std::vector<Got> & got, Chooser & ch, std::map<int, Snap> & forks, std::vector<int> const & forksteps) {
    sched::pid() = p.pid;
    std::vector<std::unique_ptr<sched::Fiber>> fs;
    for(std::size_t t = 0; t < p.calls.size(); ++t) {
        auto f = std::unique_ptr<sched::Fiber>(new sched::Fiber()); f->stack.resize(65536);
        int n = p.calls[t];
        f->body = [n, t, pi, &got]() { for(int k = 0; k < n; ++k) { ParticleID x = ParticleID::GenerateID(); got.push_back({pi, (int) t, x}); } };
        getcontext(&f->ctx); f->ctx.uc_stack.ss_sp = f->stack.data(); f->ctx.uc_stack.ss_size = f->stack.size(); f->ctx.uc_link = &sched::home(); makecontext(&f->ctx, entry, 0);
        fs.push_back(std::move(f));
    }
    int last = 0; int step = 0;
    while(true) {
        for(int s : forksteps) if(s >= 0 && step >= s && !forks.count(s) && !locked()) forks[s] = snap();
        std::vector<int> en;
        auto ok = [&](int k) { return !fs[k]->done && !(fs[k]->blocked && locked()); };
        if(last < (int) fs.size() && ok(last)) en.push_back(last);
        bool cont = !en.empty();
        for(int k = 0; k < (int) fs.size(); ++k) if((k != last || !cont) && ok(k)) en.push_back(k);
        if(en.empty()) { for(auto & f : fs) if(!f->done) deadlock = true; break; }
        int k = en[en.size() == 1 ? 0 : ch.choose((int) en.size(), cont)];
        last = k; ++step;
        sched::cur() = fs[k].get();
        swapcontext(&sched::home(), &fs[k]->ctx);
        sched::cur() = nullptr;
        if(step > 20000) { deadlock = true; break; }
    }
    for(int s : forksteps) if(!forks.count(s)) forks[s] = snap();
}
int main(int argc, char ** argv) {
    Script S(argc, argv);
    Snap fresh = snap();
    for(auto const & line : S.lines) {
        rj::Document d; parse(d, line);
        std::vector<Proc> ps;
        for(auto const & x : ga(d, "procs").GetArray()) { Proc p; p.pid = gi(x, "pid"); p.parent = gi(x, "parent"); p.forkstep = gi(x, "forkstep"); for(auto const & c : ga(x, "calls").GetArray()) p.calls.push_back(c.GetInt()); ps.push_back(p); }
        Chooser ch; ch.bound = gi(d, "bound"); long limit = gi(d, "limit"), runs = 0; bool complete = false;
        std::set<std::string> outcomes; long dl = 0;
        while(true) {
            std::vector<Got> got; deadlock = false;
            std::vector<std::map<int, Snap>> forks(ps.size());
            for(std::size_t k = 0; k < ps.size(); ++k) {
                std::vector<int> steps; for(std::size_t c = k + 1; c < ps.size(); ++c) if(ps[c].parent == (int) k) steps.push_back(ps[c].forkstep);
                restore(ps[k].parent < 0 ? fresh : forks[ps[k].parent].at(ps[k].forkstep));
                runproc(ps[k], k, got, ch, forks[k], steps);
            }
            ++runs;
            // outcome: identities grouped, with the distinct ones numbered (bit patterns are irrelevant)
            std::sort(got.begin(), got.end(), [](Got const & a, Got const & b){ return std::tie(a.proc, a.thread) < std::tie(b.proc, b.thread); });
            std::map<std::string, int> num; std::string o = "[";
            bool set = true;
            for(auto const & g : got) { std::string key = std::to_string(g.id.GetMajorID()) + ":" + std::to_string(g.id.GetMinorID()); int n = num.emplace(key, (int) num.size() + 1).first->second; if(o.size() > 1) o += ","; o += "[" + std::to_string(g.proc + 1) + "," + std::to_string(g.thread + 1) + "," + std::to_string(n) + "]"; set = set && g.id.IsSet(); }
            o += "]";
            std::string key = o + (set ? "s" : "u") + (deadlock ? "d" : "");
            if(outcomes.insert(key).second) {
                long want = 0; for(auto const & p : ps) for(int c : p.calls) want += c;
                S.emit(Obj().str("op", "ids").raw("got", o).b("set", set).b("deadlock", deadlock).i("want", want).raw("schedule", arr(ch.taken, [](int x){ return std::to_string(x); })).done());
            }
            if(!ch.advance()) { complete = true; break; }
            if(runs >= limit) break;
        }
        S.emit(Obj().str("op", "explored").i("schedules", runs).b("complete", complete).i("outcomes", outcomes.size()).done());
    }
}
