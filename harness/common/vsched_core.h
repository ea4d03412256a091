// The scheduler itself: fibers of one OS thread and the strategies that pick the next one.
#pragma once
#include <cstring>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
#include <unordered_map>
#include <ucontext.h>
#include <sys/mman.h>

namespace vs {

struct Fiber {
    ucontext_t ctx;
    char *stack = nullptr;
    bool done = true;
    const void *waitMutex = nullptr;     // blocked until this mutex is free
    bool spin = false;                   // busy waiting: not runnable until somebody writes
    const void *lastAddr = nullptr; uint64_t lastVal = 0; int rep = 0;
    unsigned long seenWrites = 0;
    std::function<void()> body;
};

enum Mode { DFS, RANDOM, PCT };

struct Sched {
    std::vector<Fiber> f;
    ucontext_t main;
    int cur = -1;
    bool active = false;
    unsigned long writes = 0;
    long steps = 0, run_len = 0;
    bool hung = false;
    bool cont = false;      // this run continues the schedule of the previous one
    long max_steps = 300000;
    long fair = 3000;
    // strategy
    Mode mode = RANDOM;
    uint64_t rs = 1;
    int switch_pct = 20;
    // DFS with bounded preemptions
    struct Dec { int n; int chosen; bool preempt; };     // alternative 0 = keep running / lowest
    std::vector<Dec> path; size_t pos = 0;
    int bound = 2, used = 0;
    // PCT
    std::vector<int> prio; std::vector<long> changes; int low = 0;
    std::string sched;                    // compact schedule (for replay files)
    void (*onSwitch)(int, int) = nullptr; // called at every switch

    uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
};
inline Sched &S() { static Sched s; return s; }

static const size_t STACK = 256 * 1024;


inline bool mutex_free(const void *m);

inline bool runnable(int i) {
    Sched &s = S();
    Fiber &x = s.f[i];
    if (x.done) return false;
    if (x.waitMutex && !mutex_free(x.waitMutex)) return false;
    if (x.spin && x.seenWrites == s.writes) return false;
    return true;
}

inline void go(int to) {
    Sched &s = S();
    int from = s.cur;
    if (to == from) return;
    if (s.onSwitch) s.onSwitch(from, to);
    s.cur = to; s.run_len = 0;
    if (s.sched.size() < 4000) s.sched += std::to_string(s.steps) + ":" + char('A' + to) + " ";
    if (from < 0) swapcontext(&s.main, &s.f[to].ctx);
    else if (to < 0) swapcontext(&s.f[from].ctx, &s.main);
    else swapcontext(&s.f[from].ctx, &s.f[to].ctx);
}

// choose the next fiber; `forced`: the current one cannot or must not continue
inline int choose(bool forced) {
    Sched &s = S();
    std::vector<int> c;
    int n = s.f.size();
    if (!forced) c.push_back(s.cur);
    for (int d = 1; d <= n; ++d) {
        int i = (s.cur + d + n) % n;
        if (i == s.cur && !(forced && s.cur < 0)) { if (forced || i == s.cur) continue; }
        if (runnable(i)) c.push_back(i);
    }
    if (c.empty()) {
        // everybody seems to wait for a write; rereading a value need not be waiting, so go on for a while
        for (int d = 1; d <= n + 1; ++d) {
            int i = (s.cur + d + n) % n;
            Fiber &x = s.f[i];
            if (x.done || (x.waitMutex && !mutex_free(x.waitMutex)) || x.rep > 500) continue;
            return i;
        }
        return -2;
    }
    if (c.size() == 1) return c[0];
    switch (s.mode) {
        case RANDOM: {
            if (forced) return c[s.rnd() % c.size()];
            if ((int) (s.rnd() % 1000) >= s.switch_pct) return c[0];
            return c[1 + s.rnd() % (c.size() - 1)];
        }
        case PCT: {
            for (long &ch : s.changes) if (ch == s.steps && s.cur >= 0) s.prio[s.cur] = --s.low;
            int best = c[0];
            for (int x : c) if (s.prio[x] > s.prio[best]) best = x;
            return best;
        }
        case DFS: {
            bool preempt = !forced;
            if (preempt && s.used >= s.bound) return c[0];
            int k = 0;
            if (s.pos < s.path.size()) { k = s.path[s.pos].chosen; if (k >= (int) c.size()) k = 0; }
            else s.path.push_back({(int) c.size(), 0, preempt});
            s.pos++;
            if (preempt && k > 0) s.used++;
            return c[k];
        }
    }
    return c[0];
}

inline void abort_run() { Sched &s = S(); s.hung = true; go(-1); }

inline void point(const void *addr, bool write, bool load_only, uint64_t val) {
    // called before the operation takes effect
    Sched &s = S();
    if (!s.active || s.cur < 0) return;
    Fiber &me = s.f[s.cur];
    me.spin = false;
    if (++s.steps > s.max_steps) { abort_run(); return; }
    bool forced = false;
    if (load_only) {
        if (me.lastAddr == addr && me.lastVal == val) { if (++me.rep >= 3) { me.spin = true; me.seenWrites = s.writes; } }
        else { me.lastAddr = addr; me.lastVal = val; me.rep = 0; }
    } else { me.lastAddr = nullptr; me.rep = 0; }
    if (++s.run_len > s.fair) forced = true;
    int cur = s.cur;
    if (me.spin) {
        int nx = choose(true);
        if (nx == -2) {  // everybody waits for a write that nobody will do
            if (!forced) { abort_run(); return; }
        } else go(nx);
    } else if (forced) {
        if (s.mode == PCT) s.prio[cur] = --s.low;     // unfair otherwise: busy waiting for a lower priority
        int nx = choose(true);
        s.run_len = 0;
        if (nx >= 0) go(nx);
    } else {
        int nx = choose(false);
        if (nx != cur && nx >= 0) go(nx);
    }
    (void) write;
}
inline void wrote() { Sched &s = S(); if (s.active) s.writes++; }

struct vmutex_base {
    int owner = -1;   // fiber index, -1 free, -3 locked outside a run
};
inline bool mutex_free(const void *m) { return ((const vmutex_base *) m)->owner == -1; }

inline void vs_exit() {
    Sched &s = S();
    int nx = choose(true);
    if (nx == -2) {
        bool all = true;
        for (auto &x : s.f) all &= x.done;
        if (!all) s.hung = true;
        nx = -1;
    }
    go(nx);
}

// run the given bodies under the current strategy; returns false when the run did not terminate
inline bool run(const std::vector<std::function<void()>> &bodies) {
    Sched &s = S();
    size_t n = bodies.size();
    while (s.f.size() < n) s.f.emplace_back();
    for (size_t i = 0; i < s.f.size(); ++i) s.f[i].done = true;
    if (s.f.size() > n) s.f.resize(n);
    for (size_t i = 0; i < n; ++i) {
        Fiber &x = s.f[i];
        if (!x.stack) x.stack = (char *) mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        x.done = false; x.waitMutex = nullptr; x.spin = false; x.lastAddr = nullptr; x.rep = 0;
        x.body = bodies[i];
        getcontext(&x.ctx);
        x.ctx.uc_stack.ss_sp = x.stack; x.ctx.uc_stack.ss_size = STACK; x.ctx.uc_link = nullptr;
        makecontext(&x.ctx, (void (*)()) +[]() {
            Sched &s = S();
            s.f[s.cur].body();
            s.f[s.cur].done = true;
            s.writes++;
            vs_exit();
        }, 0);
    }
    if (!s.cont) { s.steps = 0; s.used = 0; s.pos = 0; s.sched.clear(); s.hung = false; }
    s.writes = 0; s.run_len = 0;
    s.active = true; s.cur = -1;
    int first = choose(true);
    go(first);
    s.active = false; s.cur = -1;
    return !s.hung;
}

// DFS: advance to the next schedule; false when the bounded space is exhausted
inline bool next_dfs() {
    Sched &s = S();
    // decisions not reached in this run are dropped
    if (s.path.size() > s.pos) s.path.resize(s.pos);
    while (!s.path.empty()) {
        auto &d = s.path.back();
        if (d.chosen + 1 < d.n) { d.chosen++; return true; }
        s.path.pop_back();
    }
    return false;
}
inline void start_dfs(int bound) { Sched &s = S(); s.mode = DFS; s.bound = bound; s.path.clear(); }
inline void start_random(uint64_t seed, int permille) { Sched &s = S(); s.mode = RANDOM; s.rs = seed * 2654435761u + 88172645463325252ull; s.switch_pct = permille; }
inline void start_pct(uint64_t seed, int n, int depth, long len) {
    Sched &s = S(); s.mode = PCT; s.rs = seed * 2654435761u + 88172645463325252ull; s.low = 0;
    s.prio.assign(n, 0); for (int i = 0; i < n; ++i) s.prio[i] = i + 1;
    for (int i = n - 1; i > 0; --i) std::swap(s.prio[i], s.prio[s.rnd() % (i + 1)]);
    s.changes.clear(); for (int i = 0; i < depth; ++i) s.changes.push_back(1 + s.rnd() % len);
}
}

