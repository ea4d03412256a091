// Threads adding measurements and counter increments to one record; every shared access is a
// scheduling point (compiled for common/tsched.h).
#include "common/vlog.h"
#include "common/env.h"
#include "common/tsched.h"
#include "utils/Timings.h"
#include <set>
extern const char GIT_COMMIT[]; const char GIT_COMMIT[] = "rev";
using namespace vlog;
struct Op { int kind; int name; long v; };      // kind 0 counter by one, 1 counter by v, 2 measurement
static const char *names[] = {"alpha", "beta", "gamma"};
struct Outcome { std::string c, m; bool operator<(const Outcome &o) const { return c != o.c ? c < o.c : m < o.m; } };
int main(int argc, char **argv) {
    long programs = arg(argc, argv, "--programs", 50), seed = arg(argc, argv, "--seed", 1), budget = arg(argc, argv, "--budget", 2000), bound = arg(argc, argv, "--bound", 2), keep = arg(argc, argv, "--keep", 40);
    return run(sarg(argc, argv, "--out", "out.nd"), programs, 120, [&](long pi) {
        Rng r(seed * 65537 + pi);
        int T = r.in(2, 3); bool viaAccessor = r.chance(30), pre = r.chance(50);
        std::vector<std::vector<Op>> prog(T); long val = 1; int nn = r.in(1, 3);
        for (int t = 0; t < T; ++t) for (long k = r.in(1, T == 2 ? 4 : 2); k > 0; --k) prog[t].push_back({(int) r.upto(3), (int) r.upto(nn), val++});
        // names made known beforehand in half of the programs (then only the entries are contended)
        std::string adds;
        auto add = [&](int t, const Op &o) { adds += std::string(adds.empty() ? "" : ",") + "[" + std::to_string(t) + ",\"" + (o.kind == 2 ? "meas" : "cnt") + "\",\"" + names[o.name] + "\"," + std::to_string(o.kind == 0 ? 1 : o.v) + "]"; };
        std::vector<Op> before; if (pre) for (int n = 0; n < nn; ++n) { before.push_back({1, n, 1000 + n}); before.push_back({2, n, 2000 + n}); }
        for (auto &o : before) add(99, o);
        for (int t = 0; t < T; ++t) for (auto &o : prog[t]) add(t, o);
        auto apply = [&](ExperimentRun &x, const Op &o) {
            std::string n = names[o.name];
            if (viaAccessor) { if (o.kind == 0) PROFILER.incCounter(n); else if (o.kind == 1) PROFILER.incCounter(n, o.v); else PROFILER.addMeasurement(n, o.v); }
            else { if (o.kind == 0) x.incCounter(n); else if (o.kind == 1) x.incCounter(n, o.v); else x.addMeasurement(n, o.v); }
        };
        std::set<Outcome> seen; std::string meta; bool hung = false;
        ts::limits(200000, 3000); ts::program();
        auto once = [&](const char *how) {
            ExperimentRun x; PROFILER.setRun(&x);
            for (auto &o : before) apply(x, o);
            std::vector<std::function<void()>> b;
            for (int t = 0; t < T; ++t) b.push_back([&, t] { for (auto &o : prog[t]) apply(x, o); });
            if (!ts::run(b)) { hung = true; meta = std::string(how) + " " + ts::sched().substr(0, 400); return; }
            PROFILER.setRun(nullptr);
            Outcome o; bool f = true;
            for (auto &c : x.counters()) { o.c += std::string(f ? "" : ",") + "[\"" + c.first + "\"," + std::to_string(c.second) + "]"; f = false; }
            f = true;
            for (auto &m : x.measurements()) { o.m += std::string(f ? "" : ",") + "[\"" + m.first + "\",["; f = false; bool g = true; for (auto v : m.second) { o.m += (g ? "" : ",") + std::to_string(v); g = false; } o.m += "]]"; }
            if ((long) seen.size() < keep && seen.insert(o).second && meta.size() < 1500) meta += std::string(how) + "{" + ts::sched().substr(0, 120) + "}";
        };
        long runs = 0;
        ts::start_dfs(bound); do { once("dfs"); ++runs; } while (!hung && runs < budget / 2 && ts::next_dfs());
        for (long k = 0; k < budget / 4 && !hung; ++k) { ts::start_random(seed * 1000003 + pi * 1009 + k, k % 3 == 0 ? 500 : k % 3 == 1 ? 150 : 30); once("rnd"); }
        for (long k = 0; k < budget / 4 && !hung; ++k) { ts::start_pct(seed * 1000003 + pi * 1013 + k, T, 3, 300); once("pct"); }
        begin(pi, (meta.empty() ? "none" : meta).substr(0, 1500));
        Ev("prog").j("adds", "[" + adds + "]").put();
        if (hung) { Ev("hang").put(); return; }
        for (auto &o : seen) { Ev("counters").j("v", "[" + o.c + "]").put(); Ev("meas").j("v", "[" + o.m + "]").put(); }
    });
}
