// Histories of the logger: operations of several real threads, one at a time.
#include "common/vlog.h"
#include "common/env.h"
#include "utils/Logger.h"
#include <thread>
#include <mutex>
#include <condition_variable>
#include <list>
#include <set>
using namespace vlog;
static std::string codes(const std::string &s) { std::string r = "["; for (size_t i = 0; i < s.size(); ++i) { if (i) r += ","; r += std::to_string((unsigned char) s[i]); } return r + "]"; }
// threads that run one job at a time
struct Crew {
    std::mutex m; std::condition_variable cv; int turn = -1; bool stop = false; std::function<void()> job; std::vector<std::thread> ts;
    explicit Crew(int n) { for (int i = 0; i < n; ++i) ts.emplace_back([this, i] { std::unique_lock<std::mutex> g(m); while (true) { cv.wait(g, [&] { return stop || turn == i; }); if (stop) return; job(); turn = -1; cv.notify_all(); } }); }
    void on(int i, std::function<void()> f) { std::unique_lock<std::mutex> g(m); job = f; turn = i; cv.notify_all(); cv.wait(g, [&] { return turn == -1; }); }
    ~Crew() { { std::lock_guard<std::mutex> g(m); stop = true; } cv.notify_all(); for (auto &t : ts) t.join(); }
};
static void hist(Rng &r) {
    typedef Logger::Verbosity V;
    int T = r.in(1, 3); Crew crew(T); std::vector<int> ind(T, 0); int level = 1; long k = 0;
    std::ostringstream cap; auto *old = std::cout.rdbuf(cap.rdbuf());
    auto setLevel = [&](int x) { level = x; LOGGER.setLogLevel((V) x); Ev("level").i("k", x).put(); };
    setLevel(r.chance(50) ? 1 : r.in(-3, 3));
    for (long n = r.in(5, 30); n > 0; --n) {
        int t = r.upto(T);
        switch (r.upto(12)) {
        case 0: setLevel(r.in(-3, 3)); break;
        case 1: if (ind[t] < 4) { bool macro = r.chance(50); crew.on(t, [&] { if (macro) { INDENT } else LOGGER.incIndent(); }); if (!macro || level) ind[t]++; Ev("indent").i("t", t).i("d", 1).b("macro", macro).put(); } break;
        case 2: if (ind[t] > 0) { bool macro = r.chance(50); crew.on(t, [&] { if (macro) { DEDENT } else LOGGER.decIndent(); }); if (!macro || level) ind[t]--; Ev("indent").i("t", t).i("d", -1).b("macro", macro).put(); } break;
        case 3: if (level >= 0) { int q = r.chance(50) ? level : r.in(0, 3); std::ostringstream o; if (q == level && r.chance(50)) { if (r.chance(50)) o << LOGGER; else LOGGER.printLog(o); } else LOGGER.printLog(o, (V) q); Ev("print").i("k", q).j("x", codes(o.str())).put(); } break;
        case 4: Ev("live").j("x", codes(cap.str())).put(); break;
        case 5: { int q = r.in(1, 3); std::vector<long> v; for (long m = r.upto(4); m > 0; --m) v.push_back(r.upto(50)); std::string pre = r.chance(50) ? "" : "p" + std::to_string(k++), sep = r.chance(70) ? " " : ", ";
                  bool lst = r.chance(30);
                  crew.on(t, [&] { if (lst) { std::list<long> li(v.begin(), v.end()); LOGGER.logContainer(li.begin(), li.end(), (V) q, pre, sep); } else LOGGER.logContainer(v, (V) q, pre, sep); });
                  std::string x = pre; if (pre != "") x += sep; for (size_t i = 0; i < v.size(); ++i) { if (i) x += sep; x += std::to_string(v[i]); } x += "\n";
                  Ev("log").i("t", t).i("k", q).b("raw", false).j("x", codes(x)).put(); break; }
        case 6: if (level >= 0) { int q = r.in(1, 3); std::string x = "raw" + std::to_string(k++) + "\n"; crew.on(t, [&] { LOGGER.addLogEntry((V) q) << x; }); Ev("log").i("t", t).i("k", q).b("raw", true).j("x", codes(x)).put(); } break;
        default: { int q = r.in(1, 3); std::string x = "m" + std::to_string(k++) + (r.chance(20) ? "\n more" : "") + "\n";
                   crew.on(t, [&] { if (q == 1) { LOG("m" << x.substr(1)); } else if (q == 2) { VLOG(x); } else { PLOG(x.substr(0, x.size() - 1) << std::endl); } });
                   Ev("log").i("t", t).i("k", q).b("raw", false).j("x", codes(x)).put(); }
        }
    }
    for (int q = 0; q <= 3; ++q) { std::ostringstream o; LOGGER.printLog(o, (V) q); Ev("print").i("k", q).j("x", codes(o.str())).put(); }
    Ev("live").j("x", codes(cap.str())).put();
    std::cout.rdbuf(old);
}
int main(int argc, char **argv) {
    long n = arg(argc, argv, "--n", 300), seed = arg(argc, argv, "--seed", 1);
    perChild() = 1;      // one logger per process
    return run(sarg(argc, argv, "--out", "out.nd"), n, 30, [&](long i) { Rng r(seed * 8191 + i); begin(i, "logger"); hist(r); });
}
