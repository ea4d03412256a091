// Threads logging at the same time; every shared access is a scheduling point.
#include "common/vlog.h"
#include "common/env.h"
#include "common/tsched.h"
#include "utils/Logger.h"
#include <set>
using namespace vlog;
static std::string codes(const std::string &s) { std::string r = "["; for (size_t i = 0; i < s.size(); ++i) { if (i) r += ","; r += std::to_string((unsigned char) s[i]); } return r + "]"; }
static unsigned indentOf[16];
static void swapIndent(int from, int to) { if (from >= 0) indentOf[from] = LOGGER.getIndent(); if (to >= 0) LOGGER.setIndent(indentOf[to]); }
struct Op { int lvl; int tabs; bool container; };
int main(int argc, char **argv) {
    long programs = arg(argc, argv, "--programs", 50), seed = arg(argc, argv, "--seed", 1), budget = arg(argc, argv, "--budget", 400), bound = arg(argc, argv, "--bound", 2), keep = arg(argc, argv, "--keep", 60);
    perChild() = 1;
    return run(sarg(argc, argv, "--out", "out.nd"), programs, 120, [&](long pi) {
        typedef Logger::Verbosity V;
        Rng r(seed * 65537 + pi); int T = r.in(2, 3), level = r.in(1, 3);
        std::vector<std::vector<Op>> prog(T); std::string list; auto text = [&](int t, int k, const Op &o) { return "t" + std::to_string(t) + (o.container ? " " : ".") + std::to_string(k); };
        for (int t = 0; t < T; ++t) for (long k = r.in(1, 3); k > 0; --k) prog[t].push_back({(int) r.in(1, 3), (int) r.upto(3), r.chance(20)});
        for (int t = 0; t < T; ++t) for (size_t k = 0; k < prog[t].size(); ++k) list += std::string(list.empty() ? "" : ",") + "[" + std::to_string(t) + "," + std::to_string(prog[t][k].lvl) + "," + codes(std::string(prog[t][k].tabs, '\t') + text(t, k, prog[t][k])) + "]";
        LOGGER.setLogLevel((V) level); size_t before[4] = {0, 0, 0, 0};
        std::set<std::string> seen; std::string meta; bool hung = false; std::vector<std::pair<int, std::string>> outs;
        ts::limits(200000, 3000); ts::program(); ts::onSwitch(swapIndent);
        auto once = [&](const char *how) {
            std::vector<std::function<void()>> b;
            for (int t = 0; t < 16; ++t) indentOf[t] = 0;
            for (int t = 0; t < T; ++t) b.push_back([&, t] { for (size_t k = 0; k < prog[t].size(); ++k) { const Op &o = prog[t][k];
                for (int i = 0; i < o.tabs; ++i) LOGGER.incIndent();
                if (o.container) { std::vector<size_t> v{k}; LOGGER.logContainer(v, (V) o.lvl, "t" + std::to_string(t)); }
                else if (o.lvl == 1) { LOG("t" << t << "." << k << std::endl); } else if (o.lvl == 2) { VLOG("t" << t << "." << k << std::endl); } else { PLOG("t" << t << "." << k << std::endl); }
                for (int i = 0; i < o.tabs; ++i) LOGGER.decIndent(); } });
            if (!ts::run(b)) { hung = true; meta = std::string(how) + " " + ts::sched().substr(0, 400); return; }
            LOGGER.setIndent(0);
            std::string all; std::vector<std::string> per;
            for (int q = 1; q <= 3; ++q) { std::ostringstream o; LOGGER.printLog(o, (V) q); std::string s = o.str(); std::string x = s.size() >= before[q] ? s.substr(before[q]) : "?"; before[q] = s.size(); per.push_back(x); all += x + "#"; }
            if ((long) seen.size() < keep && seen.insert(all).second) { for (int q = 1; q <= 3; ++q) outs.push_back({q, per[q - 1]}); if (meta.size() < 1500) meta += std::string(how) + "{" + ts::sched().substr(0, 120) + "}"; }
        };
        long runs = 0;
        ts::start_dfs(bound); do { once("dfs"); ++runs; } while (!hung && runs < budget / 2 && ts::next_dfs());
        for (long k = 0; k < budget / 4 && !hung; ++k) { ts::start_random(seed * 1000003 + pi * 1009 + k, k % 3 == 0 ? 500 : k % 3 == 1 ? 150 : 30); once("rnd"); }
        for (long k = 0; k < budget / 4 && !hung; ++k) { ts::start_pct(seed * 1000003 + pi * 1013 + k, T, 3, 300); once("pct"); }
        begin(pi, (meta.empty() ? "none" : meta).substr(0, 1500));
        Ev("prog").i("k", level).j("v", "[" + list + "]").put();
        if (hung) { Ev("hang").put(); return; }
        for (auto &o : outs) { std::string j; std::istringstream is(o.second); std::string line; while (std::getline(is, line)) j += (j.empty() ? "" : ",") + codes(line); Ev("lines").i("k", o.first).j("v", "[" + j + "]").put(); }
    });
}
