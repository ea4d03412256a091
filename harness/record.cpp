// Operation histories of experiment records: traits, measurements, counters, storing, loading, comparing.
#include "common/vlog.h"
#include "common/env.h"
#include "utils/Timings.h"
#include <map>
extern const char GIT_COMMIT[]; const char GIT_COMMIT[] = "rev";
using namespace vlog;
static std::string codes(const std::string &s) { std::string r = "["; for (size_t i = 0; i < s.size(); ++i) { if (i) r += ","; r += std::to_string((unsigned char) s[i]); } return r + "]"; }
template<class M, class F> std::string listing(const M &m, F f) {
    std::string r = "["; bool first = true;
    for (auto &x : m) { if (!first) r += ","; first = false; r += "[" + codes(x.first) + "," + f(x.second) + "]"; }
    return r + "]";
}
static std::string traits(const ExperimentRun &r) { return listing(r.traits(), [](const std::string &s) { return codes(s); }); }
static void obs(int i, const ExperimentRun &r) {
    Ev("obs").i("r", i).j("tr", traits(r))
        .j("me", listing(r.measurements(), [](const auto &v) { std::string s = "["; bool f = true; for (auto x : v) { if (!f) s += ","; f = false; s += std::to_string(x); } return s + "]"; }))
        .j("cn", listing(r.counters(), [](unsigned long v) { return std::to_string(v); })).put();
}
struct Sep { const char *ts, *is; };
static const Sep seps[] = {{"   ", ": "}, {"|", "="}, {"\n", ": "}, {", ", "->"}, {"   ", ": "}, {";", ":"}};
static bool clean(const std::string &n, bool name, const std::vector<const Sep *> &use) {
    for (auto s : use) {
        std::string ts = s->ts, is = s->is;
        if (name) { if ((n + is).find(is) != n.size()) return false; if ((ts + n + is).find(ts, 1) != std::string::npos) return false; }
        else if ((n + ts).find(ts) != n.size()) return false;
    }
    return true;
}
static void hist(Rng &r) {
    const char *al = "ab c:=-x|,;>\nZ09\"_ .";
    std::vector<const Sep *> use{&seps[0]}; if (r.chance(60)) use.push_back(&seps[r.upto(6)]);
    auto word = [&](bool name) { std::string s; do { s.clear(); for (long n = r.in(0, name ? 5 : 9); n > 0; --n) s += al[r.upto(strlen(al))]; } while (!clean(s, name, use)); return s; };
    const char *ign[] = {"git-rev", "start-time", "end-time", "run-number", "host"};
    std::string ij = "["; for (int i = 0; i < 5; ++i) ij += (i ? "," : "") + codes(ign[i]);
    Ev("decl").j("ignored", ij + "]").put();
    std::vector<std::string> names{"alg", "n", "basecase"}; for (int i = 0; i < 4; ++i) names.push_back(word(true));
    auto name = [&]() -> std::string { return r.chance(12) ? ign[r.upto(5)] : names[r.upto(names.size())]; };
    std::map<int, std::unique_ptr<ExperimentRun>> rs;
    auto fresh = [&](int i) { rs[i] = std::make_unique<ExperimentRun>(); Ev("new").i("r", i).j("tr", traits(*rs[i])).put(); };
    fresh(0); fresh(1);
    std::map<int, std::map<std::string, bool>> meas;
    for (long n = r.in(5, 30); n > 0; --n) {
        int i = r.upto(3); if (!rs.count(i)) i = 0;
        ExperimentRun &x = *rs[i]; std::string a = name();
        switch (r.upto(15)) {
        case 0: case 1: { std::string v = word(false); x.addTrait(a, v); Ev("add").i("r", i).j("n", codes(a)).j("v", codes(v)).put(); break; }
        case 2: { long v = r.upto(100000); if (r.chance(30)) { char c = 'a' + v % 26; x.addTrait(a, c); Ev("add").i("r", i).j("n", codes(a)).j("v", codes(std::string(1, c))).put(); }
                  else { x.addTrait(a, v); Ev("add").i("r", i).j("n", codes(a)).j("v", codes(std::to_string(v))).put(); } break; }
        case 3: { std::string v = word(false); x.updateTrait(a, v); Ev("upd").i("r", i).j("n", codes(a)).j("v", codes(v)).put(); break; }
        case 4: { int v = r.upto(1000); x.updateTrait(a, v); Ev("upd").i("r", i).j("n", codes(a)).j("v", codes(std::to_string(v))).put();
                  if (r.chance(60)) Ev("geti").i("r", i).j("n", codes(a)).i("v", x.getTrait<int>(a)).put(); break; }
        case 5: Ev("has").i("r", i).j("n", codes(a)).b("x", x.hasTrait(a)).put(); break;
        case 6: { bool f = true; std::string v; try { v = x.getTrait(a); } catch (const std::out_of_range &) { f = false; }
                  Ev("get").i("r", i).j("n", codes(a)).b("x", f).j("v", codes(v)).put(); break; }
        case 7: case 8: { long v = r.upto(1000); x.addMeasurement(a, v); meas[i][a] = true; Ev("meas").i("r", i).j("n", codes(a)).i("v", v).put(); break; }
        case 9: { long v = r.upto(50); if (r.chance(30)) { x.incCounter(a); v = 1; } else x.incCounter(a, v); Ev("cnt").i("r", i).j("n", codes(a)).i("v", v).put(); break; }
        case 10: if (!meas[i].empty()) { auto it = meas[i].begin(); std::advance(it, r.upto(meas[i].size())); Ev("avg").i("r", i).j("n", codes(it->first)).i("v", x.avgMeasurement(it->first)).put(); } break;
        case 11: { bool pm = r.chance(30); const Sep *s = use[r.upto(use.size())]; bool def = s == &seps[0] && r.chance(60);
                   std::ostringstream os; if (def && !pm) os << x;
                   std::string t = def ? (pm ? x.str("   ", ": ", true) : r.chance(50) ? x.str() : os.str()) : x.str(s->ts, s->is, pm);
                   Ev("str").i("r", i).j("t", codes(t)).j("ts", codes(s->ts)).j("is", codes(s->is)).b("pm", pm).put(); break; }
        case 12: case 13: { const Sep *s = use[r.upto(use.size())]; int k = 2; std::string t = x.str(s->ts, s->is);
                   auto y = s == &seps[0] && r.chance(70) ? std::make_unique<ExperimentRun>(t) : std::make_unique<ExperimentRun>(t, s->ts, s->is);
                   Ev("str").i("r", i).j("t", codes(t)).j("ts", codes(s->ts)).j("is", codes(s->is)).b("pm", false).put();
                   bool eq = *y == x, eq2 = x == *y;
                   int old = i;
                   Ev("load").i("r", 9).j("t", codes(t)).j("ts", codes(s->ts)).j("is", codes(s->is)).put();
                   obs(9, *y);
                   Ev("eq").i("r", 9).i("o", old).b("x", eq).put(); Ev("eq").i("r", old).i("o", 9).b("x", eq2).put();
                   rs[k] = std::move(y); meas[k].clear(); Ev("copy").i("r", k).i("from", 9).put(); break; }
        default: { if (r.chance(25)) { int k = r.chance(50) ? 2 : 1; if (k != i) { rs[k] = std::make_unique<ExperimentRun>(x); meas[k] = meas[i]; Ev("copy").i("r", k).i("from", i).put(); obs(k, *rs[k]); break; } }
                   int k = r.upto(3); if (rs.count(k)) Ev("eq").i("r", i).i("o", k).b("x", x == *rs[k]).put(); }
        }
    }
    for (auto &p : rs) obs(p.first, *p.second);
    for (auto &p : rs) for (auto &q : rs) Ev("eq").i("r", p.first).i("o", q.first).b("x", *p.second == *q.second).put();
}
int main(int argc, char **argv) {
    long n = arg(argc, argv, "--n", 1000), seed = arg(argc, argv, "--seed", 1);
    return run(sarg(argc, argv, "--out", "out.nd"), n, 20, [&](long i) { Rng r(seed * 7919 + i); begin(i, "record"); hist(r); });
}
