// Texts recognised as numbers, and splitting of texts.
#include "common/vlog.h"
#include "common/env.h"
#include "utils/StringUtils.h"
#include "utils/Misc.h"
using namespace vlog;
static std::string codes(const std::string &s) { std::string r = "["; for (size_t i = 0; i < s.size(); ++i) { if (i) r += ","; r += std::to_string((unsigned char) s[i]); } return r + "]"; }
static std::string one(const std::string &s) { return "[" + codes(s) + "," + (is_int(s) ? "1" : "0") + "," + (is_float(s) ? "1" : "0") + "]"; }
struct Batch {
    std::string v; int n = 0;
    void add(const std::string &s) { if (n) v += ","; v += one(s); if (++n == 200) out(); }
    void out() { if (n) Ev("num").j("v", "[" + v + "]").put(); v.clear(); n = 0; }
};
static void all(const char *al, int len) {
    Batch b; int k = strlen(al); long total = 1; for (int i = 0; i < len; ++i) total *= k;
    for (long x = 0; x < total; ++x) { std::string s; long y = x; for (int i = 0; i < len; ++i) { s += al[y % k]; y /= k; } b.add(s); }
    b.out();
}
int main(int argc, char **argv) {
    long n = arg(argc, argv, "--n", 200), seed = arg(argc, argv, "--seed", 1), deep = arg(argc, argv, "--deep", 0);
    struct A { const char *al; int len; };
    std::vector<A> as;
    for (int i = 0; i <= (deep ? 5 : 4); ++i) as.push_back({"05+-.eE|()a ", i});
    for (int i = 5; i <= (deep ? 8 : 6); ++i) as.push_back({"1.e-", i});
    for (int i = 5; i <= (deep ? 8 : 6); ++i) as.push_back({"0.E+", i});
    std::string every; for (int c = 1; c < 256; ++c) every += (char) c;
    long fixed = as.size() + 1;
    return run(sarg(argc, argv, "--out", "out.nd"), fixed + n, 120, [&](long i) {
        begin(i, "text");
        if (i < (long) as.size()) { all(as[i].al, as[i].len); return; }
        if (i == (long) as.size()) { Batch b; for (char c : every) { std::string s(1, c); b.add(s); b.add(s + "1"); b.add("1" + s); b.add("1" + s + "1"); b.add("-1.2e" + s + "4"); b.add(s + "." + s); } b.out(); return; }
        Rng r(seed * 104729 + i); Batch b;
        for (int k = 0; k < 40; ++k) {     // numbers and numbers with one edit
            auto digs = [&](int lo, int hi) { std::string s; for (long m = r.in(lo, hi); m > 0; --m) s += (char) ('0' + r.upto(10)); return s; };
            std::string s; if (r.chance(40)) s += "+-"[r.upto(2)];
            s += digs(r.chance(80), 12); if (r.chance(50)) { s += '.'; s += digs(0, 12); }
            if (r.chance(40)) { s += "eE"[r.upto(2)]; if (r.chance(50)) s += "+-"[r.upto(2)]; s += digs(r.chance(85), 4); }
            b.add(s);
            if (!s.empty()) { std::string t = s; t[r.upto(t.size())] = every[r.upto(every.size())]; b.add(t); }
            std::string t = s; t.insert(r.upto(t.size() + 1), 1, "+-.eE0 ,\t\n"[r.upto(10)]); b.add(t);
            t = s; if (!t.empty()) t.erase(r.upto(t.size()), 1); b.add(t);
        }
        b.out();
        for (int k = 0; k < 20; ++k) {
            std::string s; const char *al = "ab, ;"; for (long m = r.in(0, 12); m > 0; --m) s += al[r.upto(5)];
            char c = ",; "[r.upto(3)]; bool keep = r.chance(60);
            std::vector<std::string> f{"old"}; if (keep && r.chance(50)) split(f, s, c); else split(f, s, c, keep ? split::empties_ok : split::no_empties);
            std::string j = "["; for (size_t q = 0; q < f.size(); ++q) j += (q ? "," : "") + codes(f[q]);
            Ev("split").j("t", codes(s)).i("c", c).b("keep", keep).j("f", j + "]").put();
        }
    });
}
