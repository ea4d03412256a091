// Interleavings of concurrent operations on Concurrent_Bit_Set.
#include "common/vsched.h"
#include "common/vlog.h"
#include "common/poison.h"
#include "datastructures/Bit_Set.hxx"
#undef atomic
#undef mutex
#undef shared_ptr
#undef make_shared
tGenerator startGen(START_SEED);
size_t getPeakRSS() { return 0; }
size_t getCurrentRSS() { return 0; }
std::string print_stacktrace(const std::string &, const int, const uint) { return ""; }
using namespace vlog;
struct Op { char op; long k; };
struct Program { long lo, hi; std::vector<long> init; std::vector<std::vector<Op>> th; 
    std::string str() const { std::string s = "window " + std::to_string(lo) + ".." + std::to_string(hi) + " init=" + std::to_string(init.size());
        for (auto &p : th) { s += " |"; for (auto &o : p) { s += ' '; s += o.op; s += std::to_string(o.k); } } return s; } };
static std::vector<std::string> ev;
static void put(Ev &e) { ev.push_back(e.s + "}"); }
static void execute(const Program &p) {
    ev.clear();
    Concurrent_Bit_Set *sp = new Concurrent_Bit_Set(p.lo, p.hi);
    auto &s = *sp;
    for (long k : p.init) s.insert(k);
    put(Ev("init").a("keys", p.init));
    std::vector<std::function<void()>> b;
    for (size_t t = 0; t < p.th.size(); ++t)
        b.push_back([&, t]() {
            for (auto &o : p.th[t]) {
                put(Ev("call").i("t", t).t("op", o.op == 's' || o.op == 'i' ? "i" : o.op == 'u' || o.op == 'e' ? "e" : "c").i("k", o.k));
                bool r = o.op == 's' ? !s.testAndSet(o.k) : o.op == 'i' ? s.insert(o.k) : o.op == 'u' ? s.testAndUnset(o.k) : o.op == 'e' ? s.erase(o.k) : s.isSet(o.k);
                put(Ev("ret").i("t", t).b("r", r));
            }
        });
    if (!vs::run(b)) { put(Ev("hang").i("sig", 0)); return; }
    std::vector<long> c, f, cf; size_t rg = 0;
    for (auto it = s.begin(); it != s.end() && c.size() < 500; ++it) c.push_back(*it);
    for (long k = p.lo; k < p.hi; ++k) if (s.isSet(k)) f.push_back(k);
    for (size_t k = s.lowerBound(); k < s.upperBound(); ++k) if (s.contains(k)) cf.push_back(k);
    { auto r = s.range(); for (auto it = r.begin(); it != r.end() && rg < 500; ++it) rg++; }
    put(Ev("final").a("content", c).a("found", f).a("cfound", cf).i("size", s.zeros() == s.upperBound() - s.lowerBound() - s.ones() ? (long) s.ones() : -1).i("range", rg).b("empty", s.zero()));
    delete sp;
}
int main(int argc, char **argv) {
    long seed = arg(argc, argv, "--seed", 1), n = arg(argc, argv, "--programs", 40), budget = arg(argc, argv, "--budget", 2000), bound = arg(argc, argv, "--bound", 3), keep = arg(argc, argv, "--keep", 80);
    static long *total = (long *) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int rc = run(sarg(argc, argv, "--out", "/dev/stdout"), n, 100, [&](long i) {
        Rng r(seed * 1000003 + i);
        Program p;
        p.lo = r.chance(50) ? 0 : 40; p.hi = p.lo + 64;
        int nt = r.in(2, 3);
        std::vector<long> bits; int nb = r.in(1, 3);
        long base = p.lo + r.upto(20);
        for (int j = 0; j < nb; ++j) bits.push_back(r.chance(70) ? base + j : p.lo + r.upto(63));
        if (r.chance(20)) bits.push_back((p.lo / 32) * 32 + 31 >= p.lo ? (p.lo / 32) * 32 + 31 : p.lo);
        for (long k : bits) if (r.chance(40)) p.init.push_back(k);
        std::sort(p.init.begin(), p.init.end()); p.init.erase(std::unique(p.init.begin(), p.init.end()), p.init.end());
        for (int t = 0; t < nt; ++t) {
            std::vector<Op> q; int m = r.in(1, nt == 2 ? 4 : 3);
            for (int o = 0; o < m; ++o) { int c = r.upto(100); q.push_back({c < 25 ? 's' : c < 50 ? 'i' : c < 65 ? 'u' : c < 85 ? 'e' : 'c', r.pick(bits)}); }
            p.th.push_back(q);
        }
        std::unordered_set<size_t> seen; long kept = 0;
        vs::S().max_steps = 20000; vs::S().fair = 300;
        auto one = [&](const char *how) {
            begin(i * 100000 + 99999, p.str());
            execute(p); total[0]++;
            std::string all; for (auto &e : ev) all += e;
            if (!seen.insert(std::hash<std::string>()(all)).second) { drop(); return; }
            if (kept >= keep && all.find("\"hang\"") == std::string::npos) { drop(); return; }
            begin(i * 100000 + ++kept, p.str() + " " + how + " schedule " + vs::S().sched.substr(0, 300));
            total[1]++;
            for (auto &e : ev) Ev::put_raw(e);
            end();
        };
        vs::start_dfs(bound);
        for (long k = 0; k < budget / 2; ++k) { one("dfs"); if (!vs::next_dfs()) break; }
        for (long k = 0; k < budget / 4; ++k) { vs::start_random(seed * 77 + k * 13 + i, 100 + r.upto(400)); one("random"); }
        for (long k = 0; k < budget / 4; ++k) { vs::start_pct(seed * 91 + k * 17 + i, nt, 1 + r.upto(4), 40); one("pct"); }
    });
    fprintf(stderr, "runs=%ld distinct=%ld\n", total[0], total[1]);
    return rc;
}
