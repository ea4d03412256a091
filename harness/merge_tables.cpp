// Interleavings inside the parallel bulk operations (merge, filtered merge, rehash) of the concurrent
// tables.  --mode set|map|mmap.  tbb::parallel_for is the one of harness/sched.
#include "common/vsched.h"
#include "common/vlog.h"
#include "common/poison.h"
#include "tbb/parallel_for.h"
#include "datastructures/Growing_LP.hxx"
#include "datastructures/LP_Map.hxx"
#include "datastructures/LP_MultiMap.hxx"
#undef atomic
#undef mutex
#undef shared_ptr
#undef make_shared
tGenerator startGen(START_SEED);
size_t getPeakRSS() { return 0; }
size_t getCurrentRSS() { return 0; }
std::string print_stacktrace(const std::string &, const int, const uint) { return ""; }
using namespace vlog;
typedef unsigned long K;

struct Prog { int nk; std::vector<K> U; std::vector<std::pair<int, K>> a, b; std::set<K> f; int op; size_t capA, capB; unsigned hs; };
static std::vector<std::string> ev;
static void put(Ev &e) { ev.push_back(e.s + "}"); }
static long ix(const Prog &p, K k) { for (size_t i = 0; i < p.U.size(); ++i) if (p.U[i] == k) return i + 1; return -7; }
static long vint(K v) { return v > 100000 ? -7 : (long) v; }
template<class P> std::string jp(const P &c) {
    std::string s = "["; bool f = true;
    for (auto &x : c) { if (!f) s += ","; f = false; s += "[" + std::to_string(x.first) + "," + std::to_string(x.second) + "]"; }
    return s + "]";
}
static std::vector<long> fl(const Prog &p) { std::vector<long> v; for (K k : p.f) v.push_back(ix(p, k)); return v; }
static void chain() { vs::S().cont = true; }

template<class S> void obsSet(const Prog &p, S &s) {
    std::vector<long> c, has;
    for (auto it = s.begin(); it != s.end() && c.size() < 500; ++it) c.push_back(ix(p, *it));
    for (K k : p.U) if (s.contains(k)) has.push_back(ix(p, k));
    put(Ev("obs").t("o", "a").a("content", c).a("has", has).i("size", s.size()).b("empty", s.empty()));
}
template<class S> void obsMap(const Prog &p, S &s, bool bag) {
    std::vector<std::pair<long, long>> c; std::vector<long> has;
    for (auto it = s.begin(); it != s.end() && c.size() < 500; ++it) { auto x = *it; c.emplace_back(ix(p, x.first), vint(x.second)); }
    for (K k : p.U) if (s.contains(k)) has.push_back(ix(p, k));
    put(Ev("obs").t("o", "a").j("content", jp(c)).a("has", has).i("size", s.size()).b("empty", s.empty()));
}
static void execute(const Prog &p, const std::string &mode) {
    ev.clear(); startGen.seed(p.hs);
    vs_lost() = false; vs::S().cont = false; vs_chain() = chain;
    put(Ev("new").t("o", "a")); put(Ev("new").t("o", "b"));
    auto lg = [&](const char *o, K k, K v, bool r) { put(Ev("ins").t("o", o).i("k", ix(p, k)).i("v", v).b("r", r)); };
    if (mode == "set") {
        Concurrent_LP_Set<K> a(p.capA), b(p.capB);
        for (auto &x : p.a) { bool r = a.insert(p.U[x.first]); lg("a", p.U[x.first], x.second, r); }
        for (auto &x : p.b) { bool r = b.insert(p.U[x.first]); lg("b", p.U[x.first], x.second, r); }
        a.unsafe_merge(std::move(b), p.f);
        if (vs_lost()) { put(Ev("hang").i("sig", 0)); return; }
        put(Ev("mergef").t("o", "a").t("p", "b").a("f", fl(p)));
        obsSet(p, a);
    } else if (mode == "map") {
        Concurrent_LP_Map<K, K> a(p.capA), b(p.capB);
        for (auto &x : p.a) { bool r = a.insert(p.U[x.first], x.second); lg("a", p.U[x.first], x.second, r); }
        for (auto &x : p.b) { bool r = b.insert(p.U[x.first], x.second); lg("b", p.U[x.first], x.second, r); }
        if (p.op == 0) a.unsafe_merge(std::move(b), p.f);
        else if (p.op == 1) a.unsafe_merge(std::move(b));
        else a.unsafe_rehash(p.capA * 2);
        if (vs_lost()) { put(Ev("hang").i("sig", 0)); return; }
        if (p.op == 0) put(Ev("mergef").t("o", "a").t("p", "b").a("f", fl(p)));
        else if (p.op == 1) put(Ev("merge").t("o", "a").t("p", "b"));
        else put(Ev("same").t("o", "a"));
        obsMap(p, a, false);
    } else {
        Concurrent_LP_MultiMap<K, K> a(p.capA), b(p.capB);
        for (auto &x : p.a) { bool r = a.insert(p.U[x.first], x.second); lg("a", p.U[x.first], x.second, r); }
        for (auto &x : p.b) { bool r = b.insert(p.U[x.first], x.second); lg("b", p.U[x.first], x.second, r); }
        if (p.op) a.unsafe_rehash(p.capA * 2); else a.unsafe_merge(std::move(b), p.f);
        if (vs_lost()) { put(Ev("hang").i("sig", 0)); return; }
        if (p.op) put(Ev("same").t("o", "a")); else put(Ev("mergef").t("o", "a").t("p", "b").a("f", fl(p)));
        obsMap(p, a, true);
    }
}
int main(int argc, char **argv) {
    std::string mode = sarg(argc, argv, "--mode", "set"), out = sarg(argc, argv, "--out", "/dev/stdout");
    long seed = arg(argc, argv, "--seed", 1), n = arg(argc, argv, "--programs", 40), budget = arg(argc, argv, "--budget", 1500);
    static long *total = (long *) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int rc = run(out, n, 100, [&](long i) {
        Rng r(seed * 1000003 + i);
        Prog p;
        bool chainy = r.chance(50);
        int nk = r.in(2, 5);
        for (int k = 0; k < nk; ++k) p.U.push_back(chainy ? (k + 1) * 64 + 1 : k + 1 + r.upto(100) * 10);
        p.hs = r.upto(1000000) + 1;
        p.op = mode == "map" ? r.upto(3) : mode == "mmap" ? r.chance(25) : 0;
        p.capA = 8; p.capB = 8;
        int na = r.in(1, 3), nb = r.in(1, 3);
        for (int j = 0; j < na; ++j) p.a.emplace_back(mode == "map" ? r.upto((nk + 1) / 2) : r.upto(nk), r.in(1, 3));
        for (int j = 0; j < nb; ++j) p.b.emplace_back(mode == "map" ? (nk + 1) / 2 + r.upto(nk / 2) : r.upto(nk), r.in(1, 3));
        for (K k : p.U) if (r.chance(20)) p.f.insert(k);
        vs_pieces() = r.in(2, 3);
        vs::S().max_steps = 60000; vs::S().fair = 500;
        std::unordered_set<size_t> seen; long kept = 0;
        auto one = [&](const char *how) {
            begin(i, mode + " bulk");
            execute(p, mode); total[0]++;
            std::string all; for (auto &e : ev) all += e;
            if (!seen.insert(std::hash<std::string>()(all)).second) { drop(); return; }
            begin(i * 100000 + ++kept, mode + " op " + std::to_string(p.op) + " pieces " + std::to_string(vs_pieces()) + " " + how + " schedule " + vs::S().sched.substr(0, 400));
            total[1]++;
            for (auto &e : ev) Ev::put_raw(e);
            end();
        };
        vs::start_dfs(2);
        for (long k = 0; k < budget / 2; ++k) { one("dfs"); if (!vs::next_dfs()) break; }
        for (long k = 0; k < budget / 4; ++k) { vs::start_random(seed * 77 + k * 13 + i, 30 + r.upto(300)); one("random"); }
        for (long k = 0; k < budget / 4; ++k) { vs::start_pct(seed * 91 + k * 17 + i, vs_pieces(), 1 + r.upto(4), 120); one("pct"); }
    });
    fprintf(stderr, "runs=%ld distinct=%ld\n", total[0], total[1]);
    return rc;
}
