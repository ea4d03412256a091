// Explores interleavings of concurrent operations on the growing hash tables and records the
// call/return histories.   --mode set|map|mmap
#include "common/vsched.h"
#include "common/vlog.h"
#include "common/poison.h"
#include "datastructures/Growing_LP.hxx"
#include "datastructures/LP_Map.hxx"
#include "datastructures/LP_MultiMap.hxx"
#undef atomic
#undef mutex
#undef shared_ptr
#undef make_shared
tGenerator startGen(START_SEED);
size_t getPeakRSS() { return 0; }
size_t getCurrentRSS() { return 0; }
std::string print_stacktrace(const std::string &, const int, const uint) { return ""; }

using namespace vlog;
typedef unsigned long K;

struct Op { char op; K k; K v; };              // i insert, c contains, g get, k const-handle contains
typedef std::vector<Op> Prog;
struct Program {
    size_t cap; std::vector<K> init; std::vector<Prog> th; std::vector<K> universe; unsigned hashSeed;
    std::string str() const {
        std::string s = "cap=" + std::to_string(cap) + " hash=" + std::to_string(hashSeed) + " init=" + std::to_string(init.size());
        for (auto &p : th) { s += " |"; for (auto &o : p) { s += ' '; s += o.op; s += std::to_string(o.k); if (o.op == 'i' && o.v) s += "=" + std::to_string(o.v); } }
        return s;
    }
};

static std::string mode;

struct Recorder { std::vector<std::string> ev; };
static Recorder rec;
static void put(Ev &e) { rec.ev.push_back(e.s + "}"); }

static long long asInt(K v) { return v > 1000000 ? 999999 : (long long) v; }

struct SetA {
    typedef Concurrent_LP_Set<K, true> T;
    template<class H> static int ins(H &h, K k, K) { InsertReturn r = h.insert(k); return (bool) r; }
    template<class H> static void look(H &h, const Op &o, int t) {
        bool r = h.contains(o.k);
        put(Ev("ret").i("t", t).b("r", r));
    }
};
struct MapA {
    typedef Concurrent_LP_Map<K, K> T;
    template<class H> static int ins(H &h, K k, K v) { InsertReturn r = h.insert(k, v); return (bool) r; }
    template<class H> static void look(H &h, const Op &o, int t) {
        K r = h.get(o.k);
        put(Ev("ret").i("t", t).i("v", asInt(r)));
    }
};
struct MMapA {
    typedef Concurrent_LP_MultiMap<K, K> T;
    template<class H> static int ins(H &h, K k, K v) { InsertReturn r = h.insert(k, v); return (bool) r; }
    template<class H> static void look(H &h, const Op &o, int t) {
        bool r = h.contains(o.k);
        put(Ev("ret").i("t", t).b("r", r));
    }
};

template<class C> std::string jarr(const C &c) {
    std::string s = "["; bool f = true;
    for (auto x : c) { if (!f) s += ","; f = false; s += std::to_string(asInt(x)); } return s + "]";
}
template<class C> std::string jpairs(const C &c) {
    std::string s = "["; bool f = true;
    for (auto &x : c) { if (!f) s += ","; f = false; s += "[" + std::to_string(asInt(x.first)) + "," + std::to_string(asInt(x.second)) + "]"; } return s + "]";
}

static void fin(GrowingHashTable<SetA::T> &g, const Program &p) {
    auto h = g.handle();
    std::vector<K> c; for (auto x : h) c.push_back(x);
    std::vector<K> found; for (K k : p.universe) if (h.contains(k)) found.push_back(k);
    const auto &cg = g; auto ch = cg.handle();
    std::vector<K> cfound; for (K k : p.universe) if (ch.contains(k)) cfound.push_back(k);
    size_t rg = 0; { auto r = h.range(); for (auto it = r.begin(); it != r.end(); ++it) rg++; }
    put(Ev("final").j("content", jarr(c)).j("found", jarr(found)).j("cfound", jarr(cfound)).i("size", h.size()).i("range", rg).b("empty", h.empty()));
}
static void fin(GrowingHashTable<MapA::T> &g, const Program &p) {
    auto h = g.handle();
    std::vector<std::pair<K, K>> c; for (auto x : h) c.emplace_back(x.first, x.second);
    std::vector<std::pair<K, K>> found; for (K k : p.universe) { K v = h.get(k); if (v) found.emplace_back(k, v); }
    std::vector<std::pair<K, K>> cfound; const auto &cg = g; auto ch = cg.handle();
    for (K k : p.universe) { K v = ch.get(k); if (v) cfound.emplace_back(k, v); }
    put(Ev("final").j("content", jpairs(c)).j("found", jpairs(found)).j("cfound", jpairs(cfound)).i("size", h.size()).b("empty", h.empty()));
}
static void fin(GrowingHashTable<MMapA::T> &g, const Program &p) {
    auto h = g.handle();
    std::vector<std::pair<K, K>> c; for (auto x : h) c.emplace_back(x.first, x.second);
    std::vector<std::pair<K, K>> found;
    for (K k : p.universe) { auto r = h.get(k); for (auto it = r.first; it != r.second; ++it) { auto x = *it; found.emplace_back(x.first, x.second); if (found.size() > 5000) break; } }
    std::vector<K> has; for (K k : p.universe) if (h.contains(k)) has.push_back(k);
    put(Ev("final").j("content", jpairs(c)).j("found", jpairs(found)).j("has", jarr(has)).i("size", h.size()).b("empty", h.empty()));
}

template<class A>
static void execute(const Program &p) {
    rec.ev.clear();
    std::vs_ptr_races() = 0;
    startGen.seed(p.hashSeed);
    auto *gp = new GrowingHashTable<typename A::T>(p.cap);
    auto &g = *gp;
    {
        auto h = g.handle();
        std::vector<std::pair<K, K>> in;
        for (K k : p.init) { K v = 50 + k % 40; A::ins(h, k, v); in.emplace_back(k, v); }
        if (!p.init.empty()) { if (mode == "set") put(Ev("init").j("keys", jarr(p.init))); else put(Ev("init").j("pairs", jpairs(in))); }
    }
    std::vector<std::function<void()>> b;
    for (size_t t = 0; t < p.th.size(); ++t)
        b.push_back([&, t]() {
            try {
                auto h = g.handle();
                const auto &cg = g;
                auto ch = cg.handle();
                for (auto &o : p.th[t]) {
                    put(Ev("call").i("t", t).t("op", std::string(1, o.op == 'i' ? 'i' : 'c')).i("k", o.k).i("v", o.v));
                    if (o.op == 'i') { int r = A::ins(h, o.k, o.v); put(Ev("ret").i("t", t).b("r", r).i("v", 0)); }
                    else if (o.op == 'k') A::look(ch, o, t);
                    else A::look(h, o, t);
                }
            } catch (const std::exception &e) { put(Ev("exc").t("what", e.what())); }
        });
    bool ok = vs::run(b);
    if (!ok) { put(Ev("hang").i("sig", 0)); return; }          // leak: the fibers still refer to it
    if (std::vs_ptr_races()) put(Ev("race").i("n", std::vs_ptr_races()));
    fin(g, p);
    delete gp;
}

int main(int argc, char **argv) {
    mode = sarg(argc, argv, "--mode", "set");
    long seed = arg(argc, argv, "--seed", 1), nprog = arg(argc, argv, "--programs", 20);
    long budget = arg(argc, argv, "--budget", 3000), bound = arg(argc, argv, "--bound", 2);
    long keep = arg(argc, argv, "--keep", 120), big = arg(argc, argv, "--big", 2);
    std::string out = sarg(argc, argv, "--out", "/dev/stdout");
    static long *total = (long *) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int rc = run(out, nprog, 100, [&](long i) {
        Rng r(seed * 1000003 + i);
        Program p;
        bool isBig = i < big;
        int nt = isBig ? (int) r.in(2, 3) : (int) r.in(2, 3);
        p.hashSeed = r.upto(1000000) + 1;
        if (isBig) {
            p.cap = 1024;
            for (K k = 1; k <= (K) (508 + r.upto(4)); ++k) p.init.push_back(k * 7 + 3);
        } else {
            size_t caps[] = {8, 8, 8, 16};
            p.cap = caps[r.upto(4)];
            long half = p.cap / 2;
            long pre = r.in(half > 3 ? half - 3 : 0, half);
            for (long k = 0; k < pre; ++k) p.init.push_back(100 + k);
        }
        K nk = r.in(2, 5);
        long ops = isBig ? 6 : r.in(2, nt == 2 ? 4 : 3);
        K base = isBig ? 5000 : 1;
        for (int t = 0; t < nt; ++t) {
            Prog q;
            for (long o = 0; o < ops; ++o) {
                K k = base + r.upto(nk);
                if (r.chance(25) && !p.init.empty()) k = r.pick(p.init);
                else if (r.chance(40)) k = base + 10 + t * 10 + o;      // private key, to force growth
                int c = r.upto(100);
                K v = mode == "mmap" ? 100 + r.upto(3) : 100 + t * 10 + o;
                q.push_back({c < 65 ? 'i' : c < 88 ? 'c' : 'k', k, v});
            }
            p.th.push_back(q);
        }
        std::set<K> u(p.init.begin(), p.init.end());
        for (auto &q : p.th) for (auto &o : q) u.insert(o.k);
        u.insert(base + 90); u.insert(base + 91);
        p.universe.assign(u.begin(), u.end());

        std::unordered_set<size_t> seen;
        long runs = 0, kept = 0;
        auto one = [&](const std::string &how) {
            begin(i * 100000 + 99999, mode + " " + p.str() + " " + how);
            if (mode == "set") execute<SetA>(p); else if (mode == "map") execute<MapA>(p); else execute<MMapA>(p);
            runs++; total[0]++;
            std::string all; for (auto &e : rec.ev) all += e;
            if (!seen.insert(std::hash<std::string>()(all)).second) { drop(); return; }
            bool odd = all.find("\"hang\"") != std::string::npos || all.find("\"exc\"") != std::string::npos || all.find("\"race\"") != std::string::npos;
            if (kept >= keep && !odd) { drop(); return; }
            kept++; total[1]++;
            begin(i * 100000 + kept, mode + " " + p.str() + " " + how + " schedule " + vs::S().sched.substr(0, 600));
            for (auto &e : rec.ev) Ev::put_raw(e);
            end();
        };
        long b = isBig ? budget / 20 : budget;
        vs::S().max_steps = isBig ? 3000000 : 60000;
        vs::S().fair = isBig ? 20000 : 500;
        if (!isBig) {
            vs::start_dfs(bound);
            for (long n = 0; n < b / 2; ++n) { one("dfs"); if (!vs::next_dfs()) break; }
        }
        for (long n = 0; n < b / 4; ++n) { vs::start_random(seed * 77 + n * 13 + i, isBig ? 2 + r.upto(10) : 30 + r.upto(300)); one("random"); }
        for (long n = 0; n < b / 4; ++n) { vs::start_pct(seed * 91 + n * 17 + i, nt, 1 + r.upto(4), isBig ? 12000 : 250); one("pct"); }
    });
    fprintf(stderr, "runs=%ld distinct=%ld\n", total[0], total[1]);
    return rc;
}
