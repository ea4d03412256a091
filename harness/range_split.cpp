// Ranges over every container that offers them, split in random or exhaustive ways.
// One history = one container with known contents, one split tree, and what each part visits.
#include "common/vlog.h"
#include "common/poison.h"
#include "common/env.h"
#include <tbb/blocked_range.h>
#include <tbb/parallel_for.h>
#include "Geometry.h"
#include "datastructures/Bit_Set.hxx"
#include "datastructures/LP_Map.hxx"
#include "datastructures/LP_MultiMap.hxx"
#include "datastructures/Growing_LP.hxx"
#include <list>
using namespace vlog;
typedef unsigned long K;
static std::set<long> used;

// style 0: split until nothing is divisible; 1: random; 2: always the left part; 3: always the right part
template<class R, class F> void split(Rng &r, const char *kind, R root, F item) {
    std::list<R> work; work.emplace_back(root);
    int style = r.upto(4); long made = 1;
    for (auto it = work.begin(); it != work.end() && made < 400;) {
        bool go = it->is_divisible() && (style == 0 || (style == 1 && !r.chance(25)) || style >= 2);
        if (!go) { ++it; continue; }
        auto nx = std::next(it);
        it = style == 3 ? (work.emplace(it, *it, tbb::split()), it) : (work.emplace(it, *it, tbb::split()), std::prev(it));
        ++made;
        if (style == 2 && r.chance(40)) ++it;
        (void) nx;
    }
    Ev("split").t("kind", kind).i("style", style).i("parts", work.size()).put();
    for (auto &p : work) {
        std::vector<long> v; long guard = 0; bool e = p.empty();
        if (r.chance(50)) { for (auto it = p.begin(); it != p.end() && guard < 3000; ++it, ++guard) v.push_back(item(*it)); }
        else { const R &cp = p; for (auto it = cp.begin(); it != cp.end() && guard < 3000; it++, ++guard) v.push_back(item(*it)); }
        Ev("part").b("empty", e).a("v", v).put();
    }
    Ev("done").put();
}
static void contents() { Ev("content").a("used", used).put(); }
template<class C> auto rangeOf(Rng &r, C &c) { typedef typename C::const_range_type T; return r.chance(30) ? T(c) : T(c, r.chance(60) ? 1 + r.upto(3) : r.upto(40)); }

static void history(long i, Rng &r, const std::string &mode) {
    used.clear();
    if (mode == "small") {       // every layout of up to three blocks in 7 ids with every pattern of used ids
        // digit per id: 0 outside, 1 starts a block unused, 2 starts a block used, 3 continues unused, 4 continues used
        dSimplices<2, double> *s = nullptr; int d[7]; for (int k = 0; k < 7; ++k) { d[k] = i % 5; i /= 5; }
        struct B { long lo, hi; }; std::vector<B> bl;
        for (int k = 0; k < 7; ++k) {
            if (d[k] == 0) continue;
            bool cont = d[k] >= 3;
            if (cont) { if (bl.empty() || bl.back().hi != k) cont = false; }
            if (cont) bl.back().hi = k + 1; else bl.push_back({k, k + 1});
            if (d[k] == 2 || d[k] == 4) used.insert(k);
        }
        if (bl.empty()) { used.clear(); bl.push_back({3, 4}); }
        s = new dSimplices<2, double>(bl[0].lo, bl[0].hi, 0);
        for (size_t j = 1; j < bl.size(); ++j) s->addBlock(bl[j].lo, bl[j].hi);
        for (long k : used) s->unsafe_at(k).id = k;
        contents();
        split(r, "dSimplices", dSimplices<2, double>::const_range_type(*s, 1 + r.upto(2)), [](const auto &e) { return (long) e.id; });
        split(r, "dSimplices (writable)", dSimplices<2, double>::range_type(*s, 1), [](const auto &e) { return (long) e.id; });
        delete s;
        return;
    }
    int kind = r.upto(13); long n = r.chance(10) ? r.upto(3) : r.chance(80) ? r.in(1, 40) : r.in(60, 250);
    auto id = [](const auto &e) { return (long) e; };
    auto val = [](const auto &p) { return (long) p.second; };
    auto key = [](const auto &p) { return (long) p.first; };
    auto pick = [&]() { K k = 1 + r.upto(r.chance(50) ? 3 * n + 2 : 100000); return k; };
    if (kind == 0) { LP_Set<K, true> s(1 + r.upto(64)); for (long j = 0; j < n; ++j) { K k = pick(); s.insert(k); used.insert(k); } contents(); split(r, "LP_Set", rangeOf(r, s), id); }
    else if (kind == 1) { LP_Set<K> s(4 * n + 8); for (long j = 0; j < n; ++j) { K k = pick(); s.insert(k); used.insert(k); } contents(); split(r, "LP_Set fixed", rangeOf(r, s), id); }
    else if (kind == 2) { Concurrent_LP_Set<K> s(4 * n + 8); for (long j = 0; j < n; ++j) { K k = pick(); s.insert(k); used.insert(k); } contents(); split(r, "Concurrent_LP_Set", rangeOf(r, s), id); }
    else if (kind == 3) { GrowingHashTable<Concurrent_LP_Set<K, true>> s(8); auto h = s.handle(); for (long j = 0; j < n; ++j) { K k = pick(); h.insert(k); used.insert(k); } contents(); split(r, "growing set", h.range(), id); }
    else if (kind == 4) { LP_Map<K, K> s(1 + r.upto(64)); for (long j = 0; j < n; ++j) { K k = pick(); s.insert(k, 1 + r.upto(50)); used.insert(k); } contents(); split(r, "LP_Map", rangeOf(r, s), key); }
    else if (kind == 5) { Concurrent_LP_Map<K, K> s(4 * n + 8); for (long j = 0; j < n; ++j) { K k = pick(); s.insert(k, 1 + r.upto(50)); used.insert(k); } contents(); split(r, "Concurrent_LP_Map", rangeOf(r, s), key); }
    else if (kind == 6) { LP_MultiMap<K, K> s(1 + r.upto(64)); for (long j = 0; j < n; ++j) { s.insert(1 + r.upto(6), j + 1); used.insert(j + 1); } contents(); split(r, "LP_MultiMap", rangeOf(r, s), val); }
    else if (kind == 7) { Concurrent_LP_MultiMap<K, K> s(4 * n + 8); for (long j = 0; j < n; ++j) { s.insert(1 + r.upto(6), j + 1); used.insert(j + 1); } contents(); split(r, "Concurrent_LP_MultiMap", rangeOf(r, s), val); }
    else if (kind == 8) { GrowingHashTable<Concurrent_LP_MultiMap<K, K>> s(8); auto h = s.handle(); for (long j = 0; j < n; ++j) { h.insert(1 + r.upto(6 + n / 4), j + 1); used.insert(j + 1); } contents(); split(r, "growing multimap", h.range(), val); }
    else if (kind == 9 || kind == 10) {
        long lo = r.chance(50) ? 0 : r.upto(200), hi = lo + 1 + r.upto(220); int dense = r.upto(4);
        if (kind == 9) { Bit_Set s(lo, hi); for (long k = lo; k < hi; ++k) if (r.chance(dense == 0 ? 3 : dense == 1 ? 50 : dense == 2 ? 97 : 15)) { s.insert(k); used.insert(k); } contents(); split(r, "Bit_Set", rangeOf(r, s), id); }
        else { Concurrent_Bit_Set s(lo, hi); for (long k = lo; k < hi; ++k) if (r.chance(dense == 0 ? 3 : dense == 1 ? 50 : dense == 2 ? 97 : 15)) { s.insert(k); used.insert(k); } contents(); split(r, "Concurrent_Bit_Set", rangeOf(r, s), id); }
    }
    else {
        long lo = r.upto(30); BlockedArray2<long, std::size_t> p(lo, lo + 3); dSimplices<3, double> s(lo, lo + 3, 0);
        std::vector<std::pair<long, long>> bl{{lo, lo + 3}}; long at = lo + 3, m = r.upto(8);
        for (long j = 0; j < m; ++j) { at += r.chance(50) ? 0 : r.upto(20); long e = at + 1 + r.upto(12); bl.emplace_back(at, e); at = e; }
        for (size_t j = bl.size() - 1; j > 0; --j) { p.addBlock(bl[j].first, bl[j].second); s.addBlock(bl[j].first, bl[j].second); }
        int dense = r.upto(4); bool filt = kind == 11;
        for (auto &b : bl) for (long k = b.first; k < b.second; ++k) { p.unsafe_at(k) = k; if (!filt || r.chance(dense == 0 ? 5 : dense == 1 ? 50 : dense == 2 ? 95 : 20)) { used.insert(k); s.unsafe_at(k).id = k; } }
        contents();
        if (filt) { split(r, "dSimplices", rangeOf(r, s), [](const auto &e) { return (long) e.id; }); split(r, "dSimplices (writable)", dSimplices<3, double>::range_type(s, 1 + r.upto(4)), [](const auto &e) { return (long) e.id; }); }
        else split(r, "BlockedArray2", rangeOf(r, p), id);
    }
}
int main(int argc, char **argv) {
    std::string mode = sarg(argc, argv, "--mode", "rand"), out = sarg(argc, argv, "--out", "/dev/stdout");
    long seed = arg(argc, argv, "--seed", 1), n = arg(argc, argv, "--n", 300), skip = arg(argc, argv, "--step", 1);
    return run(out, n, 20, [&](long i) {
        Rng r(seed * 7919 + i); startGen.seed(r.next() & 0xffffffff);
        begin(i, mode);
        history(mode == "small" ? (i * skip + seed - 1) % 78125 : i, r, mode);
        end();
    });
}
