// Random and exhaustive operation sequences on the sequential and concurrent (used sequentially or by
// their own parallel bulk operations) hash tables.   --mode set|map|mmap|bulk
#include "common/vlog.h"
#include "common/poison.h"
#include "common/env.h"
#include "datastructures/LP_Set.hxx"
#include "datastructures/LP_Map.hxx"
#include "datastructures/LP_MultiMap.hxx"
#include "datastructures/Growing_LP.hxx"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include "common/ranges.h"
#include <tbb/global_control.h>
using namespace vlog;
typedef unsigned long K;

static std::vector<K> U;                      // universe: key index i+1 <-> U[i]
static std::unordered_map<K, int> IX;
static int ix(K k) { auto i = IX.find(k); return i == IX.end() ? -7 : i->second; }
static void universe(Rng &r, int n) {
    U.clear(); IX.clear();
    int style = r.upto(4);
    while ((int) U.size() < n) {
        K k;
        switch (style) {
            case 0: k = U.size() + 1; break;                       // dense small keys
            case 1: k = (U.size() + 1) * 64 + 1; break;            // equal low bits: one long chain
            case 2: k = r.chance(50) ? (U.size() + 1) * 16 : r.next() | 1; break;
            default: k = r.next(); break;
        }
        if (k == 0 || IX.count(k)) { style = 3; continue; }
        U.push_back(k); IX[k] = U.size();
    }
}
static std::vector<long> idxs(const std::set<K> &s) { std::vector<long> v; for (K k : s) v.push_back(ix(k)); return v; }
static std::set<K> subset(Rng &r, int pct) { std::set<K> s; for (K k : U) if (r.chance(pct)) s.insert(k); return s; }
template<class P> std::string jp(const P &c) {
    std::string s = "["; bool f = true;
    for (auto &x : c) { if (!f) s += ","; f = false; s += "[" + std::to_string(x.first) + "," + std::to_string(x.second) + "]"; }
    return s + "]";
}
static long vint(K v) { return v > 100000 ? -7 : (long) v; }
static Rng SR(1);            // drives the splitting of ranges

// ---------------------------------------------------------------------------------- observation
template<class S> void obsSet(const char *o, const S &s) {
    std::vector<long> c, has, got;
    size_t guard = 0;
    for (auto it = s.begin(); it != s.end() && guard < 4000; ++it, ++guard) c.push_back(ix(*it));
    for (K k : U) if (s.contains(k)) has.push_back(ix(k));
    for (K k : U) if (s.count(k)) got.push_back(ix(k));
    std::vector<long> pt; long np;
    typename S::const_range_type rg(s, 1 + SR.upto(4));
    bool lie = splitVisit(rg, SR, 1 + SR.upto(12), [&](K k) { pt.push_back(ix(k)); }, np);
    Ev("obs").t("o", o).a("content", c).a("has", has).a("cnt", got).a("parts", pt).b("lie", lie).i("np", np).i("size", s.size()).b("empty", s.empty()).put();
}
template<class S> void obsMap(const char *o, const S &s) {
    std::vector<std::pair<long, long>> c, got; std::vector<long> has;
    size_t guard = 0;
    for (auto it = s.begin(); it != s.end() && guard < 4000; ++it, ++guard) { auto p = *it; c.emplace_back(ix(p.first), vint(p.second)); }
    for (K k : U) { auto v = s.get(k); if (v) got.emplace_back(ix(k), vint(v)); }
    for (K k : U) if (s.contains(k)) has.push_back(ix(k));
    std::vector<std::pair<long, long>> pt; long np;
    typename S::const_range_type rg(s, 1 + SR.upto(4));
    bool lie = splitVisit(rg, SR, 1 + SR.upto(12), [&](const auto &p) { pt.emplace_back(ix(p.first), vint(p.second)); }, np);
    Ev("obs").t("o", o).j("content", jp(c)).j("got", jp(got)).a("has", has).j("parts", jp(pt)).b("lie", lie).i("np", np).i("size", s.size()).b("empty", s.empty()).put();
}
template<class S> void obsBag(const char *o, const S &s) {
    std::vector<std::pair<long, long>> c, got; std::vector<long> has;
    size_t guard = 0;
    for (auto it = s.begin(); it != s.end() && guard < 4000; ++it, ++guard) { auto p = *it; c.emplace_back(ix(p.first), vint(p.second)); }
    for (K k : U) {
        auto r = s.get(k); guard = 0;
        for (auto it = r.first; it != r.second && guard < 4000; ++it, ++guard) { auto p = *it; got.emplace_back(ix(p.first), vint(p.second)); }
    }
    for (K k : U) if (s.contains(k)) has.push_back(ix(k));
    std::vector<std::pair<long, long>> pt; long np;
    typename S::const_range_type rg(s, 1 + SR.upto(4));
    bool lie = splitVisit(rg, SR, 1 + SR.upto(12), [&](const auto &p) { pt.emplace_back(ix(p.first), vint(p.second)); }, np);
    Ev("obs").t("o", o).j("content", jp(c)).j("got", jp(got)).a("has", has).j("parts", jp(pt)).b("lie", lie).i("np", np).i("size", s.size()).b("empty", s.empty()).put();
}

static size_t caps[] = {1, 2, 2, 4, 4, 8, 16, 33};
static Ev N(const char *e, const char *o) { return Ev(e).t("o", o); }

template<class T, class S> T reload(const S &s) {      // through a binary archive
    std::stringstream ss;
    { boost::archive::binary_oarchive oa(ss); oa << s; }
    T t(1);
    { boost::archive::binary_iarchive ia(ss); ia >> t; }
    return t;
}

// ---------------------------------------------------------------------------------- sequential set
template<bool G> void setHist(Rng &r) {
    typedef LP_Set<K, G> S;
    auto mk = [&]() {
        size_t cap = caps[r.upto(8)];
        if (!G) cap = 2 * U.size() + 1;               // a non-growing table must be large enough
        if (G && r.chance(10)) return S();
        return S(cap);
    };
    S a = mk(), b = mk();
    N("new", "a").put(); N("new", "b").put();
    auto room = [&](S &s) { return G ? 2 * (s.size() + 1) : 2 * U.size() + 1; };
    auto ins = [&](S &s, const char *o, K k) { bool f = s.insert(k); N("ins", o).i("k", ix(k)).b("r", f).put(); };
    long n = r.in(4, 14);
    for (long i = 0; i < n; ++i) {
        int c = r.upto(100);
        S &s = r.chance(70) ? a : b; const char *o = &s == &a ? "a" : "b";
        if (c < 50) { long m = r.in(1, 4); for (long j = 0; j < m; ++j) ins(s, o, r.pick(U)); }
        else if (c < 55) { s.rehash(room(s) + r.upto(20)); N("same", o).put(); }
        else if (c < 60) { auto f = subset(r, 40); bool cmp = r.chance(50); s.rehash(room(s), f, cmp); N("filter", o).a("f", idxs(f)).b("cmp", cmp).put(); }
        else if (c < 65) { auto f = subset(r, 40); s.filter(f); N("filter", o).a("f", idxs(f)).b("cmp", false).put(); }
        else if (c < 71) { a.merge(std::move(b)); N("merge", "a").t("p", "b").put(); b = mk(); N("new", "b").put(); }
        else if (c < 78) { auto f = subset(r, 40); bool cmp = r.chance(40); a.merge(std::move(b), f, cmp);
            N("mergef", "a").t("p", "b").a("f", idxs(f)).b("cmp", cmp).put(); b = mk(); N("new", "b").put();
            obsSet("a", a);
            if (!G && a.capacity() < 2 * U.size()) a.rehash(2 * U.size() + 1); }
        else if (c < 82) { b = a.copy(); N("copy", "a").t("p", "b").put(); }
        else if (c < 85) { S x(a); b = std::move(x); N("copy", "a").t("p", "b").put(); }
        else if (c < 88) { S x(std::move(b)); b = std::move(a); a = std::move(x); N("swap", "a").t("p", "b").put(); }
        else if (c < 91) { b = reload<S>(a); N("copy", "a").t("p", "b").put(); if (!G && b.capacity() < 2 * U.size()) b.rehash(2 * U.size() + 1); }
        else if (c < 94) { Concurrent_LP_Set<K, G> x(std::move(b)); obsSet("b", x); b = S(std::move(x)); N("same", "b").put(); }
        else { bool e = a == b; N("eq", "a").t("p", "b").b("r", e).put(); }
        obsSet(o, s);
    }
    obsSet("a", a); obsSet("b", b);
}
// every sequence of inserts of length <= L over 3 keys, on capacity cap, observed after each insert
static void setExhaustive(long i, Rng &r) {
    long cap = 1L << (i % 4); i /= 4;
    LP_Set<K, true> s(cap);
    N("new", "a").put();
    for (int j = 0; j < 5; ++j) { K k = U[i % 3]; i /= 3; bool f = s.insert(k); N("ins", "a").i("k", ix(k)).b("r", f).put(); obsSet("a", s); }
}

// ---------------------------------------------------------------------------------- sequential map
static void mapHist(Rng &r) {
    typedef LP_Map<K, K> S;
    auto mk = [&]() { return S(caps[r.upto(8)]); };
    S a = mk(), b = mk();
    N("new", "a").put(); N("new", "b").put();
    K v = 0;
    auto ins = [&](S &s, const char *o, K k) { v = r.in(1, 900); bool f = r.chance(80) ? s.insert(k, v) : s.insert(std::make_pair(k, v)); N("ins", o).i("k", ix(k)).i("v", v).b("r", f).put(); };
    long n = r.in(4, 14);
    for (long i = 0; i < n; ++i) {
        int c = r.upto(100);
        S &s = r.chance(70) ? a : b; const char *o = &s == &a ? "a" : "b";
        if (c < 60) { long m = r.in(1, 4); for (long j = 0; j < m; ++j) ins(s, o, r.pick(U)); }
        else if (c < 66) { s.rehash(2 * (s.size() + 1) + r.upto(20)); N("same", o).put(); }
        else if (c < 72) { auto f = subset(r, 40); s.rehash(2 * (s.size() + 1), f); N("filter", o).a("f", idxs(f)).put(); }
        else if (c < 79) { a.merge(std::move(b)); N("merge", "a").t("p", "b").put(); b = mk(); N("new", "b").put(); }
        else if (c < 86) { auto f = subset(r, 40); a.merge(std::move(b), f); N("mergef", "a").t("p", "b").a("f", idxs(f)).put(); b = mk(); N("new", "b").put(); }
        else if (c < 91) { S x(std::move(b)); b = std::move(a); a = std::move(x); N("swap", "a").t("p", "b").put(); }
        else if (c < 95) { b = reload<S>(a); N("copy", "a").t("p", "b").put(); }
        else { Concurrent_LP_Map<K, K> x(std::move(b)); obsMap("b", x); b = S(std::move(x)); N("same", "b").put(); }
        obsMap(o, s);
    }
    obsMap("a", a); obsMap("b", b);
}
// ---------------------------------------------------------------------------------- sequential multimap
static void bagHist(Rng &r) {
    typedef LP_MultiMap<K, K> S;
    auto mk = [&]() { return S(caps[r.upto(8)]); };
    S a = mk(), b = mk();
    N("new", "a").put(); N("new", "b").put();
    auto ins = [&](S &s, const char *o, K k) { K v = r.in(1, 5); bool f = r.chance(80) ? s.insert(k, v) : s.insert(std::make_pair(k, v)); N("ins", o).i("k", ix(k)).i("v", v).b("r", f).put(); };
    long n = r.in(4, 14);
    for (long i = 0; i < n; ++i) {
        int c = r.upto(100);
        S &s = r.chance(70) ? a : b; const char *o = &s == &a ? "a" : "b";
        if (c < 60) { long m = r.in(1, 4); for (long j = 0; j < m; ++j) ins(s, o, r.pick(U)); }
        else if (c < 66) { s.rehash(2 * (s.size() + 1) + r.upto(20)); N("same", o).put(); }
        else if (c < 72) { auto f = subset(r, 40); s.rehash(2 * (s.size() + 1), f); N("filter", o).a("f", idxs(f)).put(); }
        else if (c < 79) { a.merge(std::move(b)); N("merge", "a").t("p", "b").put(); b = mk(); N("new", "b").put(); }
        else if (c < 86) { auto f = subset(r, 40); a.merge(std::move(b), f); N("mergef", "a").t("p", "b").a("f", idxs(f)).put(); b = mk(); N("new", "b").put(); }
        else if (c < 91) { S x(std::move(b)); b = std::move(a); a = std::move(x); N("swap", "a").t("p", "b").put(); }
        else if (c < 95) { b = reload<S>(a); N("copy", "a").t("p", "b").put(); }
        else { Concurrent_LP_MultiMap<K, K> x(std::move(b)); obsBag("b", x); b = S(std::move(x)); N("same", "b").put(); }
        obsBag(o, s);
    }
    obsBag("a", a); obsBag("b", b);
}
// ---------------------------------------------------------------------------------- bulk operations (parallel)
template<class S> void fillPlain(S &s, const char *o, Rng &r, long m, bool exact) {
    for (long j = 0; j < m; ++j) { K k = r.pick(U); auto f = s.insert(k); N("ins", o).i("k", ix(k)).b("r", (bool) f).put(); }
}
static void bulkSet(Rng &r) {
    // a set large enough for its share of the universe
    long n = U.size();
    auto capFor = [&](long items) { size_t c = 1; while (c < 2 * (size_t) items + 2) c <<= 1; return c << r.upto(3); };
    int variant = r.upto(3);
    long m1 = r.chance(15) ? 0 : r.in(1, n), m2 = r.chance(15) ? 0 : r.in(1, n);
    Concurrent_LP_Set<K> a(capFor(m1));
    N("new", "a").put();
    fillPlain(a, "a", r, m1, true);
    auto f = r.chance(30) ? std::set<K>() : subset(r, 35);
    if (variant == 0) {
        Concurrent_LP_Set<K> b(capFor(m2)); N("new", "b").put(); fillPlain(b, "b", r, m2, true);
        a.unsafe_merge(std::move(b), f);
    } else if (variant == 1) {
        LP_Set<K, true> b(1 + r.upto(8)); N("new", "b").put();
        for (long j = 0; j < m2; ++j) { K k = r.pick(U); bool x = b.insert(k); N("ins", "b").i("k", ix(k)).b("r", x).put(); }
        a.unsafe_merge(b, f);
    } else {
        GrowingHashTable<Concurrent_LP_Set<K, true>> g(8);
        { auto h = g.handle(); N("new", "b").put();
          for (long j = 0; j < m2; ++j) { K k = r.pick(U); bool x = h.insert(k); N("ins", "b").i("k", ix(k)).b("r", x).put(); }
          a.unsafe_merge(g.handle(), f); }
    }
    N("mergef", "a").t("p", "b").a("f", idxs(f)).b("cmp", false).put();
    obsSet("a", a);
    {   // copy into a table of equal capacity and hash function
        Hasher<K> hs; size_t cap = capFor(8);
        Concurrent_LP_Set<K> src(cap, 0, hs), dst(cap, 0, hs); N("new", "c").put(); fillPlain(src, "c", r, 6, true);
        fillPlain(dst, "c", r, 0, true);
        dst.unsafe_copy(src); N("same", "c").put(); obsSet("c", dst);
        fillPlain(dst, "c", r, 2, true); obsSet("c", dst);
        LP_Set<K> seq(std::move(dst)); obsSet("c", seq);
        LP_Set<K> seq2(seq.copy()); obsSet("c", seq2); obsSet("c", seq);
    }
    {   // a table of fixed capacity, up to completely full, then continued as a growing one
        size_t cap = 1; while (2 * cap <= U.size() && r.chance(75)) cap <<= 1;
        Concurrent_LP_Set<K, false> fixed(cap); N("new", "d").put();
        std::set<K> in;
        size_t want = r.chance(70) ? cap : r.upto(cap + 1);
        for (int tries = 0; tries < 200 && in.size() < want; ++tries) {
            K k = r.pick(U); in.insert(k);
            bool x = fixed.insert(k); N("ins", "d").i("k", ix(k)).b("r", x).put();
        }
        obsSet("d", fixed);
        LP_Set<K, true> grows(std::move(fixed)); obsSet("d", grows);
        for (int j = r.upto(4); j > 0; --j) { K k = r.pick(U); bool x = grows.insert(k); N("ins", "d").i("k", ix(k)).b("r", x).put(); obsSet("d", grows); }
    }
    LP_Set<K> fin(std::move(a)); N("same", "a").put(); obsSet("a", fin);
    Concurrent_LP_Set<K> back(std::move(fin)); obsSet("a", back);
    Concurrent_LP_Set<K> mv(std::move(back)); obsSet("a", mv);
    Concurrent_LP_Set<K> as(1); as = std::move(mv); obsSet("a", as);
}
static void bulkMap(Rng &r) {
    long n = U.size();
    auto capFor = [&](long items) { size_t c = 1; while (c < 2 * (size_t) items + 2) c <<= 1; return c << r.upto(3); };
    long m1 = r.chance(15) ? 0 : r.in(1, n), m2 = r.chance(15) ? 0 : r.in(1, n);
    Concurrent_LP_Map<K, K> a(capFor(m1)), b(capFor(m2));
    N("new", "a").put(); N("new", "b").put();
    // disjoint keys: which of two values survives a parallel merge is not defined
    auto fill = [&](auto &s, const char *o, long m, long from, long to) {
        for (long j = 0; j < m; ++j) { K k = U[r.in(from, to)]; K v = r.in(1, 900); bool x = s.insert(k, v); N("ins", o).i("k", ix(k)).i("v", v).b("r", x).put(); } };
    fill(a, "a", m1, 0, n / 2); fill(b, "b", m2, n / 2 + 1, n - 1);
    int v = r.upto(3);
    if (v == 0) { a.unsafe_rehash(a.capacity() << r.in(1, 2)); N("same", "a").put(); }
    if (v < 2) { a.unsafe_merge(std::move(b)); N("merge", "a").t("p", "b").put(); }
    else { auto f = subset(r, 35); a.unsafe_merge(std::move(b), f); N("mergef", "a").t("p", "b").a("f", idxs(f)).put(); }
    obsMap("a", a);
    LP_Map<K, K> seq(std::move(a)); N("same", "a").put(); obsMap("a", seq);
    Concurrent_LP_Map<K, K> back(std::move(seq)); obsMap("a", back);
    Concurrent_LP_Map<K, K> mv(std::move(back)); obsMap("a", mv);
    Concurrent_LP_Map<K, K> as(2); as = std::move(mv); obsMap("a", as);
}
static void bulkBag(Rng &r) {
    long n = U.size();
    auto capFor = [&](long items) { size_t c = 1; while (c < 2 * (size_t) items + 2) c <<= 1; return c << r.upto(3); };
    long m1 = r.chance(15) ? 0 : r.in(1, n), m2 = r.chance(15) ? 0 : r.in(1, n);
    Concurrent_LP_MultiMap<K, K> a(capFor(m1));
    N("new", "a").put(); N("new", "b").put();
    auto fill = [&](auto &s, const char *o, long m) {
        for (long j = 0; j < m; ++j) { K k = r.pick(U); K v = r.in(1, 5); bool x = s.insert(k, v); N("ins", o).i("k", ix(k)).i("v", v).b("r", x).put(); } };
    fill(a, "a", m1);
    auto f = r.chance(30) ? std::set<K>() : subset(r, 35);
    int variant = r.upto(3);
    if (variant == 0) { Concurrent_LP_MultiMap<K, K> b(capFor(m2)); fill(b, "b", m2); a.unsafe_merge(std::move(b), f); }
    else if (variant == 1) { LP_MultiMap<K, K> b(1 + r.upto(8)); fill(b, "b", m2); a.unsafe_merge(b, f); }
    else { GrowingHashTable<Concurrent_LP_MultiMap<K, K>> g(8); auto h = g.handle(); fill(h, "b", m2); a.unsafe_merge(g.handle(), f); }
    N("mergef", "a").t("p", "b").a("f", idxs(f)).put();
    obsBag("a", a);
    if (r.chance(50)) { a.unsafe_rehash(a.capacity() << 1); N("same", "a").put(); obsBag("a", a); }
    {
        Hasher<K> hs; size_t cap = capFor(8);
        Concurrent_LP_MultiMap<K, K> src(cap, 0, hs), dst(cap, 0, hs); N("new", "c").put(); fill(src, "c", 6);
        dst.unsafe_copy(src); N("same", "c").put(); obsBag("c", dst);
        fill(dst, "c", 2); obsBag("c", dst);
    }
    LP_MultiMap<K, K> seq(std::move(a)); N("same", "a").put(); obsBag("a", seq);
    Concurrent_LP_MultiMap<K, K> back(std::move(seq)); obsBag("a", back);
    Concurrent_LP_MultiMap<K, K> mv(std::move(back)); obsBag("a", mv);
    Concurrent_LP_MultiMap<K, K> as(2); as = std::move(mv); obsBag("a", as);
}
// large tables: several parallel chunks
int main(int argc, char **argv) {
    std::string mode = sarg(argc, argv, "--mode", "set"), out = sarg(argc, argv, "--out", "/dev/stdout");
    long seed = arg(argc, argv, "--seed", 1), n = arg(argc, argv, "--n", 300);
    return run(out, n, 10, [&](long i) {
        Rng r(seed * 7919 + i);
        SR = Rng(seed * 104729 + i);
        startGen.seed(r.next() & 0xffffffff);
        bool bulk = mode.substr(0, 4) == "bulk";
        universe(r, bulk ? (int) (r.chance(2) ? r.in(300, 500) : r.chance(15) ? r.in(60, 120) : r.in(4, 30)) : (int) r.in(3, 14));
        std::string style; for (size_t j = 0; j < U.size() && j < 3; ++j) style += std::to_string(U[j]) + " ";
        begin(i, mode + " universe " + std::to_string(U.size()) + ": " + style);
        if (mode == "set") { if (i < 4 * 243) setExhaustive(i, r); else if (r.chance(65)) setHist<true>(r); else setHist<false>(r); }
        else if (mode == "map") mapHist(r);
        else if (mode == "mmap") bagHist(r);
        else if (mode == "bulkset") bulkSet(r);
        else if (mode == "bulkmap") bulkMap(r);
        else if (mode == "bulkbag") bulkBag(r);
        end();
    });
}
