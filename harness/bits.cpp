// Random operation sequences on Bit_Set and (sequentially) Concurrent_Bit_Set.
#include "common/vlog.h"
#include "common/poison.h"
#include "common/env.h"
#include "datastructures/Bit_Set.hxx"
#include "common/ranges.h"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
using namespace vlog;
static Rng SR(1);
static Ev N(const char *e, const char *o) { return Ev(e).t("o", o); }
static long MAXI = 160;

template<class S> void obs(const char *o, const S &s) {
    std::vector<long> c, back, has, at, parts; long np;
    long guard = 0;
    for (auto it = s.begin(); it != s.end() && guard < 3000; ++it, ++guard) c.push_back(*it);
    if (!c.empty()) {
        auto it = s.end(); auto b = s.begin(); guard = 0;
        while (it != b && guard++ < 3000) { --it; back.push_back(*it); }
    }
    for (long k = 0; k < MAXI + 70; ++k) if (s.isSet(k)) { if (s.contains(k) && s.count(k) == 1 && s.one(k) && !s.zero(k) && !s.empty(k)) has.push_back(k); else has.push_back(-1); }
        else if (s.contains(k) || s.count(k) || s.one(k) || !s.zero(k) || !s.empty(k)) has.push_back(-2);
    for (size_t k = s.lowerBound(); k < s.upperBound(); ++k) if (s.at(k)) at.push_back(s.at(k));
    typename S::const_range_type rg(s, 1 + SR.upto(8));
    bool lie = splitVisit(rg, SR, 1 + SR.upto(12), [&](long k) { parts.push_back(k); }, np);
    bool sz = s.size() == s.ones() && s.empty() == s.zero() && s.capacity() == s.upperBound();
    Ev("obs").t("o", o).a("content", c).a("back", back).a("has", has).a("at", at).a("parts", parts).b("lie", lie).i("ones", sz ? (long) s.ones() : -1)
        .i("zeros", s.zeros()).b("zero", s.zero()).b("one", s.one()).i("lo", s.lowerBound()).i("hi", s.upperBound()).put();
}
static long idx(Rng &r, long lo, long hi) {      // biased towards word boundaries
    for (int t = 0; t < 20; ++t) {
        long k = r.chance(50) ? r.in(lo, hi - 1) : r.in(lo / 32, hi / 32) * 32 + r.in(-2, 2);
        if (k >= lo && k < hi) return k;
    }
    return lo;
}
static Bit_Set mk(Rng &r, const char *o) {
    long lo = r.chance(40) ? 0 : r.upto(MAXI - 1), hi = r.in(lo + 1, MAXI);
    Bit_Set s(lo, hi);
    N("new", o).i("lo", lo).i("hi", hi).put();
    return s;
}
template<class S> void fill(Rng &r, S &s, const char *o, int n) {
    if (s.upperBound() == s.lowerBound()) return;
    for (int i = 0; i < n; ++i) {
        long k = idx(r, s.lowerBound(), s.upperBound());
        int c = r.upto(100);
        if (c < 40) { bool w = s.testAndSet(k); N("set", o).i("k", k).b("was", w).put(); }
        else if (c < 60) { bool w = !s.insert(k); N("set", o).i("k", k).b("was", w).put(); }
        else if (c < 80) { bool w = s.testAndUnset(k); N("unset", o).i("k", k).b("was", w).put(); }
        else { bool w = s.erase(k); N("unset", o).i("k", k).b("was", w).put(); }
    }
}
static void batch(Rng &r, Bit_Set &s, const char *o) {
    long lo = s.lowerBound(), hi = s.upperBound();
    if (lo == hi) return;
    long a = idx(r, lo, hi), b = r.chance(15) ? hi : r.chance(10) ? a : idx(r, lo, hi) + r.upto(2);
    if (a > b) std::swap(a, b);
    if (b > hi) b = hi;
    if (a >= hi) return;
    s.batchSet(a, b); N("batch", o).i("from", a).i("to", b).put();
}
static void hist(Rng &r) {
    Bit_Set a = mk(r, "a"), b = mk(r, "b");
    long n = r.in(3, 12);
    for (long i = 0; i < n; ++i) {
        int c = r.upto(100);
        Bit_Set &s = r.chance(70) ? a : b; const char *o = &s == &a ? "a" : "b";
        if (c < 30) fill(r, s, o, r.in(1, 6));
        else if (c < 45) batch(r, s, o);
        else if (c < 53) { a.filter(b); N("filter", "a").t("p", "b").put(); }
        else if (c < 61) { a.merge(b); N("merge", "a").t("p", "b").put(); }
        else if (c < 69) { Bit_Set f = mk(r, "f"); fill(r, f, "f", r.upto(6)); batch(r, f, "f"); a.mergeFilter(b, f); N("mergef", "a").t("p", "b").t("f", "f").put(); obs("f", f); }
        else if (c < 75) { long lo = r.upto(MAXI), hi = r.in(lo, MAXI); s.resize(lo, hi); N("resize", o).i("lo", lo).i("hi", hi).put(); }
        else if (c < 79) { long hi = r.in(0, MAXI); s.resize(hi); N("resize", o).i("lo", s.lowerBound()).i("hi", hi).put(); }
        else if (c < 84) { b.copy(a); N("copy", "a").t("p", "b").put(); }
        else if (c < 88) { Bit_Set x(std::move(b)); b = std::move(a); a = std::move(x); N("swap", "a").t("p", "b").put(); }
        else if (c < 93) {
            Concurrent_Bit_Set x(std::move(s)); obs(o, x); fill(r, x, o, 4); obs(o, x);
            Concurrent_Bit_Set y(std::move(x)); Concurrent_Bit_Set z(0, 1); z = std::move(y); obs(o, z);
            s = Bit_Set(std::move(z));
        }
        else if (c < 96) {
            std::stringstream ss; { boost::archive::binary_oarchive oa(ss); const Bit_Set &ca = a; oa << ca; }
            { boost::archive::binary_iarchive ia(ss); ia >> b; } N("copy", "a").t("p", "b").put(); }
        else { Bit_Set f = mk(r, "f"); fill(r, f, "f", 6); Concurrent_Bit_Set cf(std::move(f));
            int k = r.upto(2) * 2;
            if (k == 0) { a.filter(cf); N("filter", "a").t("p", "f").put(); }
            else { b.copy(cf); N("copy", "f").t("p", "b").put(); } }
        obs(o, s);
    }
    obs("a", a); obs("b", b);
}
int main(int argc, char **argv) {
    long seed = arg(argc, argv, "--seed", 1), n = arg(argc, argv, "--n", 1000);
    return run(sarg(argc, argv, "--out", "/dev/stdout"), n, 10, [&](long i) {
        Rng r(seed * 7919 + i); SR = Rng(seed * 104729 + i);
        MAXI = r.chance(30) ? 64 : r.chance(10) ? 700 : 160;
        begin(i, "bit set over 0.." + std::to_string(MAXI));
        hist(r);
        end();
    });
}
