// Operation sequences on the block stores.   --mode blk2 | simp | blk1 | thr
//   blk2: BlockedArray2<long>          every slot counts as used
//   simp: dSimplices<2|3,double>       slots with a finite id are used
//   blk1: BlockedArray / Concurrent_BlockedArray
//   thr : real threads write disjoint ids through their own handles
#include "common/vlog.h"
#include "common/poison.h"
#include "common/env.h"
#include <tbb/blocked_range.h>
#include <tbb/parallel_for.h>
#include "common/ranges.h"
#include "Geometry.h"
#include "datastructures/BlockedArray.hxx"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/serialization/base_object.hpp>
#include "Partitioner.h"
#include "utils/Serialization.hxx"
#include <thread>
#include <sstream>
// a data race ends the history it happens in
extern "C" const char *__tsan_default_options() { return "halt_on_error=1:exitcode=66"; }
using namespace vlog;
static Rng SR(1);
static long DOM = 40;
typedef std::pair<long, long> P2;
static std::string jp(const std::vector<P2> &c) {
    std::string s = "["; bool f = true;
    for (auto &x : c) { if (!f) s += ","; f = false; s += "[" + std::to_string(x.first) + "," + std::to_string(x.second) + "]"; }
    return s + "]";
}
static long vint(long v) { return v < -100000 || v > 100000000 ? -7 : v; }
static Ev N(const char *e, const char *o) { return Ev(e).t("o", o); }

// ---- uniform view of the two stores
template<class S> struct Acc;
template<> struct Acc<BlockedArray2<long, std::size_t>> {
    typedef BlockedArray2<long, std::size_t> S;
    static constexpr bool filtered = false;
    static S make(long lo, long hi) { return S(lo, hi); }
    static void put(long &e, long, long v) { e = v; }
    static P2 see(const long &e) { return P2(e / 1000, e); }       // values are 1000*id+x, or 0 when never written
};
template<uint D> struct Acc<dSimplices<D, double>> {
    typedef dSimplices<D, double> S;
    static constexpr bool filtered = true;
    static S make(long lo, long hi) { return S(lo, hi, 4); }
    static void put(dSimplex<D, double> &e, long id, long v) { e.id = id; e.vertices[0] = v; e.neighbors[D] = v; }
    static P2 see(const dSimplex<D, double> &e) { return P2((long) e.id, e.vertices[0] == e.neighbors[D] ? (long) e.vertices[0] : -7); }
};
struct Layout {            // non-empty blocks inside [1, DOM]; taken positions
    std::vector<char> used = std::vector<char>(DOM + 2, 0);
    bool free(long lo, long hi) const { for (long i = lo; i < hi; ++i) if (used[i]) return false; return true; }
    void take(long lo, long hi) { for (long i = lo; i < hi; ++i) used[i] = 1; }
};
template<class S> void observe(const char *o, S &s, const S &cs) {
    typedef Acc<S> A;
    std::vector<long> has, rng; std::vector<P2> fwd, mut, back, pt, got;
    uint hint = 0; long guard = 0;
    if (A::filtered) {
        for (auto it = cs.begin(); it != cs.end() && guard < 1000; ++it, ++guard) { P2 p = A::see(*it); fwd.emplace_back(p.first, vint(p.second)); }
        guard = 0;
        for (auto it = s.begin(); it != s.end() && guard < 1000; it++, ++guard) { P2 p = A::see(*it); mut.emplace_back(p.first, vint(p.second)); }
    } else {
        for (auto it = cs.begin(); it != cs.end() && guard < 1000; ++it, ++guard) { P2 p = A::see(*it); fwd.emplace_back(p.first, vint(p.second)); }
        guard = 0;
        for (auto it = s.begin(); it != s.end() && guard < 1000; it++, ++guard) { P2 p = A::see(*it); mut.emplace_back(p.first, vint(p.second)); }
    }
    if (!fwd.empty()) {     // backwards from the end
        guard = 0; auto it = cs.end(); long n = fwd.size();
        for (long i = 0; i < n && guard < 1000; ++i, ++guard) { --it; P2 p = A::see(*it); back.emplace_back(p.first, vint(p.second)); }
    }
    std::vector<long> order; for (long i = 0; i <= DOM + 1; ++i) order.push_back(i);
    int style = SR.upto(3);
    if (style == 1) std::reverse(order.begin(), order.end());
    if (style == 2) for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[SR.upto(i)]);
    BlockedArray2Handle<S, typename std::conditional<A::filtered, tIdType, std::size_t>::type> hd(s);
    BlockedArray2Handle<const S, typename std::conditional<A::filtered, tIdType, std::size_t>::type> chd(cs);
    for (long i : order) {
        int how = SR.upto(3);
        bool c = how == 0 ? cs.unsafe_contains(i) : how == 1 ? cs.contains(i, hint) : hd.contains(i);
        if (c) {
            has.push_back(i);
            int g = SR.upto(6);
            P2 p = g == 0 ? A::see(cs.unsafe_at(i)) : g == 1 ? A::see(s.at(i, hint)) : g == 2 ? A::see(hd[i]) : g == 3 ? A::see(chd.at(i)) : g == 4 ? A::see(cs.at(i, hint)) : A::see(s.unsafe_at(i));
            got.emplace_back(i, vint(p.second));
        }
        if constexpr (A::filtered) { bool ir = SR.chance(50) ? cs.unsafe_inRange(i) : SR.chance(50) ? cs.inRange(i, hint) : hd.inRange(i); if (ir) rng.push_back(i); }
        else if (c) rng.push_back(i);
    }
    long np = 0; bool lie = false;
    typename S::const_range_type rg(cs, 1 + SR.upto(4));
    lie = splitVisit(rg, SR, 1 + SR.upto(12), [&](const auto &e) { P2 p = A::see(e); pt.emplace_back(p.first, vint(p.second)); }, np);
    std::vector<long> ch; bool hasch = false;
    if constexpr (A::filtered) { hasch = true; for (auto i : cs.convexHull) ch.push_back(i); }
    N("obs", o).j("fwd", jp(fwd)).j("mut", jp(mut)).j("back", jp(back)).a("has", has).a("inr", rng).j("got", jp(got)).j("parts", jp(pt)).b("lie", lie).i("np", np)
        .i("lo", cs.lowerBound()).i("hi", cs.upperBound()).i("size", cs.exact_size()).b("hull", hasch).a("ch", ch).put();
}
template<class S> S reload(const S &s, Rng &r) {
    std::stringstream ss;
    { boost::archive::binary_oarchive oa(ss); oa << s; }
    S t = Acc<S>::make(0, 1);
    // the receiving object may have held several blocks before and remember a position in the last of them
    if (r.chance(50)) { t.addBlock(5, 6); t.addBlock(8, 9); (void) t.unsafe_at(8); }
    { boost::archive::binary_iarchive ia(ss); ia >> t; }
    return t;
}
template<class S> void hist(Rng &r) {
    typedef Acc<S> A;
    typedef typename std::conditional<A::filtered, tIdType, std::size_t>::type IDX;
    Layout lay;                                   // positions taken in a or b: blocks never overlap
    std::vector<long> ids[2];                     // ids inside the blocks of a, b
    auto pickBlock = [&](long &lo, long &hi) {
        for (int t = 0; t < 200; ++t) { lo = r.in(1, DOM - 1); hi = std::min(DOM + 1, lo + r.in(1, r.chance(20) ? 9 : 4)); if (lay.free(lo, hi)) return true; }
        return false;
    };
    auto mk = [&](const char *o, int w) {
        long lo = 1, hi = 2; if (!pickBlock(lo, hi)) { lo = 0; hi = 0; }
        ids[w].clear();
        if (hi == 0) { // domain full: start with an id block nobody uses (position 0)
            lo = 0; hi = 1; if (lay.used[0]) _exit(0); }
        lay.take(lo, hi);
        for (long i = lo; i < hi; ++i) ids[w].push_back(i);
        N("new", o).i("lo", lo).i("hi", hi).put();
        return A::make(lo, hi);
    };
    S a = mk("a", 0), b = mk("b", 1);
    BlockedArray2Handle<S, IDX> ha(a);      // long-lived handles: their hints grow stale
    auto hb = std::make_unique<BlockedArray2Handle<S, IDX>>(b);
    long n = r.in(5, 22), x = 0; bool bdead = false;
    auto put = [&](int w, long id, int how) {
        S &s = w ? b : a; auto &h = w ? *hb : ha; long v = 1000 * id + (++x);
        uint hint = 0;
        auto &e = how == 0 ? s.unsafe_at(id) : how == 1 ? s.at(id, hint) : how == 2 ? h[id] : h.at(id);
        A::put(e, id, v);
        N("put", w ? "b" : "a").i("id", id).i("v", v).put();
    };
    for (long i = 0; i < n && !bdead; ++i) {
        int c = r.upto(100), w = r.chance(70) ? 0 : 1; S &s = w ? b : a; const char *o = w ? "b" : "a";
        if (c < 30) { long m = r.in(1, 6); for (long j = 0; j < m; ++j) put(w, r.pick(ids[w]), r.upto(4)); }
        else if (c < 50) {
            long lo, hi; if (!pickBlock(lo, hi)) continue;
            lay.take(lo, hi); N("add", o).i("lo", lo).i("hi", hi).put();
            auto &blk = s.addBlock(lo, hi);
            for (long k = lo; k < hi; ++k) ids[w].push_back(k);
            // the reference returned stays usable for filling the block
            if (r.chance(60)) for (long k = lo; k < hi; ++k) if (r.chance(60)) { long v = 1000 * k + (++x); A::put(r.chance(50) ? blk.at(k) : blk[k], k, v); N("put", o).i("id", k).i("v", v).put(); }
        }
        else if (c < 62) {
            bool mh = r.chance(60);
            if constexpr (A::filtered) a.merge(std::move(b), mh); else a.merge(std::move(b));
            N("merge", "a").t("p", "b").b("hull", mh).put();
            ids[0].insert(ids[0].end(), ids[1].begin(), ids[1].end());
            // the moved-from store is replaced by a fresh one
            long lo, hi; if (!pickBlock(lo, hi)) { bdead = true; break; }
            b = mk("b", 1); hb = std::make_unique<BlockedArray2Handle<S, IDX>>(b);
        }
        else if (c < 70) { S t(std::move(a)); a = std::move(b); b = std::move(t); std::swap(ids[0], ids[1]); N("swap", "a").t("p", "b").put();
            break; }     // stale handles end here
        else if (c < 78) { S t = reload(a, r); observe("a", t, t); if (r.chance(60)) { a = std::move(t); } N("same", "a").put(); }
        else if (c < 90) {
            if constexpr (A::filtered) {
                std::vector<long> d; for (long k : ids[w]) if (r.chance(30)) d.push_back(k);
                if (r.chance(50)) { Simplex_Ids f(16); std::vector<long> dd; for (long k : d) if (k) { f.insert(k); dd.push_back(k); } d = dd; s.filter(f); }
                else { Concurrent_Fixed_Simplex_Ids f(64); std::vector<long> dd; for (long k : d) if (k) { f.insert(k); dd.push_back(k); } d = dd; s.filter(f); }
                N("filter", o).a("f", d).put();
            } else observe(o, s, s);
        }
        else { if constexpr (A::filtered) { long k = r.pick(ids[w]); s.convexHull.push_back(k); N("hull", o).i("id", k).put(); }
               else { for (auto &e : s) { if (e) { e += 1; } }   // through the iterator: rewrite every value
                      N("bump", o).put(); } }
        if (!bdead || w == 0) observe(o, s, s);
    }
    observe("a", a, a); if (!bdead) observe("b", b, b);
}
// two blocks with a gap, every pair of layouts and fills in a small domain, every id probed from every hint
static void smallExhaustive(long i, Rng &r) {
    typedef dSimplices<2, double> S;
    // i encodes: lo1 1..3, len1 1..2, gap 0..2, len2 1..2, gap2 0..1, fill mask over <= 6 ids
    long lo1 = 1 + i % 3; i /= 3; long len1 = 1 + i % 2; i /= 2; long gap = i % 3; i /= 3; long len2 = 1 + i % 2; i /= 2; long gap2 = i % 2; i /= 2; long third = i % 2; i /= 2;
    S a(lo1, lo1 + len1, 0); N("new", "a").i("lo", lo1).i("hi", lo1 + len1).put();
    std::vector<long> ids; for (long k = lo1; k < lo1 + len1; ++k) ids.push_back(k);
    long l2 = lo1 + len1 + gap; a.addBlock(l2, l2 + len2); N("add", "a").i("lo", l2).i("hi", l2 + len2).put();
    for (long k = l2; k < l2 + len2; ++k) ids.push_back(k);
    if (third) { long l3 = l2 + len2 + gap2; a.addBlock(l3, l3 + 2); N("add", "a").i("lo", l3).i("hi", l3 + 2).put(); ids.push_back(l3); ids.push_back(l3 + 1); }
    long x = 0;
    for (size_t j = 0; j < ids.size(); ++j) if (i >> j & 1) { long v = 1000 * ids[j] + (++x); Acc<S>::put(a.unsafe_at(ids[j]), ids[j], v); N("put", "a").i("id", ids[j]).i("v", v).put(); }
    observe("a", a, a);
}
// ---------------------------------------------------------------------------------- chunked array
template<class S> void chunked(Rng &r, long BS) {
    long cap = r.in(0, 3 * BS + 1);
    S a(cap);
    Ev("cnew").i("cap", cap).i("bs", BS).put();
    long top = (cap + BS - 1) / BS * BS;
    for (int i = 0, n = r.in(3, 25); i < n; ++i) {
        int c = r.upto(10);
        if (c < 5 && top) { long k = r.upto(top); long v = ++i * 7; if (r.chance(50)) a[k] = v; else a.at(k) = v; Ev("cput").i("id", k).i("v", v).put(); }
        else if (c < 7) { long m = r.in(0, 4 * BS); a.reserve(m); Ev("cres").i("cap", m).put(); top = std::max(top, (m + BS - 1) / BS * BS); }
        else { long k = r.upto(5 * BS); bool thrown = false; long v = -1; try { v = r.chance(50) ? a.at(k) : static_cast<const S &>(a).at(k); } catch (const std::out_of_range &) { thrown = true; }
               Ev("cat").i("id", k).b("out", thrown).i("v", v).put(); }
    }
    for (long k = 0; k <= top; ++k) { bool thrown = false; long v = -1; try { v = a.at(k); } catch (const std::out_of_range &) { thrown = true; } Ev("cat").i("id", k).b("out", thrown).i("v", v).put(); }
    S m(std::move(a));
    for (long k = 0; k < top; k += 3) Ev("cat").i("id", k).b("out", false).i("v", static_cast<const S &>(m)[k]).put();
}
struct Zeroed { long v = 0; Zeroed() { } Zeroed(long x) : v(x) { } operator long() const { return v; } };

static void threads(Rng &r) {
    typedef dSimplices<2, double> S;
    S a(1, 1 + r.in(1, 6), 0); long hi = a.upperBound(); N("new", "a").i("lo", 1).i("hi", hi).put();
    for (int i = 0; i < 4; ++i) { long l = hi + r.upto(4); long h2 = l + r.in(1, 7); if (h2 > DOM) break; a.addBlock(l, h2); N("add", "a").i("lo", l).i("hi", h2).put(); hi = h2; }
    std::vector<long> mine[3]; std::vector<long> vals;
    std::vector<std::pair<long, long>> all;
    for (long k = 1; k < hi; ++k) if (a.unsafe_inRange(k) && r.chance(80)) mine[r.upto(3)].push_back(k);
    std::thread t[3]; unsigned long seed = r.next();
    long seen[3] = {0, 0, 0};
    for (int j = 0; j < 3; ++j) t[j] = std::thread([&, j] {
        Rng q(seed + j); dSimplicesHandle<2, double> h(a); dSimplicesConstHandle<2, double> ch(a);
        for (int round = 0; round < 4; ++round) for (long k : mine[j]) {
            Acc<S>::put(q.chance(50) ? h[k] : h.at(k), k, 1000 * k + 10 * round + j);
            long back = mine[j][q.upto(mine[j].size())];
            if (ch.inRange(back)) seen[j] += (long) ch.at(back).vertices[0] >= 0;
        } });
    for (auto &x : t) x.join();
    for (int j = 0; j < 3; ++j) for (long k : mine[j]) N("put", "a").i("id", k).i("v", 1000 * k + 30 + j).put();
    observe("a", a, a);
}
int main(int argc, char **argv) {
    std::string mode = sarg(argc, argv, "--mode", "blk2"), out = sarg(argc, argv, "--out", "/dev/stdout");
    long seed = arg(argc, argv, "--seed", 1), n = arg(argc, argv, "--n", 300);
    return run(out, n, 20, [&](long i) {
        Rng r(seed * 7919 + i); SR = Rng(seed * 104729 + i);
        DOM = r.in(10, 40);
        begin(i, mode + " ids up to " + std::to_string(DOM));
        if (mode == "blk2") hist<BlockedArray2<long, std::size_t>>(r);
        else if (mode == "simp") { if (r.chance(50)) hist<dSimplices<2, double>>(r); else hist<dSimplices<3, double>>(r); }
        else if (mode == "small") { DOM = 12; smallExhaustive(i, r); }
        else if (mode == "blk1") { if (i % 3 == 0) chunked<BlockedArray<Zeroed, 4>>(r, 4); else if (i % 3 == 1) chunked<Concurrent_BlockedArray<Zeroed, 4>>(r, 4); else chunked<BlockedArray<Zeroed, 5>>(r, 5); }
        else if (mode == "thr") threads(r);
        end();
    });
}
