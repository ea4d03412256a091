// Operation sequences on the point store (dPoints and VectorAdapter2) in two and three dimensions.
#include "common/vlog.h"
#include "common/poison.h"
#include "common/env.h"
#include <tbb/blocked_range.h>
#include <tbb/parallel_for.h>
#include "Geometry.h"
#include "Partitioner.h"
#include "utils/Serialization.hxx"
#include "utils/MakeIds.h"
#include <sstream>
#include <fstream>
using namespace vlog;
static Ev N(const char *e, const char *o) { return Ev(e).t("o", o); }
// ids are written as themselves, those counted down from the top of the id range as -1, -2, ...
static tIdType idOf(long i) { return i >= 0 ? (tIdType) i : ~tIdType(0) - (tIdType) (-i - 1); }
static long num(tIdType i) { return i > (tIdType(1) << 63) ? -(long) (~tIdType(0) - i) - 1 : (long) i; }
static long vint(double v) { return v == (double) (long) v && v > -1e8 && v < 1e8 ? (long) v : -777; }

template<uint D> dPoint<D, double> pt(long v) { dPoint<D, double> p; for (uint d = 0; d < D; ++d) p.coords[d] = v + (long) d; return p; }
template<uint D> long val(const dPoint<D, double> &p) {
    long v = vint(p.coords[0]);
    for (uint d = 1; d < D; ++d) if (vint(p.coords[d]) != v + (long) d) return -777;
    return v;
}
static std::vector<long> probes(long top, long nINF) {
    std::vector<long> v; for (long i = 0; i <= top + 3; ++i) v.push_back(i);
    for (long i = 1; i <= nINF + 3; ++i) v.push_back(-i);
    return v;
}
template<uint D, class S> void obs(const char *o, S &s, Rng &r, const std::set<long> &written) {
    const S &cs = s; const long nINF = dPoint<D, double>::nINF;
    std::vector<long> has, fin, art, rng, it, mit, got, filt; long guard = 0;
    long top = s.offset() + s.finite_size();
    for (long i : probes(top, nINF)) {
        tIdType id = idOf(i);
        if (cs.contains(id)) has.push_back(i);
        if (dPoint<D, double>::isFinite(id)) fin.push_back(i); else { art.push_back(i); art.push_back((long) dPoint<D, double>::infIndex(id)); }
    }
    auto rg = cs.range(); for (size_t i = rg.begin(); i != rg.end() && guard < 5000; ++i, ++guard) rng.push_back((long) i);
    std::vector<tIdType> ids;
    for (long i : written) { ids.push_back(idOf(i)); got.push_back(i); got.push_back(val<D>(r.chance(25) ? cs[idOf(i)] : r.chance(33) ? cs.at(idOf(i)) : r.chance(50) ? s[idOf(i)] : s.at(idOf(i)))); }
    auto f = r.chance(50) ? cs.template filter<std::vector<dPoint<D, double>>>(ids) : cs.template filter<std::vector<dPoint<D, double>>>(ids.begin(), ids.end());
    for (auto &p : f) filt.push_back(val<D>(p));
    // iteration visits the slots in order; only the written ones have a value
    long k = s.offset(); guard = 0;
    for (auto x = cs.begin(); x != cs.end() && guard < 5000; ++x, ++k, ++guard) if (written.count(k)) { it.push_back(k); it.push_back(val<D>(*x)); }
    k = s.offset(); guard = 0;
    for (auto &x : s) { if (written.count(k)) { mit.push_back(k); mit.push_back(val<D>(x)); } ++k; }
    Ev e = N("obs", o); e.a("has", has).a("fin", fin).a("art", art).a("rng", rng).a("got", got).a("filt", filt).a("it", it).a("mit", mit)
        .i("n", s.finite_size()).i("size", s.size()).i("off", s.offset()).i("slots", k - (long) s.offset());
    e.put();
}
template<uint D, class S> void hist(Rng &r, const char *kind) {
    const long nINF = dPoint<D, double>::nINF; constexpr bool isPts = std::is_same<S, dPoints<D, double>>::value;
    S s; std::set<long> w; long x = 100; std::string file = "points.bin";
    N("new", kind).i("d", D).i("ninf", nINF).put();
    if (isPts) { w.insert(0); Ev("put").i("id", 0).i("v", 0).put(); for (uint d = 0; d < D; ++d) s[0].coords[d] = d; }   // the reserved entry is initialised
    if (r.chance(30)) { long o = r.in(1, 12); s.offset(o); Ev("off").i("k", o).put(); w.clear(); }
    long n = r.in(4, 20);
    auto top = [&] { return (long) (s.offset() + s.finite_size()); };
    auto put = [&](long i) { x += 10; if (r.chance(50)) s[idOf(i)] = pt<D>(x); else s.at(idOf(i)) = pt<D>(x); w.insert(i); Ev("put").i("id", i).i("v", x).put(); };
    for (long q = 0; q < n; ++q) {
        int c = r.upto(100);
        if (c < 20) { x += 10; long id = top(); s.emplace_back(pt<D>(x)); w.insert(id); Ev("app").i("v", x).put(); }
        else if (c < 50) { long m = r.in(1, 4); for (long j = 0; j < m; ++j) { long i = r.chance(35) || s.finite_size() == 0 ? -r.in(1, nINF) : (long) s.offset() + r.upto(s.finite_size()); put(i); } }
        else if (c < 62) { long k = (long) s.offset() + r.upto(18); long before = top(); s.reserveUpToIdx(k); Ev("reserve").i("k", k).put();
 (void) before; }
        else if (c < 70) { long k = s.finite_size() + r.upto(4); s.resize(k); Ev("resize").i("k", k).put(); }
        else if (c < 80) {   // insert a run of points at a position, others move up
            long at = r.upto(s.finite_size() + 1), m = r.in(0, 4); std::vector<dPoint<D, double>> v; std::vector<long> vs;
            for (long j = 0; j < m; ++j) { x += 10; v.push_back(pt<D>(x)); vs.push_back(x); }
            s.insert(s.begin() + at, v.begin(), v.end());
            std::set<long> w2; long p = s.offset() + at;
            for (long i : w) w2.insert(i >= p && i >= 0 ? i + m : i);
            for (long j = 0; j < m; ++j) w2.insert(p + j);
            w = w2; Ev("insert").i("at", p).a("vs", vs).put();
        }
        else if (c < 86) {   // store and load
            bool viaFile = r.chance(60);
            // what was never written may hold anything: give it a value first
            for (long i = s.offset(); i < top(); ++i) if (!w.count(i)) put(i);
            for (long i = 1; i <= nINF; ++i) if (!w.count(-i)) put(-i);
            S t;
            if (viaFile) { storeObject(s, file); t = loadObject<S>(file); unlink(file.c_str()); }
            else { std::stringstream ss; { boost::archive::binary_oarchive oa(ss); const S &cs = s; oa << cs; } boost::archive::binary_iarchive ia(ss); ia >> t; }
            s = t; Ev("same").put();
        }
        else if (c < 92) { S t(s); S u; u = t; s = std::move(u); Ev("same").put(); }
        else if (isPts) {
            if constexpr (isPts) {
                Point_Ids all = makePointIds(s); std::vector<long> v; for (auto i : all) v.push_back(num(i)); Ev("make").a("v", v).put();
                // comparison with a set of ids
                std::vector<long> ids; LP_Set<tIdType, true> set(8);
                long style = r.upto(4);
                for (long i = s.offset() + 1; i < top(); ++i) if (style != 1 || r.chance(90)) ids.push_back(i);
                for (long i = 1; i <= nINF; ++i) if (style != 2 || r.chance(80)) ids.push_back(-i);
                if (style == 3 && !ids.empty()) { ids[r.upto(ids.size())] = r.chance(50) ? top() + r.upto(3) : -nINF - r.in(1, 3); }
                for (long i : ids) if (i != 0) set.insert(idOf(i));
                bool eq = s == set, ne = s != set;
                Ev("eq").a("ids", ids).b("r", eq).b("ne", ne).put();
            }
        }
        obs<D>(kind, s, r, w);
    }
}
template<uint D> void fileHist(Rng &r) {       // points read from a text file
    dPoints<D, double> s; const long nINF = dPoint<D, double>::nINF; std::set<long> w;
    N("new", "dPoints").i("d", D).i("ninf", nINF).put();
    long n = r.in(1, 15), x = 0; char sep = r.chance(50) ? ' ' : ',';
    { std::ofstream f("points.txt"); for (long i = 0; i < n; ++i) { x = r.in(-3000, 3000); for (uint d = 0; d < D; ++d) { if (d) f << sep; f << x + (long) d; } if (i + 1 < n || r.chance(70)) f << "\n"; w.insert(i + 1); Ev("app").i("v", x).put(); } }
    if (sep == ' ' && r.chance(50)) s.loadFromFile("points.txt"); else s.loadFromFile("points.txt", sep);
    unlink("points.txt");
    obs<D>("dPoints", s, r, w);
    s.loadFromFile("no-such-file.txt", sep);
    obs<D>("dPoints", s, r, w);
}
int main(int argc, char **argv) {
    std::string out = sarg(argc, argv, "--out", "/dev/stdout");
    long seed = arg(argc, argv, "--seed", 1), n = arg(argc, argv, "--n", 300);
    fclose(stderr);
    return run(out, n, 20, [&](long i) {
        Rng r(seed * 7919 + i);
        begin(i, "point store");
        int c = r.upto(100);
        if (c < 35) hist<2, dPoints<2, double>>(r, "dPoints"); else if (c < 70) hist<3, dPoints<3, double>>(r, "dPoints");
        else if (c < 80) hist<2, VectorAdapter2<dPoint<2, double>>>(r, "plain"); else if (c < 90) hist<3, VectorAdapter2<dPoint<3, double>>>(r, "plain");
        else if (c < 95) fileHist<2>(r); else fileHist<3>(r);
        end();
    });
}
