// Splits random point sets with every point partitioner, recursively, and records the parts.
// With --mode stats it records the extents computed over every kind of id container instead.
#include "tria/common.h"
#include <fstream>
#include <unistd.h>
#include "common/env.h"

extern const char GIT_COMMIT[] = "verif";
static long seed0, nmax;
static int expo;                         // coordinates are integers times 2^-expo

template<class T> std::string enc(T x, bool &exact) { return num((T) std::ldexp(x, expo), exact); }
template<uint D, class V> std::string encv(const V &v, bool &exact) {
    std::string s = "[";
    for (uint d = 0; d < D; ++d) s += (d ? "," : "") + enc(v[d], exact);
    return s + "]";
}
template<uint D, class P> void logPts(const dPoints<D, P> &points, bool inf) {
    bool exact = true;
    std::string s = "[", t = "[";
    for (std::size_t i = 1; i < points.finite_size(); ++i) s += (i > 1 ? "," : "") + encv<D>(points[i].coords, exact);
    if (inf) for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) t += (k != dPoint<D, P>::cINF ? "," : "") + encv<D>(points[k].coords, exact);
    Ev("pts").i("d", D).j("p", s + "]").j("inf", t + "]").i("base", vid(dPoint<D, P>::cINF)).b("exact", exact).put();
}
template<class C> std::vector<long long> idsOf(const C &c) {
    std::vector<long long> v;
    for (auto i : c) v.push_back(vid(i));
    std::sort(v.begin(), v.end());
    return v;
}
static std::string jarr(const std::vector<long long> &v) {
    std::string s = "[";
    for (std::size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]);
    return s + "]";
}

// coordinates with many ties: few distinct values per axis
template<uint D> Coords<D> tied(Rng &rng, long n) {
    Coords<D> out;
    long lo = rng.chance(30) ? -2000 : rng.chance(40) ? 100 : -1000, k = rng.in(0, 6), step = 64 * rng.in(1, 40);
    for (long i = 0; i < n; ++i) {
        std::array<long, D> p;
        for (uint d = 0; d < D; ++d) p[d] = 64 * (lo + step / 64 * rng.in(0, k));
        out.push_back(p);
    }
    return out;
}
template<uint D> Coords<D> coords(Rng &rng, std::string &name) {
    long n = rng.chance(10) ? 0 : rng.chance(30) ? rng.in(1, 4) : rng.in(1, nmax);
    if (rng.chance(40)) { name = "few values per axis"; return tied<D>(rng, n); }
    int style = rng.upto(10);
    Coords<D> c;
    if (n) c = makePoints<D>(rng, style, n, name); else name = "no points";
    long shift = rng.chance(25) ? -rng.in(1, 8000) * 1000 : 0;
    for (auto &p : c) for (uint d = 0; d < D; ++d) p[d] = (p[d] + shift) * 64 / 2;
    return c;
}

template<uint D, class P> void split(Rng &rng, const dPoints<D, P> &points, const Point_Ids &ids, const std::string &prov, int depth) {
    static const char kinds[] = "dce012";
    char kind = kinds[rng.upto(D == 2 ? 5 : 6)];
    auto part = Partitioner<D, P>::make(kind);
    bool ign = rng.chance(20), wide = rng.chance(20);
    auto stats = getPointStats(ids, points);
    bool finite = false;
    for (auto i : ids) finite |= dPoint<D, P>::isFinite(i);
    if (!finite) return;
    if (wide) for (uint d = 0; d < D; ++d) {
        stats.min[d] -= std::ldexp(64.0 * rng.in(0, 300), -expo); stats.max[d] += std::ldexp(64.0 * rng.in(0, 300), -expo);
        stats.mid[d] = (stats.min[d] + stats.max[d]) / 2;
    }
    auto parts = wide || rng.chance(50) ? part->partition(stats, ids, points, prov, ign) : part->partition(ids, points, prov, ign);
    bool exact = true;
    std::string s = "[";
    for (std::size_t i = 0; i < parts.size(); ++i) {
        s += (i ? ",{" : "{");
        s += "\"id\":" + std::to_string(parts[i].id) + ",\"lo\":" + encv<D>(parts[i].bounds.low, exact) + ",\"hi\":" + encv<D>(parts[i].bounds.high, exact)
             + ",\"v\":" + jarr(idsOf(parts[i].points)) + ",\"size\":" + std::to_string(parts[i].points.size()) + "}";
    }
    std::vector<long long> where;
    for (auto i : idsOf(ids)) if (i < 2000000000LL) where.push_back(parts.partition(i));
    Ev("split").t("kind", std::string(1, kind) + " " + prov).b("ign", ign).a("ids", idsOf(ids)).j("parts", s + "]").a("where", where).b("exact", exact)
        .j("lo", encv<D>(stats.min, exact)).j("hi", encv<D>(stats.max, exact)).put();
    // containment of simplices
    std::vector<tIdType> all; for (auto i : ids) all.push_back(i);
    for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) all.push_back(k);
    for (int q = 0; q < 3; ++q) {
        dSimplex<D, P> x; std::vector<long long> vs;
        for (uint d = 0; d <= D; ++d) { x.vertices[d] = all[rng.upto(all.size())]; vs.push_back(vid(x.vertices[d])); }
        std::size_t i = rng.upto(parts.size());
        bool sure = parts[i].contains(x), some = parts[i].contains(x, true);
        Ev("within").i("part", i).a("vs", vs).b("all", sure).b("some", some).put();
    }
    if (depth > 0) for (std::size_t i = 0; i < parts.size(); ++i) if (parts[i].points.size() > 1)
        split<D, P>(rng, points, parts[i].points, prov + std::to_string(i), depth - 1);
}

template<uint D, class P> void fillAll(Rng &rng, dPoints<D, P> &points, const Coords<D> &cs, bool inf) {
    for (auto &c : cs) { dPoint<D, P> p; for (uint d = 0; d < D; ++d) p.coords[d] = std::ldexp((double) c[d], -expo); points.emplace_back(p); }
    if (inf) for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) {
        dPoint<D, P> p; for (uint d = 0; d < D; ++d) p.coords[d] = std::ldexp((double) (rng.in(-9, 9) * 64 * 100000), -expo); points[k] = p;
    }
}

template<uint D, class P> void partHistory(long h) {
    Rng rng(seed0 * 1000003 + h);
    std::string name;
    expo = sizeof(P) == 4 ? 0 : (rng.chance(40) ? rng.in(-3, 20) : 0);
    auto cs = coords<D>(rng, name);
    if (sizeof(P) == 4) for (auto &c : cs) for (auto &x : c) x = x % 4194304 / 64 * 64;
    vlog::begin(h, std::string(D == 2 ? "2D " : "3D ") + (sizeof(P) == 4 ? "float " : "double ") + std::to_string(cs.size()) + " points, " + name);
    dPoints<D, P> points;
    fillAll<D, P>(rng, points, cs, true);
    logPts<D, P>(points, true);
    Point_Ids ids(rng.in(1, 2 * cs.size() + 2));
    for (std::size_t i = 1; i <= cs.size(); ++i) if (!rng.chance(5)) ids.insert(i);
    if (rng.chance(60)) for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) ids.insert(k);
    tbb::global_control gc(tbb::global_control::max_allowed_parallelism, rng.chance(40) ? 4 : 1);
    split<D, P>(rng, points, ids, "0", rng.in(0, 3));
    vlog::end();
}

template<uint D, class P> void logStats(const char *how, const std::vector<long long> &ids, bool ign, const dPointStats<D, P> &s) {
    bool exact = true;
    auto lo = encv<D>(s.min, exact), mid = encv<D>(s.mid, exact), hi = encv<D>(s.max, exact);
    Ev("stats").t("how", how).a("ids", ids).b("ign", ign).j("lo", lo).j("mid", mid).j("hi", hi).b("exact", exact).put();
}

template<uint D, class P> void statHistory(long h) {
    Rng rng(seed0 * 1000003 + h);
    std::string name;
    expo = sizeof(P) == 4 ? 0 : (rng.chance(40) ? rng.in(-3, 20) : 0);
    auto cs = coords<D>(rng, name);
    if (sizeof(P) == 4) for (auto &c : cs) for (auto &x : c) x = x % 4194304 / 64 * 64;
    if (cs.empty()) cs.push_back({});
    vlog::begin(h, std::string(D == 2 ? "2D " : "3D ") + (sizeof(P) == 4 ? "float " : "double ") + std::to_string(cs.size()) + " points, " + name);
    dPoints<D, P> points;
    fillAll<D, P>(rng, points, cs, true);
    logPts<D, P>(points, true);
    tbb::global_control gc(tbb::global_control::max_allowed_parallelism, rng.chance(60) ? 4 : 1);
    for (int r = rng.in(1, 4); r > 0; --r) {
        bool ign = rng.chance(70);
        Point_Ids ids(rng.in(1, 2 * cs.size() + 2)); Concurrent_Fixed_Point_Ids cids(4 * cs.size() + 40); std::vector<tIdType> vec;
        int pick = rng.in(1, 100);
        for (std::size_t i = 1; i <= cs.size(); ++i) if (rng.chance(pick) || (i == cs.size() && vec.empty())) { ids.insert(i); cids.insert(i); vec.push_back(i); }
        if (rng.chance(50)) for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) if (rng.chance(70)) { ids.insert(k); cids.insert(k); vec.push_back(k); }
        auto l = idsOf(ids);
        logStats<D, P>("sequential over a set", l, ign, getPointStatsSeq(ids.begin(), ids.end(), points, ign));
        logStats<D, P>("parallel over a set", l, ign, getPointStats(ids, points, ign));
        logStats<D, P>("parallel over a concurrent set", l, ign, getPointStats(cids, points, ign));
        logStats<D, P>("sequential over a vector", idsOf(vec), ign, getPointStatsSeq(vec.begin(), vec.end(), points, ign));
    }
    std::vector<long long> all; for (std::size_t i = 1; i <= cs.size(); ++i) all.push_back(i);
    logStats<D, P>("all points", all, true, getPointStats(points, points));
    // a point file: one point per line, blanks between the coordinates (or another separator)
    char sep = rng.chance(60) ? ' ' : rng.chance(50) ? ',' : ';';
    char file[] = "/tmp/verif-pts-XXXXXX"; int fd = mkstemp(file); close(fd);
    dPoints<D, P> other;
    Coords<D> pre; if (rng.chance(30)) pre.push_back(cs[0]);
    fillAll<D, P>(rng, other, pre, false);
    { std::ofstream f(file); f.precision(17);
      for (auto &c : cs) { for (uint d = 0; d < D; ++d) { if (d) f << sep; f << std::ldexp((double) c[d], -expo); } f << "\n"; } }
    auto box = other.loadFromFile(file, sep);
    unlink(file);
    bool exact = true;
    std::string s = "[";
    for (std::size_t i = 1 + pre.size(); i < other.finite_size(); ++i) s += (i > 1 + pre.size() ? "," : "") + encv<D>(other[i].coords, exact);
    auto lo = encv<D>(box.low, exact), hi = encv<D>(box.high, exact);
    Ev("file").j("p", s + "]").j("lo", lo).j("hi", hi).b("exact", exact).put();
    vlog::end();
}

int main(int argc, char **argv) {
    seed0 = vlog::arg(argc, argv, "--seed", 1);
    nmax = vlog::arg(argc, argv, "--nmax", 40);
    bool stats = vlog::sarg(argc, argv, "--mode", "parts") == "stats";
    vlog::perChild() = 50;
    return vlog::run(vlog::sarg(argc, argv, "--out", "out.nd"), vlog::arg(argc, argv, "--n", 100), 20, [argc, argv, stats](long h) {
        long o = vlog::arg(argc, argv, "--only", -1); if (o >= 0 && h != o) return;
        switch (h % 4) {
            case 0: stats ? statHistory<2, double>(h) : partHistory<2, double>(h); break;
            case 1: stats ? statHistory<3, double>(h) : partHistory<3, double>(h); break;
            case 2: stats ? statHistory<2, float>(h) : partHistory<2, float>(h); break;
            case 3: stats ? statHistory<3, float>(h) : partHistory<3, float>(h); break;
        }
    });
}
