// The load balancers: the partition trees they build (C06) and the meshes of the load-balanced triangulator (C02).
#include "tria/common.h"
#include "mods/parallel_do.h"
#include "DCTriangulator.h"
#include "CGALTriangulator.h"
#include <memory>
#include <map>
#include <set>
#include <variant>
#include <unordered_map>
#include <numeric>
#include <climits>
#include <tbb/enumerable_thread_specific.h>
#include <tbb/concurrent_vector.h>
#include "utils/VTuneAdapter.h"
#include "load_balancing/PartitionTree.h"
#include "load_balancing/Partitioner.h"
#include "load_balancing/sample_partitioner/Sampler.h"
#include "load_balancing/monitors/UnpluggedMonitor.h"
#include "load_balancing/OldPartitionerPartitioner.h"
#include "load_balancing/SimplePartitioner.h"
#include "load_balancing/sample_partitioner/BinaryBoxEstimatingSamplePartitioner.h"
#include "load_balancing/sample_partitioner/CenterDistancePointAssigningSamplePartitioner.h"
#include "load_balancing/sample_partitioner/BoundsDistancePointAssigningSamplePartitioner.h"
#include "load_balancing/sample_partitioner/NearestSamplePointAssigningSamplePartitioner.h"
#include "load_balancing/sample_partitioner/NearestSamplePointAssigningSampleBipartitioner.h"
#include "load_balancing/sample_partitioner/HyperplaneBipartitioner.h"
#include "load_balancing/FlatPartitioner.h"
#include "load_balancing/GridIntersectionChecker.h"
#include "load_balancing/AccurateGridIntersectionChecker.h"
#include "load_balancing/kWaySplitter.h"
#include "LoadBalancedDCTriangulator.h"
#include "common/env.h"

extern const char GIT_COMMIT[] = "verif";
#ifndef VERIF_FIXED_CUTOFF
unsigned cut2d __asm__("_ZN14DCTriangulatorILj2EdE11BASE_CUTOFFE") = 500;
unsigned cut3d __asm__("_ZN14DCTriangulatorILj3EdE11BASE_CUTOFFE") = 500;
unsigned cut2f __asm__("_ZN14DCTriangulatorILj2EfE11BASE_CUTOFFE") = 500;
unsigned cut3f __asm__("_ZN14DCTriangulatorILj3EfE11BASE_CUTOFFE") = 500;
static void setCutoff(unsigned c) { cut2d = cut3d = cut2f = cut3f = c; }
#else
static void setCutoff(unsigned) {}
#endif
namespace lb = LoadBalancing;
static long seed0, nmax, only, styleArg, kindArg;
static bool tria, graph, big;

template<uint D, class P> struct Run {
    typedef lb::UnpluggedMonitor Mon;
    typedef lb::PartitionTree<D, P> Tree;
    typedef std::unique_ptr<lb::Partitioner<D, P, Mon>> Part;
    Rng rng;
    dPoints<D, P> points;
    dBox<D, P> bounds;
    std::string cfg;
    explicit Run(long s) : rng(s) {}

    Part make() {
        static const char *kinds[] = {"dWay", "cycle", "extend", "one-dim", "kway", "simple", "box-estimating", "centre-distance", "bounds-distance", "nearest-sample", "nearest-sample-bi", "hyperplane"};
        int k = kindArg >= 0 ? kindArg : rng.upto(12);
        cfg = kinds[k];
        uint parts = 1u << rng.in(0, 4);
        size_t cutoff = rng.chance(50) ? 0 : rng.in(1, 30);
        Part p;
        if (k < 4) {
            std::unique_ptr<Partitioner<D, P>> old = k == 0 ? Partitioner<D, P>::make('d') : k == 1 ? Partitioner<D, P>::make('c') : k == 2 ? Partitioner<D, P>::make('e') : Partitioner<D, P>::make("012"[rng.upto(D)]);
            size_t rec = rng.in(0, k == 0 ? 2 : 4);
            cfg += " depth " + std::to_string(rec) + " cutoff " + std::to_string(cutoff);
            p = std::make_unique<lb::OldPartitionerPartitioner<D, P, Mon>>(std::move(old), rec, cutoff);
        } else if (k == 4) { cfg += " " + std::to_string(parts); p = std::make_unique<lb::KWaySplitter<D, P, Mon>>(parts); }
        else if (k == 5) p = std::make_unique<lb::SimplePartitioner<D, P, Mon>>();
        else {
            bool other = k == 7 || k == 8 || k == 9;
            if (other && rng.chance(50)) parts = rng.in(1, 9);
            size_t c = rng.in(1, 60);
            int sz = rng.upto(3);
            std::function<size_t(size_t)> f = sz == 0 ? std::function<size_t(size_t)>([](size_t n) -> size_t { return std::sqrt(n); }) : sz == 1 ? std::function<size_t(size_t)>([](size_t n) -> size_t { return std::log2(n); }) : std::function<size_t(size_t)>([c](size_t) { return c; });
            bool uniform = rng.chance(50);
            auto seed = rng.next();
            int w = rng.upto(4);
            std::function<P(P)> weight = w == 0 ? std::function<P(P)>([](P d) -> P { return 1 / (d + 0.0000001); }) : w == 1 ? std::function<P(P)>([](P d) -> P { return 1 / std::sqrt(d + 0.0000001); }) : w == 2 ? std::function<P(P)>([](P d) -> P { return 1.0 - d; }) : std::function<P(P)>([](P d) -> P { return -std::log(d + 0.0000001); });
            lb::Sampler<D, P> s = uniform ? lb::Sampler<D, P>(seed, f, FAST, 0.05) : lb::Sampler<D, P>(seed, f, FAST, 0.05, weight);
            verif::graphMode() = rng.upto(4);
            verif::graphSeed() = rng.next();
            lb::IntersectionPartitionMakerFunction<D, P> mk;
            P ext = 0; for (uint d = 0; d < D; ++d) ext = std::max(ext, bounds.high[d] - bounds.low[d]);
            P width = ext > 0 ? ext / (P) rng.in(1, 30) : 1; if (rng.chance(50)) width = std::max<P>(1, std::floor(width));
            int m = rng.upto(3);
            if (m == 0) mk = lb::BoundsIntersectionPartitionMaker<D, P>();
            else if (m == 1) mk = lb::GridIntersectionPartitionMaker<D, P>(lb::Grid<D, P>{width});
            else mk = lb::AccurateGridIntersectionPartitionMaker<D, P>(lb::Grid<D, P>{width});
            cfg += " " + std::to_string(parts) + (uniform ? "" : " weighted") + (sz == 0 ? " sqrt" : sz == 1 ? " log" : " sample " + std::to_string(c)) + " graph " + std::to_string(verif::graphMode());
            if (k >= 7 && k <= 10) cfg += m == 0 ? " bounds" : m == 1 ? " grid" : " accurate grid";
            if (k == 6) { cutoff = (1 << D) + rng.in(1, 30); cfg += " cutoff " + std::to_string(cutoff); p = std::make_unique<lb::BinaryBoxEstimatingSamplePartitioner<D, P, Mon>>(cutoff, std::move(s)); }
            if (k == 7) p = std::make_unique<lb::CenterDistancePointAssigningSamplePartitioner<D, P, Mon>>(parts, std::move(s), mk);
            if (k == 8) p = std::make_unique<lb::BoundsDistancePointAssigningSamplePartitioner<D, P, Mon>>(parts, std::move(s), mk);
            if (k == 9) p = std::make_unique<lb::NearestSamplePointAssigningSamplePartitioner<D, P, Mon>>(parts, std::move(s), mk);
            if (k == 10) { cfg += " cutoff " + std::to_string(cutoff); p = std::make_unique<lb::NearestSamplePointAssigningSampleBipartitioner<D, P, Mon>>(parts, std::move(s), cutoff, mk); }
            if (k == 11) p = std::make_unique<lb::HyperplaneSamplingBipartitioner<D, P, Mon>>(parts, std::move(s));
        }
        if (rng.chance(25)) { cfg += " flattened"; p = std::make_unique<lb::FlatPartitioner<D, P, Mon>>(std::move(p)); }
        return p;
    }

    template<class C> static std::string ids(const C &c) { std::vector<long long> v; for (auto i : c) v.push_back(vid(i)); std::sort(v.begin(), v.end()); std::string s = "["; for (auto x : v) s += (s.size() > 1 ? "," : "") + std::to_string(x); return s + "]"; }
    // the coordinates are integers: a bound is as good as the nearest integer inside it
    static std::string bound(const dVector<D, P> &v, bool low) {
        std::string s = "[";
        for (uint d = 0; d < D; ++d) { double x = v[d]; long y = std::isnan(x) ? (low ? 2000000000 : -2000000000) : (long) std::max(-2e9, std::min(2e9, low ? std::ceil(x) : std::floor(x))); s += (d ? "," : "") + std::to_string(y); }
        return s + "]";
    }
    static std::string box(const dBox<D, P> &b) { return "\"lo\":" + bound(b.low, true) + ",\"hi\":" + bound(b.high, false); }
    void nodes(const Tree &t, long parent, std::string &s, long &n) {
        long me = ++n;
        s += (me > 1 ? ",{" : "{") + std::string("\"p\":") + std::to_string(parent) + "," + box(t.intersectionChecker->bounds());
        if (t.isLeaf()) { s += ",\"leaf\":true,\"v\":" + ids(std::get<Point_Ids>(t.attachment)) + "}"; return; }
        s += ",\"leaf\":false,\"v\":[]}";
        for (auto &c : std::get<typename Tree::ChildContainer>(t.attachment)) nodes(c, me, s, n);
    }
    std::string dump(const Tree &t) { std::string s = "["; long n = 0; nodes(t, 0, s, n); return s + "]"; }

    // the sampler on its own: sample, triangulation, graph and blocks (C31)
    void sampleOnce() {
        int mode = rng.upto(3), parts = rng.chance(15) ? 1 : rng.in(2, 9);
        size_t want = rng.chance(10) ? 0 : rng.chance(20) ? 1000 : rng.in(1, nmax);
        size_t seen = 0;
        auto f = [&](size_t n) -> size_t { seen = n; return want; };
        auto seed = rng.next();
        std::function<P(P)> near = [](P d) -> P { return 1 - d; }, far = [](P d) -> P { return d; };
        lb::Sampler<D, P> s = mode == 0 ? lb::Sampler<D, P>(seed, f, FAST, 0.05) : lb::Sampler<D, P>(seed, f, FAST, 0.05, mode == 1 ? near : far);
        verif::graphMode() = rng.upto(4);
        verif::graphSeed() = rng.next();
        Point_Ids ids;
        std::vector<long long> given;
        bool subset = rng.chance(40);
        for (std::size_t i = 1; i < points.finite_size(); ++i) if (!subset || rng.chance(50) || (i == 1 && given.empty())) { ids.insert(i); given.push_back(i); }
        if (rng.chance(70)) for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) ids.insert(k);
        std::vector<int> asked; long blocks = -1;
        std::vector<long long> cx, ca, cw;               // the graph as the graph partitioner sees it
        verif::onGraph() = [&](const verif::GraphCall &g, const std::vector<int> &p) {
            asked = p; blocks = g.nparts;
            cx.assign(g.xadj, g.xadj + g.n + 1); ca.assign(g.adj, g.adj + g.xadj[g.n]); cw.clear();
            if (g.w) cw.assign(g.w, g.w + g.xadj[g.n]);
        };
        Ev("start").t("cfg", "sampler").put();
        int times = rng.in(1, 2);                        // the sampler is used repeatedly by the bipartitioners
        for (int k = 0; k < times; ++k) {
            asked.clear(); blocks = -1; cx.clear(); ca.clear(); cw.clear();
            auto r = s(bounds, points, ids, parts);
            std::string pt = "[", adj = "[", w = "[";
            for (auto &v : r.points) { pt += pt.size() > 1 ? ",[" : "["; for (uint d = 0; d < D; ++d) pt += (d ? "," : "") + std::to_string((long) v[d]); pt += "]"; }
            auto &g = r.graph;
            std::vector<long long> xadj(g.nodeRecords.begin(), g.nodeRecords.end()), ad(g.adjacency.begin(), g.adjacency.end()), we(g.edgeWeights.begin(), g.edgeWeights.end()), pa(r.partition.begin(), r.partition.end()), as(asked.begin(), asked.end());
            Ev("sample").a("given", given).i("want", (long long) want).i("f", mode).i("parts", parts).j("points", pt + "]").a("xadj", xadj).a("adj", ad).a("w", we).a("part", pa).a("asked", as).a("cx", cx).a("ca", ca).a("cw", cw).i("blocks", blocks).i("size", (long long) r.size()).put();
            logMesh<D, P>("mesh", r.simplices, "sample");
        }
        verif::onGraph() = nullptr;
    }

    // a sample of many points, seen through some of its rows and the simplices at their nodes (C31)
    void bigSample(long h) {
        long n = rng.in(nmax, nmax + nmax / 16), parts = rng.in(1, 3);
        vlog::begin(h, std::string(D == 2 ? "2D" : "3D") + " sample of " + std::to_string(n) + " points");
        std::vector<std::array<long, D>> cs;
        std::set<std::array<long, D>> seen;
        while ((long) cs.size() < n) { std::array<long, D> c; for (auto &x : c) x = rng.in(0, 1 << 22); if (seen.insert(c).second) cs.push_back(c); }
        bounds = fill<D, P>(points, cs);
        tbb::global_control gc(tbb::global_control::max_allowed_parallelism, 8);
        verif::doSeed() = 0;
        verif::graphMode() = 1;
        Point_Ids ids;
        for (std::size_t i = 1; i < points.finite_size(); ++i) ids.insert(i);
        lb::Sampler<D, P> s(rng.next(), [](size_t n) -> size_t { return n; }, FAST, 0.05);
        Ev("start").t("cfg", "sampler").put();
        auto r = s(bounds, points, ids, parts);
        std::map<std::array<long, D>, long> node;
        auto at = [&](const auto &v) { std::array<long, D> c; for (uint d = 0; d < D; ++d) c[d] = (long) v[d]; return c; };
        for (auto &v : r.points) { long k = node.size() + 1; node.emplace(at(v), k); }
        auto &g = r.graph;
        std::set<long> some;                                  // low, high and arbitrary nodes
        long N = g.nodeRecords.size() - 1;
        for (int k = 0; k < 60; ++k) some.insert(k < 15 ? rng.in(1, std::min(N, 300L)) : k < 40 ? rng.in(std::max(1L, N - 2000), N) : rng.in(1, N));
        long total = 0, open = 0;
        std::string simp = "[", rows = "[";
        for (const auto &x : r.simplices) {
            ++total;
            std::vector<long> v; bool in = false;
            for (uint d = 0; d <= D; ++d) {
                auto it = node.find(at(points[x.vertices[d]].coords));
                v.push_back(it == node.end() ? 0 : it->second); in = in || some.count(v.back());
                open += !dSimplex<D, P>::isFinite(x.neighbors[d]);
            }
            if (in) { simp += simp.size() > 1 ? ",[" : "["; for (size_t k = 0; k < v.size(); ++k) simp += (k ? "," : "") + std::to_string(v[k]); simp += "]"; }
        }
        for (long k : some) {
            rows += (rows.size() > 1 ? ",[" : "[") + std::to_string(k);
            for (long e = std::max(0, g.nodeRecords[k - 1]); e < std::min<long>(g.nodeRecords[k], g.adjacency.size()); ++e) rows += "," + std::to_string(g.adjacency[e] + 1);
            rows += "]";
        }
        Ev("rows").i("d", D).i("given", n).i("nodes", N).i("size", r.points.size()).i("named", node.size()).i("last", g.nodeRecords.back()).i("len", g.adjacency.size()).i("total", total).i("open", open).j("rows", rows + "]").j("simp", simp + "]").put();
        vlog::end();
    }

    void corners() {
        auto stats = getPointStats(points, points);
        for (uint i = 0; i < (1u << D); ++i) {
            dPoint<D, P> p; p.coords = stats.mid;
            for (uint d = 0; d < D; ++d) p.coords[d] += (i & (1 << d) ? 1 : -1) * 200 * (stats.max[d] - stats.min[d]);
            points[dPoint<D, P>::cINF | i] = p;
        }
    }

    void history(long h) {
        if (big) { bigSample(h); return; }
        long n = rng.chance(15) ? rng.in(1, D + 1) : rng.in(2, nmax);
        int style = styleArg >= 0 ? styleArg : rng.upto(STYLES);
        if (((style == 6 && tria && styleArg < 0) || (style >= 10 && sizeof(P) == 4))) style = 0;
        std::string sname;
        auto cs = makePoints<D>(rng, style, n, sname);
        vlog::begin(h, std::string(D == 2 ? "2D" : "3D") + (sizeof(P) == 4 ? " float " : " double ") + std::to_string(cs.size()) + " points, " + sname);
        bounds = fill<D, P>(points, cs);
        int configs = rng.in(2, 4);
        if (!tria) { corners(); logPoints<D, P>(points); }
        for (int c = 0; c < configs; ++c) {
            bool par = rng.chance(40);
            verif::doSeed() = par ? 0 : rng.next() | 1;
            tbb::global_control gc(tbb::global_control::max_allowed_parallelism, par ? 4 : 1);
            setCutoff((1 << D) + rng.in(0, 12));
            if (graph) { sampleOnce(); continue; }
            Part p = make();
            if (tria) {
                bool parBase = D == 3 && rng.chance(25), parEdge = rng.chance(50);
                std::string name = cfg + (parBase ? ", parallel base" : "") + (parEdge ? ", recursive edge" : "") + (par ? ", parallel" : ", sequential");
                lb::DCTriangulator<D, P, Mon> t(bounds, points, 1u << rng.in(0, 3), std::move(p), rng.in(1, 20), parBase, parEdge, c == 0);
                if (c == 0) logPoints<D, P>(points);
                Ev("start").t("cfg", name).put();
                auto dt = t.triangulate();
                logMesh<D, P>("mesh", dt, name);
            } else {
                Point_Ids all;
                for (std::size_t i = 1; i < points.finite_size(); ++i) all.insert(i);
                for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) all.insert(k);
                Ev("start").t("cfg", cfg).put();
                Mon mon;
                Tree tree = p->partition(bounds, points, all, mon);
                Ev("tree").j("nodes", dump(tree)).put();
                { Tree t2(tree), t3; t3 = tree; Ev("copy").j("a", dump(t2)).j("b", dump(t3)).put(); }
                { Tree t2(tree); t2.flatten(); Ev("flat").j("nodes", dump(t2)).put(); }
                { Tree t2(tree); t2.collect(); Ev("coll").j("nodes", dump(t2)).put(); }
                if (!tree.isLeaf()) {
                    auto kids = std::get<typename Tree::ChildContainer>(std::move(tree.attachment));
                    auto [old, checkers] = lb::toOldPartitioning<D, P>(std::move(kids));
                    std::string s = "[";
                    for (size_t i = 0; i < old.size(); ++i) s += (i ? ",{" : "{") + std::string("\"id\":") + std::to_string(old[i].id) + "," + box(old[i].bounds) + ",\"v\":" + ids(old[i].points) + ",\"c\":{" + box(checkers[i]->bounds()) + "}}";
                    Ev("old").j("parts", s + "]").put();
                }
            }
        }
        vlog::end();
    }
};

int main(int argc, char **argv) {
    seed0 = vlog::arg(argc, argv, "--seed", 1) + 7919 * vlog::arg(argc, argv, "--salt", 0);
    nmax = vlog::arg(argc, argv, "--nmax", 40);
    only = vlog::arg(argc, argv, "--dim", 0);
    styleArg = vlog::arg(argc, argv, "--style", -1);
    kindArg = vlog::arg(argc, argv, "--kind", -1);
    tria = vlog::arg(argc, argv, "--tria", 0);
    graph = vlog::arg(argc, argv, "--graph", 0);
    big = vlog::arg(argc, argv, "--big", 0);
    vlog::perChild() = 20;
    return vlog::run(vlog::sarg(argc, argv, "--out", "out.nd"), vlog::arg(argc, argv, "--n", 100), big ? 120 : 20, [argc, argv](long h) {
        long o = vlog::arg(argc, argv, "--only", -1); if (o >= 0 && h != o) return;
        int k = h % 8;
        if (only == 2) k = 0; if (only == 3) k = 1;
        long s = seed0 * 1000003 + h;
        if (k == 7 && !only) { if (h / 8 % 3 == 2) Run<3, float>(s).history(h); else Run<2, float>(s).history(h); }
        else if (k % 2 == 0) Run<2, double>(s).history(h);
        else Run<3, double>(s).history(h);
    });
}
