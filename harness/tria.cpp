// Triangulates random point sets with the divide-and-conquer triangulator in many configurations and
// records the meshes it returns.
#include "tria/common.h"
#include "DCTriangulator.h"
#include "CGALTriangulator.h"
#include "mods/parallel_do.h"
#include "common/env.h"

extern const char GIT_COMMIT[] = "verif";
#ifndef VERIF_FIXED_CUTOFF
unsigned cut2d __asm__("_ZN14DCTriangulatorILj2EdE11BASE_CUTOFFE") = 500;
unsigned cut3d __asm__("_ZN14DCTriangulatorILj3EdE11BASE_CUTOFFE") = 500;
unsigned cut2f __asm__("_ZN14DCTriangulatorILj2EfE11BASE_CUTOFFE") = 500;
unsigned cut3f __asm__("_ZN14DCTriangulatorILj3EfE11BASE_CUTOFFE") = 500;
static void setCutoff(unsigned c) { cut2d = cut3d = cut2f = cut3f = c; }
static const bool FIXED = false;
#else
static void setCutoff(unsigned) {}
static const bool FIXED = true;
#endif

static long seed0, nmax, only, styleArg;

// a partitioner that cuts where the dice say (legal: every point in exactly one part, inside its bounds)
template<uint D, class P> class DicePartitioner : public Partitioner<D, P> {
public:
    unsigned long long seed;
    explicit DicePartitioner(unsigned long long s) : seed(s) {}
    Partitioning<D, P> partition(const dPointStats<D, P> &stats, const Point_Ids &ids, const dPoints<D, P> &points,
                                 const std::string &prov, bool ignoreInfinite = false) const {
        Rng rng(seed + std::hash<std::string>()(prov));
        Partitioning<D, P> parts;
        uint k = rng.upto(D);
        std::vector<P> xs;
        for (auto id : ids) if (dPoint<D, P>::isFinite(id)) xs.push_back(points[id].coords[k]);
        std::sort(xs.begin(), xs.end());
        int m = rng.in(2, 4);
        std::vector<P> cuts;
        for (int i = 0; i + 1 < m; ++i) cuts.push_back(rng.chance(60) && !xs.empty() ? xs[rng.upto(xs.size())] : (P) rng.in((long) stats.min[k], (long) stats.max[k]));
        std::sort(cuts.begin(), cuts.end());
        std::vector<uint> order; for (int i = 0; i < m; ++i) order.push_back(i);
        for (int i = m - 1; i > 0; --i) std::swap(order[i], order[rng.upto(i + 1)]);
        for (int i = 0; i < m; ++i) parts.emplace_back(ids.size());
        for (int i = 0; i < m; ++i) {
            auto &q = parts[order[i]];
            q.id = order[i];
            for (uint d = 0; d < D; ++d) { q.bounds.low[d] = stats.min[d]; q.bounds.high[d] = stats.max[d]; }
            if (i > 0) q.bounds.low[k] = cuts[i - 1];
            if (i + 1 < m) q.bounds.high[k] = cuts[i];
        }
        for (auto id : ids) {
            if (!dPoint<D, P>::isFinite(id)) { for (auto &q : parts) q.points.insert(id); continue; }
            int i = 0; while (i + 1 < m && points[id].coords[k] > cuts[i]) ++i;
            parts[order[i]].points.insert(id);
        }
        return parts;
    }
    uint getRecursionDepth(const uint &threads) const { return threads; }
    std::string to_string() const { return "dice"; }
};

template<uint D, class P> static void history(long h) {
    Rng rng(seed0 * 1000003 + h);
    long n = rng.chance(15) ? rng.in(1, D + 1) : rng.in(2, nmax);
    if (FIXED) n = rng.in(600, 700);
    int style = styleArg >= 0 ? styleArg : rng.upto(STYLES);
    if ((style == 6 && styleArg < 0) || (style >= 10 && sizeof(P) == 4)) style = 0;     // grids are degenerate, float is too coarse for far away
    std::string sname;
    auto cs = makePoints<D>(rng, style, n, sname);
    vlog::begin(h, std::string(D == 2 ? "2D" : "3D") + (sizeof(P) == 4 ? " float " : " double ") + std::to_string(cs.size()) + " points, " + sname);
    dPoints<D, P> points;
    auto bounds = fill<D, P>(points, cs);
    int configs = rng.in(2, 4);
    for (int c = 0; c < configs; ++c) {
        setCutoff(c == 0 ? 1000000 : (1 << D) + rng.in(0, 12));
        static const char kinds[] = "dce01x2x";
        char kind = kinds[rng.upto(D == 2 ? 6 : 8)];
        if (c == 0) kind = 'c';
        std::unique_ptr<Partitioner<D, P>> part;
        uint depth = c == 0 ? 0 : rng.in(1, 4);
        uint threads;
        if (kind == 'x') { part = std::make_unique<DicePartitioner<D, P>>(rng.next()); threads = depth; }
        else { part = Partitioner<D, P>::make(kind); threads = kind == 'd' ? (depth > 1 ? 1u << (2 * D) : 1u << D) : 1u << depth; if (c == 0) threads = 1; }
        bool parBase = D == 3 && rng.chance(25), parEdge = rng.chance(60), par = rng.chance(40);
        verif::doSeed() = par ? 0 : rng.next() | 1;
        tbb::global_control gc(tbb::global_control::max_allowed_parallelism, par ? 4 : 1);
        std::string cfg = std::string(1, kind) + " depth " + std::to_string(depth) + (parBase ? " parallel base" : "") + (parEdge ? " recursive edge" : "") + (par ? " parallel" : " sequential");
        DCTriangulator<D, P> t(bounds, points, threads, std::move(part), rng.in(1, 20), parBase, parEdge, c == 0);
        if (c == 0) logPoints<D, P>(points);
        Ev("start").t("cfg", cfg).put();
        auto dt = t.triangulate();
        logMesh<D, P>("mesh", dt, cfg);
    }
    vlog::end();
}

int main(int argc, char **argv) {
    seed0 = vlog::arg(argc, argv, "--seed", 1) + 7919 * vlog::arg(argc, argv, "--salt", 0);
    nmax = vlog::arg(argc, argv, "--nmax", 40);
    only = vlog::arg(argc, argv, "--dim", 0);
    styleArg = vlog::arg(argc, argv, "--style", -1);
    vlog::perChild() = 20;
    return vlog::run(vlog::sarg(argc, argv, "--out", "out.nd"), vlog::arg(argc, argv, "--n", 100), 20, [argc, argv](long h) {
        long o = vlog::arg(argc, argv, "--only", -1); if (o >= 0 && h != o) return;
        int k = h % 8;
        if (only == 2) k = 0; if (only == 3) k = 1;
        if (k == 7 && !only) { if (h / 8 % 3 == 2) history<3, float>(h); else history<2, float>(h); }
        else if (k % 2 == 0) history<2, double>(h);
        else history<3, double>(h);
    });
}
