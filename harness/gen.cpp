// The point generators and the spatial sort (C28).
#include "tria/common.h"
#include "mods/parallel_do.h"
#include "DCTriangulator.h"
#include "CGALTriangulator.h"
#include <memory>
#include <variant>
#include <unordered_map>
#include <numeric>
#include <climits>
#include <tbb/enumerable_thread_specific.h>
#include <tbb/concurrent_vector.h>
#include "utils/VTuneAdapter.h"
#include "load_balancing/PartitionTree.h"
#include "load_balancing/Partitioner.h"
#include "load_balancing/sample_partitioner/Sampler.h"
#include "load_balancing/monitors/UnpluggedMonitor.h"
#include "load_balancing/CommandLineInterface.h"
#include "common/env.h"

extern const char GIT_COMMIT[] = "verif";
#ifndef VERIF_FIXED_CUTOFF
unsigned cut2d __asm__("_ZN14DCTriangulatorILj2EdE11BASE_CUTOFFE") = 500;
unsigned cut3d __asm__("_ZN14DCTriangulatorILj3EdE11BASE_CUTOFFE") = 500;
unsigned cut2f __asm__("_ZN14DCTriangulatorILj2EfE11BASE_CUTOFFE") = 500;
unsigned cut3f __asm__("_ZN14DCTriangulatorILj3EfE11BASE_CUTOFFE") = 500;
#endif

template<class T> std::string triple(T x) {
    if (!std::isfinite(x)) return "[0,0,9999]";
    int e; double m = std::frexp((double) x, &e);
    if (x == 0) return "[0,0,0]";
    long long i = (long long) std::ldexp(m, 53); e -= 53;
    while (i % 2 == 0) { i /= 2; ++e; }
    bool neg = i < 0; if (neg) i = -i;
    long long a = i >> 27, b = i & ((1LL << 27) - 1);
    if (neg) { a = -a; b = -b; }
    return "[" + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(e) + "]";
}
static long nmax, kindArg;

template<uint D, class P> struct Run {
    Rng rng;
    explicit Run(long s) : rng(s) {}
    template<class V> static std::string vec(const V &v) { std::string s = "["; for (uint d = 0; d < D; ++d) s += (d ? "," : "") + triple(v[d]); return s + "]"; }
    static std::string all(const dPoints<D, P> &p) {          // ids from 1
        std::string s = "[";
        for (std::size_t i = 1; i < p.finite_size(); ++i) s += (i > 1 ? "," : "") + vec(p[i].coords);
        return s + "]";
    }
    static std::string kindOf(PointGenerator<D, P> *g) {
        if (dynamic_cast<UniformPointGenerator<D, P> *>(g)) return "uniform";
        if (dynamic_cast<NormalPointGenerator<D, P> *>(g)) return "normal";
        if (dynamic_cast<BubblePointGenerator<D, P> *>(g)) return "bubble";
        if (dynamic_cast<EllipsoidPointGenerator<D, P> *>(g)) return "ellipsoid";
        if (dynamic_cast<SkewLinePointGenerator<D, P> *>(g)) return "skew-line";
        if (dynamic_cast<lb::UnboundBubbleGenerator<D, P> *>(g)) return "unbound-bubble";
        if (dynamic_cast<lb::PatchBubbleGenerator<D, P> *>(g)) return "patch-bubble";
        if (dynamic_cast<lb::MaliciousBubbleGenerator<D, P> *>(g)) return "malicious-bubble";
        return "none";
    }
    std::unique_ptr<PointGenerator<D, P>> byName(const std::vector<std::string> &args) {
        std::vector<const char *> a{"x"};
        for (auto &s : args) a.push_back(s.c_str());
        po::variables_map vm;
        po::store(po::parse_command_line((int) a.size(), a.data(), defaultOptions<P>()), vm);
        po::notify(vm);
        return createGenerator<D, P>(vm);
    }
    void history(long h) {
        vlog::begin(h, std::string(D == 2 ? "2D" : "3D") + (sizeof(P) == 4 ? " float" : " double"));
        static const char *names[] = {"ellipsoid", "skew-line", "normal", "bubble", "uniform", "unbound-bubble", "patch-bubble", "malicious-bubble"};
        int rounds = rng.in(1, 3);
        for (int r = 0; r < rounds; ++r) {
            if (rng.chance(20)) { sortOnly(); continue; }
            int k = kindArg >= 0 ? kindArg : rng.upto(8);
            bool letter = k < 5 && rng.chance(50);
            long n = rng.chance(10) ? rng.in(0, 3) : rng.in(1, nmax);
            // integer bounds: sums and differences of them are exact
            dBox<D, P> b; long least = 1L << 40;
            bool around = rng.chance(30);                   // around the origin, or away from it
            for (uint d = 0; d < D; ++d) {
                long w = 1 + (1L << rng.in(3, 12)) + rng.in(0, 7), lo = around ? -w / 2 : (rng.chance(50) ? 1 : -1) * rng.in(2, 2000);
                if (!around) { if (lo < 0) lo -= w; }
                b.low[d] = lo; b.high[d] = lo + w; least = std::min(least, w);
            }
            std::vector<std::string> args{"--distribution", names[k]};
            if (k >= 5) { args.push_back("--num-bubbles"); args.push_back(std::to_string(rng.in(k == 5 ? 1 : 2, 20))); }
            if (k == 5) { args.push_back("--bubble-radius"); args.push_back(std::to_string(rng.in(1, least / 2))); }
            long seed = rng.upto(1 << 30);
            auto g = letter ? GeneratorFactory<D, P>::make("elnbu"[k]) : byName(args);
            std::string opt; for (auto &a : args) opt += (opt.empty() ? "" : " ") + a;
            Ev("start").t("cfg", opt + " n " + std::to_string(n)).put();
            tGenerator gen(seed), gen2(seed);
            auto p = g->generate(n, b, gen), q = g->generate(n, b, gen2);
            Ev("gen").t("name", names[k]).t("kind", kindOf(g.get())).i("n", n).j("lo", vec(b.low)).j("hi", vec(b.high)).j("p", all(p)).j("q", all(q)).put();
        }
        vlog::end();
    }
    void sortOnly() {
        long n = rng.chance(10) ? rng.in(0, 3) : rng.in(1, nmax);
        dPoints<D, P> points;
        bool ties = rng.chance(50);
        if (rng.chance(50)) points.reserveUpToIdx(n + 1);
        for (long i = 0; i <= n; ++i) {
            dPoint<D, P> p;
            for (uint d = 0; d < D; ++d) p.coords[d] = i == 0 ? P(0) : ties ? (P) rng.in(-2, 2) : (P) rng.in(-100000, 100000);
            if (i < (long) points.finite_size()) points[i] = p; else if (i > 0) points.emplace_back(p);
        }
        // the artificial points are no part of it
        for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) for (uint d = 0; d < D; ++d) points[k].coords[d] = 1000000 + (long) (k - dPoint<D, P>::cINF);
        Ev("start").t("cfg", "sort " + std::to_string(n)).put();
        std::string before = all(points), c1 = corners(points);
        CGALSpatialSorter<D, P> s;
        s.sort(points);
        Ev("sort").j("p", before).j("q", all(points)).j("c", c1).j("c2", corners(points)).put();
    }
    static std::string corners(const dPoints<D, P> &p) { std::string s = "["; for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) s += (s.size() > 1 ? "," : "") + vec(p[k].coords); return s + "]"; }
};

int main(int argc, char **argv) {
    long seed0 = vlog::arg(argc, argv, "--seed", 1) + 7919 * vlog::arg(argc, argv, "--salt", 0);
    nmax = vlog::arg(argc, argv, "--nmax", 40);
    kindArg = vlog::arg(argc, argv, "--kind", -1);
    vlog::perChild() = 50;
    return vlog::run(vlog::sarg(argc, argv, "--out", "out.nd"), vlog::arg(argc, argv, "--n", 100), 20, [=](long h) {
        long s = seed0 * 1000003 + h;
        switch (h % 4) {
            case 0: Run<2, double>(s).history(h); break;
            case 1: Run<3, double>(s).history(h); break;
            case 2: Run<2, float>(s).history(h); break;
            default: Run<3, float>(s).history(h);
        }
    });
}
