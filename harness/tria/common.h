// Point sets and mesh recording shared by the triangulation drivers.
#pragma once
#include "common/vlog.h"
#include <cmath>
#include <set>
#include <memory>
#include <tbb/global_control.h>
#include <tbb/parallel_for.h>
#include <tbb/blocked_range.h>
#include "Geometry.h"
#include "Partitioner.h"
using vlog::Ev; using vlog::Rng;

inline long long vid(tIdType v) { return v >= ~tIdType(0) - 15 ? 2000000000LL + 16 - 1 - (long long) (~tIdType(0) - v) : (long long) v; }
inline long long sid(tIdType s) { return s == ~tIdType(0) ? -1 : s > 2100000000ull ? 2100000000LL : (long long) s; }

template<class T> inline std::string num(T x, bool &exact) {
    long long i = (x >= -2.1e9 && x <= 2.1e9) ? (long long) x : 0;
    if ((T) i != x) exact = false;
    return std::to_string(i);
}

template<uint D> using Coords = std::vector<std::array<long, D>>;

// integer point sets; style names the distribution
template<uint D> Coords<D> makePoints(Rng &rng, int style, long n, std::string &name) {
    Coords<D> out;
    std::set<std::array<long, D>> seen;
    long R = 1L << rng.in(8, 16);
    std::array<long, D> c1, c2;
    for (uint d = 0; d < D; ++d) { c1[d] = rng.in(-R, R); c2[d] = rng.in(-R, R); }
    static const char *names[] = {"uniform", "two clusters", "near a line", "near a sphere", "offset box", "flat slab", "grid", "few columns", "dense core", "shell and core", "far away", "far flat slab"};
    name = names[style];
    std::array<long, D> off;
    for (uint d = 0; d < D; ++d) off[d] = style == 4 ? (rng.chance(50) ? 1 : -1) * rng.in(10 * R, 20 * R) : style >= 10 ? (rng.chance(50) ? 1 : -1) * rng.in(200000000, 900000000) : 0;
    // the box around the points is not flat (its corners are part of the triangulated set)
    auto flat = [&]() { for (uint d = 0; d < D; ++d) { bool same = true; for (auto &p : out) same &= p[d] == out[0][d]; if (same) return true; } return false; };
    for (long guard = 0; ((long) out.size() < n || flat()) && guard < 50 * n + 1000; ++guard) {
        std::array<long, D> p;
        switch (style) {
            case 1: { auto &c = rng.chance(50) ? c1 : c2; for (uint d = 0; d < D; ++d) p[d] = c[d] + rng.in(-R / 8, R / 8); break; }
            case 2: { long t = rng.in(-R, R); for (uint d = 0; d < D; ++d) p[d] = t * (long) (d + 1) / (long) D + rng.in(-3, 3); break; }
            case 3: { double l = 0; std::array<double, D> q; do { l = 0; for (uint d = 0; d < D; ++d) { q[d] = rng.in(-1000, 1000); l += q[d] * q[d]; } } while (l < 1);
                      l = std::sqrt(l); for (uint d = 0; d < D; ++d) p[d] = std::lround(q[d] / l * R); break; }
            case 11: case 5: { for (uint d = 0; d < D; ++d) p[d] = d + 1 == D ? rng.in(0, 4) : rng.in(-R, R); break; }
            case 6: { for (uint d = 0; d < D; ++d) p[d] = 16 * rng.in(0, 5); break; }
            case 7: { for (uint d = 0; d < D; ++d) p[d] = d == 0 ? (R / 2) * rng.in(0, 2) + rng.in(0, 2) : rng.in(0, R); break; }
            case 8: { long s = rng.chance(70) ? R / 64 + 1 : R; for (uint d = 0; d < D; ++d) p[d] = rng.in(-s, s); break; }
            case 9: { bool core = rng.chance(40); for (uint d = 0; d < D; ++d) { p[d] = rng.in(-R / 16 - 1, R / 16 + 1); } if (!core) { uint d = rng.upto(D); p[d] = (rng.chance(50) ? 1 : -1) * rng.in(R - R / 8, R); } break; }
            default: for (uint d = 0; d < D; ++d) p[d] = rng.in(-R, R);
        }
        for (uint d = 0; d < D; ++d) p[d] = 2 * (p[d] + off[d]);     // even, so that middles are integers
        if (seen.insert(p).second) out.push_back(p);
    }
    return out;
}
static const int STYLES = 12;

template<uint D, class P> dBox<D, P> fill(dPoints<D, P> &points, const Coords<D> &c) {
    dBox<D, P> b;
    for (uint d = 0; d < D; ++d) { b.low[d] = 1e18; b.high[d] = -1e18; }
    for (auto &x : c) {
        dPoint<D, P> p;
        for (uint d = 0; d < D; ++d) { p.coords[d] = x[d]; b.low[d] = std::min<P>(b.low[d], x[d]); b.high[d] = std::max<P>(b.high[d], x[d]); }
        points.emplace_back(p);
    }
    return b;
}

template<uint D, class P> std::string jcoords(const dPoint<D, P> &p, bool &exact) {
    std::string s = "[";
    for (uint d = 0; d < D; ++d) s += (d ? "," : "") + num(p.coords[d], exact);
    return s + "]";
}

// the finite points 1..n and the artificial ones
template<uint D, class P> void logPoints(const dPoints<D, P> &points) {
    bool exact = true;
    std::string s = "[", t = "[";
    for (std::size_t i = 1; i < points.finite_size(); ++i) s += (i > 1 ? "," : "") + jcoords(points[i], exact);
    for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) t += (k != dPoint<D, P>::cINF ? "," : "") + jcoords(points[k], exact);
    Ev("pts").i("d", D).j("p", s + "]").j("inf", t + "]").i("base", vid(dPoint<D, P>::cINF)).b("exact", exact).put();
}

template<uint D, class P> void logMesh(const char *what, const dSimplices<D, P> &dt, const std::string &cfg) {
    std::string s = "["; bool f = true; std::string bad = "[";
    uint hint = 0; long n = 0;
    for (const auto &x : dt) {
        if (++n > 20000) break;
        s += f ? "[" : ",["; f = false;
        s += std::to_string(sid(x.id));
        for (uint d = 0; d <= D; ++d) s += "," + std::to_string(vid(x.vertices[d]));
        for (uint d = 0; d <= D; ++d) s += "," + std::to_string(sid(x.neighbors[d]));
        s += "]";
        if (!(dt.contains(x.id, hint) && &dt.at(x.id, hint) == &x)) bad += (bad.size() > 1 ? "," : "") + std::to_string(sid(x.id));
    }
    std::vector<long long> hull; for (auto i : dt.convexHull) hull.push_back(sid(i));
    Ev(what).t("cfg", cfg).j("s", s + "]").j("bad", bad + "]").a("hull", hull).i("size", (long long) dt.exact_size()).put();
}
