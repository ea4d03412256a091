// Boxes, balls and grid cells (C21).
#include "tria/common.h"
#include <map>
#include "load_balancing/Grid.h"
#include "load_balancing/BoxUtils.h"
#include "common/env.h"
extern const char GIT_COMMIT[] = "verif";
static long seed0;

template<class P> std::string num3(P x) {                     // x = (a 2^27 + b) 2^e
    int e; double m = std::frexp((double) x, &e);
    if (x == 0) return "[0,0,0]";
    long long i = (long long) std::ldexp(m, 53); e -= 53;
    while (i % 2 == 0) { i /= 2; ++e; }
    bool neg = i < 0; if (neg) i = -i;
    long long a = i >> 27, b = i & ((1LL << 27) - 1);
    if (neg) { a = -a; b = -b; }
    return "[" + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(e) + "]";
}
template<class T, std::size_t D> std::string fp(const std::array<T, D> &v) { std::string s = "["; for (uint d = 0; d < D; ++d) s += (d ? "," : "") + num3(v[d]); return s + "]"; }

template<uint D, class P> struct Run {
    typedef std::array<long, D> V;
    typedef dVector<D, P> Vec;
    typedef dBox<D, P> Box;
    Rng rng;
    long R; int shift; bool exact = true;
    std::map<std::string, std::string> ev;
    explicit Run(long s) : rng(s) {}

    P real(long x) { return (P) std::ldexp((double) x, shift); }
    Vec vec(const V &v) { Vec r; for (uint d = 0; d < D; ++d) r[d] = real(v[d]); return r; }
    Box box(const V &a, const V &b) { return Box(vec(a), vec(b)); }
    std::string j(long x) { return std::to_string(x); }
    std::string j(bool x) { return x ? "true" : "false"; }
    std::string j(const std::string &s) { return s; }
    template<class T> std::string j(const std::array<T, D> &v) { std::string s = "["; for (uint d = 0; d < D; ++d) s += (d ? "," : "") + j((long) v[d]); return s + "]"; }
    std::string back(const Vec &v) {                          // as the integer it was made of; a number of its own when it is none
        std::string s = "[";
        for (uint d = 0; d < D; ++d) {
            double x = std::ldexp((double) v[d], -shift);
            s += (d ? "," : "") + ((x == std::floor(x) && std::abs(x) < 1e9) ? std::to_string((long) x) : std::string("999999999"));
        }
        return s + "]";
    }
    template<class... A> void put(const char *k, const A &...a) {
        std::string s; ((s += (s.size() ? "," : "") + j(a)), ...);
        auto &e = ev[k]; e += (e.size() ? ",[" : "[") + s + "]";
    }
    long coord() { return rng.chance(20) ? 0 : rng.in(-R, R); }
    V point() { V v; for (auto &x : v) x = coord(); return v; }
    void bounds(V &a, V &b) { for (uint d = 0; d < D; ++d) { long x = coord(), y = rng.chance(15) ? x : coord(); a[d] = 2 * std::min(x, y); b[d] = 2 * std::max(x, y); } }
    // a point in, on the border of, or around the box
    V near(const V &a, const V &b) {
        V p;
        for (uint d = 0; d < D; ++d) switch (rng.upto(6)) {
            case 0: p[d] = a[d]; break;
            case 1: p[d] = b[d]; break;
            case 2: p[d] = a[d] - rng.in(0, 3); break;
            case 3: p[d] = b[d] + rng.in(0, 3); break;
            case 4: p[d] = 2 * coord(); break;
            default: p[d] = rng.in(a[d], b[d]);
        }
        return p;
    }
    long radius(const V &a, const V &b, const V &c) {         // often just touching
        uint d = rng.upto(D);
        long best = -1;
        switch (rng.upto(5)) {
            case 0: return rng.in(0, 2 * R);
            case 1: best = std::abs(c[d] - (rng.chance(50) ? a[d] : b[d])); break;
            case 2: { best = 1L << 30; for (uint k = 0; k < D; ++k) best = std::min(best, std::min(std::abs(c[k] - a[k]), std::abs(b[k] - c[k]))); break; }
            default: { double s = 0; for (uint k = 0; k < D; ++k) { double t = std::max({a[k] - c[k], c[k] - b[k], 0L}); s += t * t; } best = (long) std::sqrt(s); break; }
        }
        return std::max(0L, best + (rng.chance(40) ? 0 : rng.in(-1, 1)));
    }

    void boxes() {
        for (int i = 0; i < 12; ++i) {
            V a, b; bounds(a, b);
            auto bx = box(a, b);
            V p = near(a, b);
            put("point", a, b, p, bx.contains(vec(p)));
            V c, d; if (rng.chance(50)) bounds(c, d); else { V q = near(a, b), r = near(a, b); for (uint k = 0; k < D; ++k) { c[k] = std::min(q[k], r[k]); d[k] = std::max(q[k], r[k]); } }
            put("box", a, b, c, d, bx.contains(box(c, d)));
            if (rng.chance(30)) { c = a; d = b; if (rng.chance(60)) (rng.chance(50) ? c : d)[rng.upto(D)] += rng.in(-1, 1); }
            put("same", a, b, c, d, bx == box(c, d));
            V m = near(a, b); long r = radius(a, b, m);
            dSphere<D, P> s; s.center = vec(m); s.radius = real(r);
            put("within", a, b, m, r, bx.contains(s));
            m = near(a, b); r = radius(a, b, m); s.center = vec(m); s.radius = real(r);
            put("meets", a, b, m, r, bx.intersects(s));
            V e = p, lo = a, hi = b; { auto x = bx; LoadBalancing::enlargeBoxAroundVector<D, P>(x, vec(e)); put("around", a, b, e, back(x.low), back(x.high)); }
            { uint k = rng.upto(D); long t = rng.in(a[k], b[k]); auto x = LoadBalancing::splitBox(bx, k, real(t));
              put("split", a, b, (long) k + 1, t, back(std::get<0>(x).low), back(std::get<0>(x).high), back(std::get<1>(x).low), back(std::get<1>(x).high)); }
            { uint k = rng.upto(D); if (b[k] - a[k] > 1) { long t = rng.in(a[k] + 1, b[k] - 1); c = a; d = b; if (rng.chance(50)) d[k] = t; else c[k] = t; auto x = bx - box(c, d); put("rest", a, b, c, d, back(x.low), back(x.high)); } }
            { std::vector<Vec> vs; std::string js; int n = rng.in(1, 6); for (int q = 0; q < n; ++q) { V v = point(); vs.push_back(vec(v)); js += (q ? "," : "") + j(v); }
              auto x = LoadBalancing::makeBoundingBox(vs.begin(), vs.end()); put("hull", "[" + js + "]", back(x.low), back(x.high)); }
            put("away", a, b, p, back(LoadBalancing::vecToBox<D, P>(vec(p), bx)));
            V q = near(a, b); if (rng.chance(60)) for (uint k = 0; k < D; ++k) q[k] = rng.in(a[k], b[k]);
            put("border", a, b, q, back(LoadBalancing::vecToBoxBoundary<D, P>(vec(q), bx)));
        }
    }
    void cells() {
        for (int i = 0; i < 12; ++i) {
            long w = rng.chance(40) ? 1L << rng.in(0, 6) : rng.in(1, R);                  // the quotient may be inexact
            LoadBalancing::Grid<D, P> g(real(w));
            V p = point(); if (rng.chance(50)) for (auto &x : p) x = w * rng.in(-R / w, R / w) + (rng.chance(50) ? 0 : rng.in(-1, 1));
            auto id = g.indexAt(vec(p));
            put("cell", w, p, id);
            V k; for (auto &x : k) x = rng.in(-R / w, R / w);
            dIndex<D> ix; for (uint d = 0; d < D; ++d) ix[d] = k[d];
            auto bx = g.boundsOf(ix);
            put("bounds", w, k, back(bx.low), back(bx.high));
            long w2 = 2 * w; LoadBalancing::Grid<D, P> g2(real(w2)); 
            put("centre", w2, k, back(g2.centerOf(ix)));
            V lo, hi; for (uint d = 0; d < D; ++d) { lo[d] = k[d] * w; hi[d] = (k[d] + 1) * w; }
            V m = near(lo, hi); long r = radius(lo, hi, m);
            dSphere<D, P> s; s.center = vec(m); s.radius = real(r);
            put("cellmeets", w, k, m, r, LoadBalancing::intersectsWith<D, P, int64_t>(g, s, ix));
        }
        // any width
        for (int i = 0; i < 12; ++i) {
            P w = rng.chance(30) ? (P) 0.1 : (P) std::ldexp((double) (rng.next() >> 11), rng.in(-60, -45)); if (w <= 0) w = 1;
            LoadBalancing::Grid<D, P> g(w);
            Vec v;
            for (auto &x : v) {
                if (rng.chance(30)) x = (P) std::ldexp((double) rng.in(-100000, 100000), -8) * w;
                else { x = (P) rng.in(-2000, 2000) * w; int s = rng.upto(4); for (int q = 0; q < s; ++q) x = std::nextafter(x, rng.chance(50) ? std::numeric_limits<P>::max() : std::numeric_limits<P>::lowest()); }
            }
            auto id = g.indexAt(v); auto bx = g.boundsOf(id);
            put("incell", fp(v), fp(bx.low), fp(bx.high));
            auto nx = id; uint k = rng.upto(D); ++nx[k];
            put("touch", num3(bx.high[k]), num3(g.boundsOf(nx).low[k]));
        }
    }
    void history(long h) {
        R = rng.chance(50) ? rng.in(2, 12) : sizeof(P) == 4 ? 500 : 5000;
        shift = rng.chance(40) ? 0 : rng.in(sizeof(P) == 4 ? -20 : -60, sizeof(P) == 4 ? 20 : 60);
        vlog::begin(h, std::string(D == 2 ? "2D" : "3D") + (sizeof(P) == 4 ? " float" : " double"));
        boxes(); cells();
        for (auto &e : ev) Ev("geom").t("k", e.first).j("t", "[" + e.second + "]").put();
        vlog::end();
    }
};
int main(int argc, char **argv) {
    seed0 = vlog::arg(argc, argv, "--seed", 1);
    vlog::perChild() = 50;
    return vlog::run(vlog::sarg(argc, argv, "--out", "out.nd"), vlog::arg(argc, argv, "--n", 100), 20, [argc, argv](long h) {
        long o = vlog::arg(argc, argv, "--only", -1); if (o >= 0 && h != o) return;
        long s = seed0 * 1000003 + h;
        switch (h % 4) {
            case 0: Run<2, double>(s).history(h); break; case 1: Run<3, double>(s).history(h); break;
#ifdef NOFLOAT
            default: Run<2, double>(s).history(h);
#else
            case 2: Run<2, float>(s).history(h); break; default: Run<3, float>(s).history(h);
#endif
        }
    });
}
