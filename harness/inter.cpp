// Border tests (C07): partitions made by every maker, queries against every checker, and the box tree on its own.
#include "tria/common.h"
#include <memory>
#include <variant>
#include <unordered_map>
#include "utils/VTuneAdapter.h"
#include "load_balancing/BoundsIntersectionChecker.h"
#include "load_balancing/GridIntersectionChecker.h"
#include "load_balancing/AccurateGridIntersectionChecker.h"
#include "common/env.h"
extern const char GIT_COMMIT[] = "verif";
static long seed0;
namespace lb = LoadBalancing;

template<uint D, class P> struct Run {
    typedef std::array<long, D> V;
    typedef dVector<D, P> Vec;
    typedef lb::IntersectionChecker<D, P> Checker;
    Rng rng;
    long R, w = 0;                         // w: cell width in lattice units, 0: a width of its own
    int shift = 0, kind;
    P width;
    Coords<D> cs;
    dPoints<D, P> points;
    explicit Run(long s) : rng(s) {}

    P real(long x) { return (P) std::ldexp((double) x, shift); }
    Vec vec(const V &v) { Vec r; for (uint d = 0; d < D; ++d) r[d] = real(v[d]); return r; }
    template<class T> std::string j(const std::array<T, D> &v) { std::string s = "["; for (uint d = 0; d < D; ++d) s += (d ? "," : "") + std::to_string((long) v[d]); return s + "]"; }
    long back(P x, bool &exact) { double y = std::ldexp((double) x, -shift); if (y != std::floor(y) || std::abs(y) > 1e9) { exact = false; return 0; } return (long) y; }
    template<class C> static std::vector<long long> idsOf(const C &c) { std::vector<long long> v; for (auto i : c) v.push_back(vid(i)); std::sort(v.begin(), v.end()); return v; }
    std::string cells(const std::vector<dIndex<D, int64_t>> &v) { std::string s = "["; for (auto &c : v) s += (s.size() > 1 ? "," : "") + j(c); return s + "]"; }

    void make() {
        R = rng.chance(50) ? rng.in(2, 12) : sizeof(P) == 4 ? 400 : 3000;
        if (kind == 2) R = rng.chance(70) ? rng.in(3, 30) : rng.in(30, 1000);
        shift = kind == 2 || rng.chance(50) ? 0 : rng.in(sizeof(P) == 4 ? -20 : -60, sizeof(P) == 4 ? 20 : 60);
        switch (rng.upto(4)) {
            case 0: w = 1L << rng.in(0, 4); break;
            case 1: case 2: w = rng.in(1, R); break;
            default: w = 0;
        }
        while (w && 2 * R / w > 400) w *= 2;
        if (w) width = real(w);
        else { width = rng.chance(40) ? (P) 0.1 * (P) rng.in(1, 9) : (P) std::ldexp((double) (1 + (rng.next() >> 11)), -53); width *= real(R) / (P) rng.in(1, 40); }
        long n = rng.chance(20) ? rng.in(1, 3) : rng.in(1, R <= 12 ? 40 : 80);
        std::set<V> seen;
        long off = rng.chance(30) ? rng.in(-3, 3) * R : 0;
        for (long g = 0; (long) cs.size() < n && g < 20 * n; ++g) {
            V p; bool border = w && rng.chance(40);
            for (uint d = 0; d < D; ++d) { p[d] = off + (rng.chance(15) && !cs.empty() ? cs[rng.upto(cs.size())][d] - off : rng.in(-R, R)); if (border && rng.chance(70)) p[d] = p[d] / w * w; }
            if (seen.insert(p).second) cs.push_back(p);
        }
        for (auto &c : cs) { dPoint<D, P> p; p.coords = vec(c); points.emplace_back(p); }
        for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) { dPoint<D, P> p; for (uint d = 0; d < D; ++d) p.coords[d] = real((k & (1u << d) ? 1 : -1) * 50 * R); points[k] = p; }
        std::string s = "[";
        for (auto &c : cs) s += (s.size() > 1 ? "," : "") + j(c);
        Ev("pts").i("d", D).i("w", w).j("p", s + "]").i("base", vid(dPoint<D, P>::cINF)).i("ninf", 1 << D).put();
    }
    V near() { V p = cs[rng.upto(cs.size())]; for (auto &x : p) x += rng.chance(50) ? 0 : rng.in(-R, R) / (rng.chance(50) ? 1 : 8); return p; }
    // a ball that touches, just misses or just contains one of the points
    void ball(V &c, long &r) {
        c = near();
        const V &t = cs[rng.upto(cs.size())];
        switch (rng.upto(4)) {
            case 0: { for (uint d = 0; d < D; ++d) c[d] = t[d]; uint d = rng.upto(D); r = rng.in(0, R); c[d] += rng.chance(50) ? r : -r; break; }      // touches along an axis
            case 1: { long m = rng.in(1, 1 + R / 5); for (uint d = 0; d < D; ++d) c[d] = t[d]; uint a = rng.upto(D), b = (a + 1) % D; c[a] += (rng.chance(50) ? 3 : -3) * m; c[b] += (rng.chance(50) ? 4 : -4) * m; r = 5 * m; break; }
            default: { double s = 0; for (uint d = 0; d < D; ++d) s += double(c[d] - t[d]) * double(c[d] - t[d]); r = (long) std::sqrt(s); break; }
        }
        if (rng.chance(30)) r += rng.in(-1, 1);
        if (r < 0) r = 0;
    }
    void queries(std::vector<std::unique_ptr<Checker>> &ch, bool grid) {
        std::string s = "[";
        for (int q = 0; q < 12; ++q) {
            V c; long r; ball(c, r);
            dSphere<D, P> sp; sp.center = vec(c); sp.radius = real(r);
            dSimplex<D, P> x;
            std::string a = "[", cl = "[";
            for (std::size_t i = 0; i < ch.size(); ++i) {
                a += std::string(i ? "," : "") + (ch[i] ? ch[i]->intersects(sp, x) ? "true" : "false" : "true");
                if (grid && w && ch[i]) cl += (i ? "," : "") + cells(static_cast<lb::GridIntersectionChecker<D, P> *>(ch[i].get())->intersectingCells(sp));
                else if (grid && w) cl += std::string(i ? "," : "") + "[]";
            }
            s += std::string(q ? "," : "") + "{\"c\":" + j(c) + ",\"r\":" + std::to_string(r) + ",\"a\":" + a + "],\"cells\":" + cl + "]}";
        }
        Ev("balls").b("cells", grid && w).j("q", s + "]").put();
    }
    // circumspheres of simplices of points
    void spheres(std::vector<std::unique_ptr<Checker>> &ch) {
        if (cs.size() <= D) return;
        std::string s = "[";
        for (int q = 0, t = 0; q < 10 && t < 200; ++t) {
            dSimplex<D, P> x;
            std::set<long> ids; while (ids.size() <= D) ids.insert(1 + rng.upto(cs.size()));
            std::vector<long> v(ids.begin(), ids.end());
            if (rng.chance(50)) std::swap(v[0], v[D]);
            for (uint d = 0; d <= D; ++d) x.vertices[d] = v[d];
            auto cc = [&](uint k, uint d) { return double(cs[v[k] - 1][d] - cs[v[0] - 1][d]); };
            double det = D == 2 ? cc(1, 0) * cc(2, 1) - cc(1, 1) * cc(2, 0)
                       : cc(1, 0) * (cc(2, 1) * cc(D, D - 1) - cc(2, D - 1) * cc(D, 1)) - cc(1, 1) * (cc(2, 0) * cc(D, D - 1) - cc(2, D - 1) * cc(D, 0)) + cc(1, D - 1) * (cc(2, 0) * cc(D, 1) - cc(2, 1) * cc(D, 0));
            if (det == 0) continue;
            auto sp = x.circumsphere(points);
            std::string a = "[", vs = "[";
            for (std::size_t i = 0; i < ch.size(); ++i) a += std::string(i ? "," : "") + (ch[i] ? ch[i]->intersects(sp, x) ? "true" : "false" : "true");
            for (auto k : v) vs += (vs.size() > 1 ? "," : "") + std::to_string(k);
            s += std::string(q++ ? "," : "") + "{\"v\":" + vs + "],\"a\":" + a + "]}";
        }
        Ev("spheres").j("q", s + "]").put();
    }
    void partitions() {
        Point_Ids ids(rng.in(1, 2 * cs.size() + 2));
        bool some = rng.chance(30);
        for (std::size_t i = 1; i <= cs.size(); ++i) if (!some || rng.chance(80)) ids.insert(i);
        bool inf = rng.chance(70);
        if (inf) for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) ids.insert(k);
        std::size_t n = rng.in(1, 6);
        std::vector<std::size_t> to(cs.size() + 1, 0);
        int how = rng.upto(3); long cut = cs[rng.upto(cs.size())][0];
        for (std::size_t i = 1; i <= cs.size(); ++i) to[i] = how == 0 ? rng.upto(n) : how == 1 ? (cs[i - 1][0] <= cut ? 0 : n - 1) : ((cs[i - 1][0] + 100000) / (1 + R / 3) + (cs[i - 1][1] + 100000) / (1 + R / 2)) % n;
        lb::Grid<D, P> grid(width);
        lb::IntersectionPartitionMakerFunction<D, P> pm;
        int maker = kind == 2 ? rng.upto(3) : rng.upto(2);
        switch (maker) {
            case 0: pm = lb::BoundsIntersectionPartitionMaker<D, P>(); break;
            case 1: pm = lb::GridIntersectionPartitionMaker<D, P>(grid); break;
            default: pm = lb::AccurateGridIntersectionPartitionMaker<D, P>(grid);
        }
        auto res = pm(points, ids, n, [&](tIdType id) -> std::size_t { return to[id]; });
        std::vector<long long> want; for (std::size_t i = 1; i <= cs.size(); ++i) want.push_back(ids.count(i) ? to[i] : -1);
        std::string s = "["; bool exact = true;
        std::vector<std::unique_ptr<Checker>> ch;
        for (auto &p : res) {
            std::string lo = "[", hi = "["; bool e = true;
            auto &b = p.intersectionChecker->bounds();
            for (uint d = 0; d < D; ++d) { lo += (d ? "," : "") + std::to_string(back(b.low[d], e)); hi += (d ? "," : "") + std::to_string(back(b.high[d], e)); }
            auto v = idsOf(p.pointIds); bool fin = false; std::string vs = "[";
            for (auto i : v) { fin |= i < 2000000000LL; vs += (vs.size() > 1 ? "," : "") + std::to_string(i); }
            if (fin) exact &= e; else lo = hi = "[";                    // there is no box around no point
            s += std::string(s.size() > 1 ? "," : "") + "{\"v\":" + vs + "],\"lo\":" + lo + "],\"hi\":" + hi + "],\"size\":" + std::to_string(p.pointIds.size()) + "}";
            if (!fin) ch.push_back(nullptr);                            // (an empty part has no extent to test against)
            else if (rng.chance(30)) ch.push_back(p.intersectionChecker->copy()); else ch.push_back(std::move(p.intersectionChecker));
        }
        static const char *names[] = {"bounds", "grid", "accurate grid"};
        Ev("parts").t("maker", names[maker]).a("to", want).j("parts", s + "]").b("exact", exact).put();
        if (maker < 2) queries(ch, maker == 1);
        if (kind == 2) spheres(ch);
    }
    void tree() {
        if (!w) { w = rng.in(1, R); width = real(w); }
        while (2 * R / w > 60) w *= 2;
        width = real(w);
        dBox<D, P> b; for (uint d = 0; d < D; ++d) { b.low[d] = 1e30; b.high[d] = -1e30; }
        for (auto &c : cs) for (uint d = 0; d < D; ++d) { b.low[d] = std::min(b.low[d], real(c[d])); b.high[d] = std::max(b.high[d], real(c[d])); }
        AABBTree<D, P> t(b, width);
        lb::Grid<D, P> g(width);
        std::vector<dIndex<D>> in;
        std::string st = "[";
        bool same = rng.chance(50);
        for (std::size_t i = 0; i < cs.size(); ++i) {
            dIndex<D> x = g.indexAt(vec(cs[i]));
            if (!same && rng.chance(50)) for (uint d = 0; d < D; ++d) x[d] = g.indexAt(vec(cs[rng.upto(cs.size())]))[d];
            bool ok = t.insert(g.boundsOf(x));
            st += std::string(i ? "," : "") + "{\"c\":" + j(x) + ",\"ok\":" + (ok ? "true" : "false") + "}";
        }
        auto u = rng.chance(50) ? AABBTree<D, P>(t) : std::move(t);
        std::string s = "[";
        for (int q = 0; q < 15; ++q) {
            V c; long r; ball(c, r);
            if (rng.chance(40)) { for (uint d = 0; d < D; ++d) c[d] = c[d] / w * w; r = rng.in(0, 2) * w; }
            dSphere<D, P> sp; sp.center = vec(c); sp.radius = real(r);
            s += std::string(q ? "," : "") + "{\"c\":" + j(c) + ",\"r\":" + std::to_string(r) + ",\"a\":" + (u.intersects(sp) ? "true" : "false") + ",\"cells\":" + cells(u.intersectingCells(sp)) + "}";
        }
        Ev("tree").i("w", w).j("in", st + "]").j("q", s + "]").put();
    }
    void history(long h, int k) {
        kind = k;
        vlog::begin(h, std::string(D == 2 ? "2D" : "3D") + (sizeof(P) == 4 ? " float" : " double"));
        make();
        if (kind == 1) for (int i = 0; i < 3; ++i) tree(); else for (int i = 0; i < 3; ++i) partitions();
        vlog::end();
    }
};
int main(int argc, char **argv) {
    seed0 = vlog::arg(argc, argv, "--seed", 1);
    vlog::perChild() = 50;
    return vlog::run(vlog::sarg(argc, argv, "--out", "out.nd"), vlog::arg(argc, argv, "--n", 100), 20, [argc, argv](long h) {
        long o = vlog::arg(argc, argv, "--only", -1); if (o >= 0 && h != o) return;
        long s = seed0 * 1000003 + h;
        int k = h / 4 % 3;
        switch (h % 4) {
            case 0: Run<2, double>(s).history(h, k); break; case 1: Run<3, double>(s).history(h, k); break;
            case 2: Run<2, float>(s).history(h, k); break; default: Run<3, float>(s).history(h, k);
        }
    });
}
