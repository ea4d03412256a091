// Runs the self check and the comparison of triangulations on meshes built by the system and on damaged
// copies of them, and records the answers together with the meshes.
#include "tria/common.h"
#include "CGALTriangulator.h"
#include "mods/parallel_do.h"
#include "common/env.h"
#include <map>

extern const char GIT_COMMIT[] = "verif";
static long seed0, nmax;

template<uint D, class P> struct Net {                  // a mesh as a plain list
    std::vector<dSimplex<D, P>> s; Id_Vector hull;
};
template<uint D, class P> Net<D, P> plain(const dSimplices<D, P> &dt) {
    Net<D, P> n;
    for (const auto &x : dt) n.s.push_back(x);
    n.hull = dt.convexHull;
    return n;
}
template<uint D, class P> dSimplices<D, P> real(Rng &rng, const Net<D, P> &n) {
    tIdType lo = ~tIdType(0), hi = 0;
    for (auto &x : n.s) { lo = std::min(lo, x.id); hi = std::max(hi, x.id); }
    dSimplices<D, P> dt(lo > 2 && rng.chance(50) ? lo - rng.upto(2) : lo, hi + 1 + rng.upto(3), n.hull.size());
    uint hint = 0;
    for (auto &x : n.s) { auto &y = dt.at(x.id, hint); y = x; y.genFingerprint(); }
    dt.convexHull = n.hull;
    return dt;
}
template<uint D, class P> std::array<tIdType, D> facet(const dSimplex<D, P> &x, uint i) {
    std::array<tIdType, D> f; uint k = 0;
    for (uint d = 0; d <= D; ++d) if (d != i) f[k++] = x.vertices[d];
    return f;
}
// sorted vertices, neighbours and hull list from scratch
template<uint D, class P> void relink(Net<D, P> &n) {
    std::map<std::array<tIdType, D>, std::vector<std::pair<size_t, uint>>> at;
    n.hull.clear();
    for (size_t i = 0; i < n.s.size(); ++i) {
        auto &x = n.s[i];
        std::sort(x.vertices.begin(), x.vertices.end());
        x.neighbors.fill(dSimplex<D, P>::cINF);
        for (uint d = 0; d <= D; ++d) at[facet(x, d)].emplace_back(i, d);
        if (!x.isFinite()) n.hull.push_back(x.id);
    }
    for (auto &f : at) if (f.second.size() == 2) {
        auto a = f.second[0], b = f.second[1];
        n.s[a.first].neighbors[a.second] = n.s[b.first].id;
        n.s[b.first].neighbors[b.second] = n.s[a.first].id;
    }
}
template<uint D, class P> long pos(const Net<D, P> &n, tIdType id) {
    for (size_t i = 0; i < n.s.size(); ++i) if (n.s[i].id == id) return i;
    return -1;
}
// exchanges two neighbours for the other set of simplices over their vertices
template<uint D, class P> bool flip(Rng &rng, Net<D, P> &n) {
    for (int tries = 0; tries < 50; ++tries) {
        size_t i = rng.upto(n.s.size()); uint k = rng.upto(D + 1);
        long j = pos(n, n.s[i].neighbors[k]);
        if (j < 0) continue;
        auto t = n.s[i], u = n.s[j];
        tIdType a = t.vertices[k], b = 0;
        for (auto v : u.vertices) if (!t.contains(v)) b = v;
        if (b == 0 || b == a || t.contains(b)) continue;    // already the same vertices after earlier damage
        auto f = facet(t, k);
        tIdType top = 0; for (auto &x : n.s) top = std::max(top, x.id);
        std::vector<dSimplex<D, P>> fresh;
        for (uint o = 0; o < D; ++o) {
            dSimplex<D, P> x; uint q = 0;
            x.vertices[q++] = a; x.vertices[q++] = b;
            for (uint d = 0; d < D; ++d) if (d != o) x.vertices[q++] = f[d];
            x.id = o == 0 ? t.id : o == 1 ? u.id : top + 1; x.mark = 0;
            fresh.push_back(x);
        }
        n.s[i] = fresh[0]; n.s[j] = fresh[1]; for (uint o = 2; o < D; ++o) n.s.push_back(fresh[o]);
        relink(n);
        return true;
    }
    return false;
}

template<uint D, class P> std::string damage(Rng &rng, Net<D, P> &n, dPoints<D, P> &points, int scale) {
    size_t i = rng.upto(n.s.size()); uint k = rng.upto(D + 1);
    auto other = [&] { return n.s[rng.upto(n.s.size())].id; };
    auto gone = [&] { tIdType m = 0; for (auto &x : n.s) m = std::max(m, x.id); return rng.chance(50) ? m + 1 + rng.upto(20) : rng.chance(50) ? 1000000 + rng.upto(100) : tIdType(0); };
    auto pick = [&](bool open) { for (int t = 0; t < 200; ++t) { i = rng.upto(n.s.size()); k = rng.upto(D + 1); if ((n.s[i].neighbors[k] == dSimplex<D, P>::cINF) == open) return true; } return false; };
    switch (rng.upto(14)) {
        case 0: if (pick(false)) n.s[i].neighbors[k] = dSimplex<D, P>::cINF; return "link removed";
        case 1: if (pick(false)) n.s[i].neighbors[k] = gone(); return "link to nothing";
        case 2: if (pick(true)) n.s[i].neighbors[k] = gone(); return "outer link to nothing";
        case 3: if (pick(true)) n.s[i].neighbors[k] = other(); return "outer link to something";
        case 4: if (pick(false)) n.s[i].neighbors[k] = other(); return "link redirected";
        case 5: flip(rng, n); return "flip";
        case 6: { int m = rng.in(1, 4); for (int q = 0; q < m; ++q) flip(rng, n); return "several flips"; }
        case 7: { auto r = points.range(); tIdType p = r.begin() + rng.upto(r.end() - r.begin());
                  for (uint d = 0; d < D; ++d) points[p].coords[d] += std::ldexp((double) (2 * rng.in(-300, 300)), -scale); return "point moved"; }
        case 8: { auto r = points.range(); tIdType p = r.begin() + rng.upto(r.end() - r.begin());
                  points[p].coords[rng.upto(D)] += std::ldexp((double) (2 * rng.in(-4, 4)), -scale); return "point moved a little"; }
        case 9: { dPoint<D, P> p; auto r = points.range(); p = points[r.begin()]; p.coords[0] += std::ldexp(2.0, -scale); points.emplace_back(p); return "point without simplices"; }
        case 10: { n.s.erase(n.s.begin() + i); relink(n); return "simplex removed"; }
        case 11: { auto x = n.s[i]; x.id = gone(); if (!x.id) x.id = 999999; n.s.push_back(x); if (!x.isFinite() && rng.chance(50)) n.hull.push_back(x.id); return "simplex twice"; }
        case 12: { if (!n.hull.empty()) n.hull.erase(n.hull.begin() + rng.upto(n.hull.size())); return "hull entry removed"; }
        case 13: { tIdType v = n.s[i].vertices[rng.upto(D + 1)]; if (dPoint<D, P>::isFinite(v)) {
                     std::vector<dSimplex<D, P>> kept; for (auto &x : n.s) if (!x.contains(v)) kept.push_back(x);
                     if (!kept.empty()) { n.s = kept; relink(n); } } return "star removed"; }
    }
    return "";
}

template<class C> std::string verts(const C &c) {
    std::string s = "[";
    for (auto &x : c) { s += s.size() > 1 ? ",[" : "["; bool f = true; for (auto v : x.vertices) { s += f ? "" : ","; f = false; s += std::to_string(vid(v)); } s += "]"; }
    return s + "]";
}
template<uint D, class P> std::string simp(const Net<D, P> &n) {
    std::string s = "[";
    for (auto &x : n.s) {
        s += (s.size() > 1 ? ",[" : "[") + std::to_string(sid(x.id));
        for (auto v : x.vertices) s += "," + std::to_string(vid(v));
        for (auto v : x.neighbors) s += "," + std::to_string(sid(v));
        s += "]";
    }
    return s + "]";
}
template<uint D, class P> void pointsOut(const dPoints<D, P> &points, int scale) {
    bool exact = true; std::string s = "[", t = "[";
    auto one = [&](const dPoint<D, P> &p) { std::string c = "["; for (uint d = 0; d < D; ++d) c += (d ? "," : "") + num((P) std::ldexp(p.coords[d], scale), exact); return c + "]"; };
    auto r = points.range();
    for (auto i = r.begin(); i < r.end(); ++i) s += (s.size() > 1 ? "," : "") + one(points[i]);
    for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) t += (t.size() > 1 ? "," : "") + one(points[k]);
    Ev("pts").i("d", D).j("p", s + "]").i("off", points.offset()).j("inf", t + "]").i("base", vid(dPoint<D, P>::cINF)).b("exact", exact).put();
}

template<uint D, class P> static void history(long h) {
    Rng rng(seed0 * 1000003 + h);
    long n = rng.chance(25) ? rng.in(1, D + 1) : rng.in(2, nmax);
    int style = rng.upto(10); std::string sname;
    int scale = sizeof(P) == 8 && rng.chance(20) ? rng.in(150, 200) : 0;
    auto cs = makePoints<D>(rng, style, n, sname);
    vlog::begin(h, std::string(D == 2 ? "2D" : "3D") + (sizeof(P) == 4 ? " float " : " double ") + std::to_string(cs.size()) + " points, " + sname);
    dPoints<D, P> points;
    auto bounds = fill<D, P>(points, cs);
    tbb::global_control gc(tbb::global_control::max_allowed_parallelism, rng.chance(50) ? 4 : 1);
    verif::doSeed() = rng.next() | 1;
    long ext = 2, far = rng.in(1, 5);
    for (uint d = 0; d < D; ++d) ext = std::max(ext, (long) (bounds.high[d] - bounds.low[d]));
    for (tIdType k = dPoint<D, P>::cINF, i = 0; k != 0; ++k, ++i) for (uint d = 0; d < D; ++d)
        points[k].coords[d] = i & (1 << d) ? bounds.high[d] + far * ext : bounds.low[d] - far * ext;
    dBox<D, P> around = bounds;
    for (uint d = 0; d < D; ++d) { around.low[d] -= far * ext; around.high[d] += far * ext; }
    CGALTriangulator<D, P> t(around, points);
    auto dt = t.triangulate();
    Net<D, P> good = plain(dt);
    dPoints<D, P> pts = points;
    if (scale) { auto down = [&](dPoint<D, P> &p) { for (uint d = 0; d < D; ++d) p.coords[d] = std::ldexp(p.coords[d], -scale); };
        for (auto i = pts.range().begin(); i < pts.range().end(); ++i) down(pts[i]);
        for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) down(pts[k]); }
    if (rng.chance(25)) {                                // ids that do not start at one
        tIdType off = rng.in(1, 3 * n + 5);
        pts.offset(off);
        for (auto &x : good.s) for (auto &v : x.vertices) if (dPoint<D, P>::isFinite(v)) v += off;
    }
    std::map<tIdType, tIdType> rn; tIdType next = rng.in(1, 40);   // own ids, with gaps
    for (auto &x : good.s) { rn[x.id] = next; next += 1 + rng.chance(20) * rng.upto(5); }
    for (auto &x : good.s) { x.id = rn[x.id]; for (auto &q : x.neighbors) if (dSimplex<D, P>::isFinite(q)) q = rn.at(q); }
    for (auto &q : good.hull) q = rn.at(q);
    pointsOut(pts, scale);
    int rounds = rng.in(1, 4);
    for (int r = 0; r < rounds; ++r) {
        Net<D, P> bad = good;
        dPoints<D, P> p2 = pts;
        std::string what = rng.chance(20) ? "intact" : damage(rng, bad, p2, scale);
        if (rng.chance(15) && !good.s.empty()) what += ", " + damage(rng, bad, p2, scale);
        if (bad.s.empty()) continue;
        auto m = real(rng, bad);
        pointsOut(p2, scale);
        Point_Ids given(4);
        bool sub = rng.chance(40);
        std::vector<long long> gl;
        auto rg = p2.range();
        for (auto i = rg.begin(); i < rg.end(); ++i) if (!sub || !rng.chance(r == 0 ? 0 : 3)) { given.insert(i); gl.push_back(i); }
        for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) given.insert(k);
        Ev("run").t("what", what).put();
        auto rep = m.verify(p2, sub ? &given : nullptr);
        std::string inc = "[";
        for (auto &x : rep.inCircle) for (auto v : x.second) inc += (inc.size() > 1 ? ",[" : "[") + std::to_string(sid(x.first.id)) + "," + std::to_string(vid(v)) + "]";
        std::vector<long long> hull; for (auto i : bad.hull) hull.push_back(sid(i));
        Ev("verify").t("what", what).j("s", simp(bad)).a("hull", hull).a("given", gl).b("valid", rep.valid).j("inc", inc + "]").put();
        // comparison, in either direction
        auto ref = real(rng, good);
        bool dir = rng.chance(50);
        auto rep2 = dir ? m.crossCheck(ref) : ref.crossCheck(m);
        Ev("cross").t("what", what).j("mine", simp(dir ? bad : good)).j("real", simp(dir ? good : bad)).b("valid", rep2.valid)
            .j("missing", verts(rep2.missing)).j("surplus", verts(rep2.invalid)).put();
    }
    vlog::end();
}

int main(int argc, char **argv) {
    seed0 = vlog::arg(argc, argv, "--seed", 1);
    nmax = vlog::arg(argc, argv, "--nmax", 14);
    vlog::perChild() = 20;
    return vlog::run(vlog::sarg(argc, argv, "--out", "out.nd"), vlog::arg(argc, argv, "--n", 100), 20, [argc, argv](long h) {
        long o = vlog::arg(argc, argv, "--only", -1); if (o >= 0 && h != o) return;
        switch (h % 5) { case 0: case 2: history<2, double>(h); break; case 1: case 3: history<3, double>(h); break; default: h / 5 % 2 ? history<2, float>(h) : history<3, float>(h); }
    });
}
