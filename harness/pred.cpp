// Geometric predicates on (nearly) degenerate and on arbitrary inputs.
#include "tria/common.h"
#include "utils/Predicates.h"
#include "common/env.h"
extern const char GIT_COMMIT[] = "verif";
static long seed0;

template<class P> std::string num3(P x) {                     // x = (a 2^27 + b) 2^e
    int e; double m = std::frexp((double) x, &e);
    if (x == 0) return "[0,0,0]";
    long long i = (long long) std::ldexp(m, 53); e -= 53;
    while (i % 2 == 0) { i /= 2; ++e; }
    bool neg = i < 0; if (neg) i = -i;
    long long a = i >> 27, b = i & ((1LL << 27) - 1);
    if (neg) { a = -a; b = -b; }
    return "[" + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(e) + "]";
}
template<uint D, class P> std::string pt(const std::array<P, D> &p) { std::string s = "["; for (uint d = 0; d < D; ++d) s += (d ? "," : "") + num3(p[d]); return s + "]"; }
template<class T> int sgn(T x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }

template<uint D, class P> struct Gen {
    typedef std::array<P, D> Pt;
    Rng &rng;
    static constexpr int MANT = sizeof(P) == 8 ? 53 : 24;
    explicit Gen(Rng &r) : rng(r) {}
    P range(int lo, int hi, int bits) {                       // an odd-ish number of `bits` bits and a magnitude in 2^[lo, hi]
        long m = (long) (rng.next() & ((1ULL << bits) - 1)); if (rng.chance(50)) m = -m;
        return (P) std::ldexp((double) m, rng.in(lo, hi) - bits);
    }
    int lo() { return sizeof(P) == 8 ? -40 : -10; }
    int hi() { return sizeof(P) == 8 ? 60 : 18; }
    P any() { return range(lo(), hi(), rng.in(1, sizeof(P) == 8 ? 53 : 12)); }
    P ulps(P x) {
        int k = rng.in(1, 2);
        for (int i = 0; i < k; ++i) x = std::nextafter(x, rng.chance(50) ? std::numeric_limits<P>::max() : std::numeric_limits<P>::lowest());
        return x;
    }
    // D + 2 points
    std::vector<Pt> points(int &kind) {
        std::vector<Pt> ps(D + 2);
        kind = rng.upto(9);
        int limit = sizeof(P) == 8 ? 30 : 20;
        switch (kind) {
            case 0: for (auto &p : ps) for (auto &x : p) x = rng.in(-3, 3); break;                 // small grid
            case 1: for (auto &p : ps) for (auto &x : p) x = (P) rng.in(-(1L << limit), 1L << limit); break;
            case 2: for (auto &p : ps) for (auto &x : p) x = any(); break;                          // any magnitudes
            case 3: {                                                                               // multiples of a direction
                Pt u; for (auto &x : u) x = rng.in(-5, 5);
                for (auto &p : ps) { P t = range(lo(), hi(), MANT - 8 - rng.upto(8)); for (uint d = 0; d < D; ++d) p[d] = t * u[d]; }
                break; }
            case 4: {                                                                               // in a plane (line) spanned by disjoint directions
                Pt u, v; uint k = rng.upto(D); for (uint d = 0; d < D; ++d) { u[d] = d == k ? 0 : rng.in(-5, 5); v[d] = d == k ? rng.in(1, 5) : 0; }
                for (auto &p : ps) { P s = range(lo(), hi(), MANT - 8), t = range(lo(), hi(), MANT - 8); if (D == 2) t = 0; for (uint d = 0; d < D; ++d) p[d] = s * u[d] + t * v[d]; }
                break; }
            case 5: {                                                                               // corners of a box: on one sphere
                Pt a, b; for (uint d = 0; d < D; ++d) { a[d] = any(); b[d] = any(); }
                std::vector<uint> cs; for (uint i = 0; i < (1u << D); ++i) cs.push_back(i);
                for (uint i = cs.size() - 1; i > 0; --i) std::swap(cs[i], cs[rng.upto(i + 1)]);
                for (uint i = 0; i < D + 2; ++i) for (uint d = 0; d < D; ++d) ps[i][d] = cs[i % cs.size()] >> d & 1 ? a[d] : b[d];
                break; }
            case 6: {                                                                               // integer sphere around some centre
                static const int r2[][3] = {{0, 5, 0}, {3, 4, 0}, {4, 3, 0}, {5, 0, 0}}, r3[][3] = {{1, 2, 2}, {3, 0, 0}, {2, 1, 2}, {2, 2, 1}, {0, 3, 0}};
                double f = std::ldexp(1.0 + rng.upto(1000), rng.in(-8, 8)); Pt c; bool far = rng.chance(50);
                for (auto &x : c) x = far ? (P) std::ldexp((double) rng.in(-1000000, 1000000), rng.in(0, sizeof(P) == 8 ? 20 : 0)) : 0;
                for (auto &p : ps) { const int *q = D == 2 ? r2[rng.upto(4)] : r3[rng.upto(5)]; uint rot = rng.upto(D); for (uint d = 0; d < D; ++d) p[d] = (P) ((rng.chance(50) ? 1 : -1) * f * q[(d + rot) % D] + c[d]); }
                break; }
            case 7: {                                                                               // close together, far away
                Pt c; for (auto &x : c) x = (P) std::ldexp((double) (rng.next() & ((1ULL << MANT) - 1)), rng.in(-MANT, sizeof(P) == 8 ? 0 : -8));
                for (auto &p : ps) for (uint d = 0; d < D; ++d) { p[d] = c[d]; int k = rng.upto(6); for (int i = 0; i < k; ++i) p[d] = ulps(p[d]); }
                break; }
            default: {                                                                              // rounded combinations of the first D points
                for (uint i = 0; i < D; ++i) for (auto &x : ps[i]) x = range(lo() / 2, hi() / 2, MANT);
                for (uint i = D; i < D + 2; ++i) { std::array<P, D> w; P s = 0; for (uint j = 0; j + 1 < D; ++j) { w[j] = (P) rng.in(-64, 64) / 16; s += w[j]; } w[D - 1] = 1 - s;
                    for (uint d = 0; d < D; ++d) { P v = 0; for (uint j = 0; j < D; ++j) v += w[j] * ps[j][d]; ps[i][d] = v; } }
            }
        }
        int pert = rng.chance(50) ? 0 : rng.in(1, 2);
        for (int i = 0; i < pert; ++i) { auto &x = ps[rng.upto(D + 2)][rng.upto(D)]; if (x != 0) x = ulps(x); }
        if (kind == 1 && rng.chance(30)) ps[rng.upto(D + 2)] = ps[rng.upto(D + 2)];
        // keep all determinants within the range of the number type
        double big = std::ldexp(1.0, sizeof(P) == 8 ? 64 : 20), small = std::ldexp(1.0, sizeof(P) == 8 ? -100 : -22);
        for (auto &p : ps) for (auto &x : p) { if (std::abs(x) > big) x = (P) big; double u = std::nextafter(std::abs(x), std::numeric_limits<P>::max()) - std::abs(x); if (x != 0 && u < small) { x = (P) (std::round(x / small) * small); } }
        for (int i = D + 1; i > 0; --i) std::swap(ps[i], ps[rng.upto(i + 1)]);
        return ps;
    }
};
template<class P> int orient(const std::vector<std::array<P, 2>> &p) { return sgn(Predicates<2, P>::orient(p[0].data(), p[1].data(), p[2].data())); }
template<class P> int orient(const std::vector<std::array<P, 3>> &p) { return sgn(Predicates<3, P>::orient(p[0].data(), p[1].data(), p[2].data(), p[3].data())); }
template<class P> int sphere(const std::vector<std::array<P, 2>> &p) { return sgn(Predicates<2, P>::insphere(p[0].data(), p[1].data(), p[2].data(), p[3].data())); }
template<class P> int sphere(const std::vector<std::array<P, 3>> &p) { return sgn(Predicates<3, P>::insphere(p[0].data(), p[1].data(), p[2].data(), p[3].data(), p[4].data())); }

template<uint D, class P> static void history(long h) {
    Rng rng(seed0 * 1000003 + h);
    Gen<D, P> gen(rng);
    vlog::begin(h, std::string(D == 2 ? "2D" : "3D") + (sizeof(P) == 4 ? " float" : " double"));
    std::string os, ss;
    for (int i = 0; i < 40; ++i) {
        int kind; auto ps = gen.points(kind);
        dPoints<D, P> pts;
        for (auto &p : ps) { dPoint<D, P> q; q.coords = p; pts.emplace_back(q); }
        dSimplex<D, P> s;
        for (uint d = 0; d <= D; ++d) s.vertices[d] = d + 1;
        std::string l = "[";
        for (uint d = 0; d <= D; ++d) l += (d ? "," : "") + pt<D, P>(ps[d]);
        l += "]";
        os += (os.size() ? ",[" : "[") + l + "," + std::to_string(orient(ps)) + "," + std::to_string(sgn(s.orientation(pts))) + "]";
        dPoint<D, P> q; q.coords = ps[D + 1];
        ss += (ss.size() ? ",[" : "[") + l + "," + pt<D, P>(ps[D + 1]) + "," + std::to_string(sphere(ps)) + (s.inSphere(q, pts) ? ",true" : ",false") + (s.inSphere(q, pts, true) ? ",true]" : ",false]");
    }
    Ev("orient").i("d", D).j("t", "[" + os + "]").put();
    Ev("sphere").i("d", D).j("t", "[" + ss + "]").put();
    vlog::end();
}
int main(int argc, char **argv) {
    seed0 = vlog::arg(argc, argv, "--seed", 1);
    vlog::perChild() = 50;
    return vlog::run(vlog::sarg(argc, argv, "--out", "out.nd"), vlog::arg(argc, argv, "--n", 100), 20, [argc, argv](long h) {
        long o = vlog::arg(argc, argv, "--only", -1); if (o >= 0 && h != o) return;
        switch (h % 4) { case 0: history<2, double>(h); break; case 1: history<3, double>(h); break; case 2: history<2, float>(h); break; default: history<3, float>(h); }
    });
}
