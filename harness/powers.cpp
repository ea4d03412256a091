// Power-of-two helpers for every unsigned type.
#include "common/vlog.h"
#include "common/env.h"
#include "utils/Misc.h"
using namespace vlog;
static std::string bits(unsigned long long x) { std::string s = "["; for (int i = 0; i < 64; ++i) if (x >> i & 1) { if (s.size() > 1) s += ","; s += std::to_string(i); } return s + "]"; }
template<class T> struct Words {
    std::string v; int n = 0;
    void add(T x) {
        if (n) v += ",";
        v += "[" + bits(x) + "," + bits(nextPow2<T>(x)) + "," + std::to_string((int) (isPow2<T>(x) ? 1 : 0)) + "," + std::to_string((long) log2<T>(x)) + "," + std::to_string((long) popcount<T>(x)) + "]";
        if (++n == 300) out();
    }
    void out() { if (n) Ev("word").i("w", sizeof(T) * 8).j("v", "[" + v + "]").put(); v.clear(); n = 0; }
};
struct Bases {
    std::string v; int n = 0;
    template<class T> void add(T x, T b) {
        if (n) v += ",";
        v += "[" + std::to_string((long) x) + "," + std::to_string((long) b) + "," + std::to_string((int) (isPowN<T>(x, b) ? 1 : 0)) + "," + std::to_string((long) (x ? logN<T>(x, b) : 0)) + "]";
        if (++n == 300) out();
    }
    void out() { if (n) Ev("base").j("v", "[" + v + "]").put(); v.clear(); n = 0; }
};
template<class T> void edges(Rng &r, long rnd) {
    Words<T> w; const int W = sizeof(T) * 8;
    for (int i = 0; i < W; ++i) for (int d = -2; d <= 2; ++d) w.add((T) ((T(1) << i) + d));
    for (int i = 0; i < W; ++i) for (int j = 0; j < i; ++j) { w.add((T) ((T(1) << i) | (T(1) << j))); w.add((T) ~((T(1) << i) | (T(1) << j))); w.add((T) ((T(1) << i) - (T(1) << j))); }
    for (long k = 0; k < rnd; ++k) { T x = (T) r.next(); w.add(x); w.add((T) (x >> r.upto(W))); w.add((T) (x & (T) r.next() & (T) r.next())); }
    w.out();
}
template<class T> void bases(Rng &r, long rnd, long top) {
    Bases b;
    for (long n = 2; n <= 33 && n <= top; ++n) { for (long x = 1; x > 0 && x <= top; x *= n) { for (int d = -1; d <= 1; ++d) if (x + d >= 0 && x + d <= top) b.add<T>(x + d, n); for (long m = 2; m < 5; ++m) if (x * m <= top) b.add<T>(x * m, n); } }
    for (long k = 0; k < rnd; ++k) b.add<T>(r.upto(top) + 1, r.in(2, 40));
    b.out();
}
int main(int argc, char **argv) {
    long n = arg(argc, argv, "--n", 3000), seed = arg(argc, argv, "--seed", 1);
    return run(sarg(argc, argv, "--out", "out.nd"), 11, 60, [&](long i) {
        Rng r(seed * 31337 + i); begin(i, "powers");
        switch (i) {
        case 0: { Words<unsigned char> w; for (int x = 0; x < 256; ++x) w.add(x); w.out(); break; }
        case 1: { Words<unsigned short> w; for (int x = 0; x < 65536; ++x) w.add(x); w.out(); break; }
        case 2: edges<unsigned>(r, n); break;
        case 3: edges<unsigned long>(r, n); break;
        case 4: edges<unsigned long long>(r, n); break;
        case 5: { Words<unsigned> w; for (int x = 0; x < 70000; x += 1 + x / 3000) w.add(x); w.out(); break; }
        case 6: { Bases b; for (int x = 1; x < 256; ++x) for (int k = 2; k < 20; ++k) b.add<unsigned char>(x, k); b.out(); break; }
        case 7: bases<unsigned short>(r, n, 60000); break;
        case 8: bases<unsigned>(r, n, 2000000000); break;
        case 9: bases<unsigned long>(r, n, 2000000000); break;
        default: { Bases b; for (unsigned x = 1; x <= 4200; ++x) for (unsigned k : {2u, 4u, 8u, 3u}) b.add<unsigned>(x, k); b.out(); }
        }
    });
}
