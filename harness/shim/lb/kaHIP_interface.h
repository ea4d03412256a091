// Stand-in for the graph partitioner the sample-based load balancers call (an external library that is not
// part of the repository).  Its answers are legal but arbitrary: grown regions, index ranges or dice, and
// some blocks may stay empty.
#pragma once
#include <vector>
#include <functional>
#include <algorithm>
const int FAST = 0, ECO = 1, STRONG = 2, FASTSOCIAL = 3, ECOSOCIAL = 4, STRONGSOCIAL = 5, FASTSOCIALMULTITRY_PARALLEL = 6;
namespace verif {
struct GraphCall { int n, nparts; const int *xadj, *w, *adj; };
inline std::function<void(const GraphCall &, const std::vector<int> &)> &onGraph() { static std::function<void(const GraphCall &, const std::vector<int> &)> f; return f; }
inline unsigned long long &graphSeed() { static unsigned long long s = 1; return s; }
inline int &graphMode() { static int m = 0; return m; }
}
inline void kaffpa(int *n, int *, int *xadj, int *w, int *adj, int *nparts, double *, bool, int seed, int, int, int *edgecut, int *part) {
    unsigned long long s = verif::graphSeed() ^ ((unsigned long long) (unsigned) seed << 17);
    auto next = [&]() { s = s * 6364136223846793005ull + 1442695040888963407ull; return (unsigned) (s >> 33); };
    int N = *n, k = *nparts;
    std::vector<int> p(N, -1);
    int mode = verif::graphMode();
    if (mode == 0) {                                  // grow regions of equal size
        int left = N, b = 0, start = 0;
        while (left > 0) {
            int want = std::max(1, (left + k - b - 1) / std::max(1, k - b)), got = 0;
            std::vector<int> q;
            while (got < want && left > 0) {
                if (q.empty()) { while (p[start] >= 0) ++start; q.push_back(start); p[start] = b; ++got; --left; if (got == want) break; }
                int u = q.front(); q.erase(q.begin());
                for (int e = xadj[u]; e < xadj[u + 1] && got < want; ++e) if (adj[e] >= 0 && adj[e] < N && p[adj[e]] < 0) { p[adj[e]] = b; q.push_back(adj[e]); ++got; --left; }
            }
            if (b + 1 < k) ++b;
        }
    } else if (mode == 1) for (int i = 0; i < N; ++i) p[i] = (long) i * k / std::max(1, N);
    else if (mode == 2) for (int i = 0; i < N; ++i) p[i] = next() % k;
    else { int only = next() % k; for (int i = 0; i < N; ++i) p[i] = next() % 8 ? only : (int) (next() % k); }
    *edgecut = 0;
    for (int i = 0; i < N; ++i) { part[i] = p[i]; for (int e = xadj[i]; e < xadj[i + 1]; ++e) if (adj[e] >= 0 && adj[e] < N) *edgecut += p[i] != p[adj[e]]; }
    *edgecut /= 2;
    if (verif::onGraph()) verif::onGraph()(verif::GraphCall{N, k, xadj, w, adj}, p);
}
