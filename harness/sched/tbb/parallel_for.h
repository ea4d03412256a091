// Replaces tbb::parallel_for in the schedule-exploring harnesses: the range is cut into pieces and each
// piece runs on a fiber of the scheduler of common/vsched.h.
#pragma once
#include <functional>
#include <vector>
#include <algorithm>
#include <tbb/blocked_range.h>
namespace vs { bool run(const std::vector<std::function<void()>> &); }
inline int &vs_pieces() { static int n = 2; return n; }
inline bool &vs_lost() { static bool b = false; return b; }
inline void (*&vs_chain())() { static void (*f)() = nullptr; return f; }
namespace tbb {
template<class V, class Body, class... P> void parallel_for(const blocked_range<V> &r, const Body &body, P &&...) {
    std::vector<std::function<void()>> b;
    V n = r.end() - r.begin(), p = std::min<V>(vs_pieces(), n);
    if (p == 0) return;
    for (V i = 0; i < p; ++i) {
        V lo = r.begin() + n * i / p, hi = r.begin() + n * (i + 1) / p;
        b.push_back([lo, hi, &body]() { body(blocked_range<V>(lo, hi)); });
    }
    if (!vs::run(b)) vs_lost() = true;
    if (vs_chain()) vs_chain()();
}
template<class V, class F, class... P, class = decltype(std::declval<const F &>()(V()))> void parallel_for(V first, V last, const F &f, P &&...) {
    parallel_for(blocked_range<V>(first, last), [&f](const blocked_range<V> &r) { for (V i = r.begin(); i != r.end(); ++i) f(i); });
}
}
