// Stand-in for the repository's copy of tbb::parallel_do (which needs an older TBB).  With a seed set, the
// pending items are processed one at a time in a random order; otherwise by TBB in parallel.
#pragma once
#include <tbb/parallel_for_each.h>
#include <vector>
namespace verif { inline unsigned long long &doSeed() { static unsigned long long s = 0; return s; } }
namespace tbb {
template<class T> struct parallel_do_feeder {
    tbb::feeder<T> *f = nullptr;
    std::vector<T> *v = nullptr;
    void add(const T &x) { if (v) v->push_back(x); else f->add(x); }
};
template<class C, class B> void parallel_do(C &&c, const B &b) {
    typedef std::decay_t<decltype(*c.begin())> T;
    if (verif::doSeed()) {
        std::vector<T> todo;
        for (auto it = c.begin(); it != c.end(); ++it) todo.push_back(*it);
        parallel_do_feeder<T> f; f.v = &todo;
        while (!todo.empty()) {
            auto &s = verif::doSeed();
            s = s * 6364136223846793005ull + 1442695040888963407ull;
            std::size_t i = (s >> 33) % todo.size();
            T x = todo[i]; todo[i] = todo.back(); todo.pop_back();
            b(x, f);
        }
    } else {
        tbb::parallel_for_each(c.begin(), c.end(), [&](const T &x, tbb::feeder<T> &fd) {
            parallel_do_feeder<T> f; f.f = &fd;
            b(x, f);
        });
    }
}
}
