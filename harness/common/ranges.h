// Splits a parallel iteration range in a random way, visits the parts as a parallel_for body would
// and reports whether some part calls itself empty although it contains an entry.
#pragma once
#include <tbb/tbb_stddef.h>
#include <list>
#include "vlog.h"

template<class R, class F>
bool splitVisit(R &root, vlog::Rng &rng, int maxParts, F visit, long &parts, long guardMax = 20000) {
    std::list<R> work; work.emplace_back(root);
    bool lie = false; int made = 1;
    // split as long as the dice say so and the range allows it
    for (auto it = work.begin(); it != work.end();) {
        if (made < maxParts && it->is_divisible() && !rng.chance(15)) {
            auto nx = std::next(it);
            if (rng.chance(50)) work.emplace(nx, *it, tbb::split());      // right part behind the left one...
            else work.emplace(it, *it, tbb::split());
            ++made;
            if (rng.chance(30)) ++it;
        } else ++it;
    }
    parts = work.size();
    for (auto &r : work) {
        bool any = false; long guard = 0;
        bool saysEmpty = r.empty();
        for (auto it = r.begin(); it != r.end() && guard < guardMax; ++it, ++guard) { any = true; visit(*it); }
        if (saysEmpty && any) lie = true;
    }
    return lie;
}
