// Interface of the access-level scheduler (sched/tsched.cpp).
// Code compiled with -fsanitize=thread calls a hook before every memory access that is not known to
// be local and for every atomic operation.  The real runtime is not linked; sched/tsched.cpp
// implements the hooks and makes them scheduling points of fibers.  So plain accesses, atomics and
// pthread mutexes of unmodified code are interleaved, whatever types the code uses.
#pragma once
#include <functional>
#include <string>
#include <vector>
namespace ts {
bool run(const std::vector<std::function<void()>> &bodies);    // false: did not terminate
void start_dfs(int bound);
bool next_dfs();
void start_random(unsigned long seed, int permille);
void start_pct(unsigned long seed, int n, int depth, long len);
void limits(long max_steps, long fair);
void program();                     // forget which addresses were shared
long steps();                       // scheduling points of the last run
const std::string &sched();
int current();                      // fiber, -1 outside
void onSwitch(void (*f)(int from, int to));
void quiet(int d);
struct Quiet { Quiet() { quiet(1); } ~Quiet() { quiet(-1); } };
}
