// Hooks of -fsanitize=thread as scheduling points.  This file is compiled WITHOUT -fsanitize=thread.
#include "common/vsched_core.h"
#include "common/tsched.h"
#include <pthread.h>
#include <dlfcn.h>
#include <errno.h>
#include <unordered_map>

static int quietDepth = 0;
static bool inside = false;                       // the runtime's own work is no scheduling point
static std::unordered_map<uintptr_t, unsigned> *touched;    // 8 byte granule -> fibers that used it (bit 31: written)
static void (*switchFn)(int, int) = nullptr;

struct In { bool was; In() : was(inside) { inside = true; } ~In() { inside = was; } };

static bool onStack(const void *a) {
    auto &s = vs::S();
    const char *p = (const char *) a;
    for (auto &f : s.f) if (f.stack && p >= f.stack && p < f.stack + vs::STACK) return true;
    return false;
}
static bool live() { auto &s = vs::S(); return s.active && s.cur >= 0 && !inside && !quietDepth; }

static void mark(const void *addr, size_t n, bool write, bool &shared) {
    shared = false;
    unsigned me = 1u << vs::S().cur;
    for (uintptr_t g = (uintptr_t) addr >> 3, e = ((uintptr_t) addr + n - 1) >> 3; g <= e; ++g) {
        unsigned &t = (*touched)[g];
        t |= me | (write ? 1u << 31 : 0);
        unsigned who = t & ~(1u << 31);
        if ((who & (who - 1)) && (t >> 31)) shared = true;
    }
}
static void plain(const void *addr, size_t n, bool write) {
    if (!live()) return;
    bool sh;
    { In i; if (onStack(addr)) return; mark(addr, n, write, sh); }
    if (!sh) { if (write) { vs::S().writes++; } return; }
    // as vs::point, but a plain access is no evidence of busy waiting
    auto &s = vs::S();
    auto &me = s.f[s.cur];
    const void *la = me.lastAddr; uint64_t lv = me.lastVal; int rep = me.rep;
    inside = true;
    vs::point(addr, write, false, 0);
    inside = false;
    auto &me2 = vs::S().f[vs::S().cur];
    me2.lastAddr = la; me2.lastVal = lv; me2.rep = rep;
    if (write) { vs::S().writes++; me2.lastAddr = nullptr; }
}
static void at(const void *addr, bool write, bool load, uint64_t v) {
    if (!live()) return;
    if (onStack(addr)) return;
    inside = true;
    vs::point(addr, write, load, v);
    inside = false;
}
static void wrote(const void *) { if (live()) vs::S().writes++; }

// the scheduler switches fibers inside vs::point, i.e. with `inside` set; the fiber switched to
// continues after its own call of vs::point and clears it; a fiber just started clears it here
namespace ts {
bool run(const std::vector<std::function<void()>> &bodies) {
    std::vector<std::function<void()>> b;
    if (!touched) touched = new std::unordered_map<uintptr_t, unsigned>();
    for (auto &f : bodies) b.push_back([&f] { inside = false; f(); inside = true; });
    inside = true;
    bool r = vs::run(b);
    inside = false;
    return r;
}
void start_dfs(int bound) { vs::start_dfs(bound); }
bool next_dfs() { return vs::next_dfs(); }
void start_random(unsigned long seed, int permille) { vs::start_random(seed, permille); }
void start_pct(unsigned long seed, int n, int depth, long len) { vs::start_pct(seed, n, depth, len); }
void limits(long m, long f) { vs::S().max_steps = m; vs::S().fair = f; }
void program() { if (touched) touched->clear(); }
long steps() { return vs::S().steps; }
const std::string &sched() { return vs::S().sched; }
int current() { return vs::S().active ? vs::S().cur : -1; }
void onSwitch(void (*f)(int, int)) { vs::S().onSwitch = f; }
void quiet(int d) { quietDepth += d; }
}

extern "C" {
void __tsan_init() { }
void __tsan_func_entry(void *) { }
void __tsan_func_exit() { }
void __tsan_ignore_thread_begin() { }
void __tsan_ignore_thread_end() { }
#define RW(n) void __tsan_read##n(void *a) { plain(a, n, false); } void __tsan_write##n(void *a) { plain(a, n, true); } \
    void __tsan_volatile_read##n(void *a) { plain(a, n, false); } void __tsan_volatile_write##n(void *a) { plain(a, n, true); } \
    void __tsan_unaligned_read##n(void *a) { plain(a, n, false); } void __tsan_unaligned_write##n(void *a) { plain(a, n, true); } \
    void __tsan_unaligned_volatile_read##n(void *a) { plain(a, n, false); } void __tsan_unaligned_volatile_write##n(void *a) { plain(a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { if (n) plain(a, n, false); }
void __tsan_write_range(void *a, unsigned long n) { if (n) plain(a, n, true); }
void __tsan_vptr_update(void **a, void *) { plain(a, 8, true); }
void __tsan_vptr_read(void **a) { plain(a, 8, false); }
typedef unsigned char a8; typedef unsigned short a16; typedef unsigned a32; typedef unsigned long a64;
#define AT(N) \
    a##N __tsan_atomic##N##_load(const volatile a##N *a, int) { at((const void *) a, false, true, *a); return __atomic_load_n(a, 5); } \
    void __tsan_atomic##N##_store(volatile a##N *a, a##N v, int) { at((const void *) a, true, false, 0); __atomic_store_n(a, v, 5); wrote((const void *) a); } \
    a##N __tsan_atomic##N##_exchange(volatile a##N *a, a##N v, int) { at((const void *) a, true, false, 0); a##N r = __atomic_exchange_n(a, v, 5); if (r != v) wrote((const void *) a); return r; } \
    a##N __tsan_atomic##N##_fetch_add(volatile a##N *a, a##N v, int) { at((const void *) a, true, false, 0); wrote((const void *) a); return __atomic_fetch_add(a, v, 5); } \
    a##N __tsan_atomic##N##_fetch_sub(volatile a##N *a, a##N v, int) { at((const void *) a, true, false, 0); wrote((const void *) a); return __atomic_fetch_sub(a, v, 5); } \
    a##N __tsan_atomic##N##_fetch_and(volatile a##N *a, a##N v, int) { at((const void *) a, true, false, 0); wrote((const void *) a); return __atomic_fetch_and(a, v, 5); } \
    a##N __tsan_atomic##N##_fetch_or(volatile a##N *a, a##N v, int) { at((const void *) a, true, false, 0); wrote((const void *) a); return __atomic_fetch_or(a, v, 5); } \
    a##N __tsan_atomic##N##_fetch_xor(volatile a##N *a, a##N v, int) { at((const void *) a, true, false, 0); wrote((const void *) a); return __atomic_fetch_xor(a, v, 5); } \
    a##N __tsan_atomic##N##_fetch_nand(volatile a##N *a, a##N v, int) { at((const void *) a, true, false, 0); wrote((const void *) a); return __atomic_fetch_nand(a, v, 5); } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile a##N *a, a##N *e, a##N d, int, int) { \
        at((const void *) a, false, true, *a); bool r = __atomic_compare_exchange_n(a, e, d, false, 5, 5); if (r) wrote((const void *) a); return r; } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile a##N *a, a##N *e, a##N d, int m, int f) { return __tsan_atomic##N##_compare_exchange_strong(a, e, d, m, f); } \
    a##N __tsan_atomic##N##_compare_exchange_val(volatile a##N *a, a##N e, a##N d, int m, int f) { __tsan_atomic##N##_compare_exchange_strong(a, &e, d, m, f); return e; }
AT(8) AT(16) AT(32) AT(64)
void __tsan_atomic_thread_fence(int) { }
void __tsan_atomic_signal_fence(int) { }

// ---- pthread locks: only the ones taken inside a run belong to fibers
struct Lk { int owner = -1; int depth = 0; int readers = 0; };
static std::unordered_map<void *, Lk> *locks;
static Lk &lk(void *m) { In i; if (!locks) locks = new std::unordered_map<void *, Lk>(); return (*locks)[m]; }
static void waitForWrite() {
    auto &s = vs::S(); auto &me = s.f[s.cur];
    me.spin = true; me.seenWrites = s.writes;
    inside = true;
    if (++s.steps > s.max_steps) vs::abort_run();
    int nx = vs::choose(true);
    if (nx == -2 || nx == s.cur) vs::abort_run(); else vs::go(nx);
    inside = false;
    vs::S().f[vs::S().cur].spin = false;
}
static bool fiber() { auto &s = vs::S(); return s.active && s.cur >= 0 && !inside; }
int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!fiber()) { static auto f = (int (*)(pthread_mutex_t *)) dlsym(RTLD_NEXT, "pthread_mutex_lock"); return f(m); }
    at(m, true, false, 0);
    Lk &l = lk(m);
    while (l.owner != -1 && l.owner != vs::S().cur) waitForWrite();
    if (l.owner == vs::S().cur && m->__data.__kind != PTHREAD_MUTEX_RECURSIVE) while (true) waitForWrite();
    l.owner = vs::S().cur; l.depth++; vs::S().writes++; return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!fiber()) { static auto f = (int (*)(pthread_mutex_t *)) dlsym(RTLD_NEXT, "pthread_mutex_trylock"); return f(m); }
    at(m, true, false, 0);
    Lk &l = lk(m);
    if (l.owner != -1 && !(l.owner == vs::S().cur && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE)) return EBUSY;
    l.owner = vs::S().cur; l.depth++; vs::S().writes++; return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!fiber()) { static auto f = (int (*)(pthread_mutex_t *)) dlsym(RTLD_NEXT, "pthread_mutex_unlock"); return f(m); }
    Lk &l = lk(m);
    if (--l.depth == 0) l.owner = -1;
    vs::S().writes++;
    at(m, true, false, 0);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) {
    if (!fiber()) { static auto f = (int (*)(pthread_rwlock_t *)) dlsym(RTLD_NEXT, "pthread_rwlock_rdlock"); return f(m); }
    at(m, true, false, 0);
    Lk &l = lk(m); while (l.owner != -1) waitForWrite();
    l.readers++; vs::S().writes++; return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) {
    if (!fiber()) { static auto f = (int (*)(pthread_rwlock_t *)) dlsym(RTLD_NEXT, "pthread_rwlock_wrlock"); return f(m); }
    at(m, true, false, 0);
    Lk &l = lk(m); while (l.owner != -1 || l.readers) waitForWrite();
    l.owner = vs::S().cur; vs::S().writes++; return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) {
    if (!fiber()) { static auto f = (int (*)(pthread_rwlock_t *)) dlsym(RTLD_NEXT, "pthread_rwlock_tryrdlock"); return f(m); }
    at(m, true, false, 0); Lk &l = lk(m); if (l.owner != -1) return EBUSY; l.readers++; vs::S().writes++; return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) {
    if (!fiber()) { static auto f = (int (*)(pthread_rwlock_t *)) dlsym(RTLD_NEXT, "pthread_rwlock_trywrlock"); return f(m); }
    at(m, true, false, 0); Lk &l = lk(m); if (l.owner != -1 || l.readers) return EBUSY; l.owner = vs::S().cur; vs::S().writes++; return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *m) {
    if (!fiber()) { static auto f = (int (*)(pthread_rwlock_t *)) dlsym(RTLD_NEXT, "pthread_rwlock_unlock"); return f(m); }
    Lk &l = lk(m); if (l.owner == vs::S().cur) l.owner = -1; else l.readers--; vs::S().writes++;
    at(m, true, false, 0); return 0;
}
int sched_yield() { if (fiber()) { auto &s = vs::S(); inside = true; s.run_len = s.fair; vs::point(&s, false, false, 0); inside = false; return 0; } return 0; }
}
