// Cooperative scheduler for systematic exploration of interleavings.
//
// The threads of a program under test are fibers of one OS thread.  Every operation on an
// instrumented atomic or mutex is a scheduling point.  This header is included BEFORE the
// repository's headers; it first includes every standard/TBB/boost header they use and then
// renames std::atomic, std::atomic_uint, std::mutex ... for the code included afterwards.
// No change to the repository is needed.
#pragma once
#include <atomic>
#include <mutex>
#include <shared_mutex>
#include <thread>
#include <condition_variable>
#include <functional>
#include <cstring>
#include <csignal>
#include <cstdint>
#include <iostream>
#include <iomanip>
#include <iterator>
#include <memory>
#include <random>
#include <sstream>
#include <fstream>
#include <string>
#include <vector>
#include <list>
#include <deque>
#include <set>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <limits>
#include <algorithm>
#include <numeric>
#include <chrono>
#include <exception>
#include <type_traits>
#include <typeinfo>
#include <climits>
#include <tuple>
#include <array>
#include <cmath>
#include <cassert>
#include <tbb/tbb_stddef.h>
#include <tbb/parallel_for.h>
#include <tbb/parallel_reduce.h>
#include <tbb/blocked_range.h>
#include <tbb/enumerable_thread_specific.h>
#include <tbb/spin_mutex.h>
#include <tbb/concurrent_vector.h>
#include <boost/serialization/access.hpp>
#include <boost/serialization/array.hpp>
#include <boost/serialization/split_member.hpp>
#include <boost/utility/in_place_factory.hpp>
#include <boost/optional.hpp>
#include <ucontext.h>
#include <sys/mman.h>

#include "common/vsched_core.h"

namespace std {

template<class T>
uint64_t vs_bits(const T &v) { uint64_t r = 0; memcpy(&r, &v, sizeof(T) < 8 ? sizeof(T) : 8); return r; }

template<class T>
struct vatomic {
    std::atomic<T> m;
    vatomic() noexcept = default;
    constexpr vatomic(T x) noexcept : m(x) {}
    vatomic(const vatomic &) = delete;
    vatomic &operator=(const vatomic &) = delete;
    static constexpr bool is_always_lock_free = true;
    bool is_lock_free() const { return true; }
    T load(std::memory_order = std::memory_order_seq_cst) const { vs::point(this, false, true, vs_bits(m.load())); return m.load(); }
    void store(T x, std::memory_order = std::memory_order_seq_cst) { vs::point(this, true, false, 0); m.store(x); vs::wrote(); }
    operator T() const { return load(); }
    T operator=(T x) { store(x); return x; }
    T exchange(T x, std::memory_order = std::memory_order_seq_cst) { vs::point(this, true, false, 0); T r = m.exchange(x); vs::wrote(); return r; }
    bool compare_exchange_strong(T &e, T d, std::memory_order = std::memory_order_seq_cst, std::memory_order = std::memory_order_seq_cst) {
        vs::point(this, true, false, 0); bool r = m.compare_exchange_strong(e, d); if (r) vs::wrote(); return r; }
    bool compare_exchange_weak(T &e, T d, std::memory_order o = std::memory_order_seq_cst, std::memory_order p = std::memory_order_seq_cst) {
        return compare_exchange_strong(e, d, o, p); }
#define VS_RMW(name) template<class U> T name(U x, std::memory_order = std::memory_order_seq_cst) { vs::point(this, true, false, 0); T r = m.name(x); vs::wrote(); return r; }
    VS_RMW(fetch_add) VS_RMW(fetch_sub) VS_RMW(fetch_or) VS_RMW(fetch_and) VS_RMW(fetch_xor)
#undef VS_RMW
    T operator++() { return fetch_add((T) 1) + 1; }
    T operator++(int) { return fetch_add((T) 1); }
    T operator--() { return fetch_sub((T) 1) - 1; }
    T operator--(int) { return fetch_sub((T) 1); }
    template<class U> T operator+=(U x) { return fetch_add(x) + x; }
    template<class U> T operator-=(U x) { return fetch_sub(x) - x; }
    template<class U> T operator|=(U x) { return fetch_or(x) | x; }
    template<class U> T operator&=(U x) { return fetch_and(x) & x; }
    template<class U> T operator^=(U x) { return fetch_xor(x) ^ x; }
};

struct vmutex : vs::vmutex_base {
    vmutex() = default;
    vmutex(const vmutex &) = delete;
    void lock() {
        auto &s = vs::S();
        if (!s.active || s.cur < 0) { owner = -3; return; }
        vs::point(this, true, false, 0);
        while (owner != -1) {
            s.f[s.cur].waitMutex = this;
            int nx = vs::choose(true);
            if (nx == -2) { vs::abort_run(); return; }
            vs::go(nx);
            s.f[s.cur].waitMutex = nullptr;
        }
        owner = s.cur; vs::wrote();
    }
    bool try_lock() {
        auto &s = vs::S();
        if (!s.active || s.cur < 0) { owner = -3; return true; }
        vs::point(this, true, false, 0);
        if (owner != -1) return false;
        owner = s.cur; vs::wrote(); return true;
    }
    void unlock() {
        vs::point(this, true, false, 0);
        owner = -1; vs::wrote();
    }
    // shared mode treated as exclusive
    void lock_shared() { lock(); }
    void unlock_shared() { unlock(); }
};
using vatomic_uint = vatomic<unsigned>;
using vatomic_int = vatomic<int>;
using vatomic_bool = vatomic<bool>;
using vatomic_size_t = vatomic<size_t>;
using vatomic_ulong = vatomic<unsigned long>;

// A copy of a shared_ptr reads two words; a concurrent assignment writes two words.  Each is
// given a scheduling point in the middle, and an unprotected overlap is reported.
inline long &vs_ptr_races() { static long n = 0; return n; }
template<class T>
struct vshared_ptr : std::shared_ptr<T> {
    using B = std::shared_ptr<T>;
    mutable int readers = 0; mutable int writers = 0;
    vshared_ptr() = default;
    vshared_ptr(std::nullptr_t) {}
    vshared_ptr(B &&b) : B(std::move(b)) {}
    template<class U> explicit vshared_ptr(U *p) : B(p) {}
    vshared_ptr(const vshared_ptr &o) : B() { o.rbegin(); static_cast<B &>(*this) = static_cast<const B &>(o); o.rend(); }
    vshared_ptr(vshared_ptr &&o) : B(std::move(static_cast<B &>(o))) {}
    void rbegin() const { if (writers) vs_ptr_races()++; readers++; vs::point(this, false, false, 0); }
    void rend() const { readers--; }
    void wbegin() { if (writers || readers) vs_ptr_races()++; writers++; vs::point(this, true, false, 0); }
    void wend() { writers--; vs::wrote(); }
    vshared_ptr &operator=(const vshared_ptr &o) {
        if (this == &o) return *this;
        o.rbegin(); B tmp = static_cast<const B &>(o); o.rend();
        wbegin(); static_cast<B &>(*this) = tmp; wend(); return *this; }
    vshared_ptr &operator=(vshared_ptr &&o) { wbegin(); static_cast<B &>(*this) = std::move(static_cast<B &>(o)); wend(); return *this; }
};
template<class T, class... A> vshared_ptr<T> vmake_shared(A &&... a) { return vshared_ptr<T>(std::make_shared<T>(std::forward<A>(a)...)); }
}

#define atomic vatomic
#define atomic_uint vatomic_uint
#define atomic_int vatomic_int
#define atomic_bool vatomic_bool
#define atomic_size_t vatomic_size_t
#define atomic_ulong vatomic_ulong
#define mutex vmutex
#define shared_ptr vshared_ptr
#define make_shared vmake_shared
