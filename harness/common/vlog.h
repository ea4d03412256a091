// Trace writer and crash-isolating runner shared by all drivers.
// A driver produces histories.  Each history is one NDJSON line
//     {"h":<index>,"meta":"<text>","ev":[ {...}, {...} ]}
// The code under test runs in a forked child; if it crashes, throws or hangs, the
// parent closes the history with a {"e":"crash"} / {"e":"hang"} event, which no
// specification has an action for.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <exception>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>

namespace vlog {

struct Shared {
    volatile long next;          // next history index
    volatile size_t len;         // bytes of the unfinished history in buf
    volatile int open;           // history begun and not closed
    volatile int first;          // next event is the first of the history
    char buf[16u << 20];
};

inline Shared *&shm() { static Shared *s = nullptr; return s; }
inline long &perChild() { static long n = 1L << 60; return n; }   // histories per process
inline int &outfd() { static int fd = -1; return fd; }

inline void raw(const char *p, size_t n) {
    Shared *s = shm();
    if (s->len + n + 64 >= sizeof(s->buf)) { fprintf(stderr, "history too long\n"); _exit(77); }
    memcpy(s->buf + s->len, p, n);
    s->len = s->len + n;
}
inline void raw(const std::string &x) { raw(x.data(), x.size()); }

inline std::string esc(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

// event builder
struct Ev {
    std::string s;
    explicit Ev(const char *e) { s = "{\"e\":\""; s += e; s += "\""; }
    Ev &i(const char *k, long long v) { s += ",\""; s += k; s += "\":"; s += std::to_string(v); return *this; }
    Ev &b(const char *k, bool v) { s += ",\""; s += k; s += "\":"; s += v ? "true" : "false"; return *this; }
    Ev &t(const char *k, const std::string &v) { s += ",\""; s += k; s += "\":"; s += esc(v); return *this; }
    Ev &j(const char *k, const std::string &json) { s += ",\""; s += k; s += "\":"; s += json; return *this; }
    template<class C> Ev &a(const char *k, const C &c) {
        s += ",\""; s += k; s += "\":[";
        bool f = true;
        for (const auto &x : c) { if (!f) s += ","; f = false; s += std::to_string((long long) x); }
        s += "]"; return *this;
    }
    void put() { put_raw(s + "}"); }
    static void put_raw(const std::string &x) {
        Shared *sh = shm();
        std::string y = (sh->first ? "" : ",") + x;
        sh->first = 0;
        raw(y);
    }
};

inline void begin(long h, const std::string &meta) {
    Shared *s = shm();
    s->len = 0;
    raw("{\"h\":" + std::to_string(h) + ",\"meta\":" + esc(meta) + ",\"ev\":[");
    s->first = 1;
    s->open = 1;
}
inline void flush() {
    Shared *s = shm();
    size_t off = 0;
    while (off < s->len) {
        ssize_t w = write(outfd(), s->buf + off, s->len - off);
        if (w <= 0) _exit(78);
        off += w;
    }
    s->len = 0;
}
inline void end() {
    Shared *s = shm();
    raw("]}\n");
    s->open = 0;
    flush();
}
// drop the history begun (duplicate)
inline void drop() { Shared *s = shm(); s->open = 0; s->len = 0; }

// Runs fn(i) for i in [0,n) in forked children.  fn must call begin(...) ... end().
inline int run(const std::string &out, long n, unsigned secs_per_history,
               const std::function<void(long)> &fn, long max_abnormal = 5) {
    outfd() = open(out.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
    if (outfd() < 0) { perror(out.c_str()); return 2; }
    shm() = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    Shared *s = shm();
    s->next = 0;
    long abnormal = 0;
    while (s->next < n) {
        s->open = 0; s->len = 0;
        fflush(stdout); fflush(stderr);
        pid_t p = fork();
        if (p == 0) {
            for (long done = 0; s->next < n && done < perChild(); ++done) {
                alarm(secs_per_history);
                long i = s->next;
                try {
                    fn(i);
                    if (s->open) end();
                } catch (const std::exception &e) {
                    if (!s->open) begin(i, "exception before the history began");
                    Ev("exc").t("what", e.what()).put();
                    end();
                }
                s->next = i + 1;
            }
            alarm(0);
            fflush(stdout); fflush(stderr);
            _exit(0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        if (WIFEXITED(st) && (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 78)) {
            fprintf(stderr, "driver failure %d\n", WEXITSTATUS(st)); return 2;
        }
        long i = s->next;
        if (!s->open) begin(i, "died before the history began");
        bool hang = WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM);
        Ev(hang ? "hang" : "crash").i("sig", WIFSIGNALED(st) ? WTERMSIG(st) : -WEXITSTATUS(st)).put();
        end();
        s->next = i + 1;
        if (++abnormal >= max_abnormal) break;
    }
    close(outfd());
    return 0;
}

struct Rng {   // splitmix64: independent of the standard library's distributions
    unsigned long long s;
    explicit Rng(unsigned long long seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); }
    unsigned long long next() {
        unsigned long long z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    long upto(long n) { return n <= 0 ? 0 : (long) (next() % (unsigned long long) n); }   // [0,n)
    long in(long a, long b) { return a + upto(b - a + 1); }
    bool chance(int pct) { return upto(100) < pct; }
    template<class C> auto &pick(C &c) { return c[upto(c.size())]; }
};

inline long arg(int argc, char **argv, const char *name, long def) {
    for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], name)) return atol(argv[i + 1]);
    return def;
}
inline std::string sarg(int argc, char **argv, const char *name, const std::string &def) {
    for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], name)) return argv[i + 1];
    return def;
}
}
