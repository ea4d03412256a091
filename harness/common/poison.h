// Fresh heap memory is filled with a pattern, so that reading memory nobody wrote is visible.
#pragma once
#include <cstdlib>
#include <cstring>
#include <new>
static void *vpoison(std::size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); memset(p, 0xA5, n < (1u << 22) ? n : (1u << 22)); return p; }
void *operator new(std::size_t n) { return vpoison(n); }
void *operator new[](std::size_t n) { return vpoison(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, std::size_t) noexcept { free(p); }
void operator delete[](void *p, std::size_t) noexcept { free(p); }
