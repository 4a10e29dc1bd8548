// Deterministic cost of an operation: the edges of the instrumented code it goes through (compile with
// -fsanitize-coverage=trace-pc), what the library functions it calls move, compare, search and hash, and
// the memory it holds at its peak. No clock is involved: the same work always has the same cost.
#ifndef COST_HH
#define COST_HH
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <malloc.h>
#include <new>
#include <string>
#include <vector>
#define COST_RAW __attribute__((no_sanitize_coverage))
namespace cost {
static uint64_t edges = 0, bytes = 0, blocks = 0; static int64_t live = 0, peak = 0;
struct Cost { int64_t work, memory; std::string verdict; };
// runs an operation; what it still holds at its end is not released within the measure
template<typename F> static Cost COST_RAW measure(F f)
{
    int64_t l = live; peak = live; uint64_t e = edges, b = bytes, k = blocks;
    f();
    return { (int64_t) (edges - e + (bytes - b) / 4 + (blocks - k) * 16), peak - l, "" };
}
static const int SCALE = 16;
// 16 times the input has to cost about 16 times as much (doubling buffers and n log n are within the margin)
static inline std::string compare(const char *what, int64_t c0, int64_t c1, int64_t c2, int64_t slack)
{
    if (c1 < c0) c0 = 0;
    int64_t a = c1 - c0, b = c2 - c0;
    if (b <= a * SCALE / 5 * 9 + slack) return "";
    char t[300]; snprintf(t, sizeof t, "%s grows out of proportion: %lld without repetition, %lld with N, %lld with %dN", what, (long long) c0, (long long) c1, (long long) c2, SCALE); return t;
}
template<typename F> static std::string linear(F f, size_t n, bool memory)
{
    Cost c0 = f(0), c1 = f(n), c2 = f(n * SCALE);
    if (c0.verdict != c1.verdict) c0.work = 0; // something else happens without repetition
    std::string e = compare("the work", c0.work, c1.work, c2.work, 60000); if (!e.empty()) return e;
    return memory ? compare("the memory", 0, c1.memory, c2.memory, 100000) : "";
}
}
extern "C" {
COST_RAW void __sanitizer_cov_trace_pc(void) { ++cost::edges; }
COST_RAW static inline void cost_forward(void *d, const void *s, size_t n) { __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
COST_RAW void *memcpy(void *d, const void *s, size_t n) { cost::bytes += n; cost_forward(d, s, n); return d; }
COST_RAW void *memmove(void *d, const void *s, size_t n)
{
    cost::bytes += n;
    if ((uintptr_t) d - (uintptr_t) s >= n) { cost_forward(d, s, n); return d; }
    volatile char *x = (volatile char*) d; const volatile char *y = (const volatile char*) s;
    while (n) { --n; x[n] = y[n]; }
    return d;
}
COST_RAW void *memset(void *d, int c, size_t n) { cost::bytes += n; void *p = d; __asm__ volatile("rep stosb" : "+D"(p), "+c"(n) : "a"(c) : "memory"); return d; }
COST_RAW int memcmp(const void *a, const void *b, size_t n)
{
    const volatile unsigned char *x = (const volatile unsigned char*) a, *y = (const volatile unsigned char*) b;
    for (size_t k = 0; k < n; ++k) if (x[k] != y[k]) { cost::bytes += k; return x[k] < y[k] ? -1 : 1; }
    cost::bytes += n; return 0;
}
void *cost_memchr(const void *a, int c, size_t n) __asm__("memchr");
COST_RAW void *cost_memchr(const void *a, int c, size_t n)
{
    const volatile unsigned char *x = (const volatile unsigned char*) a;
    for (size_t k = 0; k < n; ++k) if (x[k] == (unsigned char) c) { cost::bytes += k; return (void*) (x + k); }
    cost::bytes += n; return nullptr;
}
COST_RAW size_t strlen(const char *s) { const volatile char *x = s; size_t n = 0; while (x[n]) ++n; cost::bytes += n; return n; }
}
namespace std {
// the hash of the standard library, by any other function
COST_RAW size_t _Hash_bytes(const void *p, size_t n, size_t seed)
{
    cost::bytes += n; const volatile unsigned char *x = (const volatile unsigned char*) p; uint64_t h = seed ^ (n * 0x9E3779B97F4A7C15ULL);
    for (size_t k = 0; k < n; ++k) { h = (h ^ x[k]) * 0xff51afd7ed558ccdULL; h ^= h >> 29; }
    return (size_t) (h ^ h >> 32);
}
}
COST_RAW static void *cost_new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++cost::blocks; cost::live += (int64_t) malloc_usable_size(p) + 16; if (cost::live > cost::peak) cost::peak = cost::live; return p; }
COST_RAW static void cost_delete(void *p) { if (p) { cost::live -= (int64_t) malloc_usable_size(p) + 16; free(p); } }
COST_RAW void *operator new(size_t n) { return cost_new(n); }
COST_RAW void *operator new[](size_t n) { return cost_new(n); }
COST_RAW void operator delete(void *p) noexcept { cost_delete(p); }
COST_RAW void operator delete[](void *p) noexcept { cost_delete(p); }
COST_RAW void operator delete(void *p, size_t) noexcept { cost_delete(p); }
COST_RAW void operator delete[](void *p, size_t) noexcept { cost_delete(p); }
#endif
