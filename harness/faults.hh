// Memory under control: counts the live blocks, and makes the k-th allocation of an operation fail.
#ifndef FAULTS_HH
#define FAULTS_HH
#include <cerrno>
#include <clocale>
#include <cstddef>
#include <cstring>
#include <locale>
#include <locale.h>
#include <new>
#include <string>
extern "C" { void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void*, size_t); void __libc_free(void*); void *__libc_memalign(size_t, size_t); }
namespace mem {
static thread_local bool armed = false, persist = false, fired = false;
static thread_local long count = 0, fail_at = 0, live = 0;
static bool fails() { if (!armed) return false; ++count; if (fail_at && (count == fail_at || (persist && count > fail_at))) { fired = true; errno = ENOMEM; return true; } return false; }
static void arm(long k, bool p) { count = 0; fail_at = k; persist = p; fired = false; armed = true; }
static void disarm() { armed = false; }
struct Marker {}; // thrown by the streams of the harness
}
extern "C" void *malloc(size_t n) { if (mem::fails()) return nullptr; void *p = __libc_malloc(n); if (p) ++mem::live; return p; }
extern "C" void *calloc(size_t n, size_t m) { if (mem::fails()) return nullptr; void *p = __libc_calloc(n, m); if (p) ++mem::live; return p; }
extern "C" void *realloc(void *o, size_t n) { if (mem::fails()) return nullptr; void *p = __libc_realloc(o, n); if (!o && p) ++mem::live; if (o && !n && !p) --mem::live; return p; }
extern "C" void *memalign(size_t a, size_t n) { if (mem::fails()) return nullptr; void *p = __libc_memalign(a, n); if (p) ++mem::live; return p; }
extern "C" void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
extern "C" int posix_memalign(void **o, size_t a, size_t n) { void *p = memalign(a, n); if (!p) return ENOMEM; *o = p; return 0; }
extern "C" void free(void *p) { if (p) { --mem::live; __libc_free(p); } }
// the library ends the process when there is no memory to register the destruction of thread-local data: not a fault to inject
extern "C" int __cxa_thread_atexit_impl(void (*)(void*), void*, void*);
extern "C" int __cxa_thread_atexit(void (*f)(void*), void *o, void *d) { bool a = mem::armed; mem::armed = false; int r = __cxa_thread_atexit_impl(f, o, d); mem::armed = a; return r; }

// what an operation has to leave as it was
struct Surroundings {
    locale_t thread; std::string c; std::locale cpp;
    Surroundings() : thread(uselocale((locale_t) 0)), c(setlocale(LC_ALL, nullptr)), cpp() {}
    std::string changed() const { if (uselocale((locale_t) 0) != thread) { uselocale(thread); return "the locale of the thread is changed"; } if (c != setlocale(LC_ALL, nullptr)) return "the C locale is changed"; if (!(cpp == std::locale())) return "the global C++ locale is changed"; return ""; }
};
template<typename S> struct Format {
    std::ios_base::fmtflags flags; std::streamsize prec, width; std::ios_base::iostate exc; char fill; std::locale loc;
    Format(const S &s) : flags(s.flags()), prec(s.precision()), width(s.width()), exc(s.exceptions()), fill(s.fill()), loc(s.getloc()) {}
    std::string changed(const S &s) const { return flags != s.flags() || prec != s.precision() || width != s.width() || exc != s.exceptions() || fill != s.fill() || !(loc == s.getloc()) ? "the formatting state of the std stream is changed" : ""; }
};
enum Outcome { NO, YES, OUT_OF_MEMORY, MARKER, OTHER };
// runs an operation with its k-th allocation failing
template<typename F> static Outcome attempt(F f, long k, bool persist)
{
    Outcome o; mem::arm(k, persist);
    try { o = f() ? YES : NO; } catch (std::bad_alloc&) { mem::disarm(); o = OUT_OF_MEMORY; } catch (mem::Marker&) { mem::disarm(); o = MARKER; } catch (...) { mem::disarm(); o = OTHER; }
    mem::disarm(); return o;
}
#endif
