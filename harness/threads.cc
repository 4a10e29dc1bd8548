// C18: operations in two threads under a controlled scheduler. The real code is compiled with a callback at every
// control-flow edge (-fsanitize-coverage=trace-pc-guard); every callback is a point where a thread can be preempted.
// Exactly one thread runs at a time; which one is decided by the schedule being explored.
// Built with -DRACE, the same operations run freely in eight threads under ThreadSanitizer.
#include "thr.pg.hh"
#include "thro.pg.hh"
#include <protogen/protogen.hh>
#include "vh.hh"
#include <atomic>
#include <thread>
#include <list>
#include <clocale>
#include <locale>
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#ifndef PG
#define PG protogen_3_0_0
#endif

// ---------------------------------------------------------------- operations
static std::string errs(const PG::Parameters &p) { return " error " + std::to_string((int) p.error.code) + " " + p.error.message + " " + std::to_string(p.error.line) + ":" + std::to_string(p.error.column); }
template<typename M> static void fill(M &m, int v)
{
    m.i = v ? -2147483647 : 12345; m.d = v ? 0.1 : -2.5e-300; m.f = v ? 3.25f : 1e10f; m.s = v ? "first \"text\"\n" : std::string("zweiter \xC3\xA9\xE2\x82\xAC \xF0\x9F\x98\x80"); m.u = v ? 18446744073709551615ull : 7; m.b = v == 0;
    m.y.push_back((uint8_t) (v ? 255 : 1)); m.y.push_back(0); m.y.push_back((uint8_t) (v ? 17 : 200)); if (v) m.y.push_back(9);
    m.rs.push_back(v ? "aa" : "b"); m.rs.push_back(v ? "" : "ccc"); m.rd.push_back(v ? 1.5 : 1e100);
    m.sub.n = v ? 3 : 44; m.sub.t = v ? "x" : "yyyy"; m.subs.resize(1 + (size_t) v); for (auto &x : m.subs) x.n = v + 70; m.hidden = v ? "h" : "hidden";
}
template<typename M> static std::string op_ser(int v) { M m; fill(m, v); std::string o; PG::Parameters p; p.ensure_ascii = v; bool ok = m.serialize(o, &p); return std::to_string(ok) + o + errs(p); }
template<typename M> static std::string op_ser_stream(int v) { M m; fill(m, v); std::ostringstream o; PG::Parameters p; p.serialize_null = v; bool ok = m.serialize(o, &p); return std::to_string(ok) + o.str() + errs(p); }
static const char *TEXTS[] = { "{\"i\":-5,\"d\":1.25e3,\"f\":0.1,\"s\":\"a\\u00e9\\ud83d\\ude00\\n\",\"u\":99,\"b\":true,\"y\":\"AAECAw==\",\"rs\":[\"x\",\"yy\"],\"sub\":{\"n\":1,\"t\":\"q\"},\"subs\":[{\"n\":2}],\"zz\":[{},\"s\",null]}",
    " { \"u\" : 3 , \"subs\" : [ { \"t\" : \"rr\" } , { } ] , \"y\" : \"/+8=\" , \"rd\" : [ 0 , -1.5 ] , \"s\" : \"other\" , \"i\" : 2147483647 , \"hidden\" : \"no\" }" };
static const char *BAD[] = { "{\"i\":-5,\n \"s\":\"abc\",\n  \"d\":truth}", "{\"y\":\"AA\",\"rs\":[1]}" };
template<typename M> static std::string show(M &m) { std::string o; m.serialize(o); return o + (m.i.empty() ? " e" : "") + (m.hidden.empty() ? " h" : ""); }
template<typename M> static std::string op_deser(int v) { M m; PG::Parameters p; bool ok = m.deserialize(std::string(TEXTS[v]), &p); return std::to_string(ok) + errs(p) + show(m); }
template<typename M> static std::string op_deser_stream(int v) { M m; std::istringstream in(TEXTS[v]); PG::Parameters p; bool ok = m.deserialize(in, &p); return std::to_string(ok) + errs(p) + show(m); }
template<typename M> static std::string op_bad(int v) { M m; PG::Parameters p; bool ok = m.deserialize(std::string(BAD[v]), &p); return std::to_string(ok) + errs(p); }
template<typename M> static std::string op_value(int v) { M a, b; fill(a, v); fill(b, 1 - v); std::string r; M c(a); r += a == c ? "=" : "!"; r += a == b ? "=" : "!"; a.swap(b); r += a == c ? "=" : "!"; b.clear(); r += b.empty() ? "e" : "f"; b = a; r += b == a ? "=" : "!"; return r; }
static std::string op_array(int v) { std::vector<int32_t> x; for (int i = 0; i < 3; ++i) x.push_back(v * 100 - i); std::string o; bool ok = PG::serialize_array(x, o); std::vector<int32_t> y; PG::Parameters p; bool k = PG::deserialize_array(y, o, &p); return std::to_string(ok) + std::to_string(k) + o + (x == y ? "=" : "!") + errs(p); }
template<typename M> static std::string op_msgs(int v) { std::list<M> x(2); for (auto &m : x) m.i = v + 5; std::string o; bool ok = PG::serialize_array(x, o); std::list<M> y; PG::Parameters p; bool k = PG::deserialize_array(y, o, &p); return std::to_string(ok) + std::to_string(k) + o + std::to_string(y.size()) + errs(p); }
static const char *SCHEMAS[] = { "syntax = \"proto3\"; package a.b; option obfuscate_strings = true; message A { int32 x = 1; string s = 2 [name = \"other\"]; } message B { repeated A l = 1; bytes y = 2 [transient = true]; }",
    "// comment\nsyntax = \"proto3\";\n/* c */ option cpp_use_lists = true; option number_names = true;\nmessage Q { double d = 7; R r = 8; }\nmessage R { repeated string t = 1; }" };
static const char *WRONG[] = { "syntax = \"proto3\";\nmessage A { int32 x = 0; }", "syntax = \"proto3\";\nmessage A { B b = 1; }\n" };
static std::string ast(const protogen::Proto3 &p) { std::string r; for (auto &m : p.messages) { r += m->package + "/" + m->name + "{"; for (auto &f : m->fields) r += f.name + "=" + std::to_string(f.index) + ":" + std::to_string((int) f.type.id) + std::to_string(f.type.repeated) + ","; r += "}"; } return r; }
static std::string op_parse(int v) { protogen::Proto3 p; std::istringstream in(SCHEMAS[v]); try { p.parse(in, v ? "one.proto" : "two.proto"); } catch (protogen::exception &e) { return std::string("error ") + e.what(); } return ast(p); }
static std::string op_reject(int v) { protogen::Proto3 p; std::istringstream in(WRONG[v]); try { p.parse(in, "bad.proto"); protogen::CppGenerator g; std::ostringstream o; g.generate(p, o); } catch (protogen::exception &e) { return std::string("error ") + e.what() + std::to_string(e.line) + ":" + std::to_string(e.column); } return ast(p); }
static std::string op_generate(int v) { protogen::Proto3 p; std::istringstream in(SCHEMAS[v]); std::ostringstream o; try { p.parse(in, v ? "one.proto" : "two.proto"); protogen::CppGenerator g; g.generate(p, o); } catch (protogen::exception &e) { return std::string("error ") + e.what(); } return o.str(); }
// concurrent reading of one object
template<typename M> static const M &shared() { static const M *m = [] { M *x = new M(); fill(*x, 1); return x; }(); return *m; }
template<typename M> static std::string op_shared_ser(int v) { const M &m = shared<M>(); std::string o; PG::Parameters p; p.ensure_ascii = v; bool ok = m.serialize(o, &p); return std::to_string(ok) + o + errs(p); }
template<typename M> static std::string op_shared_read(int) { const M &m = shared<M>(); std::string r; M c(m); r += m == c ? "=" : "!"; r += m.empty() ? "e" : "f"; r += std::to_string((int32_t) m.i) + std::to_string((double) m.d) + (const std::string&) m.s + std::to_string(m.rs.size()) + std::to_string((int32_t) m.sub.n); return r; }

// the process has another locale than "C": nothing may depend on it, for however short a time
struct Punct : std::numpunct<char> { char do_decimal_point() const override { return ';'; } char do_thousands_sep() const override { return '\''; } std::string do_grouping() const override { return "\3"; } };
static std::string locale_name() { return std::string(setlocale(LC_ALL, nullptr)) + "/" + localeconv()->decimal_point + "/" + std::use_facet<std::numpunct<char>>(std::locale()).decimal_point(); }
static void set_locale() { if (!setlocale(LC_ALL, "de_DE.UTF-8")) { fprintf(stderr, "no locale de_DE\n"); _exit(93); } std::locale::global(std::locale(std::locale::classic(), new Punct)); }

struct Op { const char *name; std::string (*fn)(int); bool lib; };
static const Op OPS[] = {
    { "serialize", op_ser<thr::M>, false }, { "serialize to a stream", op_ser_stream<thr::M>, false }, { "deserialize", op_deser<thr::M>, false }, { "deserialize a stream", op_deser_stream<thr::M>, false },
    { "deserialize wrong text", op_bad<thr::M>, false }, { "values", op_value<thr::M>, false }, { "array of numbers", op_array, false }, { "array of messages", op_msgs<thr::M>, false },
    { "serialize (obfuscated)", op_ser<thro::M>, false }, { "deserialize (obfuscated)", op_deser<thro::M>, false }, { "wrong text (obfuscated)", op_bad<thro::M>, false },
    { "serialize one object", op_shared_ser<thr::M>, false }, { "read one object", op_shared_read<thr::M>, false },
    { "parse", op_parse, true }, { "reject", op_reject, true }, { "generate", op_generate, true },
};
static const int NOPS = sizeof OPS / sizeof *OPS;

#ifndef RACE
// ---------------------------------------------------------------- scheduler
#define NOCOV __attribute__((no_sanitize("coverage")))
struct Worker { uint64_t count = 0, stop_at = 0; uint32_t cap = 1; bool finished = false; uint16_t *visits = nullptr; volatile uint64_t beats = 0; pid_t tid = 0; int id = 0; };
static thread_local Worker *tl_me = nullptr;
static Worker W[2];
static std::atomic<int> g_turn{0};               // which worker may run
static std::atomic<bool> g_free{false};          // an unknown lock was met: no more control
static uint64_t g_blocked = 0, g_frees = 0;
static size_t g_guards = 0;
static NOCOV void fwait(int v) { timespec t{0, 20000000}; syscall(SYS_futex, (int*) &g_turn, FUTEX_WAIT_PRIVATE, v, &t, nullptr, 0); }
static NOCOV bool asleep(pid_t tid) { char f[64], b[512]; snprintf(f, sizeof f, "/proc/self/task/%d/stat", (int) tid); FILE *h = fopen(f, "r"); if (!h) return false; size_t n = fread(b, 1, sizeof b - 1, h); fclose(h); b[n] = 0; char *p = strrchr(b, ')'); return p && p[2] == 'S'; }
static NOCOV void await(int me)
{
    uint64_t last = ~0ull; int same = 0;
    while (g_turn.load() != me && !g_free.load()) {
        fwait(1 - me);
        if (g_turn.load() == me) break;
        // the running thread may wait for a lock that this one holds
        Worker &o = W[1 - me];
        if (o.beats == last && asleep(o.tid)) { if (++same >= 3) { g_free = true; ++g_frees; } } else same = 0;
        last = o.beats;
    }
}
static NOCOV void give(int to) { g_turn = to; syscall(SYS_futex, (int*) &g_turn, FUTEX_WAKE_PRIVATE, 2, nullptr, nullptr, 0); }
static NOCOV void yield_to_other(Worker *w) { if (g_free || W[1 - w->id].finished) return; Worker *keep = tl_me; tl_me = nullptr; give(1 - w->id); await(w->id); tl_me = keep; }
static NOCOV void point(Worker *w, uint32_t edge)
{
    ++w->beats; tl_me = nullptr; struct Back { Worker *w; NOCOV ~Back() { tl_me = w; } } back{w};
    uint16_t &n = w->visits[edge]; if (n < 65535) ++n;
    if (n > w->cap && (w->cap == 1 || (n & (n - 1)))) return;
    if (++w->count == w->stop_at) yield_to_other(w);
}
extern "C" NOCOV void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { if (a == b || *a) return; for (uint32_t *x = a; x < b; ++x) *x = (uint32_t) ++g_guards; }
extern "C" NOCOV void __sanitizer_cov_trace_pc_guard(uint32_t *g) { Worker *w = tl_me; if (w) point(w, *g); }
// initialization of function-local variables: waiting means that the other thread runs
extern "C" NOCOV int __cxa_guard_acquire(uint64_t *g) { volatile char *b = (volatile char*) g; while (true) { if (b[0]) return 0; if (!__sync_lock_test_and_set(b + 1, 1)) { if (!b[0]) return 1; __sync_lock_release(b + 1); return 0; } ++g_blocked; Worker *w = tl_me; if (w && !g_free) yield_to_other(w); else sched_yield(); } }
extern "C" NOCOV void __cxa_guard_release(uint64_t *g) { volatile char *b = (volatile char*) g; __sync_synchronize(); b[0] = 1; __sync_lock_release(b + 1); }
extern "C" NOCOV void __cxa_guard_abort(uint64_t *g) { __sync_lock_release((volatile char*) g + 1); }
extern "C" NOCOV int pthread_mutex_lock(pthread_mutex_t *m) noexcept
{
    typedef int (*F)(pthread_mutex_t*); static F real = nullptr, tr = nullptr; if (!tr) { tr = (F) dlsym(RTLD_NEXT, "pthread_mutex_trylock"); real = (F) dlsym(RTLD_NEXT, "pthread_mutex_lock"); }
    Worker *w = tl_me; if (!w) return real(m);
    while (true) { int r = tr(m); if (r != EBUSY) return r; ++g_blocked; if (g_free || W[1 - w->id].finished) return real(m); yield_to_other(w); }
}

struct Task { int op, var; uint32_t cap; uint64_t stop; };
static std::string execute(const Task &t, int id)
{
    Worker &w = W[id]; w.id = id; w.count = 0; w.stop_at = t.stop; w.cap = t.cap; if (!w.visits) w.visits = (uint16_t*) malloc(2 * (g_guards + 1)); memset(w.visits, 0, 2 * (g_guards + 1)); w.tid = (pid_t) syscall(SYS_gettid);
    tl_me = &w; std::string r;
    try { r = OPS[t.op].fn(t.var); } catch (std::exception &e) { r = std::string("exception ") + e.what(); }
    tl_me = nullptr; return r;
}
// a persistent second thread
static Task g_task; static std::string g_result; static std::atomic<int> g_job{0};
static void second()
{
    while (true) {
        while (g_job.load() != 1) { timespec t{1, 0}; syscall(SYS_futex, (int*) &g_job, FUTEX_WAIT_PRIVATE, g_job.load() == 1 ? -1 : g_job.load(), &t, nullptr, 0); }
        W[1].tid = (pid_t) syscall(SYS_gettid);
        await(1);
        std::string r = execute(g_task, 1);
        g_result = r; W[1].finished = true; g_job = 2;
        give(0); syscall(SYS_futex, (int*) &g_job, FUTEX_WAKE_PRIVATE, 2, nullptr, nullptr, 0);
    }
}
static void pin()
{
    static bool done = false; if (done) return; done = true;
    cpu_set_t s; if (sched_getaffinity(0, sizeof s, &s)) return; int n = CPU_COUNT(&s); if (n < 2) return;
    int k = (int) (getpid() % n); for (int c = 0; c < CPU_SETSIZE; ++c) if (CPU_ISSET(c, &s) && k-- == 0) { cpu_set_t o; CPU_ZERO(&o); CPU_SET(c, &o); sched_setaffinity(0, sizeof o, &o); return; }
}
static void schedule(const Task &a, const Task &b, std::string &ra, std::string &rb)
{
    static bool started = false; if (!started) { started = true; pin(); W[1].finished = false; std::thread(second).detach(); }
    W[0].finished = W[1].finished = false; g_free = false; g_task = b; g_turn = 0; g_job = 1; syscall(SYS_futex, (int*) &g_job, FUTEX_WAKE_PRIVATE, 2, nullptr, nullptr, 0);
    W[0].tid = (pid_t) syscall(SYS_gettid);
    ra = execute(a, 0);
    W[0].finished = true; give(1);
    while (g_job.load() != 2) { timespec t{0, 50000000}; int v = g_job.load(); if (v != 2) syscall(SYS_futex, (int*) &g_job, FUTEX_WAIT_PRIVATE, v, &t, nullptr, 0); }
    rb = g_result;
}
static std::string in_child(const std::function<std::string()> &f)
{
    int fd[2]; if (pipe(fd)) _exit(92);
    pid_t p = fork();
    if (p == 0) { close(fd[0]); std::string r = f(); size_t o = 0; while (o < r.size()) { ssize_t k = write(fd[1], r.data() + o, r.size() - o); if (k <= 0) break; o += (size_t) k; } _exit(0); }
    close(fd[1]); std::string r; char b[4096]; ssize_t k; while ((k = read(fd[0], b, sizeof b)) > 0) r.append(b, (size_t) k); close(fd[0]);
    int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) return "the process dies";
    return r;
}
// an operation alone: its result, and the number of its points (in a process where nothing ran before, or where everything did)
struct Alone { std::string result; uint64_t points; };
static const Alone &alone(int op, int var, uint32_t cap, bool cold)
{
    static std::map<std::vector<int>, Alone> cache; std::vector<int> k = { op, var, (int) cap, cold };
    auto it = cache.find(k); if (it != cache.end()) return it->second;
    std::string s = in_child([&] { Task t{ op, var, cap, 0 }; W[1].finished = true; std::string r; for (int i = 0; i < (cold ? 1 : 2); ++i) r = execute(t, 0); uint64_t n = W[0].count; return std::string((const char*) &n, 8) + r; });
    Alone a; a.points = 0; if (s.size() >= 8 && s != "the process dies") { memcpy(&a.points, s.data(), 8); a.result = s.substr(8); } else a.result = s;
    return cache[k] = a;
}
struct Case { int32_t a, va, b, vb; uint32_t cap; uint32_t cold; uint64_t i, j; };
static std::string explain(const Case &c) { return std::string(OPS[c.a].name) + " #" + std::to_string(c.va) + " stopped at point " + std::to_string(c.i) + ", " + OPS[c.b].name + " #" + std::to_string(c.vb) + (c.j ? " stopped at point " + std::to_string(c.j) : " to its end"); }
static std::string differ(const Op &o, const std::string &got, const std::string &want) { size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) ++k; return std::string(o.name) + " gives ..." + vh::printable(got.substr(k > 20 ? k - 20 : 0, 200)) + " instead of ..." + vh::printable(want.substr(k > 20 ? k - 20 : 0, 200)); }
static std::string run_case(const Case &c)
{
    std::string ra, rb, wa = alone(c.a, c.va, c.cap, c.cold).result, wb = alone(c.b, c.vb, c.cap, c.cold).result;
    schedule({ c.a, c.va, c.cap, c.i }, { c.b, c.vb, c.cap, c.j }, ra, rb);
    static const std::string name = locale_name();
    if (locale_name() != name) return explain(c) + ": the locale of the process is " + locale_name() + " afterwards instead of " + name;
    if (ra != wa) return explain(c) + ": " + differ(OPS[c.a], ra, wa);
    if (rb != wb) return explain(c) + ": " + differ(OPS[c.b], rb, wb);
    return "";
}
static std::string check(const std::string &p)
{
    Case c; memcpy(&c, p.data(), sizeof c); std::string r; vh::info().traces = 1;
    if (c.cold) { alone(c.a, c.va, c.cap, true); alone(c.b, c.vb, c.cap, true); return in_child([&] { return run_case(c); }); }
    return run_case(c);
}
int main(int argc, char **argv)
{
    set_locale(); vh::Runner R(argc, argv); R.stall = 120;
    R.kinds = { { "schedule", check } };
    R.show = [](const std::string&, const std::string &p) { Case c; memcpy(&c, p.data(), sizeof c); return explain(c) + (c.cold ? " (fresh process)" : ""); };
    return R.explore([&](vh::Shard &S) {
        bool th = R.thorough();
        auto go = [&](Case c) { S.transition(1 + (c.i > 0) + (c.j > 0)); S.run("schedule", std::string((const char*) &c, sizeof c), false); S.state(vh::hash((const char*) &c, sizeof c)); };
        // fresh processes first: nothing ran in this one
        for (int a = 0; a < NOPS; ++a) for (int b = 0; b < NOPS; ++b) {
            if (!th && OPS[a].lib != OPS[b].lib) continue;
            bool same = a == b; if (!th && !same && (a + b) % 3) continue;
            uint32_t cap = 1; uint64_t n = alone(a, 0, cap, true).points;
            for (uint64_t i = 0; i <= n; ++i) if (S.mine()) go({ a, 0, b, 1, cap, 1, i, 0 });
        }
        S.count("schedules_in_fresh_processes", S.m->evals);
        // one preemption: at every point, every pair of operations
        for (int a = 0; a < NOPS; ++a) for (int b = 0; b < NOPS; ++b) for (int v = 0; v < 2; ++v) {
            uint32_t cap = th ? 64 : OPS[a].lib || OPS[b].lib ? 2 : 8; uint64_t n = alone(a, v, cap, false).points; if (a == b && v == 0) { std::string nm = OPS[a].name; std::replace(nm.begin(), nm.end(), ' ', '_'); S.count("points_" + nm, S.id ? 0 : n); };
            if (!th && OPS[a].lib != OPS[b].lib && v) continue;
            for (uint64_t i = 0; i <= n; ++i) if (S.mine()) go({ a, v, b, 1 - v, cap, 0, i, 0 });
        }
        // two preemptions: every pair of points (first passage of each edge)
        for (int a = 0; a < NOPS; ++a) for (int b = a; b < NOPS; ++b) {
            if (!th && (OPS[a].lib || OPS[b].lib) && (a != b || a == NOPS - 1)) continue;
            uint32_t cap = th ? 2 : 1; if (OPS[a].lib || OPS[b].lib) cap = 1;
            uint64_t n = alone(a, 0, cap, false).points, m = alone(b, 1, cap, false).points;
            uint64_t step = th || a == b ? 1 : 3;
            for (uint64_t i = 1; i <= n; i += 1) { if (!S.mine()) continue; for (uint64_t j = 1 + (i % step); j <= m; j += step) go({ a, 0, b, 1, cap, 0, i, j }); }
        }
    });
}
#else
int main(int argc, char **argv)
{
    int rounds = argc > 1 ? atoi(argv[1]) : 20; set_locale(); const std::string name = locale_name(); shared<thr::M>();
    std::string want[64][2]; std::atomic<int> bad{0};
    for (int first = 0; first < 2; ++first) {
        // the first round has no results to compare with: it is the one where everything is initialized
        for (int r = 0; r < (first ? rounds : 1); ++r) {
            std::atomic<int> ready{0}; std::vector<std::thread> t;
            for (int k = 0; k < 8; ++k) t.emplace_back([&, k] {
                ++ready; while (ready < 8) std::this_thread::yield();
                for (int o = 0; o < NOPS; ++o) { int op = first ? (o * (1 + 2 * (k & 3)) + r + k / 4) % NOPS : (o + k / 4) % NOPS; std::string s = OPS[op].fn(k & 1); if (first && s != want[op][k & 1]) { ++bad; fprintf(stderr, "DIFFERENT RESULT of %s\n", OPS[op].name); } }
            });
            for (auto &x : t) x.join();
        }
        if (!first) for (int o = 0; o < NOPS; ++o) for (int v = 0; v < 2; ++v) want[o][v] = OPS[o].fn(v);
    }
    if (locale_name() != name) { ++bad; fprintf(stderr, "DIFFERENT LOCALE: %s\n", locale_name().c_str()); }
    printf("%d operations\n", (rounds + 1) * 8 * NOPS);
    return bad ? 3 : 0;
}
#endif
