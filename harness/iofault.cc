// C17: the protogen command under system-call faults. Every system call of the command on its input and output is
// a point where a fault can be injected (ptrace); plans of faults are enumerated depth-first over the calls that
// really occur, so the exploration follows whatever the command does.
#include "vh.hh"
#include <sys/ptrace.h>
#include <sys/user.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <fcntl.h>
#include <errno.h>
#include <limits.h>

static std::string g_exe, g_root;
static std::string slurp(const std::string &f) { std::ifstream i(f, std::ios::binary); return std::string((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); }
static void spit(const std::string &f, const std::string &s) { std::ofstream o(f, std::ios::binary); o << s; o.close(); }

// ---------------------------------------------------------------- scenarios
struct Scn { std::string name, schema; int out; /* 0 stdout, 1 new file, 2 longer old file, 3 same file as the schema, 4 missing directory, 5 symbolic link, 6 a directory */ bool valid, exists; };
static const std::string GOOD = "syntax = \"proto3\";\npackage p;\noption cpp_use_lists = true;\nmessage A { int32 x = 1; }\nmessage B { repeated A y = 1; string z = 2; }\n";
static std::vector<Scn> scenarios()
{
    std::string big = "syntax = \"proto3\";\n";
    for (int i = 0; i < 40; ++i) big += "// " + std::string(200, (char) ('a' + i % 26)) + "\nmessage M" + std::to_string(i) + " { int32 a = 1; string " + std::string(180, 'b') + std::to_string(i) + " = 2; }\n";
    std::string bad = "syntax = \"proto3\";\nmessage A {\n  int32 x = 1;\n  int32 x = 2 2;\n}\n", cyc = "syntax = \"proto3\";\nmessage A { B b = 1; }\nmessage B { A a = 1; }\n";
    return { { "file", GOOD, 1, true, true }, { "stdout", GOOD, 0, true, true }, { "oldfile", GOOD, 2, true, true }, { "big", big, 1, true, true }, { "bigstdout", big, 0, true, true },
             { "bad", bad, 1, false, true }, { "badstdout", bad, 0, false, true }, { "cycle", cyc, 2, false, true }, { "same", GOOD, 3, true, true }, { "missing", GOOD, 1, false, false },
             { "nodir", GOOD, 4, false, true }, { "link", GOOD, 5, true, true }, { "outdir", GOOD, 6, false, true } };
}
static const Scn &scn(size_t i) { static auto s = scenarios(); return s[i]; }

// ---------------------------------------------------------------- faults
enum Act { NONE, ERR, SHORT };
struct Fault { uint32_t at; uint32_t act; uint32_t arg; };  // ERR: errno; SHORT: number of bytes
typedef std::vector<Fault> Plan;
struct Point { long nr; int role; uint64_t size; };         // role: 1 input, 2 output, 3 paths, 4 stderr
struct Result { int status = 0; bool timeout = false; std::vector<Point> points; std::string err, out; bool hard = false; };

static bool peek(pid_t p, uint64_t a, void *d, size_t n) { iovec l{d, n}, r{(void*) a, n}; return process_vm_readv(p, &l, 1, &r, 1, 0) == (ssize_t) n; }
static bool poke(pid_t p, uint64_t a, const void *d, size_t n) { iovec l{(void*) d, n}, r{(void*) a, n}; return process_vm_writev(p, &l, 1, &r, 1, 0) == (ssize_t) n; }
static std::string pstr(pid_t p, uint64_t a) { std::string s; char c; while (s.size() < 4096 && peek(p, a++, &c, 1) && c) s += c; return s; }

struct World {
    std::string dir; 
    World() { char b[4096]; snprintf(b, sizeof b, "%s/w.%d", g_root.c_str(), (int) getpid()); dir = b; mkdir(b, 0755); }
    std::string in() const { return dir + "/in.proto"; }
    std::string outarg(const Scn &s) const { return s.out == 0 ? "" : s.out == 3 ? in() : s.out == 4 ? dir + "/none/o.hh" : s.out == 5 ? dir + "/link.hh" : s.out == 6 ? dir + "/d" : dir + "/o.hh"; }
    std::string outfile(const Scn &s) const { return s.out == 0 ? dir + "/stdout" : s.out == 5 ? dir + "/target.hh" : outarg(s); }
    void prepare(const Scn &s) const {
        for (auto n : { "in.proto", "o.hh", "stdout", "stderr", "link.hh", "target.hh" }) unlink((dir + "/" + n).c_str());
        if (s.exists) spit(in(), s.schema);
        if (s.out == 2) spit(dir + "/o.hh", std::string(200000, '#'));
        if (s.out == 5 && symlink("target.hh", (dir + "/link.hh").c_str())) _exit(92);
        if (s.out == 6) mkdir((dir + "/d").c_str(), 0755);
        spit(dir + "/stdout", ""); spit(dir + "/stderr", "");
    }
    void exec(const Scn &s, int outfd = -1, long fsize = -1) const {
        int n = open("/dev/null", O_RDONLY), o = outfd >= 0 ? outfd : open((dir + "/stdout").c_str(), O_WRONLY | O_APPEND), e = open((dir + "/stderr").c_str(), O_WRONLY | O_APPEND);
        if (fsize >= 0 && outfd < 0) { close(e); int p = e = open((dir + "/stderr").c_str(), O_WRONLY); (void) p; }
        dup2(n, 0); dup2(o, 1); dup2(e, 2); for (int i = 3; i < 100; ++i) close(i);
        signal(SIGXFSZ, SIG_IGN); signal(SIGPIPE, SIG_IGN);
        if (fsize >= 0) { rlimit r{(rlim_t) fsize, (rlim_t) fsize}; setrlimit(RLIMIT_FSIZE, &r); }
        std::string a = in(), b = outarg(s);
        if (s.out) execl(g_exe.c_str(), "protogen", a.c_str(), b.c_str(), (char*) nullptr); else execl(g_exe.c_str(), "protogen", a.c_str(), (char*) nullptr);
        _exit(127);
    }
};
static World &world() { static World w; return w; }

static Result run(const Scn &s, const Plan &plan)
{
    World &w = world(); w.prepare(s); Result r;
    pid_t pid = fork();
    if (pid == 0) { ptrace(PTRACE_TRACEME, 0, 0, 0); w.exec(s); }
    int st;
    if (waitpid(pid, &st, 0) != pid || !WIFSTOPPED(st)) { fprintf(stderr, "ptrace does not work here\n"); _exit(93); }
    if (ptrace(PTRACE_SETOPTIONS, pid, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL)) { fprintf(stderr, "ptrace does not work here\n"); _exit(93); }
    std::map<int, int> role; std::map<int, bool> writable; role[2] = 4; if (!s.out) { role[1] = 2; writable[1] = true; }
    bool entry = true; int pending_open = 0; bool pending_w = false; const Fault *f = nullptr; long nr = 0; int fd = -1, frole = 0; uint64_t iov_at = 0; std::vector<iovec> iov;
    double t0 = vh::now(); bool forced = false; long force_value = 0; long sig = 0; uint64_t calls = 0;
    while (true) {
        ptrace(PTRACE_SYSCALL, pid, 0, sig); sig = 0;
        if (waitpid(pid, &st, 0) != pid) _exit(93);
        if (WIFEXITED(st) || WIFSIGNALED(st)) { r.status = st; break; }
        if (++calls > 200000 || vh::now() - t0 > 20) { kill(pid, SIGKILL); waitpid(pid, &st, 0); r.timeout = true; break; }
        if (WSTOPSIG(st) != (SIGTRAP | 0x80)) { sig = WSTOPSIG(st) == SIGTRAP ? 0 : WSTOPSIG(st); continue; }
        user_regs_struct u; ptrace(PTRACE_GETREGS, pid, 0, &u);
        if (entry) {
            entry = false; f = nullptr; nr = (long) u.orig_rax; fd = -1; frole = 0; pending_open = 0; forced = false; iov_at = 0;
            uint64_t size = 0; bool point = false;
            switch (nr) {
                case SYS_open: case SYS_creat: case SYS_openat: {
                    std::string p = pstr(pid, nr == SYS_openat ? u.rsi : u.rdi); int fl = (int) (nr == SYS_openat ? u.rdx : nr == SYS_open ? u.rsi : O_WRONLY);
                    if (p.compare(0, w.dir.size(), w.dir) != 0 && !p.empty() && p[0] == '/') break;
                    pending_w = (fl & O_ACCMODE) != O_RDONLY; pending_open = p == w.in() && !pending_w ? 1 : 2; frole = pending_open; point = true; break; }
                case SYS_readlink: case SYS_rename: case SYS_unlink: case SYS_stat: case SYS_lstat: case SYS_access: case SYS_chmod: case SYS_truncate: {
                    if (pstr(pid, u.rdi).compare(0, w.dir.size(), w.dir) == 0) { point = true; frole = 3; } break; }
                case SYS_readlinkat: case SYS_renameat: case SYS_renameat2: case SYS_unlinkat: case SYS_faccessat: case SYS_statx: {
                    if (pstr(pid, u.rsi).compare(0, w.dir.size(), w.dir) == 0) { point = true; frole = 3; } break; }
                case SYS_read: case SYS_pread64: case SYS_write: case SYS_pwrite64: fd = (int) u.rdi; size = u.rdx; break;
                case SYS_readv: case SYS_writev: case SYS_pwritev: case SYS_preadv: {
                    fd = (int) u.rdi; iov.resize((size_t) u.rdx); if (u.rdx > 1024 || !peek(pid, u.rsi, iov.data(), iov.size() * sizeof(iovec))) iov.clear();
                    for (auto &v : iov) size += v.iov_len; iov_at = u.rsi; break; }
                case SYS_close: case SYS_fsync: case SYS_fdatasync: case SYS_ftruncate: case SYS_lseek: case SYS_fstat: case SYS_dup: case SYS_dup2: case SYS_dup3: case SYS_fallocate: fd = (int) u.rdi; break;
                case SYS_newfstatat: { std::string p = pstr(pid, u.rsi); if (p.empty()) fd = (int) u.rdi; else if (p.compare(0, w.dir.size(), w.dir) == 0) { point = true; frole = 3; } break; }
                case SYS_mmap: fd = (int) u.r8; break;
                case SYS_copy_file_range: fd = (int) u.rdx; break;
                case SYS_sendfile: case SYS_splice: fd = (int) u.rdi; break;
            }
            if (fd >= 0 && role.count(fd)) { point = true; frole = role[fd]; }
            if (point) {
                uint32_t k = (uint32_t) r.points.size(); r.points.push_back({ nr, frole, size });
                for (auto &x : plan) if (x.at == k) f = &x;
                if (f && f->act == ERR) {
                    forced = true; force_value = -(long) f->arg;
                    if ((frole == 2) && (nr == SYS_write || nr == SYS_close || nr == SYS_writev || nr == SYS_pwrite64 || nr == SYS_fsync) && writable[fd] && f->arg != EINTR && f->arg != EAGAIN) r.hard = r.hard || nr == SYS_close || nr == SYS_fsync;
                    if (nr != SYS_close) { u.orig_rax = (unsigned long long) -1; ptrace(PTRACE_SETREGS, pid, 0, &u); }
                } else if (f && f->act == SHORT && size > f->arg) {
                    if (iov_at) { uint64_t left = f->arg; auto v = iov; for (auto &x : v) { x.iov_len = std::min<uint64_t>(x.iov_len, left); left -= x.iov_len; } poke(pid, iov_at, v.data(), v.size() * sizeof(iovec)); }
                    else { u.rdx = f->arg; ptrace(PTRACE_SETREGS, pid, 0, &u); }
                } else f = nullptr;
            }
        } else {
            entry = true;
            if (forced) { if (nr == SYS_close) role.erase(fd); u.rax = (unsigned long long) force_value; ptrace(PTRACE_SETREGS, pid, 0, &u); continue; }
            if (f && f->act == SHORT && iov_at) poke(pid, iov_at, iov.data(), iov.size() * sizeof(iovec));
            long ret = (long) u.rax;
            if (pending_open && ret >= 0) { role[(int) ret] = pending_open; writable[(int) ret] = pending_w; }
            if (nr == SYS_close && fd >= 0) role.erase(fd);
            if ((nr == SYS_dup || nr == SYS_dup2 || nr == SYS_dup3) && ret >= 0 && role.count(fd)) { role[(int) ret] = role[fd]; writable[(int) ret] = writable[fd]; }
        }
    }
    r.err = slurp(w.dir + "/stderr"); r.out = s.out == 6 || s.out == 4 ? "" : slurp(w.outfile(s));
    return r;
}

static const std::string &expected(size_t i)
{
    static std::map<size_t, std::string> cache;
    auto it = cache.find(i); if (it != cache.end()) return it->second;
    if (!scn(i).valid) return cache[i] = "";
    Result r = run(scn(i), {});
    return cache[i] = WIFEXITED(r.status) && WEXITSTATUS(r.status) == 0 ? r.out : "";
}
static std::string judge(size_t i, const Result &r, bool stderr_faulted)
{
    if (r.timeout) return "the command does not end";
    if (WIFSIGNALED(r.status)) return std::string("the command is killed by a signal: ") + strsignal(WTERMSIG(r.status));
    int c = WEXITSTATUS(r.status);
    if (c == 127) return "the command cannot be run";
    if (c == 0) {
        if (!scn(i).valid) return "success is reported: " + vh::printable(r.err);
        if (r.out != expected(i)) return "success is reported, but the header has " + std::to_string(r.out.size()) + " of its " + std::to_string(expected(i).size()) + " bytes, or other ones";
        if (r.hard) return "success is reported although closing the output failed";
        return "";
    }
    if (r.err.empty() && !stderr_faulted) return "status " + std::to_string(c) + " without a diagnostic";
    return "";
}
static std::string check_fault(const std::string &p)
{
    uint32_t i; memcpy(&i, p.data(), 4); Plan plan((p.size() - 4) / sizeof(Fault)); memcpy(plan.data(), p.data() + 4, plan.size() * sizeof(Fault));
    expected(i);
    Result r = run(scn(i), plan);
    bool se = false; for (auto &f : plan) if (f.at < r.points.size() && r.points[f.at].role == 4) se = true;
    vh::info().nontrivial = !plan.empty(); vh::info().outcome = std::to_string(r.status) + r.err;
    if (plan.empty()) {
        if (scn(i).valid && (!WIFEXITED(r.status) || WEXITSTATUS(r.status))) return "the command fails without a fault: " + vh::printable(r.err);
        if (!scn(i).valid && (!WIFEXITED(r.status) || !WEXITSTATUS(r.status))) return "the command succeeds where it cannot";
        if (scn(i).valid && r.out.find("#endif") == std::string::npos) return "no header";
    }
    return judge(i, r, se);
}
// no space after a number of bytes
static std::string check_space(const std::string &p)
{
    uint32_t i; int64_t n; memcpy(&i, p.data(), 4); memcpy(&n, p.data() + 4, 8);
    const std::string &want = expected(i); (void) want;
    World &w = world(); w.prepare(scn(i));
    // the diagnostics go to a pipe, which has no limit
    int e[2]; if (pipe(e)) _exit(92);
    pid_t pid = fork();
    if (pid == 0) {
        int nul = open("/dev/null", O_RDONLY), o = open((w.dir + "/stdout").c_str(), O_WRONLY | O_APPEND); dup2(nul, 0); dup2(o, 1); dup2(e[1], 2); for (int k = 3; k < 100; ++k) close(k);
        signal(SIGXFSZ, SIG_IGN); rlimit r{(rlim_t) n, (rlim_t) n}; setrlimit(RLIMIT_FSIZE, &r);
        std::string a = w.in(), b = w.outarg(scn(i));
        if (scn(i).out) execl(g_exe.c_str(), "protogen", a.c_str(), b.c_str(), (char*) nullptr); else execl(g_exe.c_str(), "protogen", a.c_str(), (char*) nullptr);
        _exit(127);
    }
    close(e[1]); Result r; char b[4096]; ssize_t k; while ((k = read(e[0], b, sizeof b)) > 0) r.err.append(b, (size_t) k); close(e[0]);
    waitpid(pid, &r.status, 0); r.out = slurp(w.outfile(scn(i)));
    if (n >= (int64_t) want.size() && (!WIFEXITED(r.status) || WEXITSTATUS(r.status))) return "fails with enough space: " + vh::printable(r.err);
    return judge(i, r, false);
}
// standard output is a pipe whose reader leaves after some bytes
static std::string check_pipe(const std::string &p)
{
    uint32_t i; int64_t n; memcpy(&i, p.data(), 4); memcpy(&n, p.data() + 4, 8);
    const std::string &want = expected(i);
    World &w = world(); w.prepare(scn(i));
    int o[2]; if (pipe(o)) _exit(92); 
    fcntl(o[1], F_SETPIPE_SZ, 4096); long cap = fcntl(o[1], F_GETPIPE_SZ);
    pid_t pid = fork();
    if (pid == 0) { close(o[0]); w.exec(scn(i), o[1]); }
    close(o[1]); Result r; char b[1024];
    while (n < 0 || (int64_t) r.out.size() < n) { ssize_t k = read(o[0], b, n < 0 ? sizeof b : std::min<size_t>(sizeof b, (size_t) n - r.out.size())); if (k <= 0) break; r.out.append(b, (size_t) k); }
    close(o[0]); waitpid(pid, &r.status, 0); r.err = slurp(w.dir + "/stderr");
    if (n < 0) { if (!WIFEXITED(r.status) || WEXITSTATUS(r.status) || r.out != want) return "a pipe does not receive the header"; return ""; }
    if (WIFEXITED(r.status) && !WEXITSTATUS(r.status)) { if (n + cap < (int64_t) want.size()) return "success is reported after the reader has left"; return want.compare(0, r.out.size(), r.out) == 0 ? "" : "other bytes"; }
    return judge(i, r, false);
}
// the whole device is full, or standard output is closed
static std::string check_dev(const std::string &p)
{
    uint32_t i; memcpy(&i, p.data(), 4); int how = p[4]; expected(i);
    World &w = world(); w.prepare(scn(i));
    pid_t pid = fork();
    if (pid == 0) {
        int o = how == 0 ? open("/dev/full", O_WRONLY) : how == 1 ? open("/dev/null", O_RDONLY) : -1;
        int e = open((w.dir + "/stderr").c_str(), O_WRONLY), n = open("/dev/null", O_RDONLY);
        if (o >= 0) dup2(o, 1); else close(1);
        dup2(n, 0); dup2(e, 2); for (int k = 3; k < 100; ++k) close(k);
        std::string a = w.in();
        if (how == 3) { int x = open("/dev/null", O_WRONLY); if (x != 1) dup2(x, 1); execl(g_exe.c_str(), "protogen", a.c_str(), "/dev/full", (char*) nullptr); }
        execl(g_exe.c_str(), "protogen", a.c_str(), (char*) nullptr); _exit(127);
    }
    Result r; waitpid(pid, &r.status, 0); r.err = slurp(w.dir + "/stderr");
    if (WIFEXITED(r.status) && WEXITSTATUS(r.status) == 0) return "success is reported, nothing can have been written";
    return judge(i, r, how == 2);
}

static std::string call_name(long nr)
{
    static const std::map<long, std::string> n = { { SYS_read, "read" }, { SYS_write, "write" }, { SYS_writev, "writev" }, { SYS_openat, "openat" }, { SYS_close, "close" }, { SYS_lseek, "lseek" }, { SYS_readlink, "readlink" }, { SYS_fstat, "fstat" }, { SYS_newfstatat, "fstatat" } };
    auto it = n.find(nr); return it == n.end() ? "call" + std::to_string(nr) : it->second;
}
static std::vector<Fault> actions(uint32_t at, const Point &p, bool all)
{
    std::vector<Fault> v;
    auto err = [&](std::initializer_list<int> e) { for (int x : e) { v.push_back({ at, ERR, (uint32_t) x }); if (!all) break; } };
    auto cut = [&](std::initializer_list<uint64_t> n) { for (auto x : n) if (x > 0 && x < p.size) { v.push_back({ at, SHORT, (uint32_t) x }); } };
    switch (p.nr) {
        case SYS_open: case SYS_openat: case SYS_creat: err({ EACCES, EMFILE, EIO, ENOSPC, EINTR, EROFS, ENOENT, EISDIR }); break;
        case SYS_read: case SYS_pread64: case SYS_readv: err({ EIO, EISDIR, EINTR, EAGAIN, EBADF }); if (p.role == 1) cut({ 1, 57, p.size / 2 }); break;
        case SYS_write: case SYS_pwrite64: case SYS_writev: case SYS_pwritev: err({ ENOSPC, EIO, EINTR, EFBIG, EPIPE, EAGAIN, EDQUOT, EBADF }); cut({ 1, p.size / 2, p.size - 1 }); break;
        case SYS_close: err({ EIO, ENOSPC, EINTR, EDQUOT }); break;
        case SYS_fsync: case SYS_fdatasync: err({ EIO, ENOSPC }); break;
        case SYS_readlink: case SYS_readlinkat: err({ EACCES, EIO, ENOENT, ELOOP, ENAMETOOLONG }); break;
        default: err({ EIO, EACCES, ENOSPC }); break;
    }
    return v;
}
int main(int argc, char **argv)
{
    vh::Runner R(argc, argv);
    g_exe = R.opts["exe"]; g_root = R.opts["root"];
    R.stall = 120;
    R.kinds = { { "fault", check_fault }, { "space", check_space }, { "pipe", check_pipe }, { "dev", check_dev } };
    R.show = [](const std::string &k, const std::string &p) {
        uint32_t i; memcpy(&i, p.data(), 4); std::string s = scn(i).name + ":";
        if (k == "fault") { Plan plan((p.size() - 4) / sizeof(Fault)); memcpy(plan.data(), p.data() + 4, plan.size() * sizeof(Fault)); for (auto &f : plan) s += " point " + std::to_string(f.at) + (f.act == ERR ? std::string(" fails: ") + strerror((int) f.arg) : " is cut at " + std::to_string(f.arg)); }
        else if (k == "dev") s += " device " + std::to_string((int) p[4]); else { int64_t n; memcpy(&n, p.data() + 4, 8); s += " " + std::to_string(n) + " bytes"; }
        return s;
    };
    auto key = [](size_t i) { uint32_t v = (uint32_t) i; return std::string((const char*) &v, 4); };
    auto num = [](int64_t n) { return std::string((const char*) &n, 8); };
    return R.explore([&](vh::Shard &S) {
        size_t N = scenarios().size(); bool th = R.thorough();
        for (size_t i = 0; i < N; ++i) {
            // every plan up to two faults (three in the thorough tier), following the calls of the faulty runs
            std::function<void(const Plan&)> dfs = [&](const Plan &plan) {
                auto enc = [&](const Plan &p) { return key(i) + std::string((const char*) p.data(), p.size() * sizeof(Fault)); };
                if (plan.size() >= 1 || S.id == 0) S.run("fault", enc(plan));
                bool core = i == 0 || i == 1 || i == 5 || i == 8;
                size_t depth = (th ? 2 : 1) + core;
                if (plan.size() == depth) return;
                Result r = run(scn(i), plan);
                S.transition(r.points.size());
                uint32_t from = plan.empty() ? 0 : plan.back().at + 1;
                for (uint32_t k = from; k < r.points.size(); ++k) {
                    S.state(vh::hash(enc(plan) + std::string((const char*) &k, 4)));
                    S.count("points_" + call_name(r.points[k].nr) + (r.points[k].role == 1 ? "_input" : r.points[k].role == 2 ? "_output" : r.points[k].role == 3 ? "_path" : "_stderr"));
                    // the deepest level is narrower: one error and the cuts
                    for (auto &f : actions(k, r.points[k], plan.size() + 1 < depth || th)) { if (plan.empty() && !S.mine()) continue; Plan q = plan; q.push_back(f); dfs(q); }
                }
            };
            dfs({});
            // the input stops at every byte
            if (scn(i).valid && scn(i).exists && scn(i).schema.size() < 1000) {
                Result r = run(scn(i), {});
                for (uint32_t k = 0; k < r.points.size(); ++k) if (r.points[k].role == 1 && (r.points[k].nr == SYS_read || r.points[k].nr == SYS_readv || r.points[k].nr == SYS_pread64)) {
                    for (uint32_t c = 1; c < scn(i).schema.size() + 1; ++c) for (int e : { EIO, EBADF }) { if (!S.mine()) continue; Plan q = { { k, SHORT, c }, { k + 1, ERR, (uint32_t) e } }; S.run("fault", key(i) + std::string((const char*) q.data(), q.size() * sizeof(Fault))); }
                    break;
                }
            }
            // the output stops at every byte
            if (scn(i).valid) {
                int64_t n = (int64_t) expected(i).size();
                int64_t step = th ? 1 : i == 0 ? 3 : 127;
                if (scn(i).schema.size() > 1000) step *= 41;
                for (int64_t k = 0; k < n + 3; k += (k % 4096 < 3 || k % 4096 > 4092 || k > n - 20) ? 1 : step) if (S.mine()) { if (scn(i).out == 3 && k < (int64_t) scn(i).schema.size()) continue; S.run("space", key(i) + num(k)); }
                if (scn(i).out == 0) { if (S.mine()) S.run("pipe", key(i) + num(-1)); for (int64_t k = 0; k < n; k += th ? 13 : 211) if (S.mine()) S.run("pipe", key(i) + num(k)); }
            }
            for (int h = 0; h < 4; ++h) if (scn(i).out == 0 && S.mine()) S.run("dev", key(i) + std::string(1, (char) h));
        }
    });
}
