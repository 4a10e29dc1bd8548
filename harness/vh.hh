// Exploration runner shared by all the harnesses.
//
// A harness registers "kinds" of cases (a name and a deterministic function that takes the payload
// of a case, runs the real code and the oracle, and returns an empty string or what is wrong) and an
// exploration (a function that enumerates payloads).  The exploration runs in several processes; each
// case is recorded in shared memory before it is run, so crashes and hangs are attributed to the case
// that caused them.  Every failure is replayed alone in a fresh process before it is reported.
#ifndef VH_HH
#define VH_HH
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <iostream>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <csignal>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <time.h>

#if defined(__SANITIZE_ADDRESS__)
#define VH_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VH_ASAN 1
#elif __has_feature(thread_sanitizer)
#define VH_ASAN 1
#endif
#endif
#if defined(__SANITIZE_THREAD__)
#define VH_ASAN 1
#endif

namespace vh {

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double) t.tv_sec + 1e-9 * (double) t.tv_nsec; }

inline uint64_t hash(const void *data, size_t len, uint64_t h = 0x9E3779B97F4A7C15ULL)
{
    const unsigned char *p = (const unsigned char*) data;
    while (len >= 8) { uint64_t v; memcpy(&v, p, 8); h = (h ^ v) * 0xff51afd7ed558ccdULL; h ^= h >> 32; p += 8; len -= 8; }
    uint64_t v = 0; memcpy(&v, p, len);
    h = (h ^ v ^ ((uint64_t) len << 56)) * 0xc4ceb9fe1a85ec53ULL; h ^= h >> 29;
    h *= 0xff51afd7ed558ccdULL; h ^= h >> 32;
    return h ? h : 1;
}
inline uint64_t hash(const std::string &s, uint64_t h = 0x9E3779B97F4A7C15ULL) { return hash(s.data(), s.size(), h ^ s.size()); }

// set of 64-bit hashes
class HashSet {
    std::vector<uint64_t> t_; size_t n_ = 0;
    public:
    HashSet() : t_(1 << 10, 0) {}
    bool insert(uint64_t h) {
        if (!h) h = 1;
        if (n_ * 2 >= t_.size()) { std::vector<uint64_t> o(t_.size() * 2, 0); o.swap(t_); n_ = 0; for (auto v : o) if (v) insert(v); }
        size_t m = t_.size() - 1, i = (h * 0x9E3779B97F4A7C15ULL >> 20) & m;
        while (t_[i]) { if (t_[i] == h) return false; i = (i + 1) & m; }
        t_[i] = h; ++n_; return true;
    }
    size_t size() const { return n_; }
    void dump(const std::string &file) const { std::ofstream o(file, std::ios::binary); for (auto v : t_) if (v) o.write((const char*) &v, 8); }
};

inline std::string printable(const std::string &s, size_t max = 400)
{
    std::string o; char b[8];
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = (unsigned char) s[i];
        if (o.size() > max) { o += "...(" + std::to_string(s.size()) + " bytes)"; break; }
        if (c == '\\') o += "\\\\"; else if (c >= 0x20 && c < 0x7f) o += (char) c;
        else if (c == '\n') o += "\\n";
        else { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
    }
    return o;
}
inline std::string jstr(const std::string &s)
{
    std::string o = "\"", p = printable(s, 100000); for (char c : p) { if (c == '"' || c == '\\') o += '\\'; o += c; } return o + '"';
}

struct ShardMem {
    volatile uint64_t seq;         // progress
    volatile uint64_t evals, nontrivial, transitions, traces;
    volatile uint32_t kind;
    volatile uint64_t len;
    volatile int failed;
    char data[1];
};
static const size_t CASE_MAX = 8u << 20;

struct Failure { std::string kind, payload, error; bool confirmed; };

class Runner;
class Shard {
    public:
        Runner &R; int id, n; ShardMem *m;
        HashSet distinct, states;
        std::map<std::string, uint64_t> counters;
        std::vector<std::pair<std::string,std::string>> samples;
        uint64_t turn = 0, next_sample = 1, turn_samples_ = 0;
        HashSet outcomes;
        static const size_t HASH_LIMIT = 12u << 20;
        Shard(Runner &R, int id, int n, ShardMem *m) : R(R), id(id), n(n), m(m) {}
        // round-robin partition of the top levels of an enumeration
        bool mine() { return (int) (turn++ % (uint64_t) n) == id; }
        // run a case if this shard is in charge of it (by hash)
        void test(const std::string &kind, const std::string &payload) { if ((int) ((hash(payload) >> 7) % (uint64_t) n) == id) run(kind, payload); }
        // run a case
        void run(const std::string &kind, const std::string &payload, bool count_distinct = true);
        bool state(uint64_t h) { return states.insert(h); }
        void transition(uint64_t k = 1) { m->transitions += k; }
        void count(const std::string &name, uint64_t k = 1) { counters[name] += k; }
        void beat() { ++m->seq; }
        void stop();
};

struct CaseInfo { bool nontrivial = true; uint64_t traces = 0; uint64_t extra_evals = 0; std::string outcome; };
inline CaseInfo &info() { static CaseInfo i; return i; }

class Runner {
    public:
        typedef std::function<std::string(const std::string&)> Check;
        std::string tier = "quick", out = "result.json", dir = ".", replay; int shards = 8; double stall = 40; double mem_gb = 4;
        std::map<std::string, std::string> opts;
        std::vector<std::pair<std::string, Check>> kinds;
        std::function<std::string(const std::string&, const std::string&)> show; // readable form of a case
        std::string shown(const std::string &k, const std::string &p) { return show ? show(k, p) : printable(p, 2000); }

        Runner(int argc, char **argv) {
            for (int i = 1; i + 1 < argc; i += 2) {
                std::string a = argv[i], v = argv[i + 1];
                if (a == "--tier") tier = v; else if (a == "--out") out = v; else if (a == "--dir") dir = v;
                else if (a == "--replay") replay = v; else if (a == "--shards") shards = atoi(v.c_str());
                else opts[a.substr(2)] = v;
            }
        }
        bool thorough() const { return tier == "thorough"; }
        int pick(int q, int t) const { return thorough() ? t : q; }
        void kind(const std::string &name, Check c) { kinds.emplace_back(name, c); }
        uint32_t find(const std::string &name) const { for (uint32_t i = 0; i < kinds.size(); ++i) if (kinds[i].first == name) return i; fprintf(stderr, "unknown kind %s\n", name.c_str()); _exit(90); }

        void limits() {
            struct rlimit r; r.rlim_cur = r.rlim_max = 0; setrlimit(RLIMIT_CORE, &r);
#ifndef VH_ASAN
            r.rlim_cur = r.rlim_max = (rlim_t) (mem_gb * 1024 * 1024 * 1024); setrlimit(RLIMIT_AS, &r);
#endif
        }

        static std::string guarded(const Check &c, const std::string &payload) {
            try { return c(payload); }
            catch (std::exception &e) { return std::string("unexpected exception: ") + e.what(); }
            catch (...) { return "unexpected exception"; }
        }

        // Runs a single case in a fresh process. Returns an empty string if it passes.
        std::string isolated(const std::string &kname, const std::string &payload, double limit = 120) {
            fflush(stdout); fflush(stderr);
            int fd[2]; if (pipe(fd)) _exit(91);
            pid_t pid = fork();
            if (pid == 0) {
                close(fd[0]); limits();
                setpgid(0, 0);
                std::string e = guarded(kinds[find(kname)].second, payload); if (e.size() > 8000) e.resize(8000);
                size_t off = 0; while (off < e.size()) { ssize_t k = write(fd[1], e.data() + off, e.size() - off); if (k <= 0) break; off += (size_t) k; }
                _exit(e.empty() ? 0 : 1);
            }
            close(fd[1]);
            std::string text; double t0 = now(); int st = 0; bool hang = false;
            // the reader side never blocks for long: error texts are short
            while (true) {
                pid_t w = waitpid(pid, &st, WNOHANG);
                if (w == pid) break;
                if (now() - t0 > limit) { hang = true; kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
                usleep(2000);
            }
            char buf[4096]; ssize_t k; while ((k = read(fd[0], buf, sizeof buf)) > 0) text.append(buf, (size_t) k);
            close(fd[0]);
            if (hang) return "does not terminate (" + std::to_string((int) limit) + " s)";
            if (WIFSIGNALED(st)) return std::string("crash: signal ") + strsignal(WTERMSIG(st));
            if (WEXITSTATUS(st) == 0) return "";
            if (!text.empty()) return text;
            return "abnormal end: exit status " + std::to_string(WEXITSTATUS(st)) + " (sanitizer report or exit call)";
        }

        int explore(const std::function<void(Shard&)> &body) {
            setvbuf(stdout, nullptr, _IOLBF, 0);
            if (!replay.empty()) {
                std::ifstream in(replay, std::ios::binary); std::string k; std::getline(in, k);
                std::string payload((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
                std::string e = isolated(k, payload);
                printf("%s\n", e.empty() ? "OK" : ("FAIL " + e).c_str());
                return e.empty() ? 0 : 1;
            }
            double t0 = now();
            size_t sz = sizeof(ShardMem) + CASE_MAX;
            std::vector<ShardMem*> mem; std::vector<pid_t> pids; std::vector<bool> done;
            for (int i = 0; i < shards; ++i) {
                ShardMem *m = (ShardMem*) mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
                mem.push_back(m);
            }
            fflush(stdout); fflush(stderr);
            for (int i = 0; i < shards; ++i) {
                pid_t p = fork();
                if (p == 0) {
                    setpgid(0, 0); limits();
                    Shard S(*this, i, shards, mem[(size_t) i]);
                    body(S);
                    finish_shard(S);
                    fflush(stdout); fflush(stderr);
                    _exit(0);
                }
                pids.push_back(p); done.push_back(false);
            }
            std::vector<uint64_t> last((size_t) shards, 0); std::vector<double> seen((size_t) shards, now());
            std::vector<Failure> failures; bool stopping = false; size_t left = (size_t) shards; bool toolerr = false;
            while (left > 0) {
                usleep(5000);
                for (size_t i = 0; i < pids.size(); ++i) {
                    if (done[i]) continue;
                    int st; pid_t w = waitpid(pids[i], &st, WNOHANG);
                    bool hang = false;
                    if (w == 0) {
                        if (mem[i]->seq != last[i]) { last[i] = mem[i]->seq; seen[i] = now(); }
                        else if (now() - seen[i] > stall) { hang = true; kill(-pids[i], SIGKILL); kill(pids[i], SIGKILL); waitpid(pids[i], &st, 0); }
                        if (!hang) continue;
                    }
                    done[i] = true; --left;
                    if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
                    if (stopping && !hang && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) continue;
                    if (!hang && WIFEXITED(st) && WEXITSTATUS(st) >= 90 && WEXITSTATUS(st) < 98) { toolerr = true; continue; }
                    Failure f; f.confirmed = false;
                    if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 77) {
                        std::ifstream in(dir + "/shard." + std::to_string(i) + ".fail", std::ios::binary);
                        std::getline(in, f.kind); std::string n; std::getline(in, n); size_t el = (size_t) atol(n.c_str());
                        f.error.resize(el); in.read(&f.error[0], (std::streamsize) el);
                        f.payload.assign((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
                    } else {
                        f.kind = mem[i]->kind < kinds.size() ? kinds[mem[i]->kind].first : "?";
                        f.payload.assign(mem[i]->data, std::min((size_t) mem[i]->len, CASE_MAX));
                        f.error = hang ? "no progress (hang)" : WIFSIGNALED(st) ? std::string("crash: signal ") + strsignal(WTERMSIG(st)) : "abnormal end: exit status " + std::to_string(WEXITSTATUS(st)) + " (sanitizer report or exit call)";
                        if (mem[i]->seq == 0) { fprintf(stderr, "shard %zu ended before its first case: %s\n", i, f.error.c_str()); toolerr = true; continue; }
                    }
                    failures.push_back(f);
                    if (!stopping) { stopping = true; for (size_t j = 0; j < pids.size(); ++j) if (!done[j]) { kill(-pids[j], SIGKILL); kill(pids[j], SIGKILL); } }
                }
            }
            for (auto &f : failures) {
                std::string e = isolated(f.kind, f.payload);
                if (!e.empty()) { f.confirmed = true; f.error = e; }
            }
            std::sort(failures.begin(), failures.end(), [](const Failure &a, const Failure &b) { return a.confirmed != b.confirmed ? a.confirmed : a.payload.size() < b.payload.size(); });
            // merge
            uint64_t evals = 0, transitions = 0, traces = 0, nontrivial = 0; std::map<std::string, uint64_t> counters; std::vector<std::string> samples;
            for (auto m : mem) { evals += m->evals; transitions += m->transitions; traces += m->traces; nontrivial += m->nontrivial; }
            for (int i = 0; i < shards; ++i) {
                std::ifstream in(dir + "/shard." + std::to_string(i) + ".meta"); std::string line;
                while (std::getline(in, line)) {
                    if (line[0] == 'c') { std::istringstream s(line.substr(1)); s.imbue(std::locale::classic()); uint64_t v; std::string k; s >> v >> k; counters[k] += v; }
                    else if (line[0] == 's') samples.push_back(line.substr(1));
                }
            }
            std::ofstream o(out); o.imbue(std::locale::classic());
            o << "{\"evaluations\":" << evals << ",\"nontrivial_evaluations\":" << nontrivial << ",\"distinct\":" << merged("distinct") << ",\"states\":" << merged("states") << ",\"outcomes\":" << merged("outcomes")
              << ",\"transitions\":" << transitions << ",\"traces\":" << traces << ",\"wall_s\":" << (now() - t0) << ",\"tool_error\":" << (toolerr ? "true" : "false") << ",\"counters\":{";
            bool first = true; for (auto &c : counters) { o << (first ? "" : ",") << jstr(c.first) << ":" << c.second; first = false; }
            o << "},\"samples\":["; first = true;
            size_t step = samples.size() > 12 ? samples.size() / 12 : 1;
            for (size_t i = 0; i < samples.size(); i += step) { o << (first ? "" : ",") << samples[i]; first = false; }
            o << "],\"failures\":["; first = true; int k = 0;
            for (auto &f : failures) {
                std::string file = dir + "/fail." + std::to_string(k++);
                std::ofstream fo(file, std::ios::binary); fo << f.kind << '\n' << f.payload;
                o << (first ? "" : ",") << "{\"kind\":" << jstr(f.kind) << ",\"file\":" << jstr(file) << ",\"confirmed\":" << (f.confirmed ? "true" : "false") << ",\"error\":" << jstr(f.error) << ",\"payload\":" << jstr(shown(f.kind, f.payload)) << "}"; first = false;
            }
            o << "]}\n";
            if (toolerr && failures.empty()) return 2;
            return failures.empty() ? 0 : 1;
        }
        uint64_t merged(const char *what) {
            std::vector<uint64_t> all;
            for (int i = 0; i < shards; ++i) {
                std::string fn = dir + "/shard." + std::to_string(i) + "." + what;
                std::ifstream in(fn, std::ios::binary | std::ios::ate); if (!in.good()) continue;
                size_t n = (size_t) in.tellg() / 8; in.seekg(0); size_t b = all.size(); all.resize(b + n);
                in.read((char*) (all.data() + b), (std::streamsize) (n * 8)); in.close(); unlink(fn.c_str());
            }
            std::sort(all.begin(), all.end());
            return (uint64_t) (std::unique(all.begin(), all.end()) - all.begin());
        }
        void finish_shard(Shard &S) {
            std::string base = dir + "/shard." + std::to_string(S.id) + ".";
            S.distinct.dump(base + "distinct"); S.states.dump(base + "states"); S.outcomes.dump(base + "outcomes");
            std::ofstream o(base + "meta"); o.imbue(std::locale::classic());
            for (auto &c : S.counters) o << "c " << c.second << ' ' << c.first << '\n';
            for (auto &s : S.samples) o << "s{\"kind\":" << jstr(s.first) << ",\"case\":" << jstr(shown(s.first, s.second).substr(0, 400)) << "}\n";
        }
};

inline void Shard::run(const std::string &kind, const std::string &payload, bool count_distinct)
{
    uint32_t k = R.find(kind);
    m->kind = k; size_t len = std::min(payload.size(), CASE_MAX);
    memcpy(m->data, payload.data(), len); m->len = len;
    ++m->seq;
    CaseInfo &ci = info(); ci = CaseInfo();
    std::string e = Runner::guarded(R.kinds[k].second, payload);
    m->evals += 1 + ci.extra_evals; m->traces += ci.traces;
    counters["cases_" + kind]++;
    if (ci.nontrivial) {
        m->nontrivial += 1;
        if (count_distinct && distinct.size() < HASH_LIMIT) distinct.insert(hash(payload, hash(kind)));
    }
    if (!ci.outcome.empty()) outcomes.insert(hash(ci.outcome));
    if (++turn_samples_ == next_sample && samples.size() < 12) { samples.emplace_back(kind, payload); next_sample = next_sample * 7 + 3; }
    if (!e.empty()) {
        std::ofstream o(R.dir + "/shard." + std::to_string(id) + ".fail", std::ios::binary); o.imbue(std::locale::classic());
        o << kind << '\n' << e.size() << '\n' << e << payload; o.close();
        fflush(stdout); fflush(stderr);
        _exit(77);
    }
}

} // namespace vh
#endif
