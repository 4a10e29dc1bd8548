// C24: operations of generated messages whose memory runs out or whose stream throws, at every point.
#include "faults.hh"
#include "vh.hh"
#include "values.hh"
#include SCHEMA_INC
#include "bridge.hh"
#include "docset.hh"
#include <list>
using namespace ref;
typedef PG::Parameters Par;

class MyIn : public PG::istream { // throws at the k-th call
    const std::string &s; size_t i = 0; int l = 1, c = 1; mutable long calls = 0; long at;
    void step() const { if (++calls == at) throw mem::Marker(); }
    public: MyIn(const std::string &s, long at) : s(s), at(at) {} long used() const { return calls; }
    int peek() override { step(); return i < s.size() ? s[i] : 0; } void next() override { step(); if (i >= s.size()) return; if (s[i] == '\n') { ++l; c = 1; } else ++c; ++i; }
    bool eof() const override { step(); return i >= s.size(); } int line() const override { return l; } int column() const override { return c; }
};
class MyOut : public PG::ostream {
    long calls = 0, at; void step() { if (++calls == at) throw mem::Marker(); }
    public: std::string o; MyOut(long at) : at(at) {} long used() const { return calls; }
    MyOut &operator<<(const std::string &v) override { step(); o += v; return *this; } MyOut &operator<<(const char *v) override { step(); o += v; return *this; } MyOut &operator<<(char *v) override { step(); o += v; return *this; } MyOut &operator<<(char v) override { step(); o += v; return *this; }
};
class InBuf : public std::streambuf { const std::string &s; size_t i = 0; long calls = 0, at; char c; public: InBuf(const std::string &s, long at) : s(s), at(at) {} long used() const { return calls; }
    int_type underflow() override { if (gptr() < egptr()) return traits_type::to_int_type(*gptr()); if (++calls == at) throw mem::Marker(); if (i >= s.size()) return traits_type::eof(); c = s[i++]; setg(&c, &c, &c + 1); return traits_type::to_int_type(c); } };
class OutBuf : public std::streambuf { long calls = 0, at; public: std::string o; OutBuf(long at) : at(at) {} long used() const { return calls; }
    int_type overflow(int_type x) override { if (++calls == at) throw mem::Marker(); o += (char) x; return x; } std::streamsize xsputn(const char *p, std::streamsize n) override { if (++calls == at) throw mem::Marker(); o.append(p, (size_t) n); return n; } };

// the k-th fault of an experiment; k = 0: none
struct Fault { long mem = 0; bool persist = false; long stream = 0; bool mask = false; };
struct Report { std::string problem, result; long mem = 0, stream = 0; bool fired = false; };

template<typename M> static std::string usable(M &o)
{
    // whatever it holds, it is an object: it can be copied, compared, written, cleared and used again
    { M c(o); if (!(c == o) || c != o) return "the object is not equal to its copy"; std::string t; o.serialize(t); }
    M fresh; o.clear(); if (!(o == fresh) || !o.empty()) return "the cleared object differs from a new one";
    if (!o.deserialize(std::string("{}")) || !o.empty()) return "the object cannot be used again";
    return "";
}
template<typename M> static std::string value_text(const M &o) { return dump(desc_of((const M*) nullptr), br::value_of(o)); }

// reading: payload = message, overload, document
template<typename M> static void read_one(int how, const std::string &doc, const Fault &f, Report &r)
{
    bool used = how & 8, params = !(how & 16); how &= 7;
    M o; if (used) br::set(o, vals::rep_msg(desc_of((const M*) nullptr), 1));
    Par q; q.ensure_ascii = true; q.serialize_null = true; Par *p = params ? &q : nullptr; std::vector<char> v(doc.begin(), doc.end());
    MyIn in(doc, f.stream); InBuf buf(doc, f.stream); std::istream is(&buf); if (f.mask) is.exceptions(std::ios::badbit); is.setf(std::ios::hex, std::ios::basefield); Format<std::istream> fmt(is); Surroundings s;
    bool verdict = false;
    Outcome x = attempt([&] { switch (how) { case 0: return verdict = o.deserialize(doc, p); case 1: return verdict = o.deserialize(doc.data(), doc.size(), p); case 2: return verdict = o.deserialize(v, p); case 3: return verdict = o.deserialize((PG::istream&) in, p); default: return verdict = o.deserialize(is, p); } }, f.mem, f.persist);
    r.mem = mem::count; r.stream = how == 3 ? in.used() : how == 4 ? buf.used() : 0; r.fired = mem::fired || (f.stream && x == MARKER) || (how == 4 && f.stream && is.bad());
    if (!(r.problem = s.changed()).empty()) return;
    if (!(r.problem = fmt.changed(is)).empty()) return;
    if (x == OTHER) { r.problem = "an exception other than the original one"; return; }
    if (!r.fired && x != YES && x != NO) { r.problem = "an exception without a cause"; return; }
    if (!q.ensure_ascii || !q.serialize_null) { r.problem = "the settings of the parameters are changed"; return; }
    if (params && (x == YES ? q.error.code != PG::PGERR_OK : x == NO && q.error.code == PG::PGERR_OK)) { r.problem = "verdict and error code do not agree"; return; }
    r.result = x == YES ? "1 " + value_text(o) : x == NO ? "0" : "";
    if (std::string(v.begin(), v.end()) != doc) { r.problem = "the input is changed"; return; }
    r.problem = usable(o);
}
// writing
template<typename M> static void write_one(int how, const Val &v, const Fault &f, Report &r)
{
    bool ascii = how & 8, params = !(how & 16), nulls = how & 32; how &= 7;
    M o; br::set(o, v); Par q; q.ensure_ascii = ascii; q.serialize_null = nulls; Par *p = params ? &q : nullptr;
    std::string a("x"); std::vector<char> b; b.reserve(1); std::vector<char> area(100000); MyOut out(f.stream); OutBuf buf(f.stream); std::ostream os(&buf); if (f.mask) os.exceptions(std::ios::badbit); os.setf(std::ios::hex, std::ios::basefield); os.fill('#'); Format<std::ostream> fmt(os); Surroundings s;
    Outcome x = attempt([&] { switch (how) { case 0: return o.serialize(a, p); case 1: return o.serialize(b, p); case 2: return o.serialize(area.data(), area.size(), p); case 3: return o.serialize((PG::ostream&) out, p); default: return o.serialize(os, p); } }, f.mem, f.persist);
    r.mem = mem::count; r.stream = how == 3 ? out.used() : how == 4 ? buf.used() : 0; r.fired = mem::fired || (f.stream && x == MARKER) || (how == 4 && f.stream && os.bad());
    if (!(r.problem = s.changed()).empty()) return;
    if (!(r.problem = fmt.changed(os)).empty()) return;
    if (x == OTHER) { r.problem = "an exception other than the original one"; return; }
    if (!r.fired && x != YES && x != NO) { r.problem = "an exception without a cause"; return; }
    if (q.ensure_ascii != ascii || q.serialize_null != nulls) { r.problem = "the settings of the parameters are changed"; return; }
    if (params && (x == YES ? q.error.code != PG::PGERR_OK : x == NO && q.error.code == PG::PGERR_OK)) { r.problem = "verdict and error code do not agree"; return; }
    r.result = x == NO ? "0" : x == YES && !(how == 4 && os.bad()) ? "1 " + (how == 0 ? a : how == 1 ? std::string(b.begin(), b.end()) : how == 2 ? std::string(area.data(), strnlen(area.data(), area.size())) : how == 3 ? out.o : buf.o) : "";
    if (how == 4 && r.result.empty() && x == YES) r.fired = true;
    M same; br::set(same, v); if (!(same == o) || br::value_of(o) != br::value_of(same)) { r.problem = "writing changes the object"; return; }
    r.problem = usable(o);
}
// copies, moves, swaps, comparisons, clear
template<typename M> static void object_one(int how, const Val &v, const Fault &f, Report &r)
{
    const MsgD &d = desc_of((const M*) nullptr);
    M a, b; br::set(a, v); if (how & 8) br::set(b, vals::rep_msg(d, 2)); Val va = br::value_of(a), vb = br::value_of(b); Surroundings s; bool moved = false; how &= 7;
    {
        std::unique_ptr<M> made;
        Outcome x = attempt([&] { switch (how) { case 0: made.reset(new M(a)); return true; case 1: b = a; return true; case 2: a = a; return true; case 3: b.swap(a); return true; case 4: a.clear(); return true; case 5: return a == b; case 6: moved = true; made.reset(new M(std::move(a))); return true; default: return a.empty(); } }, f.mem, f.persist);
        r.mem = mem::count; r.fired = mem::fired;
        if (!(r.problem = s.changed()).empty()) return;
        if (x == OTHER || x == MARKER || (x == OUT_OF_MEMORY && !r.fired)) { r.problem = "an exception without a cause"; return; }
        r.result = x == YES || x == NO ? (x == YES ? "1 " : "0 ") + (moved ? "" : value_text(a)) + value_text(b) + (made ? value_text(*made) : "") : "";
        if (x == OUT_OF_MEMORY) {
            if (how != 2 && how != 3 && how != 4 && !moved && br::value_of(a) != va) { r.problem = "the source is changed: " + dump(d, br::value_of(a)); return; }
            if ((how == 0 || how == 5 || how == 7) && br::value_of(b) != vb) { r.problem = "an object that has nothing to do with it is changed"; return; }
        }
    }
    if (!(r.problem = usable(b)).empty()) return;
    r.problem = usable(a);
}
// arrays
template<typename C> static void array_one(int how, const std::string &doc, const Fault &f, Report &r)
{
    C c; Par q; q.ensure_ascii = how & 16; q.serialize_null = !(how & 16); const bool ascii = q.ensure_ascii; bool params = true; if (how & 32) { params = false; } how &= 7; Par *p = params ? &q : nullptr; std::vector<char> v(doc.begin(), doc.end()); MyIn in(doc, f.stream); MyOut out(f.stream); std::string text; std::vector<char> chars; C full; if (how >= 4) PG::deserialize_array(full, doc); const C &cf = full;
    Surroundings s;
    Outcome x = attempt([&] { switch (how) { case 0: return PG::deserialize_array(c, doc, p); case 1: return PG::deserialize_array(c, doc.data(), doc.size(), p); case 2: return PG::deserialize_array(c, v, p); case 3: return PG::deserialize_array(c, in, p); case 4: return PG::serialize_array(cf, text, p); case 5: return PG::serialize_array(cf, chars, p); default: return PG::serialize_array(cf, out, p); } }, f.mem, f.persist);
    r.mem = mem::count; r.stream = how == 3 ? in.used() : how == 6 ? out.used() : 0; r.fired = mem::fired || (f.stream && x == MARKER);
    if (!(r.problem = s.changed()).empty()) return;
    if (x == OTHER) { r.problem = "an exception other than the original one"; return; }
    if (!r.fired && x != YES && x != NO) { r.problem = "an exception without a cause"; return; }
    if (q.ensure_ascii != ascii || q.serialize_null == ascii) { r.problem = "the settings of the parameters are changed"; return; }
    if (params && (x == YES ? q.error.code != PG::PGERR_OK : x == NO && q.error.code == PG::PGERR_OK)) { r.problem = "verdict and error code do not agree"; return; }
    if (x == YES) { if (how < 4) { const C &cc = c; PG::serialize_array(cc, text); } r.result = "1 " + (how == 5 ? std::string(chars.begin(), chars.end()) : how == 6 ? out.o : text); } else if (x == NO) r.result = "0";
    std::string t; { C copy(c); const C &k = copy; PG::serialize_array(k, t); } c.clear(); if (!PG::deserialize_array(c, std::string("[]")) || !c.empty()) r.problem = "the container cannot be used again";
}

// payload: family, message or container, operation, then the document or value
typedef void (*Doc1)(int, const std::string&, const Fault&, Report&); typedef void (*Val1)(int, const Val&, const Fault&, Report&);
#define MS(F) { F<NS::Doc>, F<NS::All>, F<NS::Deep>, F<NS::None>, F<NS::Long> }
static const Doc1 READ[] = MS(read_one); static const Val1 WRITE[] = MS(write_one), OBJECT[] = MS(object_one);
static const Doc1 ARRAY[] = { array_one<std::vector<NS::Doc>>, array_one<std::list<NS::Deep>>, array_one<std::vector<std::string>>, array_one<std::vector<double>>, array_one<std::vector<bool>>, array_one<std::list<PG::string_field>> };
static const MsgD &desc(int k) { switch (k) { case 0: return desc_of((const NS::Doc*) nullptr); case 1: return desc_of((const NS::All*) nullptr); case 2: return desc_of((const NS::Deep*) nullptr); case 3: return desc_of((const NS::None*) nullptr); default: return desc_of((const NS::Long*) nullptr); } }
static void once(const std::string &p, const Fault &f, Report &r)
{
    int k = p[1], how = (unsigned char) p[2];
    if (p[0] == 'r') READ[k](how, p.substr(3), f, r); else if (p[0] == 'a') ARRAY[k](how, p.substr(3), f, r);
    else { Val v = vals::Dec{ p, 3 }.msg(desc(k)); if (p[0] == 'w') WRITE[k](how, v, f, r); else OBJECT[k](how, v, f, r); }
}
static std::string fault_text(const Fault &f) { return f.mem ? " (allocation " + std::to_string(f.mem) + (f.persist ? " and all later ones fail)" : " fails)") : f.stream ? " (the stream throws at call " + std::to_string(f.stream) + (f.mask ? ", exceptions enabled)" : ")") : ""; }
// the result of an attempt has to be nothing, a reported failure, or that of the operation without a fault
static std::string judge(const Report &r, const Report &base, const Fault &f)
{
    if (!r.problem.empty()) return r.problem + fault_text(f);
    if (r.result.empty() || (r.fired && r.result == "0")) return "";
    if (r.result != base.result) return "the result is " + r.result.substr(0, 600) + " instead of " + base.result.substr(0, 600) + fault_text(f);
    return "";
}
template<typename F> static void each_fault(const Report &base, F f)
{
    for (long k = 1; k <= base.mem; ++k) for (int p = 0; p < 2; ++p) { Fault x; x.mem = k; x.persist = p; if (!f(x)) return; }
    for (long k = 1; k <= base.stream; ++k) for (int m = 0; m < 2; ++m) { Fault x; x.stream = k; x.mask = m; if (!f(x)) return; }
}
static std::string check_warm(const std::string &p)
{
    Report base; { Report w; once(p, Fault(), w); } once(p, Fault(), base);
    if (!base.problem.empty()) return base.problem;
    std::string bad; long n = 0;
    { long b = mem::live; { Report r; once(p, Fault(), r); } if (mem::live != b) return std::to_string(mem::live - b) + " blocks of memory are not released"; }
    each_fault(base, [&](const Fault &f) {
        ++n; long before = mem::live; bool ok;
        { Report r; once(p, f, r); ok = r.problem.empty() && (r.result.empty() || (r.fired && r.result == "0") || r.result == base.result); if (!ok) { bad = judge(r, base, f); return false; } }
        if (mem::live != before) { bad = std::to_string(mem::live - before) + " blocks of memory are not released" + fault_text(f); return false; }
        return true;
    });
    vh::info().extra_evals = (uint64_t) n; vh::info().outcome = base.result.substr(0, 30);
    return bad;
}
// in a new process: the fault meets the initialization of static data; then the operation works
struct Cold { int status; char text[4000]; Report r; };
static std::string child(const std::string &p, const Fault &f, Report &second, long &kept, Report *first)
{
    int fd[2]; if (pipe(fd)) return "pipe"; fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]); long before = mem::live; std::string o; Report b;
        { Report a; once(p, f, a); once(p, Fault(), b); o = std::to_string(a.mem) + " " + std::to_string(a.stream) + "\n" + a.problem + "\n" + b.problem + "\n"; }
        std::string res = b.result; { Report x; std::swap(b, x); } for (auto &c : res) if (c == '\n') c = ' ';
        long end = mem::live; o += std::to_string(end - before - 2) + "\n" + res; size_t k = 0; while (k < o.size()) { ssize_t w = write(fd[1], o.data() + k, o.size() - k); if (w <= 0) break; k += (size_t) w; } _exit(0);
    }
    close(fd[1]); std::string o; char b[65536]; ssize_t g; while ((g = read(fd[0], b, sizeof b)) > 0) o.append(b, (size_t) g); close(fd[0]); int st; waitpid(pid, &st, 0);
    if (!WIFEXITED(st)) return "crash in a new process" + fault_text(f);
    std::istringstream i(o); std::string l, p1, p2; std::getline(i, l); std::istringstream n(l); Report x; n >> x.mem >> x.stream; if (first) *first = x; std::getline(i, p1); std::getline(i, p2); std::getline(i, l); kept = atol(l.c_str()); std::getline(i, second.result);
    if (!p1.empty()) return p1 + fault_text(f); if (!p2.empty()) return "afterwards: " + p2 + fault_text(f);
    return "";
}
static std::string check_cold(const std::string &p)
{
    Report base, again; long kept, kept2; std::string e = child(p, Fault(), again, kept, &base); if (!e.empty()) return e;
    std::string bad; long n = 0;
    base.stream = 0;
    each_fault(base, [&](const Fault &f) {
        ++n; Report r; bad = child(p, f, r, kept2, nullptr); if (!bad.empty()) return false;
        if (r.result != again.result) { bad = "after a failure at the first use, the result is " + r.result.substr(0, 500) + " instead of " + again.result.substr(0, 500) + fault_text(f); return false; }
        if (kept2 > kept + 1) { bad = std::to_string(kept2 - kept) + " blocks of memory are not released after a failure at the first use" + fault_text(f); return false; }
        return true;
    });
    vh::info().extra_evals = (uint64_t) n; vh::info().outcome = again.result.substr(0, 30);
    return bad;
}

static const std::map<std::string, std::string> &renamed()
{
    static std::map<std::string, std::string> m; static bool done = false;
    if (!done) { done = true; std::function<void(const MsgD&)> add = [&](const MsgD &d) { for (auto &f : d.fields) { if (f.cname != f.json && !f.transient) m[f.cname] = f.json; if (f.ref) add(*f.ref); } }; for (int k = 0; k < 5; ++k) add(desc(k)); }
    return m;
}
static std::string ren(const std::string &doc)
{
    if (renamed().empty()) return doc;
    std::string o; for (size_t i = 0; i < doc.size();) { if (doc[i] == '"') { size_t j = doc.find('"', i + 1); if (j != std::string::npos) { auto k = renamed().find(doc.substr(i + 1, j - i - 1)); o += k == renamed().end() ? doc.substr(i, j + 1 - i) : '"' + k->second + '"'; i = j + 1; continue; } } o += doc[i++]; }
    return o;
}

int main(int argc, char **argv)
{
    vh::Runner R(argc, argv); bool cold = R.opts.count("cold"), light = R.opts.count("light");
    const char *kind = cold ? "cold" : "warm";
    R.kind("warm", check_warm); R.kind("cold", check_cold);
    R.show = [](const std::string&, const std::string &p) { std::string o = std::string(p[0] == 'r' ? "read" : p[0] == 'w' ? "write" : p[0] == 'o' ? "object" : "array") + " " + std::to_string((int) p[1]) + ", operation " + std::to_string((int) (unsigned char) p[2]) + ": "; if (p[0] == 'r' || p[0] == 'a') return o + vh::printable(p.substr(3), 1500); Val v = vals::Dec{ p, 3 }.msg(desc(p[1])); return o + dump(desc(p[1]), v); };
    return R.explore([&](vh::Shard &S) {
        auto put = [&](char family, int k, int how, const std::string &rest) { if (!S.mine()) return; std::string p; p += family; p += (char) k; p += (char) how; S.run(kind, p + rest); S.transition(); S.state(vh::hash(p)); };
        std::vector<std::pair<int, std::string>> docs;
        for (auto &c : corpus()) docs.push_back({ c.first, ren(join(c.second, cold ? 0 : 1)) });
        docs.push_back({ 0, ren("{\"s\":\"" + std::string(100, 'x') + "\\ud83d\\ude00\\n" + std::string(40, 'y') + "\",\"y\":\"" + std::string(64, 'Q') + "\",\"ls\":[\"" + std::string(30, 'a') + "\",\"b\",\"" + std::string(70, 'c') + "\"],\"d\":0.1234567890123456789}") });
        docs.push_back({ 0, ren("{\"zz\":[[[[{\"a\":[{},[],\"" + std::string(50, 'q') + "\"]}]]]],\"d\":1.7976931348623157e308,\"i\":1.00000000000000000000000000e0}") });
        if (!cold) for (int k = 1; k < 5; k += 3) for (int j = 0; j < 3; ++j) { Val v = vals::rep_msg(desc(k), j); std::string p, t; vals::enc(p, desc(k), v); Report r; once(std::string("w") + (char) k + '\0' + p, Fault(), r); if (r.result.compare(0, 3, "1 x") == 0) docs.push_back({ k, r.result.substr(3) }); }
        // wrong in every place
        std::vector<std::pair<int, std::string>> wrong;
        for (size_t k = 0; k < docs.size(); ++k) { auto &d = docs[k]; size_t step = R.thorough() ? 1 : light ? 41 : cold ? 17 : d.second.size() > 300 ? 83 : 13; for (size_t i = 0; i < d.second.size(); i += step) { wrong.push_back({ d.first, d.second.substr(0, i) }); if (!cold) { std::string u = d.second; u[i] = '?'; wrong.push_back({ d.first, u }); u = d.second; u.insert(i, "\""); wrong.push_back({ d.first, u }); } } }
        for (int how = 0; how < 5; ++how) for (int mode = 0; mode < 32; mode += 8) { if (cold && mode) continue; for (auto &d : docs) put('r', d.first, how | mode, d.second); for (size_t k = 0; k < wrong.size(); ++k) { if (mode && (k + (size_t) mode / 8) % 4) continue; put('r', wrong[k].first, how | mode, wrong[k].second); } }
        // values
        for (int k = 0; k < 5; ++k) {
            const MsgD &d = desc(k); std::vector<Val> values; values.push_back(empty_msg(d));
            auto add = [&](const Val &v) { values.push_back(v); };
            for (int j = 0; j < 3; ++j) add(vals::rep_msg(d, j));
            if (!cold) { if ((k == 0 && !light) || R.thorough()) vals::field_classes(d, false, false, true, [&](const Val &v) { std::string p; vals::enc(p, d, v); if (p.size() < 3000) add(v); }); else vals::singles(d, add); }
            for (size_t j = 0; j < values.size(); ++j) {
                std::string p; vals::enc(p, d, values[j]);
                bool full = R.thorough() || j < 4;
                for (int how = 0; how < 5; ++how) for (int mode = 0; mode < 64; mode += 8) { if (cold ? mode != 0 && mode != 8 : light && j && !R.thorough() ? (j + (size_t) how + (size_t) mode / 8) % 17 : !full && (j + (size_t) how + (size_t) mode / 8) % 5) continue; if (how == 2 && p.size() > 2000) continue; put('w', k, how | mode, p); }
                for (int how = 0; how < 8; ++how) for (int mode = 0; mode < 16; mode += 8) if (!(cold && mode) && (full || (j + (size_t) how) % 3 == 0)) put('o', k, how | mode, p);
            }
        }
        std::string m0 = docs[1].second; const std::vector<std::string> arrays[] = {
            { "[]", "[" + docs[1].second + "]", "[" + docs[2].second + ",null," + docs[5].second + "," + docs[3].second + "]", "[{},{},", "[{},1]", "[" + docs[6].second + " " }, { "[]", "[{\"k\":{\"v\":1}},{\"r\":[{},{}]}]", "[{\"k\":" }, { "[]", "[\"\",\"a\",\"" + std::string(40, 'b') + "\",null,\"" + std::string(99, 'c') + "\"]", "[\"a\",", "[\"" + std::string(40, 'a') + "\",1]" },
            { "[]", "[1,2.5,-1e300,null,0.1,4.9406564584124654e-324,1.7976931348623157e308,0.30000000000000004]", "[1,2,3,x]", "[1e999]" }, { "[true,false,null,true]", "[true" }, { "[\"a\",\"" + std::string(40, 'b') + "\"]", "[1]" } };
        for (int k = 0; k < 6; ++k) for (auto &a : arrays[k]) for (int how = 0; how < 7; ++how) for (int mode = 0; mode <= 32; mode += 16) if (!(cold && mode)) { std::string t = ren(a); put('a', k, how | mode, t); if (!cold && how < 4 && mode < 32 && (!light || mode) ) for (size_t i = 1; i < t.size(); i += 3) put('a', k, how | mode, t.substr(0, i)); }
    });
}
