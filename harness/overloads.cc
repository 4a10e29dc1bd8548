// C07: every input and output overload gives the same result.
#include "vh.hh"
#include "values.hh"
#include SCHEMA_INC
#include "bridge.hh"
#include "docset.hh"
#include <map>
#include <list>
#include <sys/mman.h>
using namespace ref;
typedef PG::Parameters Par;
static std::string err(const Par &p) { return "code " + std::to_string((int) p.error.code) + " at " + std::to_string(p.error.line) + ":" + std::to_string(p.error.column) + " (" + p.error.message + ")"; }

// a user-defined input stream; bytes above 0x7f are given as char or as unsigned char
class MyIn : public PG::istream { const std::string &s; bool u; size_t i = 0; int l = 1, c = 1; public: bool bad = false; MyIn(const std::string &s, bool u) : s(s), u(u) {} int peek() override { return i < s.size() ? (u ? (int) (unsigned char) s[i] : (int) s[i]) : 0; } void next() override { if (i >= s.size()) return; if (s[i] == '\n') { ++l; c = 1; } else ++c; ++i; } bool eof() const override { return i >= s.size(); } int line() const override { return l; } int column() const override { return c; } };
class MyOut : public PG::ostream { public: std::string o; MyOut &operator<<(const std::string &v) override { o += v; return *this; } MyOut &operator<<(const char *v) override { o += v; return *this; } MyOut &operator<<(char *v) override { o += v; return *this; } MyOut &operator<<(char v) override { o += v; return *this; } };
// gives its input in pieces of n bytes
class Chunks : public std::streambuf { std::string s; size_t pos = 0, n; public: Chunks(const std::string &t, size_t n) : s(t), n(n) {} int_type underflow() override { if (gptr() < egptr()) return traits_type::to_int_type(*gptr()); if (pos >= s.size()) return traits_type::eof(); size_t k = std::min(n, s.size() - pos); char *b = &s[pos]; setg(b, b, b + k); pos += k; return traits_type::to_int_type(*gptr()); } };

// memory between two pages that cannot be touched
struct Guarded {
    static const size_t MAX = 1 << 23; char *base; size_t page = 4096;
    Guarded() { base = (char*) mmap(nullptr, MAX + 2 * page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(base, page, PROT_NONE); mprotect(base + page + MAX, page, PROT_NONE); }
    char *first() { return base + page; }
    char *at_end(size_t n) { return base + page + MAX - n; }
};
static Guarded &guarded() { static Guarded g; return g; }

template<typename M> static std::string check_doc(const std::string &p)
{
    // payload: length of the range, then the document with what follows it
    uint32_t n; memcpy(&n, p.data(), 4); std::string full = p.substr(4), doc = full.substr(0, n);
    const MsgD &d = desc_of((const M*) nullptr);
    M a; Par pa; bool want = a.deserialize(doc, &pa); Val va = br::value_of(a);
    auto differs = [&](bool ok, M &o, Par &q) -> std::string {
        vh::info().extra_evals++;
        if (ok != want) return ok ? "accepted, std::string is rejected" : "rejected (" + err(q) + "), std::string is accepted";
        if (q.error.code != pa.error.code || q.error.line != pa.error.line || q.error.column != pa.error.column || q.error.message != pa.error.message) return "error " + err(q) + " instead of " + err(pa);
        if (br::value_of(o) != va) return "object " + dump(d, br::value_of(o)) + " instead of " + dump(d, va);
        return "";
    };
    std::string e;
    Guarded &g = guarded();
    { char *b = g.at_end(n); memcpy(b, doc.data(), n); M o; Par q; bool ok = o.deserialize(b, n, &q); if (!(e = differs(ok, o, q)).empty()) return "buffer at the end of a page: " + e; if (memcmp(b, doc.data(), n)) return "the input was changed"; }
    { char *b = g.first(); memcpy(b, full.data(), full.size()); M o; Par q; bool ok = o.deserialize(b, n, &q); if (!(e = differs(ok, o, q)).empty()) return "buffer at the start of a page, with more text after it: " + e; }
    { std::vector<char> v(doc.begin(), doc.end()); M o; Par q; bool ok = o.deserialize(v, &q); if (!(e = differs(ok, o, q)).empty()) return "std::vector<char>: " + e; }
    for (int how = 0; how < 5; ++how) {
        std::istringstream s(doc); Chunks b(doc, how == 3 ? 1 : 7); std::istream t(&b); std::istream &in = how >= 3 ? t : (std::istream&) s;
        if (how == 1) in.unsetf(std::ios::skipws); if (how == 2) in.setf(std::ios::hex, std::ios::basefield); if (how == 4) { in.setf(std::ios::boolalpha | std::ios::uppercase); in.precision(3); }
        auto flags = in.flags(); auto prec = in.precision(); auto width = in.width();
        M o; Par q; bool ok = o.deserialize(in, &q); if (!(e = differs(ok, o, q)).empty()) return "std::istream (" + std::to_string(how) + "): " + e;
        if (in.flags() != flags || in.precision() != prec || in.width() != width) return "the flags of the std::istream were changed";
    }
    for (int u = 0; u < 2; ++u) { MyIn in(doc, u != 0); M o; Par q; bool ok = o.deserialize(in, &q); if (!(e = differs(ok, o, q)).empty()) return "user-defined stream: " + e; }
    // ranges given by other iterators
    { std::list<char> l(doc.begin(), doc.end()); PG::iterator_istream<std::list<char>::const_iterator> in(l.cbegin(), l.cend()); M o; Par q; bool ok = o.deserialize(in, &q); if (!(e = differs(ok, o, q)).empty()) return "std::list<char>: " + e; }
    { char *b = g.at_end(n); memcpy(b, doc.data(), n); PG::iterator_istream<const char*> in(b, b + n); M o; Par q; bool ok = o.deserialize(in, &q); if (!(e = differs(ok, o, q)).empty()) return "pointers: " + e; }
    // without parameters
    { M o; Par q; q.error = pa.error; bool ok = o.deserialize(doc.data(), doc.size()); if (!(e = differs(ok, o, q)).empty()) return "buffer without parameters: " + e; }
    { M o; Par q; q.error = pa.error; std::istringstream s(doc); bool ok = o.deserialize(s); if (!(e = differs(ok, o, q)).empty()) return "std::istream without parameters: " + e; }
    { M o; Par q; q.error = pa.error; std::vector<char> s(doc.begin(), doc.end()); bool ok = o.deserialize(s); if (!(e = differs(ok, o, q)).empty()) return "std::vector<char> without parameters: " + e; }
    { M o; Par q; q.error = pa.error; MyIn s(doc, false); bool ok = o.deserialize(s); if (!(e = differs(ok, o, q)).empty()) return "user-defined stream without parameters: " + e; }
    // an object that holds something already, and parameters that were used before, give the same result whatever the overload
    { Val pre = vals::rep_msg(d, 1); auto prep = [&](M &o, Par &q) { br::set(o, pre); q.error = PG::ErrorInfo(PG::PGERR_INVALID_VALUE, "old", 7, 9); };
      M x; Par px; prep(x, px); bool wx = x.deserialize(doc, &px); Val vx = br::value_of(x);
      auto same = [&](bool ok, M &o, Par &q, const char *what) -> std::string { vh::info().extra_evals++; if (ok != wx) return std::string(what) + " into a used object: the verdict differs"; if (q.error.code != px.error.code || q.error.line != px.error.line || q.error.column != px.error.column || q.error.message != px.error.message) return std::string(what) + " into a used object: error " + err(q) + " instead of " + err(px); if (br::value_of(o) != vx) return std::string(what) + " into a used object: object " + dump(d, br::value_of(o)) + " instead of " + dump(d, vx); return ""; };
      if (wx != want) return "the verdict depends on the contents of the object"; if (px.error.code != pa.error.code || px.error.line != pa.error.line || px.error.column != pa.error.column) return "the error depends on what the parameters held: " + err(px) + " instead of " + err(pa);
      { M o; Par q; prep(o, q); bool ok = o.deserialize(doc.data(), doc.size(), &q); if (!(e = same(ok, o, q, "buffer")).empty()) return e; }
      { std::vector<char> v(doc.begin(), doc.end()); M o; Par q; prep(o, q); bool ok = o.deserialize(v, &q); if (!(e = same(ok, o, q, "std::vector<char>")).empty()) return e; }
      { std::istringstream v(doc); M o; Par q; prep(o, q); bool ok = o.deserialize(v, &q); if (!(e = same(ok, o, q, "std::istream")).empty()) return e; }
      { MyIn v(doc, false); M o; Par q; prep(o, q); bool ok = o.deserialize(v, &q); if (!(e = same(ok, o, q, "user-defined stream")).empty()) return e; } }
    vh::info().outcome = want ? "ok" : err(pa);
    return "";
}
template<typename M> static std::string check_val(const std::string &p)
{
    const MsgD &d = desc_of((const M*) nullptr); Val v = vals::Dec{ p, 0 }.msg(d); M o; br::set(o, v); const M &co = o;
    Guarded &g = guarded();
    std::string plain; bool plain_ok = co.serialize(plain);
    for (int ps = 0; ps < 4; ++ps) {
        auto params = [&] { Par q; q.ensure_ascii = ps & 1; q.serialize_null = ps & 2; return q; };
        std::string out; Par q0 = params(); bool ok = co.serialize(out, &q0); size_t n = out.size(); Par q;
        std::string w = " (parameters " + std::to_string(ps) + ")";
        if (ps == 0 && (plain_ok != ok || (ok && plain != out))) return "without parameters the result differs";
        { std::string x; if (co.serialize(x) != plain_ok || (plain_ok && x != plain)) return "std::string without parameters differs" + w; std::ostringstream s; if (co.serialize(s) != plain_ok || (plain_ok && s.str() != plain)) return "std::ostream without parameters differs" + w; std::vector<char> c; if (co.serialize(c) != plain_ok || (plain_ok && std::string(c.begin(), c.end()) != plain)) return "std::vector without parameters differs" + w; MyOut m; if (co.serialize(m) != plain_ok || (plain_ok && m.o != plain)) return "user-defined stream without parameters differs" + w; if (plain_ok) { size_t n = plain.size(); std::vector<char> b(n + 1, '\x5a'); if (!o.serialize(b.data(), n) || std::string(b.data(), n) != plain || b[n] != '\x5a') return "buffer without parameters differs" + w; } }
        { std::vector<char> x; q = params(); bool k = co.serialize(x, &q); vh::info().extra_evals++; if (k != ok || (ok && std::string(x.begin(), x.end()) != out)) return "std::vector<char> differs" + w; if (k != (q.error.code == PG::PGERR_OK)) return "std::vector<char>: wrong error code" + w; }
        for (int how = 0; how < 3; ++how) { std::ostringstream x; if (how == 1) { x << std::hex << std::showbase << std::uppercase << std::boolalpha; x.precision(2); } if (how == 2) { x.setf(std::ios::unitbuf | std::ios::fixed); x.fill('#'); } auto f = x.flags(); q = params(); bool k = co.serialize(x, &q); vh::info().extra_evals++; if (k != ok || (ok && x.str() != out)) return "std::ostream (" + std::to_string(how) + ") differs: " + x.str() + w; if (x.flags() != f) return "the flags of the std::ostream were changed"; }
        { MyOut m; q = params(); bool k = co.serialize(m, &q); vh::info().extra_evals++; if (k != ok || (ok && m.o != out)) return "user-defined stream differs: " + m.o + w; }
        if (ok) { char *b = g.at_end(n), *w0 = b; PG::iterator_ostream<char*> x(w0); q = params(); bool k = co.serialize(x, &q); vh::info().extra_evals++; if (!k || memcmp(b, out.data(), n)) return "range given by pointers differs" + w; }
        // targets that hold something already: every kind of target is treated alike
        if (ok) for (auto pre : { std::string("x"), std::string(n + 50, 'p') }) {
            std::string a = pre; q = params(); q.error = PG::ErrorInfo(PG::PGERR_INVALID_VALUE, "old", 7, 9); bool k = co.serialize(a, &q); vh::info().extra_evals++;
            if (!k || q.error.code != PG::PGERR_OK) return "std::string with contents: fails" + w;
            if (a != pre + out && a != out) return "std::string with contents: wrong text " + vh::printable(a, 300) + w;
            std::vector<char> b(pre.begin(), pre.end()); q = params(); k = co.serialize(b, &q); if (!k || std::string(b.begin(), b.end()) != a) return "std::vector<char> with contents differs from std::string with contents" + w;
            std::string again = pre; again.reserve(4 * n + 200); q = params(); k = co.serialize(again, &q) && co.serialize(again, &q); std::string twice = a == out ? out : pre + out + out; if (!k || again != twice) return "writing twice to one std::string: " + vh::printable(again, 300) + w;
            std::ostringstream f; f << pre; q = params(); k = co.serialize(f, &q); if (!k || f.str() != pre + out) return "std::ostream with contents differs" + w;
        }
        std::vector<size_t> lens; if (n <= 300 && ok) for (size_t k = 0; k <= n + 4; ++k) lens.push_back(k); else for (long k : { 0L, 1L, 2L, (long) n / 2, (long) n - 2, (long) n - 1, (long) n, (long) n + 1, (long) n + 2, (long) n + 100 }) if (k >= 0) lens.push_back((size_t) k);
        for (size_t len : lens) {
            vh::info().extra_evals++;
            for (int place = 0; place < 2; ++place) {
                char *area = place ? g.at_end(len) : g.first(), *before = area - 32, *after = area + len;
                if (place) memset(before, 0x6b, 32); else memset(after, 0x6b, 32);
                memset(area, 0x6b, len); q = params(); bool k = o.serialize(area, len, &q);
                bool fits = ok && n <= len;
                if (k != fits) return std::string("buffer of ") + std::to_string(len) + " bytes for " + std::to_string(n) + ": " + (k ? "succeeds" : "fails") + w;
                if (k && memcmp(area, out.data(), n)) return "buffer of " + std::to_string(len) + " bytes: wrong contents" + w;
                for (int j = 0; j < 32; ++j) if ((place ? before : after)[j] != 0x6b) return "bytes outside the buffer of " + std::to_string(len) + " are written" + w;
                if (!k && q.error.code == PG::PGERR_OK) return "buffer of " + std::to_string(len) + " bytes: failure without an error code" + w;
            }
        }
    }
    return "";
}
typedef std::string (*Fn)(const std::string&);
static const Fn DOCS[] = { check_doc<NS::Doc>, check_doc<NS::All>, check_doc<NS::Deep>, check_doc<NS::None>, check_doc<NS::Long> };
static const Fn VALS[] = { check_val<NS::Doc>, check_val<NS::All>, check_val<NS::Deep>, check_val<NS::None>, check_val<NS::Long> };
static const MsgD &desc(int k) { switch (k) { case 0: return desc_of((const NS::Doc*) nullptr); case 1: return desc_of((const NS::All*) nullptr); case 2: return desc_of((const NS::Deep*) nullptr); case 4: return desc_of((const NS::Long*) nullptr); default: return desc_of((const NS::None*) nullptr); } }

// the JSON name of a token that names a field (the options of the schema may rename them)
static std::string ren(const std::string &t)
{
    static const std::map<std::string, std::string> m = [] { std::map<std::string, std::string> r; for (int k = 0; k < 5; ++k) for (auto &f : desc(k).fields) r["\"" + f.cname + "\""] = "\"" + f.json + "\""; for (auto x : { desc_of((const NS::D0*) nullptr), desc_of((const NS::D3*) nullptr), desc_of((const NS::Sub*) nullptr) }) for (auto &f : x.fields) r["\"" + f.cname + "\""] = "\"" + f.json + "\""; return r; }();
    auto i = m.find(t); return i == m.end() ? t : i->second;
}
static std::string rens(const std::string &s) { std::string o; for (size_t i = 0; i < s.size();) { if (s[i] == '"') { size_t j = i + 1; while (j < s.size() && s[j] != '"' && s[j] != '\\') ++j; if (j + 1 < s.size() && s[j] == '"' && s[j + 1] == ':') { o += ren(s.substr(i, j + 1 - i)); i = j + 1; continue; } } o += s[i++]; } return o; }

int main(int argc, char **argv)
{
    vh::Runner R(argc, argv);
    const bool light = R.opts.count("light") != 0;
    R.kind("doc", [](const std::string &p) { return DOCS[(size_t) p[0]](p.substr(1)); });
    R.kind("val", [](const std::string &p) { return VALS[(size_t) p[0]](p.substr(1)); });
    R.show = [](const std::string &k, const std::string &p) { if (k == "doc") { uint32_t n; memcpy(&n, p.data() + 1, 4); return desc(p[0]).name + " <- " + vh::printable(p.substr(5, n), 800) + " followed by " + vh::printable(p.substr(5 + n), 200); } std::string q = p.substr(1); return desc(p[0]).name + " " + dump(desc(p[0]), vals::Dec{ q, 0 }.msg(desc(p[0]))).substr(0, 800); };
    return R.explore([&](vh::Shard &S) {
        auto doc = [&](int m, const std::string &full, size_t n) { if (!S.mine()) return; uint32_t k = (uint32_t) n; std::string p(1, (char) m); p.append((const char*) &k, 4); S.run("doc", p + full); };
        // 1. every range of the corpus, with the rest after it
        auto c = corpus(); for (auto &x : c) for (auto &t : x.second) t = ren(t);
        for (auto &x : c) for (int l = 0; l < 4; ++l) { std::string s = join(x.second, l); for (size_t n = 0; n <= s.size(); ++n) doc(x.first, s, n); for (auto t : { "}", "]", "1", "0", "\"", ",", " ", "\n", "e5", ".5" }) doc(x.first, s + t, s.size()); doc(x.first, s + std::string(1, '\0') + "}", s.size()); }
        // numbers, literals and strings cut at every place
        for (auto s : { "{\"i\":123456}", "{\"d\":-1.25e+10}", "{\"b\":false}", "{\"i\":null}", "{\"s\":\"a\\u20ac\\ud83d\\ude00\\n\"}", "{\"y\":\"QUJDREU=\"}", "{\"zz\":[1,{\"a\":\"b\"}]}", "{\"l\":[1,2,3]}", "{\"s\":\"\xe2\x82\xac\xf0\x9f\x98\x80\"}" }) { std::string t = rens(s); for (size_t n = 0; n <= t.size(); ++n) doc(0, t, n); }
        // 2. every byte at every place of short documents (NUL included), one-token edits
        for (auto s : { "{\"i\":1}", "{\"s\":\"ab\"}", "{ \"l\" : [ 1 , 2 ] }", "{\"zz\":\"a\",\n\"s\":\"\xe2\x82\xac\"}" }) { if (light) continue; std::string t = rens(s); for (size_t k = 0; k < t.size(); ++k) for (int b = 0; b < 256; ++b) { std::string u = t; u[k] = (char) b; doc(0, u, u.size()); u = t; u.insert(k, 1, (char) b); doc(0, u, u.size()); } }
        auto tk = split("{ } [ ] : , \"i\" \"zz\" 1 null tru \"u @");
        for (auto &x : c) for (size_t k = 0; k <= x.second.size(); ++k) for (auto &y : tk) { auto u = x.second; u.insert(u.begin() + (long) k, y); std::string s = join(u, 1); doc(x.first, s, s.size()); }
        // 3. every lexeme for every field
        for (int m : { 1, 4 }) for (auto &f : desc(m).fields) for (auto &x : lexemes()) { if (m == 4 && f.type != T_MSG && x.size() > 6) continue; std::string s = "{\"" + f.json + "\":" + x + "}"; doc(m, s, s.size()); s = "{\n\"" + f.json + "\": [\n" + x + ",null]\n}"; doc(m, s, s.size()); }
        // 4. long documents (beyond any buffer)
        for (int n : { 1000, 4094, 4095, 4096, 4097, 8192, 65536, 300000 }) { if (light && n > 10000) continue; std::string s = "{" + ren("\"s\"") + ":\"" + std::string((size_t) n, 'k') + "\"," + ren("\"i\"") + ":" + std::string((size_t) n, ' ') + "7}"; for (size_t m : { s.size(), s.size() - 1, s.size() - 2, (size_t) n / 2 }) doc(0, s, m); }
        // 5. values
        auto val = [&](int m, const Val &v) { if (!S.mine()) return; std::string p(1, (char) m); vals::enc(p, desc(m), v); S.run("val", p); };
        for (int m = 0; m < 5; ++m) vals::singles(desc(m), [&](const Val &v) { val(m, v); });
        if (!light) vals::sizes(desc(0), false, [&](const Val &v) { size_t n = v.items[1].s.size() + v.items[5].s.size(); if (n > 300 || n % 7 == 0 || n < 40) val(0, v); });
        vals::field_classes(desc(light ? 4 : 0), R.thorough(), true, true, [&](const Val &v) { val(light ? 4 : 0, v); });
        if (R.thorough()) { vals::field_classes(desc(1), false, true, true, [&](const Val &v) { val(1, v); }); vals::masks(desc(0), [&](const Val &v) { val(0, v); }); }
    });
}
