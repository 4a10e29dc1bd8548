// C16: JSON names, transient fields and option combinations on the generated code.
// HEADERS_INC includes the generated headers; TABLE_INC defines, for each message, its fields (JSON name, transient) and type-erased operations.
#include HEADERS_INC
#include "vh.hh"
#include "refjson.hh"
#include <memory>
#ifndef PG
#define PG protogen_3_0_0
#endif

struct Ops {
    void *(*make)(); void (*drop)(void*); void *(*copy)(const void*);
    bool (*ser)(const void*, std::string&, bool ascii, bool nulls); bool (*deser)(void*, const std::string&);
    bool (*eq)(const void*, const void*); void (*swap)(void*, void*); void (*clear)(void*); bool (*empty)(const void*);
};
template<typename M> struct OpsOf {
    static void *make() { return new M(); } static void drop(void *p) { delete (M*) p; } static void *copy(const void *p) { return new M(*(const M*) p); }
    static bool ser(const void *p, std::string &s, bool ascii, bool nulls) { PG::Parameters q; q.ensure_ascii = ascii; q.serialize_null = nulls; s.clear(); return ((const M*) p)->serialize(s, &q); }
    static bool deser(void *p, const std::string &s) { return ((M*) p)->deserialize(s); }
    static bool eq(const void *a, const void *b) { return *(const M*) a == *(const M*) b; }
    static void swap(void *a, void *b) { ((M*) a)->swap(*(M*) b); } static void clear(void *a) { ((M*) a)->clear(); } static bool empty(const void *a) { return ((const M*) a)->empty(); }
    static Ops ops() { return { make, drop, copy, ser, deser, eq, swap, clear, empty }; }
};
struct Fd { std::string json; bool transient; void (*set)(void*, int); long (*get)(const void*); };
struct Mt { std::string id; Ops o; std::vector<Fd> f; };
static std::vector<Mt> &table() { static std::vector<Mt> t; return t; }
#include TABLE_INC

struct Obj { const Mt &m; void *p; Obj(const Mt &m) : m(m), p(m.o.make()) {} Obj(const Obj &o) : m(o.m), p(o.m.o.copy(o.p)) {} ~Obj() { m.o.drop(p); } };
typedef std::vector<long> Vals; // -1: absent
static void fill(Obj &o, const Vals &v) { for (size_t i = 0; i < v.size(); ++i) if (v[i] >= 0) o.m.f[i].set(o.p, (int) v[i]); }
static Vals vals(const Obj &o) { Vals v; for (auto &f : o.m.f) v.push_back(f.get(o.p)); return v; }
static std::string show(const Mt &m, const Vals &v) { std::string s; for (size_t i = 0; i < v.size(); ++i) if (v[i] >= 0) s += vh::printable(m.f[i].json) + "=" + std::to_string(v[i]) + " "; return m.id + " { " + s + "}"; }

static std::string quoted(const std::string &s, int form)
{
    std::string o = "\""; char b[16];
    if (form == 0) { o += s; return o + '"'; }
    for (size_t i = 0; i < s.size();) {
        unsigned char c = (unsigned char) s[i]; uint32_t cp; int n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
        cp = n == 1 ? c : (uint32_t) (c & (0xFF >> (n + 1)));
        for (int k = 1; k < n; ++k) cp = cp << 6 | ((unsigned char) s[i + (size_t) k] & 0x3F);
        if (cp >= 0x10000) { snprintf(b, sizeof b, "\\u%04x\\u%04X", 0xD800 + ((cp - 0x10000) >> 10), 0xDC00 + ((cp - 0x10000) & 0x3FF)); }
        else snprintf(b, sizeof b, form == 1 ? "\\u%04x" : "\\u%04X", cp);
        o += b; i += (size_t) n;
    }
    return o + '"';
}

// writing: exactly the present persistent fields, under their names
static std::string check_write(const Mt &m, const Vals &v)
{
    Obj o(m); fill(o, v);
    if (vals(o) != v) return "the object does not hold what was assigned: " + show(m, v);
    for (int mode = 0; mode < 4; ++mode) {
        std::string t; if (!m.o.ser(o.p, t, mode & 1, mode & 2)) return "serialization failed: " + show(m, v);
        ref::Parser ps(t, true); ref::JV j; if (!ps.whole(j)) return "not JSON: " + vh::printable(t);
        std::map<std::string, long> got, want;
        for (size_t i = 0; i < j.k.size(); ++i) {
            auto &name = j.k[i]; auto &x = j.a[i];
            if (got.count(name)) return "a name is written twice: " + vh::printable(t);
            if (x.t == ref::JV::NUL) { if (!(mode & 2)) return "null: " + vh::printable(t); got[name] = -1; continue; }
            if (x.t != ref::JV::NUM) return "not a number: " + vh::printable(t);
            got[name] = atol(x.s.c_str());
        }
        for (size_t i = 0; i < v.size(); ++i) if (!m.f[i].transient && (v[i] >= 0 || (mode & 2))) want[m.f[i].json] = v[i];
        if (got != want) return "written " + vh::printable(t) + " for " + show(m, v);
        if ((mode & 1) && !ref::ascii(t)) return "not ASCII under ensure_ascii: " + vh::printable(t);
        Obj b(m); if (!m.o.deser(b.p, t)) return "own output rejected: " + vh::printable(t);
        Vals w = v; for (size_t i = 0; i < v.size(); ++i) if (m.f[i].transient) w[i] = -1;
        if (vals(b) != w) return "read back as " + show(m, vals(b)) + " from " + vh::printable(t);
    }
    return "";
}
// reading one member
static std::string check_read(const Mt &m, const std::string &name)
{
    Vals none(m.f.size(), -1);
    for (int form = 0; form < 3; ++form) for (int pre = 0; pre < 2; ++pre) {
        Obj o(m); Vals want = none;
        // everything was set before: members only change themselves
        if (pre) { for (size_t i = 0; i < m.f.size(); ++i) want[i] = (long) i + 7; fill(o, want); }
        for (size_t i = 0; i < m.f.size(); ++i) if (!m.f[i].transient && m.f[i].json == name) want[i] = 5;
        std::string doc = "{" + quoted(name, form) + ":5}";
        if (!m.o.deser(o.p, doc)) return "rejected: " + vh::printable(doc);
        if (pre) { Vals g = vals(o); for (size_t i = 0; i < g.size(); ++i) if (g[i] != want[i] && !(g[i] == -1 && !m.f[i].transient && want[i] != 5)) return "reading " + vh::printable(doc) + " over a full object gives " + show(m, g); continue; }
        if (vals(o) != want) return "read " + show(m, vals(o)) + " from " + vh::printable(doc) + " instead of " + show(m, want);
    }
    return "";
}
static std::string check_ops(const Mt &m, const Vals &v, const Vals &w)
{
    Obj a(m), b(m); fill(a, v); fill(b, w);
    bool same = v == w;
    if (m.o.eq(a.p, b.p) != same || m.o.eq(b.p, a.p) != same) return "equality is wrong between " + show(m, v) + " and " + show(m, w);
    Obj c(a); if (vals(c) != v || !m.o.eq(c.p, a.p)) return "a copy differs: " + show(m, v);
    bool none = true; for (auto x : v) if (x >= 0) none = false;
    if (m.o.empty(a.p) != none) return "empty is wrong: " + show(m, v);
    m.o.swap(a.p, b.p); if (vals(a) != w || vals(b) != v) return "swap of " + show(m, v) + " and " + show(m, w) + " gives " + show(m, vals(a)) + " and " + show(m, vals(b));
    m.o.clear(a.p); for (auto x : vals(a)) if (x >= 0) return "clear leaves " + show(m, vals(a));
    if (!m.o.empty(a.p)) return "not empty once cleared";
    return "";
}

int main(int argc, char **argv)
{
    vh::Runner R(argc, argv);
    auto num = [](const std::string &p, size_t at) { uint32_t n; memcpy(&n, p.data() + at, 4); return n; };
    auto u32 = [](size_t n) { uint32_t v = (uint32_t) n; return std::string((const char*) &v, 4); };
    auto masked = [](const Mt &m, uint64_t mask, int base) { Vals v(m.f.size(), -1); for (size_t i = 0; i < v.size(); ++i) if (mask >> i & 1) v[i] = base + (long) i; return v; };
    R.kinds = {
        { "write", [&](const std::string &p) { const Mt &m = table()[num(p, 0)]; uint64_t k; memcpy(&k, p.data() + 4, 8); vh::info().traces = 4; return check_write(m, masked(m, k, 0)); } },
        { "read", [&](const std::string &p) { vh::info().traces = 6; return check_read(table()[num(p, 0)], p.substr(4)); } },
        { "ops", [&](const std::string &p) { const Mt &m = table()[num(p, 0)]; uint64_t a, b; memcpy(&a, p.data() + 4, 8); memcpy(&b, p.data() + 12, 8); return check_ops(m, masked(m, a, 0), masked(m, b, p[20])); } },
    };
    R.show = [&](const std::string &k, const std::string &p) { return table()[num(p, 0)].id + " " + (k == "read" ? vh::printable(p.substr(4)) : vh::printable(p.substr(4))); };
    return R.explore([&](vh::Shard &S) {
        for (size_t t = 0; t < table().size(); ++t) {
            const Mt &m = table()[t]; size_t n = m.f.size();
            auto u64 = [](uint64_t v) { return std::string((const char*) &v, 8); };
            if (!S.mine()) continue;
            std::vector<uint64_t> masks; uint64_t all = n >= 64 ? ~0ull : (1ull << n) - 1;
            if (n <= 4) for (uint64_t k = 0; k <= all; ++k) masks.push_back(k);
            else { masks = { 0, all }; for (size_t i = 0; i < n; ++i) { masks.push_back(1ull << i); masks.push_back(all & ~(1ull << i)); } }
            for (auto k : masks) S.run("write", u32(t) + u64(k));
            std::set<std::string> names;
            for (auto &f : m.f) {
                const std::string &s = f.json; names.insert(s);
                names.insert(s + "x"); names.insert("x" + s); names.insert(s + s); names.insert(s + " ");
                if (!s.empty() && (unsigned char) s[0] < 0x80) names.insert(s.substr(1));
                if (!s.empty() && (unsigned char) s.back() < 0x80) { names.insert(s.substr(0, s.size() - 1)); std::string z = s; z.back() = (char) (z.back() == 'q' ? 'r' : 'q'); names.insert(z); }
                std::string u = s; for (auto &c : u) if (c >= 'a' && c <= 'z') c = (char) (c - 32); names.insert(u);
            }
            for (auto x : { "a", "b", "c", "1", "2", "3", "0", "", "f0", "f1", "clear", "A" }) names.insert(x);
            for (auto &s : names) { if (s.find('"') != std::string::npos || s.find('\\') != std::string::npos) continue; S.run("read", u32(t) + s); }
            if (n <= 4) { for (uint64_t a = 0; a <= all; ++a) for (uint64_t b = 0; b <= all; ++b) { S.run("ops", u32(t) + u64(a) + u64(b) + std::string(1, 0)); if (b) S.run("ops", u32(t) + u64(a) + u64(b) + std::string(1, 20)); } }
            else for (size_t i = 0; i < n; ++i) S.run("ops", u32(t) + u64(all) + u64(all & ~(1ull << i)) + std::string(1, 0));
        }
    });
}
