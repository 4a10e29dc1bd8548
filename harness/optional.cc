// C11: fields and messages as optional values.
#include "vh.hh"
#include "values.hh"
#include "inc_optional.hh"
#include "bridge.hh"
#include <utility>
using namespace ref;
typedef PG::Parameters Par;

// ---------------------------------------------------------------- single fields
// model: absent, present; 'soft' is a string made present by writing through its reference
template<typename V> struct Opt { bool has = false; V v{}; bool soft = false; };

template<typename V> static std::vector<V> samples();
template<> std::vector<bool> samples() { return { false, true, true }; }
#define SAMPLES(T, ...) template<> std::vector<T> samples() { return { __VA_ARGS__ }; }
SAMPLES(int32_t, 0, 5, INT32_MIN) SAMPLES(int64_t, 0, -5, INT64_MAX) SAMPLES(uint32_t, 0, 5, UINT32_MAX) SAMPLES(uint64_t, 0, 5, UINT64_MAX) SAMPLES(float, 0.0f, 0.5f, -3e38f) SAMPLES(double, 0.0, 0.1, 5e-324)
SAMPLES(std::string, "", "x", "longer than a small buffer \xe2\x82\xac")

template<typename F, typename V> struct Pair { F f[2]; Opt<V> o[2]; };
template<typename F> static const std::string &text(const F &f) { return *f; }
template<typename F, typename V> static V raw(const F &f, const V*) { return (V) f; }
template<typename F> static std::string raw(const F &f, const std::string*) { return *f; }

template<typename F, typename V> static std::string verify(const Pair<F, V> &p)
{
    std::vector<V> sv = samples<V>();
    for (int k = 0; k < 2; ++k) {
        const F &f = p.f[k]; const Opt<V> &o = p.o[k];
        if (f.empty() == o.has) return o.has ? "a field with a value is empty" : "a field without a value is not empty";
        V got = raw(f, (const V*) nullptr);
        if (o.has && got != o.v) return "wrong value";
        if (!o.has && got != V()) return "a field without a value keeps an old one";
        for (size_t j = 0; j < sv.size(); ++j) { V s = sv[j]; bool want = o.has && o.v == s; if ((f == s) != want) return "wrong comparison with a value"; if (o.has && (f != s) == want) return "wrong inequality with a value"; }
    }
    bool want = p.o[0].has == p.o[1].has && (!p.o[0].has || p.o[0].v == p.o[1].v);
    if ((p.f[0] == p.f[1]) != want || (p.f[1] == p.f[0]) != want) return std::string("equality is ") + (want ? "false" : "true");
    if ((p.f[0] != p.f[1]) == want || (p.f[1] != p.f[0]) == want) return std::string("inequality is ") + (want ? "true" : "false");
    return "";
}
template<typename F> static void self_assign(F &a, const F &b) { a = b; }
template<typename V> static void opt_set(Opt<V> &o, const V &v) { o.has = true; o.v = v; o.soft = false; }
static const int COMMON_OPS = 15;
// operations that every kind of field has; x is the target
template<typename F, typename V> static void common(Pair<F, V> &p, int op, int x)
{
    F &f = p.f[x], &g = p.f[1 - x]; Opt<V> &o = p.o[x], &h = p.o[1 - x]; std::vector<V> sv = samples<V>();
    switch (op) {
        case 0: case 1: case 2: { V v = sv[(size_t) op]; f = v; opt_set(o, v); break; }
        case 3: f.clear(); o = Opt<V>(); break;
        case 4: f = g; o = h; break;
        case 5: f.swap(g); std::swap(o, h); break;
        case 6: { F t(g); f = t; o = h; break; }
        case 7: { F t; f = t; o = Opt<V>(); break; }
        case 8: self_assign(f, f); break;
        case 9: { F t(std::move(g)); f = t; o = h; g.clear(); h = Opt<V>(); break; }
        case 10: { V v = sv[1]; V before = o.has ? o.v : V(); bool had = o.has; f.swap(v); if (had && v != before) throw std::runtime_error("swap with a value loses the old one"); opt_set<V>(o, sv[1]); break; }
        case 14: { V v = sv[0]; V before = o.has ? o.v : V(); bool had = o.has; f.swap(v); if (had && v != before) throw std::runtime_error("swap with a value loses the old one"); opt_set<V>(o, sv[0]); break; }
        case 11: { F t; t = sv[2]; std::swap(f, t); Opt<V> n; opt_set<V>(n, sv[2]); std::swap(o, n); if (n.has == t.empty() || (n.has && !(t == n.v))) throw std::runtime_error("std::swap does not exchange"); break; }
        case 12: { F t(f); t = sv[1]; t.clear(); break; } // a copy is independent
        case 13: { std::vector<F> v(3, g); v[1].clear(); f = v[2]; o = h; break; }
    }
}
template<typename F, typename V> static void special(Pair<F, V> &, int, int, const V*) {}
template<typename F> static void special(Pair<F, std::string> &p, int op, int x, const std::string*)
{
    F &f = p.f[x]; Opt<std::string> &o = p.o[x];
    switch (op) {
        case 0: f = "x"; opt_set<std::string>(o, "x"); break;
        case 1: f = ""; opt_set<std::string>(o, ""); break;
        case 2: f = F("y"); opt_set<std::string>(o, "y"); break;
        case 3: f = F(std::string()); opt_set<std::string>(o, ""); break;
        case 4: f.empty(true); o = Opt<std::string>(); break;
        case 5: { std::string &r = f; r = "through"; bool had = o.has && !o.soft; opt_set<std::string>(o, "through"); o.soft = !had; break; }
        case 6: if (o.has && !o.soft) { *f = ""; o.v = ""; } break;
        case 7: { std::string s("\0a", 2); f = s; opt_set(o, s); break; }
    }
}
template<typename F, typename V> static std::string check_field(const std::string &ops)
{
    Pair<F, V> p;
    for (char c : ops) { int op = (unsigned char) c / 2, x = c & 1; if (op < COMMON_OPS) common(p, op, x); else special(p, op - COMMON_OPS, x, (const V*) nullptr); }
    return verify(p);
}
typedef decltype(::oa::M().i) FI32; typedef decltype(::oa::M().s) FSTR;
typedef decltype(::oa::All().f_int64) FI64; typedef decltype(::oa::All().f_uint32) FU32; typedef decltype(::oa::All().f_uint64) FU64; typedef decltype(::oa::All().f_float) FFLT; typedef decltype(::oa::All().f_double) FDBL; typedef decltype(::oa::All().f_bool) FBOOL;
static std::string field_case(const std::string &p)
{
    std::string ops = p.substr(1);
    switch (p[0]) {
        case 0: return check_field<FI32, int32_t>(ops); case 1: return check_field<FSTR, std::string>(ops); case 2: return check_field<FI64, int64_t>(ops); case 3: return check_field<FU32, uint32_t>(ops);
        case 4: return check_field<FU64, uint64_t>(ops); case 5: return check_field<FFLT, float>(ops); case 6: return check_field<FDBL, double>(ops); default: return check_field<FBOOL, bool>(ops);
    }
}

// ---------------------------------------------------------------- messages
template<typename T> static std::string verify_msg(const T (&m)[2], const Val (&v)[2], bool deep)
{
    const MsgD &d = desc_of((const T*) nullptr);
    for (int k = 0; k < 2; ++k) {
        Val g = br::value_of(m[k]);
        if (g != v[k]) return std::string("object ") + (k ? "B" : "A") + " is " + dump(d, g) + " instead of " + dump(d, v[k]);
        if (m[k].empty() == v[k].present) return "wrong empty()";
    }
    bool want = v[0] == v[1];
    if ((m[0] == m[1]) != want || (m[1] == m[0]) != want || (m[0] != m[1]) == want || m[0].equal(m[1]) != want || !(m[0] == m[0]) || (m[1] != m[1])) return std::string("equality is not ") + (want ? "true" : "false") + " for " + dump(d, v[0]) + " and " + dump(d, v[1]);
    if (deep) for (int k = 0; k < 2; ++k) {
        std::string out; T copy(m[k]); if (!copy.serialize(out)) return "serialization fails";
        JV j; Parser P(out); if (!P.whole(j)) return "ill-formed " + out; std::string e = match_msg(d, v[k], j, false); if (!e.empty()) return e + ": " + out;
        // cleared, it is as new
        copy.clear(); T fresh; Par par; par.serialize_null = true; std::string a, b; copy.serialize(a, &par); fresh.serialize(b, &par);
        if (a != b || !(copy == fresh) || !copy.empty() || br::value_of(copy) != br::value_of(fresh)) return "a cleared object differs from a new one: " + a;
        std::string doc = to_json(d, v[1 - k]); T n2; if (!copy.deserialize(doc) || !n2.deserialize(doc) || !(copy == n2) || br::value_of(copy) != br::value_of(n2)) return "a cleared object does not read like a new one";
        if (br::value_of(m[k]) != v[k]) return "the copy is not independent";
    }
    return "";
}
static const int MSG_OPS = 34;
template<typename T> static void msg_op(T (&m)[2], Val (&v)[2], int op, int x)
{
    const MsgD &d = desc_of((const T*) nullptr); const MsgD &sub = *d.fields[4].ref;
    T &a = m[x], &b = m[1 - x]; Val &p = v[x], &q = v[1 - x]; auto &f = p.items;
    typedef typename std::decay<decltype(a.m)>::type Sub;
    auto sv = [&](int n) { Val s = empty_msg(sub); if (n >= 0) s.items[0] = vals::vi(n); fix_msg(sub, s); return s; };
    switch (op) {
        case 0: a.i = 0; f[0] = vals::vi(0); break;
        case 1: a.i = 5; f[0] = vals::vi(5); break;
        case 2: a.i.clear(); f[0] = Val(); break;
        case 3: a.s = ""; f[1] = vals::vs(""); break;
        case 4: a.s = "x"; f[1] = vals::vs("x"); break;
        case 5: a.s.clear(); f[1] = Val(); break;
        case 6: a.y.push_back(0); f[2].s += '\0'; break;
        case 7: a.y.clear(); f[2].s.clear(); break;
        case 8: a.l.push_back(0); f[3].items.push_back(vals::vi(0)); break;
        case 9: a.l.push_back(7); f[3].items.push_back(vals::vi(7)); break;
        case 10: a.l.clear(); f[3].items.clear(); break;
        case 11: a.m.n = 0; f[4].items[0] = vals::vi(0); break;
        case 12: a.m.t = "s"; f[4].items[1] = vals::vs("s"); break;
        case 13: a.m.clear(); f[4] = empty_msg(sub); break;
        case 14: a.m = b.m; f[4] = q.items[4]; break;
        case 15: a.m.swap(b.m); std::swap(f[4], q.items[4]); break;
        case 16: { Sub s; a.r.push_back(s); f[5].items.push_back(sv(-1)); break; }
        case 17: { Sub s; s.n = 1; a.r.push_back(s); f[5].items.push_back(sv(1)); break; }
        case 18: a.r.clear(); f[5].items.clear(); break;
        case 19: a.t = 0; f[6] = vals::vi(0); break;
        case 20: a.t = 3; f[6] = vals::vi(3); break;
        case 21: a.t.clear(); f[6] = Val(); break;
        case 22: a = b; p = q; break;
        case 23: a.swap(b); std::swap(p, q); break;
        case 24: a.clear(); p = empty_msg(d); break;
        case 25: { T t(b); a = t; p = q; break; }
        case 26: a = (const T&) a; break;
        case 27: { T t(std::move(b)); b.clear(); a = t; p = q; q = empty_msg(d); break; }
        case 28: { T t; a = t; p = empty_msg(d); break; }
        case 29: a.swap(a); break;
        case 30: { T t(a); t.clear(); t.i = 9; t.l.push_back(1); break; }
        case 31: { std::string out; a.serialize(out); T t; t.deserialize(out); b = t; q = p; drop_transient(d, q); fix_msg(d, q); break; }
        case 32: a.s = b.s; a.l = b.l; f[1] = q.items[1]; f[3] = q.items[3]; break;
        case 33: { std::vector<T> vec(2, b); vec.push_back(a); vec.erase(vec.begin()); a = vec[0]; p = q; break; }
    }
    fix_msg(d, v[0]); fix_msg(d, v[1]);
}
template<typename T> static std::string check_msg(const std::string &ops)
{
    T m[2]; Val v[2] = { empty_msg(desc_of((const T*) nullptr)), empty_msg(desc_of((const T*) nullptr)) };
    for (char c : ops) msg_op(m, v, (unsigned char) c / 2, c & 1);
    return verify_msg(m, v, ops.size() <= 3);
}
// operations on every field of larger messages: payload = field, value of A, value of B (0 absent, 1..3)
template<typename T> static std::string check_one(const std::string &p)
{
    const MsgD &d = desc_of((const T*) nullptr); size_t k = (unsigned char) p[0];
    auto make = [&](int c, bool others) { Val v = empty_msg(d); if (others) for (size_t j = 0; j < d.fields.size(); ++j) if (j != k) v.items[j] = vals::rep_field(d.fields[j], (int) (j % 3)); if (c) v.items[k] = vals::rep_field(d.fields[k], c - 1); fix_msg(d, v); return v; };
    for (int others = 0; others < 2; ++others) {
        T m[2]; Val v[2] = { make(p[1], others != 0), make(p[2], others != 0) }; std::string e;
        auto build = [&] { br::set(m[0], v[0]); br::set(m[1], v[1]); };
        build(); if (!(e = verify_msg(m, v, true)).empty()) return e;
        { T c(m[0]); T w[2] = { c, m[0] }; Val x[2] = { v[0], v[0] }; if (!(e = verify_msg(w, x, false)).empty()) return "copy: " + e; }
        m[0].swap(m[1]); std::swap(v[0], v[1]); if (!(e = verify_msg(m, v, false)).empty()) return "swap: " + e;
        m[0] = m[1]; v[0] = v[1]; if (!(e = verify_msg(m, v, false)).empty()) return "assignment: " + e;
        m[1].clear(); v[1] = empty_msg(d); if (!(e = verify_msg(m, v, false)).empty()) return "clear: " + e;
        { T c(std::move(m[0])); m[0].clear(); T w[2] = { c, m[0] }; Val x[2] = { v[0], v[1] }; if (!(e = verify_msg(w, x, false)).empty()) return "move: " + e; }
        v[0] = make(p[1], others != 0); v[1] = make(p[2], others != 0); build(); if (!(e = verify_msg(m, v, false)).empty()) return "reuse: " + e;
        vh::info().extra_evals += 6;
    }
    // a transient member in a document has no effect, a persistent one has
    { static const char *X[] = { "1", "\"QQ==\"", "{}", "[]", "[{}]", "[1]", "null", "true", "[\"QQ==\"]", "{\"n\":1}", "[null]", "\"x\"", "0.5", "[[]]" };
      const FieldD &f = d.fields[k];
      if (f.transient) for (auto x : X) for (int full = 0; full < 2; ++full) {
          T t; Val v = empty_msg(d); if (full) v = make(p[1], true); fix_msg(d, v); Val w = v; drop_transient(d, w); fix_msg(d, w); std::string rest = to_json(d, w); rest = rest.substr(1);
          std::string doc = "{\"" + f.json + "\":" + x + (rest == "}" ? "" : ",") + rest;
          if (!t.deserialize(doc)) return "a transient member makes the document rejected: " + doc;
          if (br::value_of(t) != w) return "a transient member is read: " + dump(d, br::value_of(t)) + " from " + doc;
          // nor does reading remove what the object holds there
          T u; Val h = empty_msg(d); h.items[k] = vals::rep_field(f, 1); fix_msg(d, h); br::set(u, h); if (!u.deserialize(doc)) return "rejected over an object with a transient value: " + doc;
          if (br::value_of(u).items[k] != h.items[k]) return "reading changes a transient field: " + doc;
          std::string out; u.serialize(out); Parser P(out); JV j; if (!P.whole(j)) return "ill-formed " + out; std::string e = match_msg(d, w, j, false); if (!e.empty()) return e + ": " + out;
      } }
    vh::info().traces = 1;
    return "";
}

int main(int argc, char **argv)
{
    vh::Runner R(argc, argv);
    typedef std::string (*Fn)(const std::string&);
    static const Fn MSGS[] = { check_msg<::oa::M>, check_msg<::ob::M> }; static const Fn ONES[] = { check_one<::oa::All>, check_one<::oa::Wide>, check_one<::ob::All>, check_one<::ob::Wide>, check_one<::oa::Trans>, check_one<::oa::AllT>, check_one<::ob::Trans>, check_one<::ob::AllT> };
    static const size_t SIZES[] = { desc_of((const ::oa::All*) nullptr).fields.size(), 64, desc_of((const ::oa::Trans*) nullptr).fields.size(), desc_of((const ::oa::AllT*) nullptr).fields.size() };
    bool trans = R.opts["only"] == "trans"; // C16
    R.kind("field", [](const std::string &p) { vh::info().traces = 1; return field_case(p); });
    R.kind("msg", [](const std::string &p) { vh::info().traces = 1; return MSGS[(size_t) p[0]](p.substr(1)); });
    R.kind("one", [](const std::string &p) { return ONES[(size_t) p[0]](p.substr(1)); });
    R.show = [](const std::string &k, const std::string &p) { std::string o = k + " " + std::to_string((int) p[0]) + ": "; for (size_t i = 1; i < p.size(); ++i) o += k == "one" ? std::to_string((int) p[i]) + " " : "op" + std::to_string((unsigned char) p[i] / 2) + (p[i] & 1 ? "(B) " : "(A) "); return o; };
    return R.explore([&](vh::Shard &S) {
        auto words = [&](const char *kind, char first, int ops, int L, const std::function<void(const std::string&)> &note) {
            std::string s(1, first);
            std::function<void()> rec = [&] { if (s.size() == 3 && !S.mine()) return; if (s.size() >= 3 || S.id == 0) { S.run(kind, s, s.size() < 5); note(s); S.transition(); } if ((int) s.size() <= L) for (int o = 0; o < ops * 2; ++o) { s += (char) o; rec(); s.pop_back(); } };
            rec();
        };
        for (char t = trans ? 4 : 0; t < 8; ++t) for (size_t k = 0; k < SIZES[t < 4 ? t & 1 : 2 + (t & 1)]; ++k) for (char a = 0; a < 4; ++a) for (char b = 0; b < 4; ++b) if (S.mine()) { S.run("one", std::string({ t, (char) k, a, b })); S.transition(); }
        if (trans) return;
        for (char t = 0; t < 8; ++t) words("field", t, COMMON_OPS + (t == 1 ? 8 : 0), t < 2 ? R.pick(4, 5) : R.pick(3, 4), [&](const std::string &s) {
            // the model state reached
            if (t > 1 || s.size() > 4) return; std::string st(1, t);
            if (t == 0) { Pair<FI32, int32_t> p; for (size_t k = 1; k < s.size(); ++k) common(p, s[k] / 2, s[k] & 1); for (auto &o : p.o) st += std::to_string(o.has) + std::to_string(o.v) + ","; }
            else { Pair<FSTR, std::string> p; for (size_t k = 1; k < s.size(); ++k) { int op = s[k] / 2; if (op < COMMON_OPS) common(p, op, s[k] & 1); else special(p, op - COMMON_OPS, s[k] & 1, (const std::string*) nullptr); } for (auto &o : p.o) st += std::to_string(o.has) + std::to_string(o.soft) + o.v + ","; }
            S.state(vh::hash(st)); });
        for (char t = 0; t < 2; ++t) words("msg", t, MSG_OPS, t == 0 ? R.pick(4, 5) : R.pick(3, 4), [&](const std::string &s) {
            if (t || s.size() > 4) return;
            ::oa::M m[2]; Val v[2] = { empty_msg(desc_of(m)), empty_msg(desc_of(m)) }; for (size_t k = 1; k < s.size(); ++k) msg_op(m, v, s[k] / 2, s[k] & 1);
            S.state(vh::hash(dump(desc_of(m), v[0]) + dump(desc_of(m), v[1]))); });
    });
}
