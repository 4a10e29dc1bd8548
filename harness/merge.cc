// C23: documents read into an object that holds something already. The model state is the object's value; the actions are documents, assignments and clear.
#include "vh.hh"
#include "values.hh"
#include SCHEMA_INC
#include "bridge.hh"
#include <sstream>
using namespace ref;
typedef PG::Parameters Par;

struct Node { size_t k; std::string text; bool obj = false; std::vector<Node> sub; }; // a member: the field and its value (text), or, for a message field, the members of an object
typedef std::vector<Node> Doc;

static std::string text(const MsgD &d, const Doc &x) { std::string o = "{"; for (auto &n : x) { if (o.size() > 1) o += ","; o += "\"" + d.fields[n.k].json + "\":" + (n.obj ? text(*d.fields[n.k].ref, n.sub) : n.text); } return o + "}"; }
// what the document does to a value: the model
static void merge(const MsgD &d, Val &v, const Doc &x)
{
    for (auto &n : x) {
        auto &f = d.fields[n.k];
        if (f.transient) continue;
        if (n.obj) { merge(*f.ref, v.items[n.k], n.sub); continue; }
        if (n.text == "null") continue;
        Result r = Reader("{\"" + f.json + "\":" + n.text + "}").object(d);
        if (!r.ok) abort();
        if (f.repeated) for (auto &e : r.v.items[n.k].items) v.items[n.k].items.push_back(e);
        else v.items[n.k] = r.v.items[n.k];
    }
    fix_msg(d, v);
}

// ---- actions, as text: 'd' document, 'c' clear, 'a' assignment of representative value j to field k
struct Act { char what; Doc doc; size_t k = 0; int j = 0; };
static void enc(std::string &o, const Doc &x) { o += (char) x.size(); for (auto &n : x) { o += (char) n.k; o += (char) n.obj; if (n.obj) enc(o, n.sub); else { o += (char) n.text.size(); o += n.text; } } }
static Doc dec(const std::string &s, size_t &p) { Doc x; size_t n = (unsigned char) s[p++]; while (n--) { Node m; m.k = (size_t) s[p++]; m.obj = s[p++] != 0; if (m.obj) m.sub = dec(s, p); else { size_t l = (unsigned char) s[p++]; m.text = s.substr(p, l); p += l; } x.push_back(m); } return x; }
static void enc(std::string &o, const Act &a) { o += a.what; if (a.what == 'd') enc(o, a.doc); else { o += (char) a.k; o += (char) a.j; } }
static std::vector<Act> acts(const std::string &s, size_t p) { std::vector<Act> r; while (p < s.size()) { Act a; a.what = s[p++]; if (a.what == 'd') a.doc = dec(s, p); else { a.k = (size_t) s[p++]; a.j = s[p++]; } r.push_back(a); } return r; }
static std::string show(const MsgD &d, const std::vector<Act> &v) { std::string o; for (auto &a : v) o += a.what == 'd' ? "read " + text(d, a.doc) + "; " : a.what == 'c' ? "clear; " : "assign " + d.fields[a.k].cname + " value " + std::to_string(a.j) + "; "; return o; }

template<typename M> static std::string check(const std::string &p)
{
    const MsgD &d = desc_of((const M*) nullptr);
    M o; Val v = empty_msg(d); Par par; int step = (unsigned char) p[1];
    for (auto &a : acts(p, 2)) {
        ++step;
        if (a.what == 'c') { o.clear(); v = empty_msg(d); }
        else if (a.what == 'a') { Val now = br::value_of(o); now.items[a.k] = vals::rep_field(d.fields[a.k], a.j); fix_msg(d, now); br::set(o, now); v.items[a.k] = now.items[a.k]; fix_msg(d, v); }
        else {
            std::string t = text(d, a.doc); bool ok;
            switch (step % 5) {
                case 0: ok = o.deserialize(t, &par); break;
                case 1: ok = o.deserialize(t.data(), t.size(), &par); break;
                case 2: { std::istringstream in(t); ok = o.deserialize(in, &par); break; }
                case 3: { std::vector<char> x(t.begin(), t.end()); ok = o.deserialize(x, &par); break; }
                default: ok = o.deserialize(t); break;
            }
            if (!ok) return t + " is rejected: " + par.error.message;
            merge(d, v, a.doc);
        }
        Val got = br::value_of(o);
        if (got != v) return "the object holds " + dump(d, got) + " instead of " + dump(d, v) + " after step " + std::to_string(step - (unsigned char) p[1]);
        if (o.empty() != !v.present) return "empty() is wrong";
    }
    // the same as an object with these values made directly
    M w; br::set(w, v); if (!(w == o) || w != o || !o.equal(w)) return "not equal to an object with the same values";
    std::string a, b; Par q; q.serialize_null = p[1] & 1; if (!w.serialize(a, &q) || !o.serialize(b, &q) || a != b) return "written as " + b + " instead of " + a;
    vh::info().traces = 1; vh::info().outcome = dump(d, v);
    return "";
}
typedef std::string (*Fn)(const std::string&);
static const Fn FNS[] = { check<NS::Doc>, check<NS::All>, check<NS::Deep> };
static const MsgD &desc(int k) { switch (k) { case 0: return desc_of((const NS::Doc*) nullptr); case 1: return desc_of((const NS::All*) nullptr); default: return desc_of((const NS::Deep*) nullptr); } }

// the values a field is given
static std::vector<Node> values(const MsgD &d, size_t k, int depth, bool few)
{
    auto &f = d.fields[k]; std::vector<Node> r; auto add = [&](const std::string &t) { Node n; n.k = k; n.text = t; r.push_back(n); };
    // null for a field that holds something: not decided
    if (f.type == T_MSG && !f.repeated) {
        auto obj = [&](const Doc &x) { Node n; n.k = k; n.obj = true; n.sub = x; r.push_back(n); };
        obj({});
        size_t n = f.ref->fields.size();
        for (size_t j = 0; j < n; ++j) { auto vs = values(*f.ref, j, depth + 1, true); for (size_t i = 0; i < vs.size(); ++i) if (depth == 0 || i == 1 || (i == 2 && depth < 3)) obj({ vs[i] }); }
        Doc all; for (size_t j = 0; j < n && depth < 3; ++j) { auto vs = values(*f.ref, j, depth + 1, true); all.push_back(vs.back()); } obj(all);
        return r;
    }
    std::vector<std::string> e;
    switch (f.type) {
        case T_BOOL: e = { "true", "false" }; break;
        case T_STRING: e = { "\"\"", "\"x\"", "\"a long text that needs memory of its own\"" }; break;
        case T_BYTES: e = { "\"QUJD\"", "\"QQ==\"" }; if (!f.repeated) e.push_back("\"\""); break;
        case T_DOUBLE: case T_FLOAT: e = { "0", "-1.5", "2e3" }; break;
        case T_MSG: { e = { "{}" }; size_t n = f.ref->fields.size(); for (size_t j = 0; j < n && j < 3; ++j) for (auto &x : values(*f.ref, j, depth + 2, true)) { if (depth > 2) break; e.push_back(text(*f.ref, { x })); } if (e.size() > 4) e.resize(4); break; }
        default: e = { "0", "7", "100" }; break;
    }
    if (!f.repeated) { for (auto &x : e) add(x); return r; }
    add("[]"); for (auto &x : e) add("[" + x + "]");
    if (!few) { add("[null]"); add("[" + e[0] + ",null," + e.back() + "]"); }
    add("[" + e.back() + "," + e[0] + "]");
    return r;
}

int main(int argc, char **argv)
{
    vh::Runner R(argc, argv);
    const bool light = R.opts.count("light") != 0;
    R.kind("ops", [](const std::string &p) { return FNS[(size_t) p[0]](p); });
    R.show = [](const std::string &, const std::string &p) { return desc(p[0]).name + ": " + show(desc(p[0]), acts(p, 2)); };
    return R.explore([&](vh::Shard &S) {
        for (int m = 0; m < 3; ++m) {
            const MsgD &d = desc(m); size_t n = d.fields.size(); unsigned seed = 0;
            auto run = [&](const std::vector<Act> &v) { std::string p(1, (char) m); p += (char) (seed++ % 10); for (auto &a : v) enc(p, a); S.run("ops", p); S.state(vh::hash(std::to_string(m) + vh::info().outcome)); S.transition(v.size()); };
            auto read = [](const Doc &x) { Act a; a.what = 'd'; a.doc = x; return a; };
            // 1. one field: all sequences
            for (size_t k = 0; k < n; ++k) {
                std::vector<Act> al; for (auto &x : values(d, k, m == 2 ? 0 : m == 1 ? 1 : 0, false)) al.push_back(read({ x }));
                { Act a; a.what = 'c'; al.push_back(a); } for (int j = 0; j < 3; ++j) { Act a; a.what = 'a'; a.k = k; a.j = j; al.push_back(a); }
                int L = m == 0 ? (light ? 3 : R.pick(4, 5)) : m == 1 ? (light ? 2 : R.pick(3, 4)) : R.pick(2, 3); double cost = 1; for (int i = 0; i < L; ++i) cost *= (double) al.size(); while (cost > R.pick(3e5, 5e6)) { --L; cost /= (double) al.size(); }
                std::vector<Act> t; Val v;
                std::function<void(int)> dfs = [&](int depth) { for (auto &a : al) { if (depth == 1 && !S.mine()) continue; t.push_back(a); if (depth >= 1 || S.id == 0) run(t); if ((int) t.size() < L) dfs(depth + 1); t.pop_back(); } };
                dfs(0);
            }
            // 2. two fields: all pairs of documents over both, in both orders of the members
            if (m < 2) for (size_t a = 0; a < n; ++a) for (size_t b = 0; b < n; ++b) {
                if (a == b) continue; auto A = values(d, a, 1, true), B = values(d, b, 1, true);
                if (light || m == 1) { if (A.size() > 3) A.erase(A.begin() + 1, A.end() - 2); if (B.size() > 3) B.erase(B.begin() + 1, B.end() - 2); }
                if (A.size() > 6) A.erase(A.begin() + 3, A.end() - 3); if (B.size() > 6) B.erase(B.begin() + 3, B.end() - 3);
                std::vector<Doc> ds; for (auto &x : A) { ds.push_back({ x }); for (auto &y : B) { ds.push_back({ x, y }); } } for (auto &y : B) ds.push_back({ y });
                for (auto &x : ds) for (auto &y : ds) { if (!S.mine()) continue; run({ read(x), read(y) }); }
            }
            // 3. an object with every field set, then a document with one member, then others
            for (int j = 0; j < 3; ++j) for (size_t k = 0; k < n; ++k) for (auto &x : values(d, k, 0, false)) {
                if (!S.mine()) continue; std::vector<Act> v; for (size_t i = 0; i < n; ++i) { Act a; a.what = 'a'; a.k = i; a.j = j; v.push_back(a); }
                v.push_back(read({})); v.push_back(read({ x })); v.push_back(read({ x })); run(v);
                for (size_t i = 0; i < n; ++i) { auto w = v; Doc both = { x }; if (i != k) both.push_back(values(d, i, 1, true).back()); w.push_back(read(both)); Act c; c.what = 'c'; w.push_back(c); w.push_back(read(both)); run(w); }
            }
        }
    });
}
