// C20: top-level arrays.
#include "vh.hh"
#include "values.hh"
#include SCHEMA_INC
#include "bridge.hh"
#include <deque>
#include <list>
#include <map>
using namespace ref;
typedef PG::Parameters Par;
typedef ::arr::Msg Msg; typedef ::arr::Other Other;
static std::string err(const Par &p) { return "code " + std::to_string((int) p.error.code) + " at " + std::to_string(p.error.line) + ":" + std::to_string(p.error.column) + " (" + p.error.message + ")"; }

class MyIn : public PG::istream { const std::string &s; size_t i = 0; int l = 1, c = 1; public: MyIn(const std::string &s) : s(s) {} int peek() override { return i < s.size() ? s[i] : 0; } void next() override { if (i >= s.size()) return; if (s[i] == '\n') { ++l; c = 1; } else ++c; ++i; } bool eof() const override { return i >= s.size(); } int line() const override { return l; } int column() const override { return c; } };
class MyOut : public PG::ostream { public: std::string o; MyOut &operator<<(const std::string &v) override { o += v; return *this; } MyOut &operator<<(const char *v) override { o += v; return *this; } MyOut &operator<<(char *v) override { o += v; return *this; } MyOut &operator<<(char v) override { o += v; return *this; } };

template<typename T> struct Ty; // element type to descriptor
#define TY(T, t) template<> struct Ty<T> { static FieldD d() { return FieldD{ "e", "e", t, true, false, nullptr }; } };
TY(int32_t, T_I32) TY(int64_t, T_I64) TY(uint32_t, T_U32) TY(uint64_t, T_U64) TY(float, T_FLOAT) TY(double, T_DOUBLE) TY(bool, T_BOOL) TY(std::string, T_STRING) TY(PG::string_field, T_STRING)
template<> struct Ty<Msg> { static FieldD d() { return FieldD{ "e", "e", T_MSG, true, false, &desc_of((const Msg*) nullptr) }; } };
template<> struct Ty<Other> { static FieldD d() { return FieldD{ "e", "e", T_MSG, true, false, &desc_of((const Other*) nullptr) }; } };

template<typename C> static Val to_val(const C &c, size_t skip = 0) { Val v; size_t k = 0; FieldD d = Ty<typename C::value_type>::d(); for (auto it = c.begin(); it != c.end(); ++it, ++k) { if (k < skip) continue; const typename C::value_type &e = *it; v.items.emplace_back(); br::get(e, v.items.back()); } fix_presence(d, v); return v; }
template<typename C> static void from_val(C &c, const Val &v) { for (auto &i : v.items) { typename C::value_type e{}; br::set(e, i); c.push_back(e); } }

template<typename C> static std::string check_doc(const std::string &doc)
{
    FieldD f = Ty<typename C::value_type>::d();
    Result want = Reader(doc).array(f);
    for (int how = 0; how < 5; ++how) {
        C c; size_t before = 0; Par p; bool ok;
        if (how == 4) { Val one; one.items.push_back(f.type == T_MSG ? vals::rep_msg(*f.ref, 1) : vals::rep(f.type, 1)); from_val(c, one); before = 1; }
        if (how == 0 || how == 4) ok = PG::deserialize_array(c, doc, &p);
        else if (how == 1) { char *b = (char*) malloc(doc.size() ? doc.size() : 1); memcpy(b, doc.data(), doc.size()); ok = PG::deserialize_array(c, b, doc.size(), &p); free(b); }
        else if (how == 2) { std::vector<char> v(doc.begin(), doc.end()); ok = PG::deserialize_array(c, v, &p); }
        else { MyIn in(doc); ok = PG::deserialize_array(c, in, &p); }
        vh::info().extra_evals++;
        std::string w = " (overload " + std::to_string(how) + ")";
        if (how == 0) { C c2; if (PG::deserialize_array(c2, doc) != ok) return "the verdict depends on the parameters"; }
        if (ok ? (p.error.code != PG::PGERR_OK || !p.error.message.empty() || p.error.line || p.error.column) : ((int) p.error.code < 1 || (int) p.error.code > 7 || p.error.message.empty())) return std::string(ok ? "success" : "failure") + " with error " + err(p) + w;
        if (want.dontcare) continue;
        if (ok != want.ok) return ok ? "accepted, although " + want.why + w : "rejected: " + err(p) + w;
        if (ok) {
            if (before && to_val(c).items[0] != (f.type == T_MSG ? vals::rep_msg(*f.ref, 1) : vals::rep(f.type, 1))) return "the elements before are changed" + w;
            Val g = to_val(c, before); if (g.items != want.v.items) return "read as " + dump(f, g) + " instead of " + dump(f, want.v) + w;
        } else {
            if (!(want.codes >> (int) p.error.code & 1)) return "wrong error code: " + err(p) + "; " + want.why + w;
            if (!want.pos_dontcare && (p.error.line != want.line || p.error.column != want.col)) return "wrong position: " + err(p) + " instead of " + std::to_string(want.line) + ":" + std::to_string(want.col) + w;
        }
    }
    vh::info().traces = 1;
    return "";
}
// payload: encoded list (with a descriptor message of one repeated field)
template<typename C> static std::string check_values(const std::string &p)
{
    FieldD f = Ty<typename C::value_type>::d(); MsgD d{ "list", { f } };
    Val v = vals::Dec{ p, 0 }.msg(d).items[0];
    bool has_text = f.type == T_STRING, valid = true, finite = true; if (has_text) for (auto &e : v.items) valid &= valid_utf8(e.s);
    if (f.type == T_DOUBLE || f.type == T_FLOAT) for (auto &e : v.items) finite &= std::isfinite(e.d) != 0;
    std::string plain; // written without parameters, whatever was written before
    auto again = [&]() { C c; from_val(c, v); std::string o; return PG::serialize_array(c, o) && o == plain; };
    for (int ps = 0; ps < 4; ++ps) {
        Par par; par.ensure_ascii = ps & 1; par.serialize_null = ps & 2;
        C c; from_val(c, v); const C &cc = c; std::string out; bool ok = PG::serialize_array(cc, out, &par); vh::info().extra_evals++;
        if (par.ensure_ascii && !valid) { if (ok) return "text that is not UTF-8 is written under ensure_ascii"; if (par.error.code == PG::PGERR_OK) return "failure without a code"; if (!again()) return "different without parameters after an operation with them"; continue; }
        if (!ok) return "serialization fails: " + err(par);
        if (par.error.code != PG::PGERR_OK) return "success with an error code";
        std::vector<char> o2; MyOut o3; if (!PG::serialize_array(cc, o2, &par) || !PG::serialize_array(cc, o3, &par)) return "an overload fails";
        if (std::string(o2.begin(), o2.end()) != out || o3.o != out) return "overloads differ: " + out;
        for (auto pre : { std::string("x"), std::string(out.size() + 50, 'p') }) { // targets that hold something already, parameters used before
            Par q = par; q.error = PG::ErrorInfo(PG::PGERR_INVALID_VALUE, "old", 7, 9); std::string a = pre; if (!PG::serialize_array(cc, a, &q) || (a != pre + out && a != out)) return "std::string with contents: " + vh::printable(a, 300);
            if (q.error.code != PG::PGERR_OK || !q.error.message.empty()) return "success with the error of an earlier operation";
            std::vector<char> b(pre.begin(), pre.end()); if (!PG::serialize_array(cc, b, &q) || std::string(b.begin(), b.end()) != a) return "std::vector<char> with contents differs from std::string with contents";
        }
        if (!(to_val(cc) == v)) return "serialization changes the container";
        if (ps == 0) plain = out; if (!again()) return ps == 0 ? "different without parameters" : "different without parameters after an operation with them";
        if (par.ensure_ascii && !ascii(out)) return "non-ASCII output: " + out;
        JV j; Parser P(out); if (!P.whole(j)) return "ill-formed: " + vh::printable(out, 300) + ": " + P.err;
        std::string e = match_field(f, v, j, par.serialize_null); if (!e.empty()) return e + ": " + vh::printable(out, 300);
        if (!valid || !finite) continue;
        C r; par.error = PG::ErrorInfo(PG::PGERR_INVALID_VALUE, "old", 7, 9); if (!PG::deserialize_array(r, out, &par)) return "own output is rejected: " + out; if (par.error.code != PG::PGERR_OK) return "success with the error of an earlier operation";
        Val w = v; if (f.type == T_MSG) { for (auto &x : w.items) drop_transient(*f.ref, x); fix_presence(f, w); }
        if (to_val(r).items != w.items) return "restored as " + dump(f, to_val(r)) + " from " + vh::printable(out, 300);
    }
    return "";
}
typedef std::string (*Fn)(const std::string&);
struct Kind { Fn doc, val; FieldD f; const char *name; };
#define K(...) { check_doc<__VA_ARGS__>, check_values<__VA_ARGS__>, Ty<__VA_ARGS__::value_type>::d(), #__VA_ARGS__ }
static const std::vector<Kind> &kinds() { static const std::vector<Kind> k = { K(std::vector<int32_t>), K(std::vector<Msg>), K(std::vector<bool>), K(std::vector<std::string>), K(std::vector<double>), K(std::list<int64_t>), K(std::list<Msg>), K(std::list<bool>), K(std::list<std::string>), K(std::vector<uint32_t>), K(std::vector<uint64_t>), K(std::vector<int64_t>), K(std::vector<float>), K(std::deque<int32_t>), K(std::deque<std::string>), K(std::deque<Msg>), K(std::list<double>), K(std::vector<Other>), K(std::vector<PG::string_field>), K(std::deque<bool>) }; return k; }
static const size_t MAIN = 5;

static std::vector<std::string> split(const std::string &s) { std::vector<std::string> o; std::istringstream i(s); std::string w; while (i >> w) o.push_back(w); return o; }
static bool wordy(char c) { return isalnum((unsigned char) c) || strchr(".+-_", c); }
static std::string join(const std::vector<std::string> &t, int layout) { std::string o; for (size_t k = 0; k < t.size(); ++k) { if (layout == 0) { if (!o.empty() && wordy(o.back()) && wordy(t[k][0])) o += ' '; } else if (layout == 1) o += k % 3 == 0 ? "\n" : k % 3 == 1 ? "\r\n\t" : " "; o += t[k]; } return o; }

// member names in a document, under the options of the schema
static std::string ren(const std::string &t)
{
    static const std::map<std::string, std::string> m = [] { std::map<std::string, std::string> r; for (auto x : { desc_of((const Msg*) nullptr), desc_of((const Other*) nullptr), desc_of((const ::arr::Sub*) nullptr) }) for (auto &f : x.fields) r["\"" + f.cname + "\""] = "\"" + f.json + "\""; return r; }();
    std::string o; for (size_t i = 0; i < t.size();) { if (t[i] == '"') { size_t j = t.find('"', i + 1); if (j != std::string::npos) { auto k = m.find(t.substr(i, j + 1 - i)); o += k == m.end() ? t.substr(i, j + 1 - i) : k->second; i = j + 1; continue; } } o += t[i++]; }
    return o;
}

int main(int argc, char **argv)
{
    vh::Runner R(argc, argv);
    const bool light = R.opts.count("light") != 0;
    R.kind("doc", [](const std::string &p) { return kinds()[(size_t) p[0]].doc(p.substr(1)); });
    R.kind("val", [](const std::string &p) { return kinds()[(size_t) p[0]].val(p.substr(1)); });
    R.show = [](const std::string &k, const std::string &p) { auto &x = kinds()[(size_t) p[0]]; if (k == "doc") return std::string(x.name) + " <- " + vh::printable(p.substr(1), 500); MsgD d{ "list", { x.f } }; std::string q = p.substr(1); return std::string(x.name) + " " + dump(x.f, vals::Dec{ q, 0 }.msg(d).items[0]).substr(0, 500); };
    return R.explore([&](vh::Shard &S) {
        for (size_t k = 0; k < kinds().size(); ++k) {
            const FieldD &f = kinds()[k].f; if (light && f.type != T_MSG) continue; std::string P(1, (char) k); MsgD d{ "list", { f } };
            // documents: viable prefixes
            auto al = f.type == T_MSG ? split("[ ] , { } : \"n\" 1 null \"zz\" \"x\"") : f.type == T_BOOL ? split("[ ] , true false null 1 tru { }") : f.type == T_STRING ? split("[ ] , \"\" \"x\" null 1 \"u { :") : split("[ ] , 0 1 -1 1.5 null 1e400 \"1\" { true 01");
            int L = f.type == T_MSG ? R.pick(14, 17) : R.pick(11, 13); if (k >= MAIN) L -= 2; if (light) L -= 2; for (auto &a : al) a = ren(a);
            std::vector<std::string> t;
            std::function<void(int)> dfs = [&](int depth) {
                for (auto &a : al) {
                    if (depth == 6 && !S.mine()) continue;
                    t.push_back(a); Result r = Reader(join(t, 0)).array(f); S.beat();
                    if (depth >= 6 || S.id == 0) { S.state(vh::hash(std::to_string(f.type) + (r.ok ? "A" : r.state))); S.transition(); S.run("doc", P + join(t, 0)); S.run("doc", P + join(t, 1)); }
                    if (!r.ok && r.at_end && !r.dontcare && (int) t.size() < L) dfs(depth + 1);
                    t.pop_back();
                }
            };
            dfs(0);
            // every lexeme as an element and as the whole
            for (auto x : { "null", "true", "false", "0", "-0", "1", "-1", "1.0", "1.5", "1e2", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "1e308", "1e309", "3.5e38", "0.1", "\"\"", "\"a\"", "\"\\u20ac\"", "\"\\ud800\"", "\"\\x\"", "[]", "[1]", "{}", "{\"n\":1}", "{\"n\":\"x\"}", "{\"n\":null}", "{\"zz\":[1]}", "{\"l\":[1,2]}", "{\"l\":[\"\"]}", "{\"s\":{\"n\":4}}", "{\"h\":1}", "{\"n\" 1}", "{n:1}", "{", "}", "]", "[", ",", ":", "\"", "tru", "01", "1.", "+1", "NaN", "", "@", "\xff" })
                for (auto pat : { "$", "[$]", "[$,$]", "[ $ , null ,\n$ ]", "[null,$,null]", "[$", "[$,", "[$,]", "[,$]", "[$ $]", "{$}", "{\"e\":$}", "[[$]]", "[$}", "\n\n [\r\n$\n]", "[null,$ @" }) { if (!S.mine()) continue; std::string s; for (const char *c = pat; *c; ++c) if (*c == '$') s += x; else s += *c; S.run("doc", P + ren(s)); S.transition(); }
            // values
            auto put = [&](const Val &l) { if (!S.mine()) return; std::string s = P; Val v; v.items = { l }; vals::enc(s, d, v); S.run("val", s); S.transition(); };
            MsgD one{ "list", { f } }; vals::field_classes(one, R.thorough(), true, true, [&](const Val &v) { put(v.items[0]); });
            if (!light) vals::sizes(one, true, [&](const Val &v) { put(v.items[0]); });
            if (f.type == T_MSG) { vals::field_classes(*f.ref, false, false, false, [&](const Val &v) { Val l; l.items = { v, empty_msg(*f.ref), v }; put(l); }); vals::singles(*f.ref, [&](const Val &v) { Val l; l.items = { v }; put(l); }); }
        }
    });
}
