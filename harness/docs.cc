// C04, C05, C06, C08: deserialization of JSON documents into messages, against the reference reader.
#include "vh.hh"
#include "values.hh"
#include SCHEMA_INC
#include "bridge.hh"
#include "docset.hh"
using namespace ref;

static std::string PROP;
static bool is(const char *p) { return PROP == p; }
static bool g_light = false;  // the schema has options that must not change anything: a smaller exploration

// the documents below name the fields as the .proto file does; with number_names, the members have other names
static const std::map<std::string, std::string> &renamed();
static std::string ren(const std::string &doc)
{
    if (renamed().empty()) return doc;
    std::string o; o.reserve(doc.size());
    for (size_t k = 0; k < doc.size();) {
        if (doc[k] == '"') { size_t e = k + 1; while (e < doc.size() && e - k < 40 && (isalnum((unsigned char) doc[e]) || doc[e] == '_')) ++e; if (e < doc.size() && doc[e] == '"') { auto it = renamed().find(doc.substr(k + 1, e - k - 1)); if (it != renamed().end()) { o += '"' + it->second + '"'; k = e + 1; continue; } } }
        o += doc[k++];
    }
    return o;
}

static std::string err(const PG::Parameters &p) { return "code " + std::to_string((int) p.error.code) + " at " + std::to_string(p.error.line) + ":" + std::to_string(p.error.column) + " (" + p.error.message + ")"; }

// C06: is the error information right?
static std::string check_error(const Result &want, const PG::Parameters &p)
{
    if ((int) p.error.code <= 0 || (int) p.error.code > 7) return "failure with error " + err(p);
    if (p.error.message.empty()) return "failure without a message: " + err(p);
    if (want.dontcare) return "";
    if (!(want.codes >> (int) p.error.code & 1)) return "wrong error code: " + err(p) + "; " + want.why;
    if (!want.pos_dontcare && (p.error.line != want.line || p.error.column != want.col)) return "wrong position: " + err(p) + " instead of " + std::to_string(want.line) + ":" + std::to_string(want.col) + " (" + want.why + ")";
    return "";
}
static bool clear_error(const PG::Parameters &p) { return p.error.code == PG::PGERR_OK && p.error.message.empty() && p.error.line == 0 && p.error.column == 0; }

template<typename M> static std::string check_doc(const std::string &doc)
{
    const MsgD &d = desc_of((const M*) nullptr);
    Result want; if (!is("C08")) want = Reader(doc).object(d);
    M obj; PG::Parameters params;
    bool ok;
    if (is("C08")) {
        // the exact range, on the heap, so that reading outside it is detected
        std::vector<char> copy(doc.begin(), doc.end()); copy.shrink_to_fit();
        char *exact = (char*) malloc(doc.size() ? doc.size() : 1); memcpy(exact, doc.data(), doc.size());
        M o2; ok = obj.deserialize(exact, doc.size(), &params);
        bool ok2 = o2.deserialize(doc); free(exact);
        M o4; bool ok4 = o4.deserialize(copy);
        if (ok != ok2 || ok != ok4) return "different verdicts";
        if (doc.size() <= 64) { M o5; std::istringstream in(doc); if (o5.deserialize(in) != ok) return "different verdicts"; }
        if (!ok && params.error.code == PG::PGERR_OK) return "failure without an error code";
        // the object stays usable
        std::string text; obj.serialize(text);
        M copy_(obj); if (!(copy_ == obj)) return "the object is not equal to its copy";
        obj.clear(); M fresh; if (!(obj == fresh) || !obj.empty()) return "a cleared object differs from a new one";
        if (!obj.deserialize(std::string("{}")) || !obj.empty()) return "the object cannot be reused";
        vh::info().outcome = (ok ? "ok " : "fail ") + std::to_string((int) params.error.code) + text.substr(0, 20);
        return "";
    }
    ok = obj.deserialize(doc, &params);
    vh::info().outcome = ok ? "ok" : err(params);
    vh::info().traces = 1;
    if (is("C06")) {
        if (ok) { if (!clear_error(params)) return "success with error " + err(params); }
        else if (!want.ok) {
            std::string e = check_error(want, params); if (!e.empty()) return e;
            // cleared after a failure, the object behaves as new
            std::string t1, t2; obj.clear(); M fresh; if (!(obj == fresh) || !obj.empty()) return "a cleared object differs from a new one after a failure";
        }
        // without parameters the verdict is the same
        M o3; if (o3.deserialize(doc) != ok) return "the verdict depends on the parameters";
        return "";
    }
    if (want.dontcare) return "";
    if (ok != want.ok) return ok ? "accepted, although " + want.why + " at " + std::to_string(want.line) + ":" + std::to_string(want.col) + "; value " + dump(d, br::value_of(obj)) : "rejected (" + err(params) + ") although it conforms to the schema";
    if (ok) { Val got = br::value_of(obj); if (got != want.v) return "read " + dump(d, got).substr(0, 1500) + " instead of " + dump(d, want.v).substr(0, 1500); }
    return "";
}

// C05: payload = offset and length of the skipped member (with its comma), then the document
template<typename M> static std::string check_skip(const std::string &payload)
{
    uint32_t b, n; memcpy(&b, payload.data(), 4); memcpy(&n, payload.data() + 4, 4);
    std::string doc = payload.substr(8), base = doc.substr(0, b) + doc.substr(b + n);
    M with, without; PG::Parameters p1, p2;
    if (!without.deserialize(base, &p2)) return "the document without the member is rejected: " + err(p2);
    if (!with.deserialize(doc, &p1)) return "rejected with the member: " + err(p1);
    Val a = br::value_of(with), c = br::value_of(without);
    if (a != c) return "the member has an effect: " + dump(desc_of((const M*) nullptr), a).substr(0, 1000) + " instead of " + dump(desc_of((const M*) nullptr), c).substr(0, 1000);
    if (!(with == without)) return "objects are not equal";
    vh::info().traces = 1;
    return "";
}

typedef std::string (*Fn)(const std::string&);
static const Fn FNS[] = { check_doc<NS::Doc>, check_doc<NS::All>, check_doc<NS::Deep>, check_doc<NS::None>, check_doc<NS::Long> };
static const Fn SKIPS[] = { check_skip<NS::Doc>, check_skip<NS::All>, check_skip<NS::Deep>, check_skip<NS::None>, check_skip<NS::Long> };
// C08: top-level arrays
template<typename C> static std::string check_array(const std::string &doc)
{
    char *exact = (char*) malloc(doc.size() ? doc.size() : 1); memcpy(exact, doc.data(), doc.size());
    PG::Parameters params; C obj, o2, o3; bool ok = PG::deserialize_array(obj, exact, doc.size(), &params), ok2 = PG::deserialize_array(o2, doc); free(exact);
    std::vector<char> copy(doc.begin(), doc.end()); copy.shrink_to_fit(); bool ok3 = PG::deserialize_array(o3, copy);
    if (ok != ok2 || ok != ok3) return "different verdicts";
    if (!ok && params.error.code == PG::PGERR_OK) return "failure without an error code";
    const C &c = obj; std::string text; PG::serialize_array(c, text);
    C copy_(obj); obj.clear(); if (!PG::deserialize_array(obj, std::string("[]")) || !obj.empty()) return "the container cannot be reused";
    vh::info().outcome = (ok ? "ok " : "fail ") + std::to_string((int) params.error.code) + text.substr(0, 20);
    return "";
}
static const Fn ARRAYS[] = { check_array<std::vector<NS::Doc>>, check_array<std::vector<int32_t>>, check_array<std::list<std::string>>, check_array<std::vector<bool>>, check_array<std::vector<double>>, check_array<std::list<NS::Deep>> };
static const std::vector<std::string> &array_contexts(int k) { static const std::vector<std::string> c[] = { { "", "[", "[{", "[{\"s\":\"", "[{}," }, { "", "[", "[1", "[1," }, { "[", "[\"", "[\"a\",", "[\"\\u" }, { "[", "[t" }, { "[", "[-1.5e" }, { "[{\"k\":{" } }; return c[k]; }
static const MsgD &desc(int k) { switch (k) { case 0: return desc_of((const NS::Doc*) nullptr); case 1: return desc_of((const NS::All*) nullptr); case 2: return desc_of((const NS::Deep*) nullptr); case 3: return desc_of((const NS::None*) nullptr); default: return desc_of((const NS::Long*) nullptr); } }

static const std::map<std::string, std::string> &renamed()
{
    static std::map<std::string, std::string> m; static bool done = false;
    if (!done) { done = true; std::function<void(const MsgD&)> add = [&](const MsgD &d) { for (auto &f : d.fields) { if (f.cname != f.json && !f.transient) m[f.cname] = f.json; if (f.ref) add(*f.ref); } }; for (int k = 0; k < 5; ++k) add(desc(k)); }
    return m;
}

struct Explorer {
    vh::Shard &S; int msg; const MsgD &d; std::vector<std::string> alphabet; int maxlen; std::vector<int> layouts; std::vector<std::vector<std::string>> accepted; size_t keep = 0;
    std::vector<std::string> t; std::vector<std::string> prefix, suffix;
    uint64_t mine = 0;
    void emit(const std::vector<std::string> &t, int layout) { std::string p(1, (char) msg); p += join(t, layout); S.run("doc", p); }
    // explores every extension of the viable prefix t
    void dfs(int depth, bool own) {
        for (auto &a : alphabet) {
            if (depth == 5) { if (!S.mine()) continue; own = true; }
            t.push_back(a);
            Result r = Reader(ren(join(t, 0))).object(d);
            S.beat();
            bool run = own || (depth < 5 && S.id == 0);
            if (run) { S.transition(); S.state(vh::hash(r.at_end || r.ok ? r.state + (r.ok ? "ACCEPT" : "") : "REJECT")); for (int l : layouts) emit(t, l); }
            if (r.ok && !r.dontcare && run && accepted.size() < keep) accepted.push_back(t);
            if (!r.ok && r.at_end && !r.dontcare && (int) t.size() < maxlen) dfs(depth + 1, own);
            t.pop_back();
        }
    }
};

static void explore_grammar(vh::Shard &S, vh::Runner &R, const std::vector<int> &layouts)
{
    // 1. viable prefixes of the reference machine, one token off at every point
    { Explorer E{S, 0, desc(0), split("{ } [ ] : , \"i\" \"s\" \"l\" \"m\" \"r\" \"n\" \"zz\" \"x\" 1 true null"), R.pick(g_light ? 6 : 9, 11), layouts}; E.dfs(0, false); }
    { Explorer E{S, 0, desc(0), split("{ } [ ] : , \"m\" \"r\" \"n\" 1 null"), R.pick(g_light ? 9 : 13, 16), layouts}; E.dfs(0, false); }
    { Explorer E{S, 0, desc(0), split("{ } [ ] : , \"l\" \"ls\" \"x\" 1 null @"), R.pick(g_light ? 8 : 11, 13), layouts}; E.dfs(0, false); }
    { Explorer E{S, 0, desc(0), split("{ } [ ] : , \"y\" \"d\" \"b\" \"QQ==\" 1.5 01 true false tru \"a"), R.pick(g_light ? 6 : 9, 10), layouts}; E.dfs(0, false); }
    { Explorer E{S, 2, desc(2), split("{ } [ ] : , \"k\" \"r\" \"v\" 1"), R.pick(g_light ? 9 : 13, 16), layouts}; E.dfs(0, false); }
    { Explorer E{S, 3, desc(3), split("{ } [ ] : , \"a\" 1 null"), R.pick(g_light ? 6 : 9, 11), layouts}; E.dfs(0, false); }
}
static void explore_edits(vh::Shard &S, vh::Runner &R, const std::vector<int> &layouts)
{
    // 2. one-token deletions, insertions, replacements and swaps of the corpus; white space at every boundary; every truncation
    std::vector<std::string> tk = split("{ } [ ] : , \"i\" \"zz\" \"s\" \"n\" 1 -1.5 true null \"x\" \"QQ==\" \"\" tru \"u @ 01 1.e5 ] }");
    for (auto &c : corpus()) {
        auto &t = c.second;
        auto put = [&](const std::vector<std::string> &u) { if (!S.mine()) return; for (int l : layouts) { std::string p(1, (char) c.first); p += join(u, l); S.run("doc", p); S.transition(); } };
        put(t);
        for (size_t k = 0; k <= t.size(); ++k) {
            if (k < t.size()) { auto u = t; u.erase(u.begin() + (long) k); put(u); u = t; u.insert(u.begin() + (long) k, u[k]); put(u); }
            for (auto &x : tk) { auto u = t; u.insert(u.begin() + (long) k, x); put(u); if (k < t.size()) { u = t; u[k] = x; put(u); } }
            for (size_t j = k + 1; j < t.size() && k < t.size(); ++j) { auto u = t; std::swap(u[k], u[j]); put(u); }
            { auto u = t; u.resize(k); put(u); }
            if (R.thorough()) for (auto &x : tk) for (auto &y : tk) for (size_t j = k; j < t.size(); ++j) { auto u = t; u[j] = x; u.insert(u.begin() + (long) k, y); put(u); }
        }
        // white space at every token boundary, in every kind
        for (size_t k = 0; k <= t.size(); ++k) for (auto w : { " ", "\t", "\n", "\r", "\r\n", " \n\t ", "          ", "\n\n\n", "\f", "\v", "\xc2\xa0", "\xef\xbb\xbf", "/", "#" }) {
            if (!S.mine()) continue;
            std::string p(1, (char) c.first), doc; for (size_t j = 0; j < t.size(); ++j) { if (j == k) doc += w; doc += t[j]; } if (k == t.size()) doc += w; S.run("doc", p + doc); S.transition();
        }
        for (int l : layouts) { std::string doc = join(t, l); for (size_t k = 0; k <= doc.size(); ++k) { if (S.mine()) S.run("doc", std::string(1, (char) c.first) + doc.substr(0, k)); if (k < doc.size() && S.mine()) S.run("doc", std::string(1, (char) c.first) + doc.substr(0, k) + doc.substr(k + 1)); } }
    }
    // 3. every lexeme for every field of every type, with something after it
    const MsgD &all = desc(1);
    for (auto &f : all.fields) for (auto &x : lexemes()) {
        if (!S.mine()) continue;
        auto put = [&](const std::string &s) { S.run("doc", "\1" + s); S.transition(); };
        std::string n = "\"" + f.json + "\"";
        put("{" + n + ":" + x + "}"); put("{" + n + ":[" + x + "]}"); put("{\n\n" + n + " :\n  " + x + "\n}"); put("{\"f_bool\":true," + n + ":" + x + ",\"r_bool\":[true]}");
        put("{" + n + ":[" + x + "," + x + "]}"); put("{" + n + ":[null," + x + ",null]}");
        if (f.json != "m") { put("{\"m\":{\"i\":{\"n\":" + x + "}}," + n + ":null}"); put("{\"rm\":[{\"r\":[{\"s\":" + x + "}]}]}"); }
    }
    // 4. names: near misses of the field names, in clear and escaped
    for (auto &f : desc(0).fields) {
        auto &n = f.json; std::vector<std::string> v = { n, n + n, n + " ", " " + n, n + "\\u0000", "\\u0000" + n, n.substr(0, n.size() - 1), n.substr(1), n + "_", "_" + n, "" };
        std::string e1, e2, up = n; char b[8]; for (char c : n) { snprintf(b, sizeof b, "\\u%04x", c); e1 += b; snprintf(b, sizeof b, "\\u%04X", c); e2 += b; }
        up[0] = (char) toupper(up[0]); v.push_back(e1); v.push_back(e2); v.push_back(up); v.push_back(n + "\\n"); v.push_back("\\\\" + n); v.push_back("\\/" + n);
        for (auto &k : v) for (auto x : { "1", "\"QQ==\"", "[]", "{}", "null", "true", "[\"QQ==\"]", "[1]" }) { if (S.mine()) { S.run("doc", std::string("\0{\"", 3) + k + "\":" + x + "}"); S.transition(); } }
    }
    // 5. every order of five members
    { std::vector<std::string> m = { "\"i\":1", "\"s\":\"x\"", "\"l\":[1,2]", "\"m\":{\"n\":3}", "\"zz\":[{}]" }; std::sort(m.begin(), m.end());
      do { if (S.mine()) { std::string doc = "{"; for (auto &x : m) doc += (doc.size() > 1 ? "," : "") + x; S.run("doc", std::string(1, '\0') + doc + "}"); S.transition(); } } while (std::next_permutation(m.begin(), m.end())); }
    // 6. sizes: long strings, arrays, many members, many lines and columns
    for (int n : { 1, 2, 15, 16, 17, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1000, 1023, 1024, 4096, 32767, 32768, 65535, 65536, 70000 }) {
        if (!S.mine()) continue;
        std::string pad(n, ' '), nl(n, '\n'), str(n, 'a'), P(1, '\0');
        S.run("doc", P + "{\"s\":\"" + str + "\"}"); S.run("doc", P + "{" + pad + "\"i\":tru}"); S.run("doc", P + "{" + nl + "\"i\":tru}"); S.run("doc", P + "{" + nl + pad + "\"i\" 1}");
        S.run("doc", P + "{\"s\":\"" + str + "\", \"i\":\"x\"}"); S.run("doc", P + "{\"" + str + "\":1,\"i\":2}"); S.run("doc", P + "{\"s\":\"" + str); S.run("doc", P + "{\"s\":\"" + str + "\\");
        std::string arr; for (int k = 0; k < n; ++k) arr += (k ? "," : "") + std::to_string(k); S.run("doc", P + "{\"l\":[" + arr + "]}"); S.run("doc", P + "{\"l\":[" + arr + "}"); S.run("doc", P + "{\"zz\":[" + arr + "],\"i\":1}");
        std::string rep; for (int k = 0; k < n; ++k) rep += (k ? ",{\"n\":" : "{\"n\":") + std::to_string(k) + "}"; S.run("doc", P + "{\"r\":[" + rep + "]}");
        std::string crlf; for (int k = 0; k < n; ++k) crlf += "\r\n"; S.run("doc", P + "{" + crlf + "\"i\":}");
        std::string num(n, '1'); S.run("doc", P + "{\"d\":0." + num + "}"); S.run("doc", P + "{\"d\":" + num + "}"); S.run("doc", P + "{\"i\":" + num + "}"); S.run("doc", P + "{\"i\":1" + std::string(n, '0') + "e-" + std::to_string(n) + "}");
        std::string b(n - n % 4 + 4, 'Q'); S.run("doc", P + "{\"y\":\"" + b + "\"}"); S.run("doc", P + "{\"y\":\"" + b + "=\"}");
        for (int k = 0; k < 18; ++k) S.transition();
    }
}

static void explore_skip(vh::Shard &S, vh::Runner &R)
{
    // all JSON values up to a number of tokens
    std::vector<std::string> values; {
        std::vector<std::string> al = split("{ } [ ] : , \"n\" 1 null"); int max = R.pick(7, 9);
        std::vector<std::string> t; const MsgD &none = desc(3);
        std::function<void()> rec = [&]() {
            for (auto &a : al) {
                t.push_back(a); std::string v = join(t, 0);
                Result r = Reader("{\"zz\":" + v + "}").object(none);
                if (r.ok) values.push_back(v);
                Result q = Reader("{\"zz\":" + v).object(none);
                if (q.at_end && (int) t.size() < max && !q.dontcare && !r.ok) rec();
                t.pop_back();
            }
        };
        rec();
    }
    for (auto v : { "\"}\"", "\"]\"", "\"\\\"}\"", "\"\\\\\"", "\"{[\"", "\",\"", "\":\"", "\"\\u0022}\"", "true", "false", "-1.5e10", "1e999", "123456789012345678901234567890", "\"\\ud83d\\ude00\"", "\"\xe2\x82\xac\"", "[\"]\",\"[\"]", "{\"}\":\"{\"}", "{\"i\":1,\"s\":\"q\",\"m\":{\"n\":1}}", "[[[[[[]]]]]]", "{\"n\":{\"n\":{\"n\":{\"n\":{}}}}}", "[true,false,null,0,-0.0,\"\"]", "{\"\":\"\"}" }) values.push_back(v);
    S.count("skipped_values", S.id == 0 ? values.size() : 0);
    // base documents with the places where a member can be inserted marked by '^'
    std::vector<std::pair<int, std::string>> bases = {
        { 0, "{^}" }, { 0, "{^\"i\":1^}" }, { 0, "{\"i\":1^,\"s\":\"x\"^}" }, { 0, "{\"m\":{^\"n\":1^,\"t\":\"q\"^},\"i\":3}" }, { 0, "{\"r\":[{^},{^\"n\":1^},{\"n\":2^}],\"l\":[1,2]^}" }, { 0, "{\"l\":[1]^,\"y\":\"QQ==\"^,\"d\":2.5^,\"b\":false^}" },
        { 1, "{\"m\":{\"i\":{\"n\":1^},\"r\":[{^\"s\":\"a\"}]^}^,\"rm\":[{\"d\":1^}]^}" }, { 2, "{\"k\":{\"k\":{^\"v\":1^}^},\"r\":[{^}]}" }, { 3, "{^}" } };
    for (auto &b : bases) b.second = ren(b.second);
    // puts a member at a mark of a base document
    auto place = [&](const std::pair<int, std::string> &b, size_t pos, const std::string &n, const std::string &v, int ws, bool must) {
        std::string pre, post; for (size_t k = 0; k < b.second.size(); ++k) if (b.second[k] != '^') (k < pos ? pre : post) += b.second[k];
        std::string mem = "\"" + n + "\"" + (ws ? "\n : " : ":") + v; if (ws) mem += "\n";
        bool first = pre.back() == '{', last = post[0] == '}';
        if (!first && post[0] != '}' && post[0] != ',') return;
        std::string ins = first ? (last ? mem : mem + ",") : "," + mem;
        uint32_t o = (uint32_t) pre.size(), l = (uint32_t) ins.size();
        std::string p(1, (char) b.first); p.append((const char*) &o, 4); p.append((const char*) &l, 4);
        // is it really unknown there? ask the reference
        Result r = Reader(pre + ins + post).object(desc(b.first)), q = Reader(pre + post).object(desc(b.first));
        if (r.dontcare) return;
        if (!r.ok || !q.ok || r.v != q.v) { if (!must) return; fprintf(stderr, "bad base %s\n", (pre + ins + post).c_str()); _exit(92); }
        S.run("skip", p + pre + ins + post); S.transition(); S.state(vh::hash(b.second + std::to_string(pos) + v));
    };
    // names: unknown, transient, prefixes and extensions of field names, empty, escaped
    std::vector<std::string> names[4] = { { "zz", "h", "", "ii", "I", "sx", "\\u007a", "n ", "\\u0000", "hm" }, { "zz", "t", "tm", "f_int3", "" }, { "zz", "vv" }, { "zz", "a" } };
    for (auto &b : bases) for (size_t pos = 0; (pos = b.second.find('^', pos)) != std::string::npos; ++pos) for (auto &n : names[b.first])
        for (auto &v : values) for (int ws = 0; ws < 2; ++ws) {
            if (!S.mine()) continue;
            if ((n != "zz" || g_light) && v.size() > 6 && &v < &values[values.size() - 22] && !R.thorough()) continue;
            place(b, pos, n, v, ws, true);
        }
    // names one edit away from those of the fields, wherever they are not fields themselves
    bases.push_back({ 4, "{^}" });
    std::vector<const char*> small = { "1", "\"QQ==\"", "null", "{}", "[]", "[1]", "[{}]", "[\"QQ==\"]", "true", "1.5", "{\"n\":1,\"t\":\"x\"}" };
    std::set<std::string> near[5];
    for (int k = 0; k < 5; ++k) {
        std::set<std::string> fields; std::function<void(const MsgD&)> add = [&](const MsgD &d) { for (auto &f : d.fields) { fields.insert(f.json); fields.insert(f.cname); if (f.ref) add(*f.ref); } }; add(desc(k));
        for (auto &f : fields) {
            size_t n = f.size(); auto &o = near[k];
            size_t step = n > 40 ? 7 : 1;
            for (size_t i = 0; i <= n; i += (i + step > n && i < n) ? n - i : step) {
                if (i < n) { std::string x = f; x.erase(i, 1); o.insert(x); x = f; x.insert(i, 1, f[i]); o.insert(x); x = f; x[i] = (char) (isalpha((unsigned char) x[i]) ? x[i] ^ 0x20 : x[i] + 1); o.insert(x); if (i + 1 < n) { x = f; std::swap(x[i], x[i + 1]); o.insert(x); } o.insert(f.substr(0, i)); o.insert(f.substr(i)); }
                for (auto c : { "_", "a", "0", "9", " ", "\\u0000", "\\u0001", "\\u0000x", "\\n", "\\\"", "\\\\", "\xc3\xa9", "\\ud83d\\ude00", ".", "-", "$", "/" }) { std::string x = f; x.insert(i, c); o.insert(x); if (i < n) { x = f; x.replace(i, 1, c); o.insert(x); } }
                char b[24]; if (i < n) for (int hi : { 1, 0x20, 0xff }) { snprintf(b, sizeof b, "\\u%02x%02x", hi, (unsigned char) f[i]); std::string x = f; x.replace(i, 1, b); o.insert(x); }
            }
            o.insert(f + f); o.insert(f + "." + f); o.insert("0" + f); o.insert(f + ".0"); o.insert(f + "e0"); o.insert("+" + f); o.insert("\\u0000"); o.insert("0x" + f);
            std::string up, camel; bool u = false; for (char c : f) { up += (char) toupper(c); if (c == '_') u = true; else { camel += u ? (char) toupper(c) : c; u = false; } } o.insert(up); o.insert(camel);
        }
    }
    for (auto &b : bases) for (size_t pos = 0; (pos = b.second.find('^', pos)) != std::string::npos; ++pos) {
        size_t k = 0; for (auto &n : near[b.first]) for (auto v : small) { ++k; if (!S.mine()) continue; if (b.first != 0 && !R.thorough() && k % 3 && pos != 1) continue; place(b, pos, n, ren(v), 0, false); }
    }
    // all names of one and two characters, and of one unit of any value
    { std::pair<int, std::string> b{ 0, ren("{\"i\":4,\"s\":\"q\",\"l\":[5],\"m\":{\"n\":1},\"y\":\"QQ==\",\"d\":1.5,\"b\":true^}") }, c{ 0, ren("{\"m\":{^\"n\":4,\"t\":\"q\"}}") }; size_t bp = b.second.find('^'), cp = c.second.find('^');
      auto esc = [](int x) { return x == '"' || x == '\\' ? std::string("\\") + (char) x : std::string(1, (char) x); };
      for (int x = 0x20; x < 0x7f; ++x) { if (!S.mine()) continue; for (int y = 0x1f; y < 0x7f; ++y) for (auto v : { "1", "\"QQ==\"", "[]", "null" }) { std::string n = esc(x) + (y > 0x1f ? esc(y) : ""); place(b, bp, n, v, 0, false); if (!g_light) place(c, cp, n, v, 0, false); } }
      for (unsigned x = 0; x < 0x10000; ++x) { if (x % 64 == 0 ? !S.mine() : false) { x += 63; continue; } char u[8]; snprintf(u, sizeof u, "\\u%04x", x); for (auto v : { "1", "null" }) { place(b, bp, u, v, 0, false); if (!g_light) place(c, cp, u, v, 0, false); } } }
    // malformed values: every token sequence one token off
    for (auto pre : { "{ \"zz\" :", "{ \"i\" : 1 , \"zz\" :", "{ \"m\" : { \"zz\" :", "{ \"r\" : [ { \"zz\" :", "{ \"h\" :" }) {
        Explorer E{S, 0, desc(0), split("{ } [ ] : , \"n\" 1 null @ \"u tru"), g_light ? 4 : R.pick(6, 8), { 0 }}; E.t = split(pre); E.maxlen += (int) E.t.size(); E.dfs(0, false);
    }
    // edits of documents with skipped members
    { std::vector<std::string> tk = split("{ } [ ] : , \"i\" 1 null tru @");
      for (auto s : { "{ \"zz\" : { \"a\" : [ 1 , { \"b\" : null } , \"]\" ] , \"c\" : { } } , \"i\" : 5 }", "{ \"i\" : 5 , \"zz\" : [ [ ] , [ [ ] , { \"x\" : [ ] } ] , { } , 1 ] , \"s\" : \"x\" }", "{ \"m\" : { \"zz\" : [ { } ] , \"n\" : 1 } , \"h\" : { \"n\" : [ true ] } }" }) {
        auto t = split(s); auto put = [&](const std::vector<std::string> &u) { if (S.mine()) { S.run("doc", std::string(1, '\0') + join(u, 0)); S.transition(); } };
        for (size_t k = 0; k <= t.size(); ++k) for (auto &x : tk) { auto u = t; u.insert(u.begin() + (long) k, x); put(u); if (k < t.size()) { u = t; u[k] = x; put(u); u = t; u.erase(u.begin() + (long) k); put(u); } u = t; u.resize(k); put(u);
            for (auto &y : tk) for (size_t j = k + 1; j < t.size(); ++j) { auto w = t; w[j] = y; w.insert(w.begin() + (long) k, x); put(w); } }
      } }
    // depth and size ladder
    std::vector<int> depths; for (int k = 1; k <= (g_light ? 66 : R.pick(300, 1100)); ++k) depths.push_back(k);
    for (int k : { 1023, 1024, 1025, 2000, 4095, 4096, 4097, 5000, 10000, 20000, 50000, 65535, 65536, 100000, 200000, 500000, 1000000 }) depths.push_back(k);
    if (R.thorough()) for (int k : { 2000000, 3000000 }) depths.push_back(k);
    for (int n : depths) for (int shape = 0; shape < 4; ++shape) {
        if (!S.mine()) continue;
        std::string v;
        if (shape == 0) v = std::string((size_t) n, '[') + std::string((size_t) n, ']');
        else if (shape == 1) { for (int k = 0; k < n; ++k) v += "{\"n\":"; v += "1" + std::string((size_t) n, '}'); }
        else if (shape == 2) { std::string e; for (int k = 0; k < n; ++k) { if (k % 2) { v += "{\"a\":"; e = "}"; } else { v += "["; } } v += "null"; for (int k = n - 1; k >= 0; --k) v += k % 2 ? '}' : ']'; }
        else { v = "["; for (int k = 0; k < n; ++k) v += k ? ",[]" : "[]"; v += "]"; }
        if (v.size() > vh::CASE_MAX - 100) continue;
        std::string pre = ren("{\"i\":1"), ins = ",\"zz\":" + v, post = ren(",\"s\":\"x\"}");
        uint32_t o = (uint32_t) pre.size(), l = (uint32_t) ins.size(); std::string p(1, '\0'); p.append((const char*) &o, 4); p.append((const char*) &l, 4);
        S.run("skip", p + pre + ins + post); S.transition();
        // the same, unbalanced
        if (n <= 4096) { S.run("doc", std::string(1, '\0') + "{\"i\":1,\"zz\":" + v.substr(0, v.size() - 1) + ",\"s\":\"x\"}"); S.run("doc", std::string(1, '\0') + "{\"i\":1,\"zz\":" + v + "],\"s\":\"x\"}"); S.run("doc", std::string(1, '\0') + "{\"i\":1,\"zz\":" + v.substr(0, v.size() - 1)); S.run("doc", std::string(1, '\0') + "{\"i\":1,\"zz\":" + v.substr(0, v.size() - 1) + (v.back() == ']' ? '}' : ']') + "}"); }
    }
}

static void explore_bytes(vh::Shard &S, vh::Runner &R)
{
    std::vector<std::string> ctx = { "", "{", "{\"", "{\"i", "{\"i\"", "{\"i\":", "{\"i\":1", "{\"s\":\"", "{\"s\":\"\\", "{\"s\":\"\\u", "{\"s\":\"\\ud8", "{\"s\":\"\\ud83d", "{\"s\":\"\\ud83d\\u", "{\"y\":\"", "{\"y\":\"QUJ", "{\"d\":", "{\"d\":-1", "{\"d\":1e", "{\"l\":[", "{\"l\":[1,", "{\"m\":{", "{\"r\":[{\"n\":", "{\"zz\":", "{\"zz\":[{\"a\":", "{\"zz\":\"", "{\"b\":", "{\"b\":tr" };
    std::string sig = std::string("{}[]:,\"\\u01-.eE+tnl \n\0", 21) + "\xff\xc3" "dD8=Qi";
    int L = R.pick(g_light ? 2 : 3, 4);
    for (auto &c : ctx) {
        std::function<void(std::string&, int)> rec = [&](std::string &s, int n) {
            if (n == 2 && !S.mine()) return;
            if (n >= 2 || S.id == 0) { S.run("doc", std::string(1, '\0') + c + s); }
            if (n < L) for (char x : sig) { s += x; rec(s, n + 1); s.pop_back(); }
        };
        std::string s; rec(s, 0);
        // any byte, any two bytes
        for (int a = 0; a < 256; ++a) { if (!S.mine()) continue; std::string p = std::string(1, '\0') + c + (char) a; S.run("doc", p); S.run("doc", p + "\"}"); for (int b = 0; b < 256; b += R.pick(g_light ? 37 : c.size() < 8 ? 1 : 3, 1)) S.run("doc", p + (char) b); }
    }
    // the same for arrays
    for (int k = 0; k < 6; ++k) for (auto &c : array_contexts(k)) {
        std::function<void(std::string&, int)> rec = [&](std::string &s, int n) {
            if (n == 2 && !S.mine()) return;
            if (n >= 2 || S.id == 0) { S.run("arr", std::string(1, (char) k) + c + s); }
            if (n < L) for (char x : sig) { s += x; rec(s, n + 1); s.pop_back(); }
        };
        std::string s; rec(s, 0);
        for (int a = 0; a < 256; ++a) { if (!S.mine()) continue; std::string p = std::string(1, (char) k) + c + (char) a; S.run("arr", p + "]"); for (int b = 0; b < 256; b += R.pick(g_light ? 37 : 3, 1)) S.run("arr", p + (char) b); }
    }
    // every prefix and every one-byte change of the corpus
    for (auto &c : corpus()) for (int l : { 0, 1 }) {
        if (g_light && l) continue;
        std::string doc = join(c.second, l), P(1, (char) c.first);
        for (size_t k = 0; k <= doc.size(); ++k) {
            if (!S.mine()) continue;
            S.run("doc", P + doc.substr(0, k));
            for (int b = 0; b < 256; ++b) { if (k < doc.size()) { std::string u = doc; u[k] = (char) b; S.run("doc", P + u); } if (l == 0) { std::string u = doc; u.insert(k, 1, (char) b); S.run("doc", P + u); } }
            if (k < doc.size()) { std::string u = doc; u.erase(k, 1); S.run("doc", P + u); }
            if (l == 0) for (size_t j = k + 1; j <= doc.size(); ++j) { std::string u = doc; u.erase(k, j - k); S.run("doc", P + u); }
        }
    }
    // sizes
    std::vector<int> sizes = { 1000, 10000, 65536, 100000, 300000, 1000000 }; if (g_light) sizes = { 1000, 65536 }; if (R.thorough()) sizes.push_back(4000000);
    for (int n : sizes) for (auto pre : ctx) for (auto unit : { "[", "{\"k\":", "{\"zz\":", "[[],", "\"", "\\", "1", "-", " ", "\n", "a", ",", ":", "]", "}", "{", "\\u0041", "\\ud83d", "null,", "{\"m\":", "{\"r\":[", "=", "e1" }) {
        if (!S.mine()) continue;
        if (n > 65536 && pre.size() > 8 && pre.find("zz") == std::string::npos && !R.thorough()) continue;
        std::string doc = pre; size_t u = strlen(unit); while (doc.size() + u <= (size_t) n) doc += unit;
        S.run("doc", std::string(1, '\0') + doc);
        if (n <= 65536) { S.run("doc", "\2" + doc); S.run("doc", "\1" + doc); }
    }
    for (int n : sizes) for (int k = 0; k < 6; ++k) for (auto &pre : array_contexts(k)) for (auto unit : { "[", "{", "{\"k\":", "{},", "\"", "\"\",", "\\", "1", "1,", "-", "1.5,", "true,", "null,", " ", "\n", "a", ",", "]" }) {
        if (!S.mine()) continue;
        std::string doc = pre; size_t u = strlen(unit); while (doc.size() + u <= (size_t) n) doc += unit;
        S.run("arr", std::string(1, (char) k) + doc); if (n <= 65536) S.run("arr", std::string(1, (char) k) + doc + "]");
    }
}

// C06: one Parameters object shared by a sequence of operations; the state after each depends on it only
static const char *OPDOCS[] = { "{\"i\":1}", "{\n\"i\":tru}", "{\"i\":1,\n  \"s\" 2}", "{\n\n1:2}", "[1]", "{\"zz\":[1 2]}", "{\"l\":{}}", "", "{\"m\":{\"n\":\n\"x\"}}", "null" };
static const int NDOCS = 10;
static std::string opdoc(int k) { return ren(OPDOCS[k]); }
template<typename M> static std::string check_ops(const std::string &ops)
{
    PG::Parameters shared; M target; std::string text;
    const MsgD &d = desc_of((const M*) nullptr);
    for (size_t k = 0; k < ops.size(); ++k) {
        int op = (unsigned char) ops[k]; std::string where = " (operation " + std::to_string(k) + ")";
        if (op < NDOCS) {
            Result want = Reader(opdoc(op)).object(d);
            M fresh; PG::Parameters alone;
            bool ok = target.deserialize(opdoc(op), &shared), ok2 = fresh.deserialize(opdoc(op), &alone);
            if (ok != ok2) return "the verdict depends on earlier operations" + where;
            if (shared.error.code != alone.error.code || shared.error.line != alone.error.line || shared.error.column != alone.error.column || shared.error.message != alone.error.message) return "the error information depends on earlier operations: " + err(shared) + " instead of " + err(alone) + where;
            if (ok) { if (!clear_error(shared)) return "success with error " + err(shared) + where; }
            else { std::string e = check_error(want, shared); if (!e.empty()) return e + where; }
        } else if (op == NDOCS) { // a serialization that succeeds
            M o; o.i = 1; std::string t; if (!o.serialize(t, &shared)) return "serialization fails" + where; if (!clear_error(shared)) return "successful serialization with error " + err(shared) + where; if (t != ren("{\"i\":1}")) return "wrong text " + t + where;
        } else if (op == NDOCS + 1) { // one that fails
            M o; o.s = "\xff"; std::string t; bool keep = shared.ensure_ascii; shared.ensure_ascii = true; bool r = o.serialize(t, &shared); shared.ensure_ascii = keep; if (r) return "invalid text serialized" + where; if (shared.error.code == PG::PGERR_OK || shared.error.message.empty()) return "failure without error" + where;
        } else if (op == NDOCS + 2) { // the target becomes new again
            target.clear(); M fresh; if (!(target == fresh) || !target.empty() || br::value_of(target) != br::value_of(fresh)) return "cleared object differs from a new one" + where;
            M o; if (!target.deserialize(ren("{\"i\":5,\"l\":[1]}")) || !o.deserialize(ren("{\"i\":5,\"l\":[1]}")) || !(o == target)) return "cleared object behaves differently" + where; target.clear();
        } else if (op == NDOCS + 3) { // without parameters: the parameters stay as they are
            auto before = shared.error; M o; o.deserialize(ren("{\"i\":")); if (shared.error.code != before.code || shared.error.line != before.line) return "parameters changed by an operation that does not use them" + where;
        } else { // arrays share the parameters, too
            std::vector<M> a; bool r = PG::deserialize_array(a, ren(op == NDOCS + 4 ? "[{\"i\":1},\n{}]" : "[{\"i\":1},\n{]"), &shared);
            if (r != (op == NDOCS + 4)) return "wrong verdict on an array" + where;
            if (r ? !clear_error(shared) : shared.error.code == PG::PGERR_OK || shared.error.line != 2 || shared.error.column != 2) return "wrong error information after an array: " + err(shared) + where;
        }
    }
    vh::info().traces = 1;
    return "";
}
// the error information as a value
static std::string check_errorinfo(const std::string &p)
{
    auto make = [](int k) { PG::ErrorInfo e; if (k == 0) return e; e.code = (PG::error_code) (k / 9 % 3); e.line = k % 3; e.column = k / 3 % 3; e.message = k / 27 ? "text" : ""; return e; };
    PG::ErrorInfo a = make((unsigned char) p[0]), b = make((unsigned char) p[1]), fresh; PG::Parameters par;
    if (fresh.code != PG::PGERR_OK || fresh.line || fresh.column || !fresh.message.empty() || !(par.error == fresh) || par.ensure_ascii || par.serialize_null) return "new error information or parameters";
    if ((a == b) != (a.code == b.code && a.line == b.line && a.column == b.column)) return "equality";
    for (int c = 0; c < 3; ++c) if ((a == (PG::error_code) c) != ((int) a.code == c)) return "comparison with a code";
    if ((bool) a != (a.code == PG::PGERR_OK)) return "conversion to bool";
    PG::ErrorInfo c(a), d; d = a; if (!(c == a) || !(d == a) || c.message != a.message || d.message != a.message) return "copy";
    PG::ErrorInfo f(a.code, a.message, a.line, a.column); if (!(f == a) || f.message != a.message) return "construction";
    d.clear(); if (!(d == fresh) || !d.message.empty() || !d) return "clear";
    return "";
}
static void explore_ops(vh::Shard &S, vh::Runner &R)
{
    int n = NDOCS + 6, depth = R.pick(g_light ? 3 : 4, 5);
    std::function<void(std::string&)> rec = [&](std::string &s) {
        if (s.size() == 2 && !S.mine()) return;
        if (!s.empty() && (s.size() >= 2 || S.id == 0)) { S.run("ops", s); S.transition(); S.state(vh::hash("ops" + std::to_string((int) s.back()) + (s.size() > 1 ? std::to_string((int) s[s.size() - 2]) : ""))); }
        if ((int) s.size() < depth) for (int k = 0; k < n; ++k) { s += (char) k; rec(s); s.pop_back(); }
    };
    std::string s; rec(s);
    for (int a = 0; a < 54; ++a) for (int b = 0; b < 54; ++b) if (S.mine()) S.run("err", std::string{ (char) a, (char) b });
}

int main(int argc, char **argv)
{
    vh::Runner R(argc, argv);
    PROP = R.opts["prop"];
    g_light = R.opts.count("light");
    R.kind("doc", [](const std::string &p) { return FNS[(size_t) p[0]](ren(p.substr(1))); });
    R.kind("arr", [](const std::string &p) { return ARRAYS[(size_t) p[0]](ren(p.substr(1))); });
    R.kind("skip", [](const std::string &p) { return SKIPS[(size_t) p[0]](p.substr(1)); });
    R.kind("ops", [](const std::string &p) { return check_ops<NS::Doc>(p); });
    R.kind("err", check_errorinfo);
    R.show = [](const std::string &k, const std::string &p) { if (k == "ops" || k == "err") { std::string o; for (char c : p) o += std::to_string((int) c) + " "; return o; } if (k == "arr") { static const char *N[] = { "vector<Doc>", "vector<int32_t>", "list<string>", "vector<bool>", "vector<double>", "list<Deep>" }; return std::string(N[(size_t) p[0]]) + " <- " + vh::printable(p.substr(1), 1500); } return desc(p[0]).name + " <- " + vh::printable(p.substr(k == "skip" ? 9 : 1), 1500); };
    return R.explore([&](vh::Shard &S) {
        typedef std::vector<int> L;
        if (is("C04")) { explore_grammar(S, R, { 0 }); explore_edits(S, R, g_light ? L{ 0 } : L{ 0, 2 }); }
        else if (is("C06")) { explore_grammar(S, R, g_light ? L{ 0 } : L{ 0, 1 }); explore_edits(S, R, g_light ? L{ 1 } : L{ 0, 1, 2, 3 }); explore_ops(S, R); }
        else if (is("C05")) explore_skip(S, R);
        else explore_bytes(S, R);
    });
}
