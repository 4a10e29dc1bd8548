// C12, C13: the schema parser against the reference grammar machine.
#include "vh.hh"
#include "refproto.hh"
#include <protogen/protogen.hh>
#include <fstream>

static std::string PROP;
static bool is(const char *p) { return PROP == p; }

static std::string dump(const rp::Opts &o) { std::string s; for (auto &x : o) s += " " + x.first + ":" + x.second.type + ":" + x.second.value; return s; }
static std::string dump(const rp::Ast &a)
{
    std::string s = "options" + dump(a.options);
    for (auto &m : a.messages) {
        s += "; message " + m.qname() + dump(m.options) + " {";
        for (auto &f : m.fields) s += " " + f.name + "=" + std::to_string(f.num) + (f.repeated ? " repeated " : f.optional ? " optional " : " ") + f.type + (f.target >= 0 ? "->" + std::to_string(f.target) : std::string()) + dump(f.options) + ";";
        s += " }";
    }
    return s;
}
static rp::Opts options(const protogen::OptionMap &m)
{
    rp::Opts o;
    for (auto &e : m) { rp::Opt x; x.value = e.second.value; switch (e.second.type) { case protogen::OptionType::IDENTIFIER: x.type = 'n'; break; case protogen::OptionType::STRING: x.type = 's'; break; case protogen::OptionType::INTEGER: x.type = 'i'; break; default: x.type = 'b'; } o[e.first] = x; }
    return o;
}
static rp::Ast ast_of(const protogen::Proto3 &p)
{
    rp::Ast a; a.options = options(p.options);
    static const char *N[] = { "double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string", "bytes" };
    for (auto &m : p.messages) {
        rp::Msg x; x.name = m->name; x.package = m->package; x.options = options(m->options);
        for (auto &f : m->fields) {
            rp::Fld y; y.name = f.name; y.num = f.index; y.repeated = f.type.repeated; y.optional = f.type.optional; y.options = options(f.options);
            int id = (int) f.type.id;
            if (id >= 6 && id <= 20) y.type = N[id - 6];
            else if (id == (int) protogen::TYPE_MESSAGE) { y.type = f.type.qname; for (size_t k = 0; k < p.messages.size(); ++k) if (p.messages[k] == f.type.ref) y.target = (int) k; if (y.target < 0) y.type += " (bound to nothing)"; }
            else y.type = "?";
            x.fields.push_back(y);
        }
        a.messages.push_back(x);
    }
    return a;
}

// the outcome of the real parser
struct Got { bool ok = false; std::string what; int line = 0, col = 0; };
static Got real(const std::string &text, protogen::Proto3 &p, bool generate = false, std::string *header = nullptr)
{
    Got g;
    try {
        std::istringstream in(text); p.parse(in, "f.proto");
        if (generate) { std::ostringstream o; protogen::CppGenerator gen; gen.generate(p, o); if (header) *header = o.str(); }
        g.ok = true;
    }
    catch (protogen::exception &e) { g.what = e.cause(); g.line = e.line; g.col = e.column; if (e.what() == nullptr || !*e.what()) g.what.clear(); if (g.what.empty()) throw std::string("an exception without a message"); }
    return g;
}
static std::string show_got(const Got &g) { return g.what + " at " + std::to_string(g.line) + ":" + std::to_string(g.col); }

// C12: verdict and meaning
static std::string check_parse(const std::string &text)
{
    rp::Result want = rp::Reader(text).parse();
    protogen::Proto3 p; Got g = real(text, p);
    vh::info().outcome = g.ok ? "ok" : g.what; vh::info().traces = 1;
    if (want.verdict == rp::DONTCARE) { vh::info().nontrivial = false; return ""; }
    if (g.ok != (want.verdict == rp::ACCEPT)) return g.ok ? "accepted, although: " + want.why + "; understood as " + dump(ast_of(p)) : "rejected (" + show_got(g) + ") although it is valid: " + dump(want.ast);
    if (!g.ok) return "";
    for (auto &m : want.ast.messages) for (auto &f : m.fields) if (f.target >= 0) f.type = want.ast.messages[(size_t) f.target].qname();
    std::string a = dump(want.ast), b = dump(ast_of(p));
    if (a != b) return "understood as " + b.substr(0, 1500) + " instead of " + a.substr(0, 1500);
    return "";
}
// C13: an end, and the place of a syntax error
static std::string check_diag(const std::string &text)
{
    rp::Result want = rp::Reader(text).parse();
    protogen::Proto3 p; Got g;
    try { g = real(text, p, true); } catch (std::string &s) { return s; }
    catch (std::exception &e) { return std::string("another exception: ") + e.what(); }
    catch (...) { return "an unknown exception"; }
    vh::info().outcome = g.ok ? "ok" : g.what; vh::info().traces = 1;
    if (g.ok || want.verdict != rp::REJECT || !want.syntax || !want.pos) return "";
    if (g.line != want.line || (want.col_known && g.col != want.col)) return "diagnosis " + show_got(g) + " instead of " + std::to_string(want.line) + ":" + (want.col_known ? std::to_string(want.col) : std::string("any")) + " (" + want.why + ")";
    return "";
}
static std::string check_robust(const std::string &text)
{
    protogen::Proto3 p; Got g;
    try { g = real(text, p, true); } catch (std::string &s) { return s; }
    catch (std::exception &e) { return std::string("another exception: ") + e.what(); }
    catch (...) { return "an unknown exception"; }
    vh::info().outcome = g.ok ? "ok" : g.what;
    return "";
}

static std::vector<std::string> split(const std::string &s)
{
    std::vector<std::string> v; std::string w;
    for (size_t i = 0; i <= s.size(); ++i) if (i == s.size() || s[i] == ' ') { if (!w.empty()) v.push_back(w); w.clear(); } else w += s[i];
    return v;
}
static bool wordy(unsigned char c) { return isalnum(c) || c == '_' || c == '.'; }
static std::string join(const std::vector<std::string> &t, int layout)
{
    static const char *SEP[] = { " ", "", "\n", "\r\n\t", " // c } \"\n", "/* a\n * } */", "\t/**/ //\r\n  ", " \n/* \xC3\xA9 **/\n" };
    std::string o;
    for (size_t i = 0; i < t.size(); ++i) {
        if (i) { if (layout != 1) o += SEP[layout]; else if (wordy((unsigned char) o.back()) && wordy((unsigned char) t[i][0])) o += ' '; }
        std::string w = t[i]; for (size_t k = 0; (k = w.find("\\n", k)) != std::string::npos;) w.replace(k, 2, "\n");
        o += w;
    }
    return o;
}

struct Dfs {
    vh::Shard &S; const char *kind; std::vector<std::string> alphabet; size_t maxlen; std::vector<int> layouts; size_t cut;
    std::vector<std::string> t;
    void run(const std::string &prefix) { t = split(prefix); if (!t.empty()) S.run(kind, join(t, 0)); cut += t.size(); maxlen += t.size(); go(false); }
    void go(bool own) {
        for (auto &a : alphabet) {
            if (t.size() == cut + 4) { if (!S.mine()) continue; own = true; }
            t.push_back(a);
            rp::Result r = rp::Reader(join(t, 0)).parse();
            S.beat();
            if (own || (t.size() <= cut + 4 && S.id == 0)) {
                S.transition(); S.state(vh::hash(r.state + (r.verdict == rp::ACCEPT ? "!" : r.at_end ? "" : "X") + dump(r.ast)));
                for (int l : layouts) S.run(kind, join(t, l));
            }
            if ((r.verdict != rp::REJECT || r.at_end || r.why.compare(0, 12, "unknown type") == 0) && t.size() < maxlen) go(own);
            t.pop_back();
        }
    }
};

static const char *P3 = "syntax = \"proto3\" ;";

static std::vector<std::string> corpus()
{
    return {
        "syntax = \"proto3\" ; package a.b ; option number_names = true ; option java_package = \"x.y\" ; message A { int32 a = 1 ; repeated string b = 2 [ name = \"q\" , transient = false ] ; optional bytes c = 3 ; B d = 536870911 ; repeated a.b.B e = 18999 ; } message B { option deprecated = true ; double f = 20000 ; }",
        "syntax = \"proto3\" ; message package { float message = 1 ; uint64 package = 2 ; } message C { package p = 7 ; repeated package q = 6 ; }",
        "syntax = \"proto3\" ; package p ; message E { } message F { sint32 x = 3 ; sint64 y = 2 ; fixed32 z = 1 ; fixed64 w = 4 ; sfixed32 v = 5 ; sfixed64 u = 6 ; bool t = 7 ; uint32 s = 8 ; int64 r = 9 ; }",
        "syntax = \"proto3\" ; package x.y.z ; message G { y.z.H a = 1 ; z.H b = 2 ; H c = 3 ; x.y.z.H d = 4 ; } message H { int32 i = 1 [ a = b , c = d.e , f = 10 , g = \"\" ] ; }",
        "syntax = \"proto3\" ; option o = \"caf\xC3\xA9 // /* \" ; message I { }",
    };
}
static std::vector<std::string> vocabulary()
{
    auto v = split("syntax \"proto3\" \"proto2\" \"\" ; package p p.q option = true 1 0 message A B { } int32 string bytes repeated optional a b [ ] , enum map < > oneof reserved import extend service a. .a @ - ( ) 'x' \"u /*u / * 1.5 0x1 536870912 19000 4294967297 18446744073709551617 // # $ x\xC3\xA9");
    return v;
}

static void edits(vh::Shard &S, const char *kind, const std::vector<int> &layouts, bool pairs)
{
    auto voc = vocabulary();
    auto emit = [&](const std::vector<std::string> &t) { S.transition(); for (int l : layouts) S.run(kind, join(t, l)); };
    for (auto &doc : corpus()) {
        // fold string tokens holding spaces
        std::vector<std::string> t; for (auto &w : split(doc)) { if (!t.empty() && t.back()[0] == '"' && (t.back().size() == 1 || t.back().back() != '"')) t.back() += " " + w; else t.push_back(w); }
        for (size_t i = 0; i <= t.size(); ++i) {
            if (!S.mine()) continue;
            { auto u = t; u.resize(i); emit(u); }                                  // truncation
            if (i < t.size()) { auto u = t; u.erase(u.begin() + (long) i); emit(u); }
            if (i + 1 < t.size()) { auto u = t; std::swap(u[i], u[i + 1]); emit(u); }
            if (i < t.size()) { auto u = t; u.insert(u.begin() + (long) i, t[i]); emit(u); }
            for (auto &w : voc) {
                { auto u = t; u.insert(u.begin() + (long) i, w); emit(u); }
                if (i < t.size()) { auto u = t; u[i] = w; emit(u); }
            }
            // replaced by / exchanged with every other token of the document
            for (size_t j = 0; j < t.size(); ++j) if (i < t.size() && j != i) { auto u = t; u[i] = t[j]; emit(u); if (j > i) { u[j] = t[i]; emit(u); } }
            if (pairs && i < t.size()) for (size_t j = i + 1; j < t.size(); ++j) {
                auto u = t; u.erase(u.begin() + (long) j); u.erase(u.begin() + (long) i); emit(u);
                static const std::vector<std::string> few = { ";", "=", "{", "}", "a", "1", "[", "]", "," };
                for (auto &x : few) for (auto &y : few) { u = t; u[i] = x; u[j] = y; emit(u); }
            }
        }
    }
}

static void explore_c12(vh::Shard &S, vh::Runner &R, const char *kind, const std::vector<int> &layouts)
{
    auto dfs = [&](const char *alphabet, int quick, int thorough, const std::string &prefix) { Dfs{S, kind, split(alphabet), (size_t) R.pick(quick, thorough), layouts, 0, {}}.run(prefix); };
    std::string p3 = P3;
    dfs("message A B { } int32 repeated optional a b = 1 2 ;", 11, 13, p3);
    dfs("int32 a b = 1 2 ; }", 14, 17, p3 + " message A {");
    dfs("string A a b = 1 2 ; } message B {", 11, 13, p3 + " message A { int32 a = 1 ;");
    dfs("message A B p.A { } a b = 1 2 ; package p", 11, 13, p3);
    dfs("B p.B b = 1 ; } message {", 15, 18, p3 + " package p ; message A {");
    dfs("option o q.r = true 1 \"s\" id ; [ ] , message A { } int32 a", 9, 11, p3);
    dfs("o q.r = false 0 \"\" x.y ; [ ] , }", 9, 11, p3 + " message A { bool a = 1 [");
    dfs("package p p.q ; message A B { } A p.A q.A p.q.A B q.p.A a = 1", 9, 11, p3);
    dfs("A B q.A p.q.A q.B a b = 1 2 ; repeated } message {", 10, 12, p3 + " package p.q ; message A {");
    dfs("message A { } int32 a = 1 ; \"x\" \"u /*u @ a. map < > enum . //c\\n /*c*/ option syntax package", 6, 8, p3);
    dfs("syntax = \"proto3\" \"proto2\" ; package p option o true message A { }", 10, 12, "");
}
static void explore_numbers(vh::Shard &S, const char *kind)
{
    std::vector<std::string> n;
    for (long b : { 0L, 1L, 2L, 127L, 128L, 18998L, 18999L, 19000L, 19001L, 19500L, 19998L, 19999L, 20000L, 20001L, 32767L, 32768L, 65535L, 65536L, 536870910L, 536870911L, 536870912L, 536870913L, 2147483646L, 2147483647L, 2147483648L, 4294967295L, 4294967296L, 4294967297L }) n.push_back(std::to_string(b));
    for (int k = 0; k < 70; ++k) { unsigned __int128 v = (unsigned __int128) 1 << k; for (int d = -1; d <= 2; ++d) { unsigned __int128 x = v + (unsigned __int128) (__int128) d; std::string s; do { s.insert(s.begin(), (char) ('0' + (int) (x % 10))); x /= 10; } while (x); if (s.size() < 30) n.push_back(s); } }
    for (int k = 1; k < 40; ++k) { n.push_back("1" + std::string((size_t) k, '0')); n.push_back(std::string((size_t) k, '9')); n.push_back("5" + std::string((size_t) k, '3')); }
    std::sort(n.begin(), n.end()); n.erase(std::unique(n.begin(), n.end()), n.end());
    for (auto &a : n) for (int k = 0; k < 3; ++k) {
        if (!S.mine()) continue;
        const char *decl[] = { "int32 a = ", "repeated string a = ", "A a = " };
        S.run(kind, std::string(P3) + " message M { " + decl[k] + a + "; } message A {}");
        S.run(kind, std::string(P3) + " message M { " + decl[k] + a + " [x=y]; int32 b = 3; } message A {}");
        // the same number twice, near numbers
        for (auto &b : n) if (a.size() <= 10 && b.size() <= 10) S.run(kind, std::string(P3) + " message M { int32 a = " + a + "; " + (k ? "string" : "B") + " b = " + b + "; } message A {} message B {}");
    }
    for (long v = 18900; v <= 20100; ++v) if (S.mine()) S.run(kind, std::string(P3) + " message M { int32 a = " + std::to_string(v) + "; }");
}
// many declarations: duplicates at every distance
static void explore_many(vh::Shard &S, const char *kind, int max)
{
    for (int n = 1; n <= max; n += n < 8 ? 1 : n / 3) for (int dup = -1; dup < n; ++dup) for (int what = 0; what < 3; ++what) {
        if (dup > 3 && dup < n - 3 && dup % 7) continue;
        if (!S.mine()) continue;
        std::string m = std::string(P3) + " package a.b; ", f = m + "message X {\n";
        for (int i = 0; i < n; ++i) { m += "message M" + std::to_string(i) + " { int32 a = 1; }\n"; f += "  int64 f" + std::to_string(i) + " = " + std::to_string(i + 1) + ";\n"; }
        if (what == 0) { if (dup >= 0) m += "message M" + std::to_string(dup) + " {}"; S.run(kind, m); }
        else if (dup >= 0) { f += what == 1 ? "string f" + std::to_string(dup) + " = 1000;" : "string g = " + std::to_string(dup + 1) + ";"; S.run(kind, f + "}"); }
        else { S.run(kind, f + "}"); // a type in every position of the file
            for (int i = 0; i < n; i += 1 + n / 5) S.run(kind, m + "message Z { M" + std::to_string(i) + " a = 1; b.M" + std::to_string(i) + " b = 2; M" + std::to_string(n) + " c = 3; }"); }
    }
}
// every name position: words of many shapes
static void explore_names(vh::Shard &S, const char *kind)
{
    std::vector<std::string> w = split("a A _ _a a1 a_1 A9z messages Message MESSAGE repeatedx int3 int32x int320 int32_ boolean strings doubles floaty optiona options packages syntaxx mapp enumm truee falsey optionaly x.y _._ a1.b2 int32.a a.int32 message.a a.message string.string option.option true.false repeated.x x1y2z3");
    for (int l : { 63, 64, 127, 128, 255, 256, 1000, 4096 }) { w.push_back(std::string((size_t) l, 'n')); w.push_back("q." + std::string((size_t) l, 'n')); }
    for (auto k : split("message repeated string enum double float bool int32 int64 uint32 uint64 sint32 sint64 fixed32 fixed64 sfixed32 sfixed64 bytes package syntax map option true false optional")) w.push_back(k);
    const char *T[] = { "message % { int32 x = 1; }", "message M { int32 % = 1; }", "message M { % x = 1; }", "message M { repeated % x = 1; }", "message M { optional % x = 1; }", "package %;", "package %; message M { % x = 1; }", "option % = true;", "option x = %;", "message M { option % = 1; }", "message M { int32 a = 1 [%=2]; }",
        "message M { int32 a = 1 [x=%]; }", "message M { int32 a = 1 [x=%,y=%]; }", "message % { } message M { % x = 1; }", "package p; message % { } message M { p.% x = 1; }", "message M { int32 % = 1; } message N { int32 % = 1; M m = 2; }", "%", "% x;", "message M { % }", "message M { % x; }", "message M { x % = 1; }", "message M { int32 x % 1; }", "message M { int32 x = %; }", "message M { int32 x = 1 %; }", "message M %", "message % %", "package p.%; message M { p.% x = 1; M y = 2; p.%.M z = 3; }" };
    for (auto t : T) for (auto &x : w) {
        if (!S.mine()) continue;
        std::string d; for (const char *c = t; *c; ++c) if (*c == '%') d += x; else d += *c;
        S.run(kind, std::string(P3) + "\n" + d);
    }
    // two names that nearly agree: as fields, messages, types, options
    std::vector<std::string> near; { std::function<void(const std::string&)> rec = [&](const std::string &x) { if (!x.empty()) near.push_back(x); if (x.size() < 3) for (char c : std::string(x.empty() ? "aA_" : "aA_1")) rec(x + c); }; rec(""); }
    for (auto x : { "abcdefgh", "abcdefgH", "abcdefg", "abcdefghi", "abcdefg_", "Abcdefgh" }) near.push_back(x);
    for (size_t l : { 15, 16, 31, 32, 63, 64, 255, 256, 1000 }) for (char c : std::string("nm")) { near.push_back(std::string(l, 'n') + c); near.push_back(c + std::string(l, 'n')); }
    for (auto &a : near) for (auto &b : near) {
        if (!S.mine()) continue; std::string p3 = P3;
        S.run(kind, p3 + "message M { int32 " + a + " = 1; string " + b + " = 2; }");
        S.run(kind, p3 + "message " + a + " { int32 x = 1; } message " + b + " { " + a + " y = 1; }");
        S.run(kind, p3 + "package " + a + "; message " + b + " { int32 x = 1; } message Q0 { " + a + "." + b + " y = 1; " + b + " z = 2; }");
        if (a.size() < 3 && b.size() < 3) { S.run(kind, p3 + "package " + a + "." + b + "; message C { int32 x = 1; } message Q0 { " + b + ".C y = 1; " + a + "." + b + ".C z = 2; C w = 3; }"); S.run(kind, p3 + "package " + a + "." + b + "; message C { int32 x = 1; } message Q0 { " + a + ".C y = 1; }"); S.run(kind, p3 + "option " + a + " = \"x\"; option " + b + "1 = 2; message M { int32 f = 1 [" + a + " = true, " + b + "2 = \"q\"]; }"); }
    }
    // string literals: every byte, every pair of special bytes
    for (int a = 0; a < 256; ++a) { if (!S.mine()) continue; for (auto pre : { "", "ab" }) { std::string s = std::string(P3) + "option o = \"" + pre + std::string(1, (char) a); S.run(kind, s + "\";"); S.run(kind, s + "c\"; message M {}"); } }
}

static void bytes_edits(vh::Shard &S, const char *kind, bool all)
{
    for (auto &doc : corpus()) {
        std::string d; { std::vector<std::string> t; for (auto &w : split(doc)) t.push_back(w); d = join(t, 0); }
        for (int layout = 0; layout < 2; ++layout) {
            if (layout) { for (auto &c : d) if (c == ';') c = '\n'; std::string e; for (auto c : d) { if (c == '\n') e += ";\r\n"; else e += c; } d = e; }
            for (size_t i = 0; i <= d.size(); ++i) {
                if (!S.mine()) continue;
                S.transition();
                S.run(kind, d.substr(0, i)); S.run(kind, d.substr(i));
                if (i < d.size()) S.run(kind, d.substr(0, i) + d.substr(i + 1));
                static const char SOME[] = "\0\n\r\t \"/*{}=;,.[]<>a1_@'\\\xC3\xFF\x7F"; static const std::string some(SOME, sizeof SOME - 1);
                for (int c = 0; c < 256; ++c) {
                    if (!all && some.find((char) c) == std::string::npos) continue;
                    if (i < d.size()) { std::string u = d; u[i] = (char) c; S.run(kind, u); }
                    S.run(kind, d.substr(0, i) + (char) c + d.substr(i));
                }
            }
        }
    }
}
static void explore_bytes(vh::Shard &S, vh::Runner &R, const char *kind)
{
    static const std::vector<std::string> ctx = { "", "syntax", "syntax = ", "syntax = \"proto3", "syntax = \"proto3\";", "package p", "package p;", "option o", "option o = ", "option o = \"", "message", "message M ", "message M {", "message M { int32", "message M { int32 a ", "message M { int32 a = ", "message M { int32 a = 1", "message M { int32 a = 1 [", "message M { int32 a = 1 [o", "message M { int32 a = 1 [o=", "message M { int32 a = 1 [o=1", "message M { int32 a = 1 [o=1]", "message M { int32 a = 1;", "message M { int32 a = 1; }", "message M { option o = 1", "//", "/*", "/* *", "message M { M.a", "message M{}\n\n  \r\n  " };
    static const char SIG[] = "\n\r /*\"={};,[]<>.a1_-\0\xFF"; static const std::string sig(SIG, sizeof SIG - 1);
    for (auto &c : ctx) {
        for (int a = 0; a < 256; ++a) {
            if (!S.mine()) continue;
            S.run(kind, c + (char) a);
            for (int b = 0; b < 256; ++b) S.run(kind, c + (char) a + (char) b);
        }
        int depth = R.pick(3, 4);
        for (size_t a = 0; a < sig.size(); ++a) for (size_t b = 0; b < sig.size(); ++b) {
            if (!S.mine()) continue;
            std::string x = c + sig[a] + sig[b];
            for (size_t k = 0; k < sig.size(); ++k) { S.run(kind, x + sig[k]); if (depth > 3) for (size_t l = 0; l < sig.size(); ++l) S.run(kind, x + sig[k] + sig[l]); }
        }
    }
    // token strings, whatever the grammar
    auto voc = split("message option package syntax = ; { } [ ] , 1 a \"s\" int32 repeated //\\n /**/");
    for (auto &a : voc) for (auto &b : voc) { if (!S.mine()) continue; for (auto &c : voc) { for (auto &d : voc) { S.run(kind, join({a, b, c, d}, 0)); if (R.thorough()) for (auto &e : voc) S.run(kind, join({a, b, c, d, e}, 0)); } } }
}
static std::string rep(const std::string &u, size_t n) { std::string s; s.reserve(u.size() * n); for (size_t i = 0; i < n; ++i) s += u; return s; }
static void explore_sizes(vh::Shard &S, vh::Runner &R, const char *kind)
{
    static const std::vector<std::string> ctx = { "", "syntax = \"proto3\";", "message M {", "message M { int32 a = 1 [", "message M { int32 a = ", "option o = ", "option o = \"", "package p", "message ", "/*", "//", "message M { int32 " };
    static const std::vector<std::string> unit = { " ", "\n", "\r", "\t", "a", "a.", "1", "\"", "\"\"", "/", "*", "/*", "*/", "//\n", "/**/", "{", "}", "[", "]", "<", ";", "=", ",", "message ", "a=1,", "option a=1;", "[a=1]", "repeated ", ".", std::string(1, 0), "\xFF" };
    bool huge = R.opts["part"] == "huge";
    size_t max = (size_t) R.pick(200000, 2000000); std::vector<int> many = { 10, 63, 64, 65, 100, 1000, R.pick(2000, 5000) };
    if (huge) { max = (size_t) R.pick(4000000, 32000000); many = { 20000, R.pick(100000, 400000) }; }
    for (auto &c : ctx) for (auto &u : unit) for (size_t n = huge ? max : 10; n <= max; n *= 10) { if (!S.mine()) continue; S.run(kind, c + rep(u, n)); S.run(kind, c + rep(u, n) + "; }"); }
    // many messages, fields, references
    for (int n : many) for (int k = 0; k < 10; ++k) {
        if (!S.mine()) continue;
        std::string s = "syntax = \"proto3\"; package p.q;\n", N; auto T = [](int i) { return std::to_string(i); };
        for (int i = 0; i < n; ++i) switch (k) {
            case 0: s += "message M" + T(i) + " { int32 a = 1; }\n"; break;
            case 1: s += "message M" + T(i) + " { " + (i + 1 < n ? "M" + T(i + 1) + " a = 1;" : "") + " }\n"; break;                       // chain, forward
            case 2: s += "message M" + T(i) + " { " + (i ? "M" + T(i - 1) + " a = 1;" : "") + " }\n"; break;                               // chain, backward
            case 3: s += "message M" + T(i) + " { " + (i + 1 < n ? "M" + T(i + 1) + " a = 1; repeated M" + T(i + 1) + " b = 2;" : "") + " }\n"; break; // 2^n paths
            case 4: s += "message M" + T(i) + " { M" + T((i + 1) % n) + " a = 1; }\n"; break;                                              // ring
            case 5: s += "message M" + T(i) + " { " + (i ? "M" + T(i - 1) + " a = 1; M" + T(i / 2) + " b = 2; M0 c = 3;" : "") + " }\n"; break;
            case 6: s += (i ? "" : "message M {\n") + std::string("  int32 f") + T(i) + " = " + T(i + 1) + ";\n" + (i + 1 < n ? "" : "}\n"); break;
            case 8: s += "message M" + T(i) + " { " + (i + 1 < n ? "M" + T(n - 1) + " a = 1;" : "") + " }\n"; break;                       // a star
            case 9: s += (i ? "" : "message M {\n") + std::string("  M f") + T(i) + " = " + T(n - i) + " [name=\"" + T(i) + "\"];\n" + (i + 1 < n ? "" : "}\n"); break;
            case 7: s += "option o" + T(i) + " = \"x\";\n"; break;
        }
        S.run(kind, s);
    }
}

int main(int argc, char **argv)
{
    vh::Runner R(argc, argv);
    PROP = R.opts["prop"];
    R.kinds = { { "parse", check_parse }, { "diag", check_diag }, { "robust", check_robust } };
    if (is("C12")) return R.explore([&](vh::Shard &S) {
        explore_c12(S, R, "parse", { 0, 1 });
        edits(S, "parse", { 0, 4 }, R.thorough());
        explore_numbers(S, "parse"); explore_many(S, "parse", R.pick(100, 400)); explore_names(S, "parse");
        bytes_edits(S, "parse", true);
    });
    if (R.opts["part"] == "layouts") return R.explore([&](vh::Shard &S) {
        { // an error at every line and column
            std::vector<int> at; for (int n = 0; n <= 300; ++n) at.push_back(n); for (int p = 512; p <= 1 << R.pick(17, 20); p *= 2) for (int d = -3; d <= 1; ++d) at.push_back(p + d);
            for (int n : at) for (auto unit : { "\n", "\r\n", " ", "\t", "//\n", "/**/", "/*\n*/", "//x\r\n", "/**/\n" }) for (auto tail : { "@", "message M { int32 = 1; }", "message M { int32 a = 1 }", "\"", "x" }) {
                if (n > 300 && *tail != '@') continue;
                if (!S.mine()) continue;
                std::string u; for (int k = 0; k < n; ++k) u += unit; std::string p3 = P3;
                S.run("diag", p3 + u + tail); if (n <= 300) { S.run("diag", u + p3 + "\n" + tail); S.run("diag", p3 + "/*" + std::string((size_t) n, '*') + "*/" + tail); S.run("diag", p3 + "// " + std::string((size_t) n, 'c') + "\n " + tail); S.run("diag", p3 + " option o = \"" + std::string((size_t) n, 's') + "\" ; " + tail); S.run("diag", p3 + " package " + std::string((size_t) n + 1, 's') + "; " + tail); }
            }
        }
        edits(S, "diag", { 0, 1, 2, 3, 4, 5, 6, 7 }, R.thorough());
        explore_names(S, "diag");
        // comments and white space of every short shape before an error
        auto sep = split("_ \\t \\n \\r\\n //\\n //x*/\\n /**/ /*\\n*/ /***/ /*/*/ /*//*/ //\"\\n /*\"*/ //\\r\\n");
        for (auto &x : sep) { for (size_t k; (k = x.find("\\t")) != std::string::npos;) x.replace(k, 2, "\t"); for (size_t k; (k = x.find("\\n")) != std::string::npos;) x.replace(k, 2, "\n"); for (size_t k; (k = x.find("\\r")) != std::string::npos;) x.replace(k, 2, "\r"); if (x == "_") x = " "; }
        static const std::vector<std::pair<std::string,std::string>> errs = { { "syntax = \"proto3\";", "@" }, { "syntax = \"proto3\";message M {", "]" }, { "syntax = \"proto3\";message M { int32 a = ", ";}" }, { "syntax = \"proto3\";message M { int32 a = 1", "x" }, { "syntax = \"proto3\";message M {int32 a=1[x=", ",]" }, { "syntax = \"proto3\";option o", "\"u" }, { "", "/*" }, { "package p", "" }, { "message M { int32 a = 1;", "a.;" } };
        for (auto &e : errs) for (auto &a : sep) for (auto &b : sep) { if (!S.mine()) continue; S.run("diag", e.first + a + b + e.second); for (auto &c : sep) { S.run("diag", e.first + a + b + c + e.second); S.run("diag", a + e.first + b + c + e.second); if (R.thorough()) for (auto &d : sep) S.run("diag", a + b + e.first + c + d + e.second); } }
    });
    if (R.opts["part"] == "grammar") return R.explore([&](vh::Shard &S) { explore_c12(S, R, "diag", { 2, 3 }); });
    if (R.opts["part"] == "sizes" || R.opts["part"] == "huge") return R.explore([&](vh::Shard &S) { explore_sizes(S, R, "robust"); });
    return R.explore([&](vh::Shard &S) { explore_bytes(S, R, "diag"); bytes_edits(S, "diag", R.thorough()); });
}
