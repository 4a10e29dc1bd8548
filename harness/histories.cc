// C19: layouts, compile histories and assignment orders.
#include "hist.pg.hh"
#include <protogen/protogen.hh>
#include "vh.hh"
#include <numeric>
#ifndef PG
#define PG protogen_3_0_0
#endif
typedef std::vector<std::string> Toks;
static Toks toks(const std::string &s) { Toks t; std::istringstream i(s); std::string w; while (i >> w) { if (w[0] == '"') for (auto &c : w) if (c == '~') c = ' '; t.push_back(w); } return t; }
static const std::vector<Toks> &schemas()
{
    static std::vector<Toks> s = {
        toks("syntax = \"proto3\" ; package a.b ; option obfuscate_strings = true ; message A { int32 x = 1 ; string s = 2 [ name = \"o~//~/*~x\" , transient = false ] ; } message B { repeated A l = 1 ; a.b.A m = 2 ; bytes y = 3 [ transient = true ] ; }"),
        toks("syntax = \"proto3\" ; message C { D d = 3 ; double e = 31 ; } option cpp_use_lists = true ; message D { option foo = bar ; repeated string t = 10 ; } message E { }"),
        toks("syntax = \"proto3\" ; package q ; option number_names = true ; message M { Other message = 1 ; } message Other { bool a = 7 ; uint64 b = 9 ; float package = 11 ; }"),
    };
    return s;
}
static bool punct(const std::string &t) { return t.size() == 1 && !isalnum((unsigned char) t[0]) && t[0] != '_'; }
static const std::vector<std::string> &seps() { static std::vector<std::string> s = { " ", "\n", "\t", "\r\n", "  \n\n ", "/**/", "/* a */", "// c\n", "//\n", " /* // */ ", "/***/", "/* \n * ; } \n */", "// /* \n", "// \"x\r\n", "/*\"*/", "\t \t", "// \xC3\xA9\n", "" }; return s; }
static std::string layout(size_t k, const std::map<size_t, size_t> &at)
{
    const Toks &t = schemas()[k]; std::string o;
    for (size_t i = 0; i <= t.size(); ++i) {
        auto it = at.find(i); size_t sp = it == at.end() ? 0 : it->second;
        if (seps()[sp].empty() && i > 0 && i < t.size() && !punct(t[i]) && !punct(t[i - 1]) && t[i][0] != '"' && t[i - 1][0] != '"') sp = 0;
        if (i > 0 || it != at.end()) o += seps()[sp];
        if (i < t.size()) o += t[i];
    }
    return o;
}
struct Out { bool ok; std::string text; };
static Out compile(const std::string &text, const std::string &file = "/some/where/file.proto")
{
    protogen::Proto3 p; std::istringstream in(text); std::ostringstream o;
    try {
        p.parse(in, file);
        for (auto &m : p.messages) std::sort(m->fields.begin(), m->fields.end(), [](const protogen::Field &a, const protogen::Field &b) { return a.name < b.name; });
        protogen::CppGenerator g; g.generate(p, o);
    } catch (protogen::exception &e) { return { false, std::string(e.what()) + " " + e.cause() + " " + std::to_string(e.line) + ":" + std::to_string(e.column) }; }
    return { true, o.str() };
}
static std::string diff(const std::string &a, const std::string &b) { size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) ++k; return vh::printable(a.substr(k > 30 ? k - 30 : 0, 200)) + "  INSTEAD OF  " + vh::printable(b.substr(k > 30 ? k - 30 : 0, 200)); }
static Out in_child(const std::string &text)
{
    int fd[2]; if (pipe(fd)) _exit(92);
    pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]); Out o = compile(text); std::string t = (o.ok ? "1" : "0") + o.text;
        size_t at = 0; while (at < t.size()) { ssize_t k = write(fd[1], t.data() + at, t.size() - at); if (k <= 0) _exit(1); at += (size_t) k; }
        _exit(0);
    }
    close(fd[1]); std::string t; char b[65536]; ssize_t k; while ((k = read(fd[0], b, sizeof b)) > 0) t.append(b, (size_t) k);
    close(fd[0]); int st; waitpid(pid, &st, 0); if (t.empty() || !WIFEXITED(st) || WEXITSTATUS(st)) return { false, "the process fails" };
    return { t[0] == '1', t.substr(1) };
}
static std::string check_layout(const std::string &p)
{
    static std::map<size_t, std::string> base; size_t k = (size_t) (unsigned char) p[0];
    if (!base.count(k)) { Out b = in_child(layout(k, {})); if (!b.ok) return "a valid schema is rejected: " + b.text; base[k] = b.text; }
    std::map<size_t, size_t> at;
    if (p[1] == 'a') for (size_t i = 0; i <= schemas()[k].size(); ++i) at[i] = (size_t) p[2];
    else for (size_t i = 2; i + 1 < p.size(); i += 2) at[(size_t) (unsigned char) p[i]] = (size_t) p[i + 1];
    std::string text = layout(k, at); Out g = compile(text);
    if (!g.ok) return "rejected (" + g.text + "): " + vh::printable(text, 1500);
    if (g.text != base[k]) return "another header: " + diff(g.text, base[k]) + " for " + vh::printable(text, 1500);
    return "";
}
// ---- histories
static const std::vector<std::string> &library()
{
    static std::vector<std::string> s = {
        layout(0, {}), layout(1, {}), layout(2, {}),
        "syntax = \"proto3\"; message A { int32 x = 1; }",                                   // the same names, other options
        "syntax = \"proto3\"; option number_names = true; message A { int32 x = 1; bytes y = 2; }",
        "syntax = \"proto3\"; package a.b; message A { repeated string z = 1; } message B { A a = 1; }",
        "syntax = \"proto3\"; option obfuscate_strings = true; message B { bytes b = 1; }",
        "syntax = \"proto3\"; option number_names = true; option obfuscate_strings = true; option cpp_use_lists = true; message A { int32 x = 1; B b = 2 2; }",
        "syntax = \"proto3\"; option cpp_use_lists = true; package zz; message A { Nope b = 2; }",
        "syntax = \"proto3\"; message A { B b = 1; } message B { A a = 1; }",
        "syntax = \"proto3\"; option obfuscate_strings = true; message A { int32 x = 1 [name = \"q\"]; int32 q = 2; }",
        "", "syntax = \"proto3\"; message A { int32 x = 1 [name = \"unterminated", "/* open",
    };
    return s;
}
// one per schema, made before anything else is compiled in this process
static const std::vector<Out> &alone() { static std::vector<Out> base; if (base.empty()) for (auto &s : library()) base.push_back(in_child(s)); return base; }
static std::string check_history(const std::string &p)
{
    // the reference is what a process gives whose first and only compilation it is; in this one many came before
    const std::vector<Out> &base = alone();
    for (size_t i = 0; i < p.size(); ++i) {
        size_t k = (size_t) (unsigned char) p[i]; Out g = compile(library()[k]);
        if (g.ok != base[k].ok || g.text != base[k].text) return "compilation " + std::to_string(i + 1) + " of the history gives " + diff(g.text, base[k].text);
    }
    return "";
}
// the same objects again: the generator, the schema
static std::string check_reuse(const std::string &p)
{
    protogen::CppGenerator g;
    for (size_t i = 0; i < p.size(); ++i) {
        size_t k = (size_t) (unsigned char) p[i]; const Out &want = alone()[k];
        protogen::Proto3 s; std::istringstream in(library()[k]); std::ostringstream o, o2; bool ok = true; std::string e;
        try {
            s.parse(in, "/some/where/file.proto"); for (auto &m : s.messages) std::sort(m->fields.begin(), m->fields.end(), [](const protogen::Field &a, const protogen::Field &b) { return a.name < b.name; });
            g.generate(s, o); g.generate(s, o2);
        } catch (protogen::exception &x) { ok = false; e = std::string(x.what()) + " " + x.cause() + " " + std::to_string(x.line) + ":" + std::to_string(x.column); }
        if (ok != want.ok || (ok ? o.str() : e) != want.text) return "with a used generator: " + diff(ok ? o.str() : e, want.text);
        if (ok && o2.str() != want.text) return "generated twice: " + diff(o2.str(), want.text);
    }
    return "";
}
// ---- assignment orders
struct Asg { std::function<void(::hist::H&)> set; std::string member; };
static const std::vector<Asg> &asgs()
{
    typedef ::hist::H H;
    static std::vector<Asg> a = {
        { [](H &h) { h.a = 5; }, "\"a\":5" }, { [](H &h) { h.b = "text"; }, "\"b\":\"text\"" }, { [](H &h) { h.c.push_back(1.5); h.c.push_back(2); }, "\"c\":[1.5,2]" }, { [](H &h) { h.d.n = 3; h.d.t = "x"; }, "\"d\":{\"t\":\"x\",\"n\":3}" },
        { [](H &h) { h.e.push_back(1); h.e.push_back(255); }, "\"e\":\"Af8=\"" }, { [](H &h) { h.f.resize(2); h.f[1].n = 9; }, "\"f\":[{},{\"n\":9}]" }, { [](H &h) { h.g = true; }, "\"g\":true" } };
    return a;
}
static std::string text_of(const ::hist::H &h) { std::string o; h.serialize(o); return o; }
static std::string check_assign(const std::string &p)
{
    std::string sorted = p; std::sort(sorted.begin(), sorted.end());
    ::hist::H base; for (char c : sorted) asgs()[(size_t) c].set(base);
    std::string want = text_of(base);
    ::hist::H h; for (char c : p) asgs()[(size_t) c].set(h);
    if (text_of(h) != want) return "written " + text_of(h) + " instead of " + want;
    ::hist::H twice; for (char c : p) { asgs()[(size_t) c].set(twice); twice.clear(); } for (char c : p) asgs()[(size_t) c].set(twice);
    if (text_of(twice) != want) return "after clear: " + text_of(twice) + " instead of " + want;
    if (!(h == base)) return "not equal";
    // the members of the text in the same orders
    std::string doc = "{"; for (char c : p) { if (doc.size() > 1) doc += ","; doc += asgs()[(size_t) c].member; } doc += "}";
    ::hist::H r; if (!r.deserialize(doc)) return "rejected: " + doc;
    if (text_of(r) != want) return "read from " + doc + ", written " + text_of(r) + " instead of " + want;
    vh::info().traces = 3;
    return "";
}
int main(int argc, char **argv)
{
    vh::Runner R(argc, argv);
    R.kinds = { { "layout", check_layout }, { "history", check_history }, { "reuse", check_reuse }, { "assign", check_assign } };
    alone();
    return R.explore([&](vh::Shard &S) {
        bool th = R.thorough();
        check_history(""); 
        size_t L = library().size();
        int depth = R.pick(4, 5);
        // histories share their prefixes: one long walk that contains every sequence (of that length) once
        std::function<void(std::string)> seqs = [&](std::string p) { if (p.size() == (size_t) depth) { S.run("history", p); return; } for (size_t k = 0; k < L; ++k) { if (p.size() == 1 && !S.mine()) continue; S.state(vh::hash(p + (char) k)); S.transition(); seqs(p + (char) k); } };
        seqs("");
        for (size_t a = 0; a < L; ++a) for (size_t b = 0; b < L; ++b) for (size_t c = 0; c < L; ++c) if (S.mine()) S.run("reuse", std::string(1, (char) a) + (char) b + (char) c);
        for (size_t k = 0; k < schemas().size(); ++k) {
            size_t n = schemas()[k].size(), m = seps().size(); std::string h(1, (char) k);
            for (size_t s = 0; s < m; ++s) if (S.mine()) S.run("layout", h + 'a' + (char) s);
            for (size_t i = 0; i <= n; ++i) for (size_t s = 0; s < m; ++s) if (S.mine()) S.run("layout", h + 's' + (char) i + (char) s);
            for (size_t i = 0; i <= n; ++i) for (size_t j = i + 1; j <= n; ++j) {
                if (!S.mine()) continue; if (!th && j > i + 4 && (i + j) % 3) continue;
                for (size_t s = 0; s < m; ++s) for (size_t t = 0; t < m; ++t) { if (!th && j > i + 2 && (s * 7 + t) % 5 != (i + j) % 5) continue; S.run("layout", h + 's' + (char) i + (char) s + (char) j + (char) t); }
            }
        }
        for (int mask = 0; mask < 128; ++mask) {
            if (!S.mine()) continue;
            std::string p; for (int b = 0; b < 7; ++b) if (mask >> b & 1) p += (char) b;
            do S.run("assign", p); while (std::next_permutation(p.begin(), p.end()));
        }
    });
}
