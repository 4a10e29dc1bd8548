// C13: the work and the memory of the schema compiler, counted, on families of schemas of growing length.
#include "vh.hh"
#include "cost.hh"
#include <protogen/protogen.hh>

static size_t N = 1500;
static std::vector<std::string> parts(const std::string &p) { std::vector<std::string> v(1); for (char c : p) if (c == 1) v.emplace_back(); else v.back() += c; return v; }
// in a unit, '#' is a number of each repetition (from 1), '~' the following one, '^' the one before, '%' half of it and '&' the count from the end
static std::string rep(const std::string &u, size_t n)
{
    std::string s; s.reserve(u.size() * n + 64);
    if (u.find_first_of("#~^%&") == u.npos) { for (size_t i = 0; i < n; ++i) s += u; return s; }
    for (size_t i = 1; i <= n; ++i) for (char c : u) { auto k = c == '#' ? i : c == '~' ? i % n + 1 : c == '^' ? (i > 1 ? i - 1 : 1) : c == '%' ? (i + 1) / 2 : c == '&' ? n + 1 - i : 0; if (k) { auto t = std::to_string(k); s += t; } else s += c; }
    return s;
}
static std::string check(const std::string &payload)
{
    auto v = parts(payload); std::string wrong, outcome;
    auto e = cost::linear([&](size_t n) {
        std::string text = v[0] + rep(v[1], n) + v[2]; if (v.size() > 3) text += rep(v[3], n) + v[4];
        std::istringstream in(text); std::string verdict; cost::Cost c;
        {
            std::ostringstream os;
            c = cost::measure([&]{
                try { protogen::Proto3 p; p.parse(in, "x.proto"); verdict += 'Y'; protogen::CppGenerator g; g.generate(p, os); verdict += 'Y'; }
                catch (protogen::exception &x) { verdict += x.what(); } catch (std::exception &x) { wrong = std::string("another exception: ") + x.what(); }
            });
        }
        c.verdict = verdict; outcome += verdict; return c;
    }, N, true);
    vh::info().outcome = outcome;
    return wrong.empty() ? e : wrong;
}

int main(int argc, char **argv)
{
    vh::Runner R(argc, argv); if (R.thorough()) N = 8000;
    R.kind("cost", check);
    R.show = [](const std::string &, const std::string &p) { auto v = parts(p); std::string s = vh::printable(v[0]) + " + N x " + vh::printable(v[1]) + " + " + vh::printable(v[2]); if (v.size() > 3) s += " + N x " + vh::printable(v[3]) + " + " + vh::printable(v[4]); return s; };
    static const std::vector<std::string> ctx = { "", "syntax = \"proto3\";", "message M {", "message M { int32 a = 1 [", "message M { int32 a = 1 [name=\"", "message M { int32 a = ", "option o = ", "option o = \"", "option o", "package p", "package ", "message ", "/*", "//", "message M { int32 ", "message M { repeated ", "message M { option ", "message M { p.", "message M {} message N { M " };
    static const std::vector<std::string> unit = { " ", "\n", "\r", "\r\n", "\t", "a", "a.", ".a", "1", "0", "\"", "\"\"", "/", "*", "/*", "*/", "//\n", "/**/", "/*\n*/", "//x\n", "{", "}", "[", "]", "<", ";", "=", ",", "message ", "a=1,", "a#=1,", "a#=\"\",", "option a=1;", "option a#=1;", "[a=1]", "repeated ", "optional ", ".", "int32 f# = #;", "string f# = & [name=\"#\"];", "int32 f# = 1;", "M f# = #;", "message A# {}", "package a#;", "syntax=\"proto3\";", std::string(1, 0), "\xFF", "\xC3\xA9" };
    static const std::vector<std::string> suffix = { "", "; }", ";", "\";", "\" ; }", " = 1; }", "] ; }", "\"] ; }", "*/", "\n", "}", "a = 1; }", " {}", "1 ; }", " x = 1; }" };
    const std::string H = "syntax = \"proto3\"; package p.q;\n";
    // prefix, unit, suffix (, unit, suffix)
    const std::vector<std::vector<std::string>> whole = {
        { H, "message M# { int32 a = 1; }\n", "" }, { H, "message M# { M~ a = 1; }\n", "" }, { H, "message M# { M^ a = 1; }\n", "" }, { H + "message M1 {} message Z1 {}", "message Z~ { Z# a = 1; repeated Z# b = 2; }\n", "" }, { H + "message M1 {}", "message N# { M1 c = 3; }\n", "" }, { H, "message M# { M% a = 1; repeated M^ b = 2; }\n", "" },
        { H + "message M {\n", "int32 f# = #;\n", "}" }, { H + "message M {\n", "int32 f# = &;\n", "}" }, { H + "message M {\n", "repeated M f# = # [name=\"#\"];\n", "}" }, { H + "message M {\n", "string f# = # [name=\"abc\\\"#\", transient=true];\n", "}" }, { H + "message M {\n", "int32 f# = #; // a comment of some length\n", "}" }, { H + "message M {\n", "int32 f = #;\n", "}" }, { H + "message M {\n", "int32 f# = 7;\n", "}" },
        { H, "option o# = \"x\";\n", "message M { int32 a = 1; }" }, { H + "message M {", "option o# = x;\n", "int32 a = 1; }" }, { H + "message M { int32 a = 1 [", "o# = 1, ", "x = 2]; }" },
        { H + "option number_names = true;", "message M# { int32 a = 1; M# b = 2; }\n", "" }, { H + "option obfuscate_strings = true; message M {", "int32 f# = #;\n", "}" }, { H + "option cpp_use_lists = true; message M {", "repeated int32 f# = #;\n", "}" }, { H + "option number_names = true; message M {", "optional string f# = #;\n", "}" },
        { "syntax = \"proto3\";", "package p#; message M { int32 a = 1; M b = 2; }\n", "" }, { "syntax = \"proto3\"; message R { int32 x = 1; }", "package p#; message M { R b = 2; M c = 3; }\n", "" }, { "syntax = \"proto3\"; package a", ".a", "; message M { M x = 1; }" }, { "syntax = \"proto3\"; message R {} package a", ".b", "; message M { R x = 1; }" }, { "syntax = \"proto3\"; package a", ".a", "; message M { a.a.M x = 1; }" }, { "syntax = \"proto3\"; package a", ".a", "; message M { Q x = 1; }" }, { "syntax = \"proto3\"; package a", ".a", "; message M { a", ".a", ".M x = 1; }" }, { "syntax = \"proto3\"; message R {} package a", "a", "; message M { R x = 1; }" },
        { H + "message M { Q", "q", " x = 1; }" }, { H + "message Q", "q", " {}", "", "" }, { H + "message Q", "q", " {} message R { Q", "q", " x = 1; }" }, { H + "message M { int32 q", "q", " = 1; }" }, { H + "message M { int32 q = 1 [name=\"", "q", "\"]; }" }, { H + "message M { int32 q = 1 [name=\"", "\\", "\"]; }" }, { H + "message M { int32 q = 1 [name=\"", "\xE2\x82\xAC", "\"]; }" }, { H + "option obfuscate_strings = true; message M { int32 q = 1 [name=\"", "?", "\"]; }" }, { H, "\n", "@" }, { H, " ", "@" } };
    return R.explore([&](vh::Shard &S) {
        auto family = [&](const std::vector<std::string> &v) { if (!S.mine()) return; std::string p; for (size_t k = 0; k < v.size(); ++k) p += (k ? "\1" : "") + v[k]; S.run("cost", p); S.state(vh::hash(p)); S.transition(); };
        for (auto &w : whole) family(w);
        for (auto &c : ctx) for (auto &u : unit) for (auto &s : suffix) family({ c, u, s });
    });
}
