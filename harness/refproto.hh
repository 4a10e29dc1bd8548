// Reference of the supported proto3 subset: lexer, table-like grammar machine, name binding.
// Written from the protobuf language description and the README, not from the parser under test.
#ifndef REFPROTO_HH
#define REFPROTO_HH
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
namespace rp {

struct Opt { char type; std::string value; bool operator==(const Opt &o) const { return type == o.type && value == o.value; } };
typedef std::map<std::string, Opt> Opts;
struct Fld { std::string name, type; long num = 0; bool repeated = false, optional = false; int target = -1; Opts options; };
struct Msg { std::string name, package; std::vector<Fld> fields; Opts options; std::string qname() const { return package.empty() ? name : package + "." + name; } };
struct Ast { std::vector<Msg> messages; Opts options; };

// scalar type name -> number of the type in the public interface (FieldType)
inline int scalar(const std::string &s)
{
    static const char *N[] = { "double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string", "bytes" };
    for (int i = 0; i < 15; ++i) if (s == N[i]) return 6 + i;
    return 0;
}
inline bool keyword(const std::string &s)
{
    static const std::set<std::string> K = { "message", "repeated", "enum", "package", "syntax", "map", "option", "true", "false", "optional" };
    return scalar(s) || K.count(s);
}

enum Kind { END, NAME, QNAME, INT, STR, SYM, BAD };
struct Tok { Kind kind = END; std::string text; int line = 1, col = 1; size_t begin = 0, end = 0; };

enum Verdict { REJECT, ACCEPT, DONTCARE };
struct Result {
    Verdict verdict = REJECT; Ast ast; std::string why; std::string state;
    int line = 0, col = 0; bool pos = false;   // position of the syntax error, when it is determined
    bool col_known = true;
    bool at_end = false;                       // a viable prefix: only the end of input is wrong
    bool syntax = false;                       // failed by syntax (not by meaning)
};

class Reader {
        const std::string &s; size_t i = 0; int line = 1; size_t bol = 0; size_t hi = (size_t) -1, scanned = 0, last_high = (size_t) -1;
        bool acc_dc = false, pos_dc = false, hide_col = false;
        Result r;

        static bool letter(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
        static bool digit(unsigned char c) { return c >= '0' && c <= '9'; }
        void nl() { ++line; bol = i; }
        Tok token() {
            for (;;) {
                if (i >= s.size()) { Tok t; t.kind = END; t.line = line; t.col = (int) (i - bol) + 1; t.begin = t.end = i; return t; }
                unsigned char c = (unsigned char) s[i];
                if (c == '\n') { ++i; nl(); continue; }
                if (c == '\r') { if (i + 1 < s.size() && s[i + 1] != '\n') pos_dc = true; ++i; continue; }
                if (c == ' ' || c == '\t') { ++i; continue; }
                if (c == '\v' || c == '\f') { acc_dc = pos_dc = true; ++i; continue; }
                Tok t; t.line = line; t.col = (int) (i - bol) + 1; t.begin = i;
                for (; scanned < i; ++scanned) if ((unsigned char) s[scanned] >= 0x80) last_high = scanned;
                hide_col = last_high != (size_t) -1 && last_high >= bol;
                if (c == '/') {
                    if (i + 1 < s.size() && s[i + 1] == '/') { while (i < s.size() && s[i] != '\n') { cr(); ++i; } continue; }
                    if (i + 1 < s.size() && s[i + 1] == '*') {
                        size_t e = s.find("*/", i + 2);
                        if (e == std::string::npos) { t.kind = BAD; t.text = "unterminated comment"; return t; }
                        while (i < e + 2) { cr(); if (s[i++] == '\n') nl(); }
                        continue;
                    }
                    t.kind = BAD; t.text = "/"; ++i; return t;
                }
                if (letter(c)) {
                    t.kind = NAME;
                    for (;;) {
                        while (i < s.size() && (letter((unsigned char) s[i]) || digit((unsigned char) s[i]))) ++i;
                        if (i < s.size() && s[i] == '.') { t.kind = QNAME; ++i; if (i >= s.size() || !letter((unsigned char) s[i])) { t.kind = BAD; break; } continue; }
                        break;
                    }
                    t.text = s.substr(t.begin, i - t.begin); t.end = i; return t;
                }
                if (digit(c)) { t.kind = INT; while (i < s.size() && digit((unsigned char) s[i])) ++i; t.text = s.substr(t.begin, i - t.begin); if (i < s.size() && (letter((unsigned char) s[i]) || s[i] == '.')) glued = true; t.end = i; return t; }
                if (c == '"') {
                    size_t e = i + 1; bool odd = false;
                    while (e < s.size() && s[e] != '"' && s[e] != '\n' && s[e] != 0) { if (s[e] == '\\' || s[e] == '\r') odd = true; ++e; }
                    if (odd) acc_dc = pos_dc = true, tainted = true; // escape sequences: not specified
                    if (e >= s.size() || s[e] != '"') { t.kind = BAD; t.text = "unterminated string"; i = e; return t; }
                    t.kind = STR; t.text = s.substr(i + 1, e - i - 1); i = e + 1; t.end = i; return t;
                }
                static const std::string SYMS = "={};,<>[]";
                t.kind = SYMS.find((char) c) != std::string::npos && c ? SYM : BAD; t.text = std::string(1, (char) c); ++i; t.end = i; return t;
            }
        }
        void cr() { if (s[i] == '\r' && i + 1 < s.size() && s[i + 1] != '\n') pos_dc = true; }
        bool glued = false, tainted = false;

        bool fail(const Tok &t, const std::string &why, bool syntax = true) {
            r.verdict = tainted ? DONTCARE : REJECT; r.why = why + (t.kind == END ? " (end of input)" : " at '" + t.text + "'"); r.line = t.line; r.col = t.col;
            r.syntax = syntax; r.pos = syntax && !pos_dc && !semantic && !glued; r.col_known = t.kind != END && !hide_col; r.at_end = t.kind == END && !semantic;
            return false;
        }
        bool semantic = false; std::string semantic_why;
        void wrong(const std::string &why) { if (!semantic) { semantic = true; semantic_why = why; } }
        static bool sym(const Tok &t, char c) { return t.kind == SYM && t.text[0] == c; }
        void dc() { acc_dc = pos_dc = true; }

        bool option(Opts &out, std::string &state) {
            Tok t = token();
            if (t.kind == NAME && keyword(t.text)) dc();
            if (t.kind != NAME && t.kind != QNAME) { r.state = state + " option name"; return fail(t, "no option name"); }
            std::string name = t.text; bool twice = out.count(name) > 0;
            t = token(); if (!sym(t, '=')) { r.state = state + " option ="; return fail(t, "no '=' after the option name"); }
            t = token();
            Opt o; o.value = t.text;
            switch (t.kind) {
                case NAME: o.type = t.text == "true" || t.text == "false" ? 'b' : 'n'; if (o.type == 'n' && keyword(t.text)) dc(); break;
                case QNAME: o.type = 'n'; break;
                case INT: o.type = 'i'; if (t.text.size() > 1 && t.text[0] == '0') dc(); if (glued) { dc(); } break;
                case STR: o.type = 's'; break;
                default: r.state = state + " option value"; return fail(t, "no option value");
            }
            if (twice) dc();
            out[name] = o;
            return true;
        }
        bool name_ok(const Tok &t) { if (t.kind != NAME) return false; if (keyword(t.text) && t.text != "message" && t.text != "package") dc(); return true; }

        bool field(Msg &m, Tok t, const std::string &state) {
            Fld f;
            if (t.kind == NAME && (t.text == "repeated" || t.text == "optional")) { (t.text == "repeated" ? f.repeated : f.optional) = true; t = token(); r.state = state + " type"; }
            if (t.kind == NAME && !scalar(t.text) && keyword(t.text)) return fail(t, "no field type");
            if (t.kind != NAME && t.kind != QNAME) return fail(t, "no field type");
            f.type = t.text;
            t = token(); if (!name_ok(t)) { r.state = state + " name"; return fail(t, "no field name"); }
            f.name = t.text;
            t = token(); if (!sym(t, '=')) { r.state = state + " ="; return fail(t, "no '='"); }
            t = token(); if (t.kind != INT) { r.state = state + " number"; return fail(t, "no field number"); }
            if (t.text.size() > 1 && t.text[0] == '0') dc();
            std::string n = t.text; size_t z = n.find_first_not_of('0'); n = z == std::string::npos ? "0" : n.substr(z);
            f.num = n.size() > 10 ? 99999999999L : atol(n.c_str());
            if (f.num < 1 || f.num > 536870911L || (f.num >= 19000 && f.num <= 19999)) wrong("invalid field number");
            t = token();
            if (sym(t, '[')) {
                size_t save = i; int sl = line; size_t sb = bol;
                t = token();
                if (sym(t, ']')) dc();
                else for (i = save, line = sl, bol = sb;;) {
                    std::string st = state + " [" ;
                    if (!option(f.options, st)) return false;
                    save = i; sl = line; sb = bol;
                    t = token();
                    if (sym(t, ']')) break;
                    if (sym(t, ',')) {
                        save = i; sl = line; sb = bol;
                        t = token(); if (sym(t, ']')) { dc(); break; }
                        i = save; line = sl; bol = sb; continue;
                    }
                    if (t.kind == NAME || t.kind == QNAME) { dc(); i = save; line = sl; bol = sb; continue; } // no comma
                    r.state = state + " [ tail"; return fail(t, "no ',' or ']'");
                }
                t = token();
                if (!sym(t, ';')) { r.state = state + " ]"; return fail(t, "no ';'"); }
            }
            if (!sym(t, ';')) { r.state = state + " ;"; return fail(t, "no ';'"); }
            for (auto &o : m.fields) if (o.num == f.num) wrong("field number used twice"); else if (o.name == f.name) wrong("field name used twice");
            m.fields.push_back(f);
            return true;
        }
    public:
        Reader(const std::string &s) : s(s) {}
        Result parse() {
            if (!run()) return r;
            for (auto &m : r.ast.messages) for (auto &f : m.fields) {
                if (scalar(f.type)) continue;
                std::string p = m.package;
                for (;;) {
                    std::string q = p.empty() ? f.type : p + "." + f.type;
                    for (size_t k = 0; k < r.ast.messages.size() && f.target < 0; ++k) if (r.ast.messages[k].qname() == q) f.target = (int) k;
                    if (f.target >= 0 || p.empty()) break;
                    size_t d = p.rfind('.'); p = d == std::string::npos ? "" : p.substr(0, d);
                }
                if (f.target < 0) wrong("unknown type " + f.type);
            }
            r.state = "top";
            if (semantic) { r.verdict = tainted ? DONTCARE : REJECT; r.why = semantic_why; r.pos = false; return r; }
            r.verdict = acc_dc ? DONTCARE : ACCEPT;
            return r;
        }
    private:
        bool run() {
            if (s.compare(0, 3, "\xEF\xBB\xBF") == 0) { tainted = true; dc(); }
            std::string package; bool syntax = false, pkg = false;
            for (;;) {
                Tok t = token();
                std::string base = "top";
                r.state = base;
                if (t.kind == END) { if (!syntax) dc(); return true; }
                if (t.kind == NAME && t.text == "syntax") {
                    if (syntax || pkg || !r.ast.messages.empty() || !r.ast.options.empty()) dc();
                    syntax = true;
                    t = token(); if (!sym(t, '=')) { r.state = "syntax"; return fail(t, "no '=' after syntax"); }
                    t = token(); if (t.kind != STR) { r.state = "syntax ="; return fail(t, "no version"); }
                    if (t.text != "proto3") wrong("not proto3");
                    t = token(); if (!sym(t, ';')) { r.state = "syntax = s"; return fail(t, "no ';' after syntax"); }
                }
                else if (t.kind == NAME && t.text == "package") {
                    if (pkg || !r.ast.messages.empty()) dc();
                    pkg = true;
                    t = token(); if (t.kind == NAME && keyword(t.text)) dc();
                    if (t.kind != NAME && t.kind != QNAME) { r.state = "package"; return fail(t, "no package name"); }
                    package = t.text;
                    t = token(); if (!sym(t, ';')) { r.state = "package n"; return fail(t, "no ';' after package"); }
                }
                else if (t.kind == NAME && t.text == "option") {
                    std::string st = "top"; if (!option(r.ast.options, st)) return false;
                    t = token(); if (!sym(t, ';')) { r.state = "top option ;"; return fail(t, "no ';' after the option"); }
                }
                else if (t.kind == NAME && t.text == "message") {
                    Msg m; m.package = package;
                    t = token(); if (!name_ok(t)) { r.state = "message"; return fail(t, "no message name"); }
                    m.name = t.text;
                    for (auto &o : r.ast.messages) if (o.qname() == m.qname()) wrong("message name used twice");
                    t = token(); if (!sym(t, '{')) { r.state = "message n"; return fail(t, "no message body"); }
                    for (;;) {
                        t = token();
                        r.state = "body";
                        if (t.kind == END) return fail(t, "unterminated message");
                        if (sym(t, '}')) break;
                        if (t.kind == NAME && t.text == "option") {
                            std::string st = "body"; if (!option(m.options, st)) return false;
                            t = token(); if (!sym(t, ';')) { r.state = "body option ;"; return fail(t, "no ';' after the option"); }
                        }
                        else if (!field(m, t, "body")) return false;
                    }
                    r.ast.messages.push_back(m);
                }
                else return fail(t, "unexpected");
            }
        }
};
} // namespace rp
#endif
