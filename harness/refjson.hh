// Independent reference implementation of JSON (RFC 8259), UTF-8, base64 and of what a schema accepts.
#ifndef REFJSON_HH
#define REFJSON_HH
#include <string>
#include <vector>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <locale.h>
#include <limits>

namespace ref {

// ---------------------------------------------------------------- UTF-8

inline void utf8(std::string &o, uint32_t c)
{
    if (c < 0x80) o += (char) c;
    else if (c < 0x800) { o += (char) (0xC0 | c >> 6); o += (char) (0x80 | (c & 63)); }
    else if (c < 0x10000) { o += (char) (0xE0 | c >> 12); o += (char) (0x80 | (c >> 6 & 63)); o += (char) (0x80 | (c & 63)); }
    else { o += (char) (0xF0 | c >> 18); o += (char) (0x80 | (c >> 12 & 63)); o += (char) (0x80 | (c >> 6 & 63)); o += (char) (0x80 | (c & 63)); }
}
inline std::string utf8(uint32_t c) { std::string s; utf8(s, c); return s; }

// Unicode table 3-7
inline bool valid_utf8(const std::string &s)
{
    size_t i = 0, n = s.size();
    auto at = [&](size_t k) -> int { return k < n ? (unsigned char) s[k] : -1; };
    auto in = [](int v, int a, int b) { return v >= a && v <= b; };
    while (i < n) {
        int a = at(i), b = at(i + 1), c = at(i + 2), d = at(i + 3);
        if (a <= 0x7F) i += 1;
        else if (in(a, 0xC2, 0xDF) && in(b, 0x80, 0xBF)) i += 2;
        else if (a == 0xE0 && in(b, 0xA0, 0xBF) && in(c, 0x80, 0xBF)) i += 3;
        else if ((in(a, 0xE1, 0xEC) || a == 0xEE || a == 0xEF) && in(b, 0x80, 0xBF) && in(c, 0x80, 0xBF)) i += 3;
        else if (a == 0xED && in(b, 0x80, 0x9F) && in(c, 0x80, 0xBF)) i += 3;
        else if (a == 0xF0 && in(b, 0x90, 0xBF) && in(c, 0x80, 0xBF) && in(d, 0x80, 0xBF)) i += 4;
        else if (in(a, 0xF1, 0xF3) && in(b, 0x80, 0xBF) && in(c, 0x80, 0xBF) && in(d, 0x80, 0xBF)) i += 4;
        else if (a == 0xF4 && in(b, 0x80, 0x8F) && in(c, 0x80, 0xBF) && in(d, 0x80, 0xBF)) i += 4;
        else return false;
    }
    return true;
}
inline bool ascii(const std::string &s) { for (char c : s) if ((unsigned char) c >= 0x80) return false; return true; }

// ---------------------------------------------------------------- base64

inline std::string b64(const std::string &in)
{
    static const char *A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string o; uint32_t acc = 0; int bits = 0;
    for (unsigned char c : in) { acc = acc << 8 | c; bits += 8; while (bits >= 6) { bits -= 6; o += A[acc >> bits & 63]; } }
    if (bits) o += A[acc << (6 - bits) & 63];
    while (o.size() % 4) o += '=';
    return o;
}
// 1 valid, 0 invalid, 2 valid but with non-zero discarded bits
inline int unb64(const std::string &t, std::string &o)
{
    o.clear();
    if (t.size() % 4) return 0;
    size_t n = t.size(), pad = 0;
    while (pad < 2 && pad < n && t[n - 1 - pad] == '=') ++pad;
    uint32_t acc = 0; int bits = 0;
    for (size_t i = 0; i < n - pad; ++i) {
        char c = t[i]; int v;
        if (c >= 'A' && c <= 'Z') v = c - 'A'; else if (c >= 'a' && c <= 'z') v = c - 'a' + 26; else if (c >= '0' && c <= '9') v = c - '0' + 52;
        else if (c == '+') v = 62; else if (c == '/') v = 63; else return 0;
        acc = (acc << 6 | (uint32_t) v) & 0xFFFFFF; bits += 6;
        if (bits >= 8) { bits -= 8; o += (char) (acc >> bits & 255); }
    }
    return (acc & ((1u << bits) - 1)) ? 2 : 1;
}

// ---------------------------------------------------------------- numbers

// syntax of RFC 8259, section 6
inline bool number_syntax(const std::string &t)
{
    size_t i = 0, n = t.size();
    auto digit = [&](size_t k) { return k < n && t[k] >= '0' && t[k] <= '9'; };
    if (i < n && t[i] == '-') ++i;
    if (!digit(i)) return false;
    if (t[i] == '0') ++i; else while (digit(i)) ++i;
    if (i < n && t[i] == '.') { ++i; if (!digit(i)) return false; while (digit(i)) ++i; }
    if (i < n && (t[i] == 'e' || t[i] == 'E')) { ++i; if (i < n && (t[i] == '+' || t[i] == '-')) ++i; if (!digit(i)) return false; while (digit(i)) ++i; }
    return i == n;
}

// exact value of a JSON number as an integer, when it is one of at most 40 digits
struct Decimal { bool neg = false, integral = false, huge = false; std::string digits; /* no leading zeros; "" is zero */ };
inline Decimal decimal(const std::string &t)
{
    Decimal d; size_t i = 0; std::string m; long frac = 0, e = 0; bool eneg = false;
    if (t[i] == '-') { d.neg = true; ++i; }
    for (; i < t.size() && t[i] >= '0' && t[i] <= '9'; ++i) m += t[i];
    if (i < t.size() && t[i] == '.') for (++i; i < t.size() && t[i] >= '0' && t[i] <= '9'; ++i) { m += t[i]; ++frac; }
    if (i < t.size()) { ++i; if (t[i] == '-') { eneg = true; ++i; } else if (t[i] == '+') ++i; for (; i < t.size(); ++i) if (e < 100000000) e = e * 10 + (t[i] - '0'); }
    if (eneg) e = -e;
    e -= frac;
    size_t z = m.find_first_not_of('0');
    if (z == std::string::npos) { d.integral = true; return d; } // zero
    m = m.substr(z);
    while (m.back() == '0') { m.pop_back(); ++e; }
    if (e < 0) return d; // fraction
    d.integral = true;
    if ((long) m.size() + e > 40) { d.huge = true; return d; }
    d.digits = m + std::string((size_t) e, '0');
    return d;
}
inline bool to_integer(const std::string &t, __int128 min, __int128 max, __int128 &out)
{
    Decimal d = decimal(t);
    if (!d.integral || d.huge || d.digits.size() > 30) return false;
    __int128 v = 0; for (char c : d.digits) v = v * 10 + (c - '0');
    if (d.neg) v = -v;
    if (v < min || v > max) return false;
    out = v; return true;
}
inline locale_t c_locale() { static locale_t l = newlocale(LC_ALL_MASK, "C", (locale_t) 0); return l; }
inline double to_double(const std::string &t) { return strtod_l(t.c_str(), nullptr, c_locale()); }
inline float to_float(const std::string &t) { return strtof_l(t.c_str(), nullptr, c_locale()); }

// ---------------------------------------------------------------- strict JSON parser

struct JV {
    enum T { NUL, TRUE, FALSE, NUM, STR, ARR, OBJ } t = NUL;
    std::string s;                                    // text of a number, contents of a string
    std::vector<JV> a;                                // elements, or values of the members
    std::vector<std::string> k;                       // names of the members
};

class Parser {
    const std::string &s; size_t i = 0; int depth = 0;
    public:
    std::string err;
    bool utf8_required;
    Parser(const std::string &s, bool utf8_required = false) : s(s), utf8_required(utf8_required) {}
    bool fail(const char *m) { if (err.empty()) err = std::string(m) + " at offset " + std::to_string(i); return false; }
    void ws() { while (i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r')) ++i; }
    bool whole(JV &v) {
        if (utf8_required && !valid_utf8(s)) return fail("not UTF-8");
        ws(); if (!value(v)) return false; ws(); return i == s.size() || fail("trailing text");
    }
    bool lit(const char *w) { size_t n = strlen(w); if (s.compare(i, n, w)) return fail("bad literal"); i += n; return true; }
    static int hex(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
    bool hex4(uint32_t &v) { v = 0; for (int k = 0; k < 4; ++k, ++i) { if (i >= s.size() || hex(s[i]) < 0) return fail("bad \\u"); v = v << 4 | (uint32_t) hex(s[i]); } return true; }
    bool string(std::string &o) {
        if (i >= s.size() || s[i] != '"') return fail("string expected");
        ++i; o.clear();
        while (true) {
            if (i >= s.size()) return fail("unterminated string");
            unsigned char c = (unsigned char) s[i];
            if (c == '"') { ++i; return true; }
            if (c < 0x20) return fail("raw control character");
            if (c != '\\') { o += (char) c; ++i; continue; }
            ++i; if (i >= s.size()) return fail("unterminated string");
            switch (s[i]) {
                case '"': o += '"'; ++i; break; case '\\': o += '\\'; ++i; break; case '/': o += '/'; ++i; break;
                case 'b': o += '\b'; ++i; break; case 'f': o += '\f'; ++i; break; case 'n': o += '\n'; ++i; break;
                case 'r': o += '\r'; ++i; break; case 't': o += '\t'; ++i; break;
                case 'u': {
                    ++i; uint32_t v, w; if (!hex4(v)) return false;
                    if (v >= 0xDC00 && v <= 0xDFFF) return fail("lone trail surrogate");
                    if (v >= 0xD800 && v <= 0xDBFF) {
                        if (s.compare(i, 2, "\\u")) return fail("lone lead surrogate");
                        i += 2; if (!hex4(w)) return false;
                        if (w < 0xDC00 || w > 0xDFFF) return fail("lone lead surrogate");
                        v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00);
                    }
                    utf8(o, v); break;
                }
                default: return fail("bad escape");
            }
        }
    }
    bool value(JV &v) {
        if (++depth > 20000) return fail("too deep");
        bool r = value_(v); --depth; return r;
    }
    bool value_(JV &v) {
        if (i >= s.size()) return fail("value expected");
        switch (s[i]) {
            case 'n': v.t = JV::NUL; return lit("null");
            case 't': v.t = JV::TRUE; return lit("true");
            case 'f': v.t = JV::FALSE; return lit("false");
            case '"': v.t = JV::STR; return string(v.s);
            case '[':
                v.t = JV::ARR; ++i; ws();
                if (i < s.size() && s[i] == ']') { ++i; return true; }
                while (true) {
                    v.a.emplace_back(); ws(); if (!value(v.a.back())) return false; ws();
                    if (i < s.size() && s[i] == ',') { ++i; continue; }
                    if (i < s.size() && s[i] == ']') { ++i; return true; }
                    return fail("',' or ']' expected");
                }
            case '{':
                v.t = JV::OBJ; ++i; ws();
                if (i < s.size() && s[i] == '}') { ++i; return true; }
                while (true) {
                    ws(); std::string n; if (!string(n)) return false; ws();
                    if (i >= s.size() || s[i] != ':') return fail("':' expected");
                    ++i; ws(); v.k.push_back(n); v.a.emplace_back(); if (!value(v.a.back())) return false; ws();
                    if (i < s.size() && s[i] == ',') { ++i; continue; }
                    if (i < s.size() && s[i] == '}') { ++i; return true; }
                    return fail("',' or '}' expected");
                }
            default: {
                size_t b = i;
                while (i < s.size() && (strchr("0123456789.eE+-", s[i]) != nullptr && s[i])) ++i;
                v.t = JV::NUM; v.s = s.substr(b, i - b);
                if (!number_syntax(v.s)) { i = b; return fail("value expected"); }
                return true;
            }
        }
    }
};

// ---------------------------------------------------------------- schemas and values

enum Type { T_DOUBLE, T_FLOAT, T_I32, T_I64, T_U32, T_U64, T_BOOL, T_STRING, T_BYTES, T_MSG };

struct MsgD;
struct FieldD { std::string cname, json; Type type; bool repeated, transient; const MsgD *ref; };
struct MsgD {
    std::string name; std::vector<FieldD> fields;
    int find(const std::string &json) const { for (size_t i = 0; i < fields.size(); ++i) if (!fields[i].transient && fields[i].json == json) return (int) i; return -1; }
};

// A value: of a field (which may be absent), of an element of a repeated field, or of a message
struct Val {
    bool present = false;
    int64_t i = 0; uint64_t u = 0; double d = 0; std::string s; // by type; bool in i
    std::vector<Val> items; // elements of a repeated field, or fields of a message
    bool operator==(const Val &o) const {
        return present == o.present && i == o.i && u == o.u && memcmp(&d, &o.d, sizeof d) == 0 && s == o.s && items == o.items;
    }
    bool operator!=(const Val &o) const { return !(*this == o); }
};

inline bool integer_type(Type t) { return t >= T_I32 && t <= T_U64; }
inline bool is_signed(Type t) { return t == T_I32 || t == T_I64; }
inline __int128 tmin(Type t) { return t == T_I32 ? (__int128) INT32_MIN : t == T_I64 ? (__int128) INT64_MIN : 0; }
inline __int128 tmax(Type t) { return t == T_I32 ? (__int128) INT32_MAX : t == T_I64 ? (__int128) INT64_MAX : t == T_U32 ? (__int128) UINT32_MAX : (__int128) UINT64_MAX; }

Val empty_msg(const MsgD &d);
inline Val empty_field(const FieldD &f)
{
    if (f.type == T_MSG && !f.repeated) return empty_msg(*f.ref);
    return Val();
}
inline Val empty_msg(const MsgD &d) { Val v; for (auto &f : d.fields) v.items.push_back(empty_field(f)); return v; }
// canonical presence: a message is present when any of its fields is; lists and byte strings when not empty
inline bool fix_presence(const FieldD &f, Val &v);
inline bool fix_msg(const MsgD &d, Val &v)
{
    bool any = false; for (size_t k = 0; k < d.fields.size(); ++k) any |= fix_presence(d.fields[k], v.items[k]);
    v.present = any; return any;
}
inline bool fix_presence(const FieldD &f, Val &v)
{
    if (f.repeated) { if (f.type == T_MSG) for (auto &e : v.items) { fix_msg(*f.ref, e); } return v.present = !v.items.empty(); }
    if (f.type == T_MSG) return fix_msg(*f.ref, v);
    if (f.type == T_BYTES) return v.present = !v.s.empty();
    return v.present;
}

inline std::string i128(__int128 v) { if (v == 0) return "0"; bool n = v < 0; std::string s; while (v) { int d = (int) (v % 10); s += (char) ('0' + (d < 0 ? -d : d)); v /= 10; } if (n) s += '-'; return std::string(s.rbegin(), s.rend()); }

inline std::string dump_scalar(Type t, const Val &v)
{
    char b[64];
    switch (t) {
        case T_DOUBLE: case T_FLOAT: snprintf(b, sizeof b, "%a", v.d); return b;
        case T_I32: case T_I64: return std::to_string(v.i);
        case T_U32: case T_U64: return std::to_string(v.u);
        case T_BOOL: return v.i ? "true" : "false";
        default: { std::string o = t == T_BYTES ? "b\"" : "\""; for (unsigned char c : v.s) { if (c >= 0x20 && c < 0x7f && c != '"') o += (char) c; else { snprintf(b, sizeof b, "\\x%02x", c); o += b; } } return o + '"'; }
    }
}
inline std::string dump(const MsgD &d, const Val &v);
inline std::string dump(const FieldD &f, const Val &v)
{
    if (f.repeated) { std::string o = "["; for (auto &e : v.items) { if (o.size() > 1) o += ','; o += f.type == T_MSG ? dump(*f.ref, e) : (e.present ? "" : "?") + dump_scalar(f.type, e); } return o + "]"; }
    if (f.type == T_MSG) return dump(*f.ref, v);
    if (!v.present) return "-";
    return dump_scalar(f.type, v);
}
inline std::string dump(const MsgD &d, const Val &v)
{
    std::string o = "{"; for (size_t k = 0; k < d.fields.size(); ++k) { if (k) o += ' '; o += d.fields[k].cname + "=" + dump(d.fields[k], v.items[k]); } return o + "}";
}
inline void drop_transient(const MsgD &d, Val &v)
{
    for (size_t k = 0; k < d.fields.size(); ++k) {
        auto &f = d.fields[k];
        if (f.transient) v.items[k] = empty_field(f);
        else if (f.type == T_MSG) { if (f.repeated) for (auto &e : v.items[k].items) drop_transient(*f.ref, e); else drop_transient(*f.ref, v.items[k]); }
    }
}

// ---------------------------------------------------------------- documents from values

// compact JSON of a value, every present field once, absent fields omitted
inline std::string jquote(const std::string &s)
{
    std::string o = "\""; char b[8];
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char) c; } else if (c < 0x20) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char) c; }
    return o + '"';
}
inline std::string jnum(double d, bool f) { char b[64]; locale_t old = uselocale(c_locale()); snprintf(b, sizeof b, f ? "%.9g" : "%.17g", d); uselocale(old); return b; }
inline std::string to_json(const MsgD &d, const Val &v);
inline std::string to_json_scalar(Type t, const Val &v)
{
    switch (t) {
        case T_DOUBLE: return jnum(v.d, false); case T_FLOAT: return jnum(v.d, true);
        case T_I32: case T_I64: return std::to_string(v.i); case T_U32: case T_U64: return std::to_string(v.u);
        case T_BOOL: return v.i ? "true" : "false"; case T_STRING: return jquote(v.s); default: return "\"" + b64(v.s) + "\"";
    }
}
inline std::string to_json(const FieldD &f, const Val &v)
{
    if (f.repeated) { std::string o = "["; for (size_t k = 0; k < v.items.size(); ++k) { if (k) o += ','; o += f.type == T_MSG ? to_json(*f.ref, v.items[k]) : to_json_scalar(f.type, v.items[k]); } return o + "]"; }
    return f.type == T_MSG ? to_json(*f.ref, v) : to_json_scalar(f.type, v);
}
inline std::string to_json(const MsgD &d, const Val &v)
{
    std::string o = "{"; for (size_t k = 0; k < d.fields.size(); ++k) if (!d.fields[k].transient && v.items[k].present) { if (o.size() > 1) o += ','; o += jquote(d.fields[k].json) + ":" + to_json(d.fields[k], v.items[k]); } return o + "}";
}

// ---------------------------------------------------------------- does a JSON value represent a value exactly? (C02)

inline std::string match_msg(const MsgD &d, const Val &v, const JV &j, bool nulls);
inline std::string match_scalar(Type t, const Val &v, const JV &j)
{
    __int128 n;
    switch (t) {
        case T_BOOL: return j.t == (v.i ? JV::TRUE : JV::FALSE) ? "" : "wrong boolean";
        case T_STRING: return j.t == JV::STR && j.s == v.s ? "" : "wrong string";
        case T_BYTES: return j.t == JV::STR && j.s == b64(v.s) ? "" : "wrong base64";
        case T_DOUBLE: if (!std::isfinite(v.d)) return j.t == JV::NUL ? "" : "non-finite number not written as null";
                       { double x; return j.t == JV::NUM && (x = to_double(j.s), x == v.d && std::signbit(x) == std::signbit(v.d)) ? "" : "wrong double"; }
        case T_FLOAT: if (!std::isfinite(v.d)) return j.t == JV::NUL ? "" : "non-finite number not written as null";
                       { float x; return j.t == JV::NUM && (x = to_float(j.s), (double) x == v.d && std::signbit(x) == std::signbit(v.d)) ? "" : "wrong float"; }
        case T_I32: case T_I64: return j.t == JV::NUM && to_integer(j.s, INT64_MIN, INT64_MAX, n) && n == v.i ? "" : "wrong integer";
        default: return j.t == JV::NUM && to_integer(j.s, 0, UINT64_MAX, n) && n == (__int128) v.u ? "" : "wrong integer";
    }
}
// what an absent field may look like when serialize_null is set
inline bool null_shape(const FieldD &f, const JV &j)
{
    if (j.t == JV::NUL) return true;
    if (f.repeated) return j.t == JV::ARR && j.a.empty();
    if (f.type == T_BYTES) return j.t == JV::STR && j.s.empty();
    return false;
}
inline std::string match_field(const FieldD &f, const Val &v, const JV &j, bool nulls)
{
    if (f.repeated) {
        if (j.t != JV::ARR) return f.json + ": array expected";
        if (j.a.size() != v.items.size()) return f.json + ": wrong number of elements";
        for (size_t k = 0; k < j.a.size(); ++k) { std::string e = f.type == T_MSG ? match_msg(*f.ref, v.items[k], j.a[k], nulls) : match_scalar(f.type, v.items[k], j.a[k]); if (!e.empty()) return f.json + "[" + std::to_string(k) + "]: " + e; }
        return "";
    }
    std::string e = f.type == T_MSG ? match_msg(*f.ref, v, j, nulls) : match_scalar(f.type, v, j);
    return e.empty() ? "" : f.json + ": " + e;
}
inline std::string match_msg(const MsgD &d, const Val &v, const JV &j, bool nulls)
{
    if (j.t != JV::OBJ) return "object expected";
    std::vector<int> seen(d.fields.size(), 0);
    for (size_t m = 0; m < j.k.size(); ++m) {
        int k = d.find(j.k[m]);
        if (k < 0) return "unexpected member '" + j.k[m] + "'";
        if (seen[(size_t) k]++) return "repeated member '" + j.k[m] + "'";
        auto &f = d.fields[(size_t) k]; auto &x = v.items[(size_t) k];
        if (x.present) { std::string e = match_field(f, x, j.a[m], nulls); if (!e.empty()) return e; }
        else {
            if (!nulls) return "absent field '" + f.json + "' was written";
            if (f.type == T_MSG && !f.repeated && j.a[m].t == JV::OBJ) { std::string e = match_msg(*f.ref, x, j.a[m], nulls); if (!e.empty()) return e; }
            else if (!null_shape(f, j.a[m])) return "absent field '" + f.json + "' was written with a value";
        }
    }
    for (size_t k = 0; k < seen.size(); ++k)
        if (!d.fields[k].transient && !seen[k] && (v.items[k].present || nulls)) return "field '" + d.fields[k].json + "' is missing";
    return "";
}

// ---------------------------------------------------------------- reference deserializer

enum Code { C_IGNORE = 1, C_SEP = 3, C_VALUE = 4, C_OBJECT = 5, C_NAME = 6, C_ARRAY = 7 };

struct Tok { enum K { END, LB, RB, LS, RS, COLON, COMMA, STR, NUM, TRUE, FALSE, NUL, BAD } k; std::string s; int line, col; bool odd; };

struct Result { bool ok = false; Val v; int line = 0, col = 0; unsigned codes = 0; bool dontcare = false, pos_dontcare = false, at_end = false; std::string why, state; };

class Reader {
    const std::string &s; size_t i = 0; int line = 1, col = 1; Tok t; Result r; size_t tok_end = 0;
    struct Fail {};
    void adv() { if (s[i] == '\n') { ++line; col = 1; } else ++col; ++i; }
    static bool alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
    static bool numch(char c) { return (c >= '0' && c <= '9') || c == '.' || c == 'e' || c == 'E' || c == '+' || c == '-'; }
    void next() {
        while (i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\r' || s[i] == '\n')) adv();
        t.line = line; t.col = col; t.s.clear(); t.odd = false;
        if (i >= s.size()) { t.k = Tok::END; tok_end = i; return; }
        char c = s[i];
        static const char *P = "{}[]:,"; const char *p = strchr(P, c);
        if (c && p) { t.k = (Tok::K) (Tok::LB + (p - P)); adv(); tok_end = i; return; }
        if (c == '"') {
            // find the end and decode with the strict parser's rules
            size_t b = i; adv(); bool closed = false, raw = false;
            while (i < s.size()) {
                if (s[i] == '"') { adv(); closed = true; break; }
                if ((unsigned char) s[i] < 0x20) raw = true;
                if (s[i] == '\\') { adv(); if (i >= s.size()) break; }
                adv();
            }
            std::string lit = s.substr(b, i - b); tok_end = i;
            if (raw) t.odd = true;
            t.k = Tok::BAD;
            if (closed && !raw) { Parser q(lit); std::string o; if (q.string(o)) { t.k = Tok::STR; t.s = o; if (!valid_utf8(lit)) t.odd = true; } }
            return;
        }
        if (c == '-' || (c >= '0' && c <= '9')) {
            size_t b = i; while (i < s.size() && numch(s[i])) adv();
            t.s = s.substr(b, i - b); t.k = number_syntax(t.s) ? Tok::NUM : Tok::BAD; tok_end = i;
            if (t.k == Tok::BAD) glued(t.s);
            return;
        }
        if (alpha(c)) {
            size_t b = i; while (i < s.size() && alpha(s[i])) adv();
            std::string w = s.substr(b, i - b); tok_end = i;
            t.k = w == "true" ? Tok::TRUE : w == "false" ? Tok::FALSE : w == "null" ? Tok::NUL : Tok::BAD;
            if (t.k == Tok::BAD) glued(w);
            return;
        }
        t.k = Tok::BAD; tok_end = i;
    }
    // a malformed lexeme that begins with a complete token could be diagnosed at its second part as well
    void glued(const std::string &w) {
        for (size_t n = 1; n < w.size(); ++n) { std::string p = w.substr(0, n); if (number_syntax(p) || p == "true" || p == "false" || p == "null") bad_glued = true; }
    }
    bool bad_glued = false;
    [[noreturn]] void fail(unsigned codes, const char *why) {
        r.ok = false; r.line = t.line; r.col = t.col; r.codes = codes; r.why = why;
        r.at_end = t.k == Tok::END;
        for (auto &c : stack) { r.state += c; r.state += '/'; }
        r.state += why;
        if (t.odd) r.dontcare = true;
        if (t.k == Tok::BAD && bad_glued) r.pos_dontcare = true;
        throw Fail();
    }
    void use() { if (t.odd) r.dontcare = true; bad_glued = false; next(); }
    std::vector<std::string> stack;
    struct In { Reader &r; In(Reader &r, const std::string &n) : r(r) { r.stack.push_back(n); } ~In() { r.stack.pop_back(); } };
    void skip(int depth) { // unknown value, code IGNORE_FAILED (the same code is given at the outermost level)
        const unsigned C = 1u << C_IGNORE | (depth == 0 ? 1u << C_OBJECT : 0);
        const unsigned CV = 1u << C_IGNORE;
        switch (t.k) {
            case Tok::STR: case Tok::NUM: case Tok::TRUE: case Tok::FALSE: case Tok::NUL: use(); (void) C; return;
            case Tok::LB: {
                In in(*this, "skip{");
                use(); if (t.k == Tok::RB) { use(); return; }
                while (true) {
                    if (t.k != Tok::STR) fail(CV, "name expected in a skipped object");
                    use();
                    if (t.k != Tok::COLON) fail(CV, "':' expected in a skipped object");
                    use();
                    skip(depth + 1);
                    if (t.k == Tok::COMMA) { use(); continue; }
                    if (t.k == Tok::RB) { use(); return; }
                    fail(CV, "',' or '}' expected in a skipped object");
                }
            }
            case Tok::LS: {
                In in(*this, "skip[");
                use(); if (t.k == Tok::RS) { use(); return; }
                while (true) {
                    skip(depth + 1);
                    if (t.k == Tok::COMMA) { use(); continue; }
                    if (t.k == Tok::RS) { use(); return; }
                    fail(CV, "',' or ']' expected in a skipped array");
                }
            }
            default: fail(CV, "skipped value expected");
        }
    }
    // code given for a missing value of the type
    static unsigned code_of(Type t) { return t == T_MSG ? 1u << C_OBJECT : t == T_BYTES ? (1u << C_OBJECT | 1u << C_VALUE) : 1u << C_VALUE; }
    bool scalar(Type ty, Val &v) {
        __int128 n;
        if (t.k == Tok::NUL) { use(); return false; }
        switch (ty) {
            case T_BOOL: if (t.k != Tok::TRUE && t.k != Tok::FALSE) fail(1u << C_VALUE, "boolean expected"); v.i = t.k == Tok::TRUE; break;
            case T_STRING: if (t.k != Tok::STR) fail(1u << C_VALUE, "string expected"); v.s = t.s; break;
            case T_BYTES: { if (t.k != Tok::STR) fail(code_of(ty), "base64 expected"); int q = unb64(t.s, v.s); if (q == 0) fail(code_of(ty), "not base64"); if (q == 2) r.dontcare = true; break; }
            case T_DOUBLE: if (t.k != Tok::NUM) fail(1u << C_VALUE, "number expected"); v.d = to_double(t.s); if (!std::isfinite(v.d)) fail(1u << C_VALUE, "number out of range"); break;
            case T_FLOAT: if (t.k != Tok::NUM) fail(1u << C_VALUE, "number expected"); v.d = (double) to_float(t.s); if (!std::isfinite(v.d)) fail(1u << C_VALUE, "number out of range"); break;
            default:
                if (t.k != Tok::NUM) fail(1u << C_VALUE, "number expected");
                if (!to_integer(t.s, tmin(ty), tmax(ty), n)) fail(1u << C_VALUE, "not an integer of the type");
                if (is_signed(ty)) v.i = (int64_t) n; else v.u = (uint64_t) n;
        }
        v.present = true; use(); return true;
    }
    void message(const MsgD &d, Val &v) {
        if (t.k != Tok::LB) fail(1u << C_OBJECT, "'{' expected");
        In in(*this, d.name + "{");
        use();
        if (t.k == Tok::RB) { use(); return; }
        std::vector<std::string> names; std::vector<int> seen(d.fields.size(), 0); bool skipped;
        while (true) {
            if (t.k != Tok::STR) fail(1u << C_NAME, "name expected");
            std::string n = t.s; use();
            for (auto &o : names) if (o == n) r.dontcare = true;
            names.push_back(n);
            if (t.k != Tok::COLON) fail(1u << C_SEP, "':' expected");
            use();
            int k = d.find(n); skipped = false;
            In member(*this, k < 0 ? "?" : d.fields[(size_t) k].cname);
            if (k < 0) { bool prim = t.k != Tok::LB && t.k != Tok::LS; skip(0); skipped = prim; }
            else field(d.fields[(size_t) k], v.items[(size_t) k], skipped);
            if (t.k == Tok::COMMA) { use(); continue; }
            if (t.k == Tok::RB) { use(); return; }
            fail(1u << C_OBJECT | (skipped ? 1u << C_IGNORE : 0), "',' or '}' expected");
        }
    }
    void list(const FieldD &f, Val &v) {
        if (t.k != Tok::LS) fail(1u << C_ARRAY, "'[' expected");
        In in(*this, f.cname + "[");
        use();
        if (t.k == Tok::RS) { use(); return; }
        while (true) {
            Val e = f.type == T_MSG ? empty_msg(*f.ref) : Val(); bool have = true;
            if (t.k == Tok::RS || t.k == Tok::COMMA) fail(code_of(f.type) | 1u << C_ARRAY, "element expected");
            if (f.type == T_MSG) { if (t.k == Tok::NUL) { use(); have = false; } else message(*f.ref, e); }
            else have = scalar(f.type, e);
            if (have) v.items.push_back(e);
            if (t.k == Tok::COMMA) { use(); continue; }
            if (t.k == Tok::RS) { use(); return; }
            fail(1u << C_ARRAY, "',' or ']' expected");
        }
    }
    void field(const FieldD &f, Val &v, bool &skipped) {
        if (t.k == Tok::NUL) { use(); skipped = true; v = empty_field(f); return; }
        if (f.repeated) { list(f, v); return; }
        if (f.type == T_MSG) { message(*f.ref, v); return; }
        scalar(f.type, v);
    }
    public:
    Reader(const std::string &s) : s(s) {}
    Result object(const MsgD &d) {
        r.v = empty_msg(d);
        try { next(); message(d, r.v); r.ok = true; fix_msg(d, r.v); } catch (Fail&) {}
        return r;
    }
    Result array(const FieldD &f) {
        try { next(); list(f, r.v); r.ok = true; fix_presence(f, r.v); } catch (Fail&) {}
        return r;
    }
};

} // namespace ref
#endif
