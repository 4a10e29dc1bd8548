// Enumeration of message values, shared by the checks about serialization.
#ifndef VALUES_HH
#define VALUES_HH
#include "refjson.hh"
#include <functional>

namespace vals {
using namespace ref;

// ---- codec, so that a case is a byte string
inline void put(std::string &o, const void *p, size_t n) { o.append((const char*) p, n); }
inline void put_str(std::string &o, const std::string &s) { uint32_t n = (uint32_t) s.size(); put(o, &n, 4); o += s; }
inline void enc(std::string &o, const MsgD &d, const Val &v);
inline void enc_one(std::string &o, Type t, const MsgD *r, const Val &v)
{
    if (t == T_MSG) { enc(o, *r, v); return; }
    o += (char) v.present;
    if (!v.present && t != T_BYTES) return;
    if (t == T_STRING || t == T_BYTES) put_str(o, v.s);
    else if (t == T_DOUBLE || t == T_FLOAT) put(o, &v.d, 8);
    else if (t == T_U32 || t == T_U64) put(o, &v.u, 8);
    else put(o, &v.i, 8);
}
inline void enc(std::string &o, const MsgD &d, const Val &v)
{
    for (size_t k = 0; k < d.fields.size(); ++k) {
        auto &f = d.fields[k];
        if (f.repeated) { uint32_t n = (uint32_t) v.items[k].items.size(); put(o, &n, 4); for (auto &e : v.items[k].items) enc_one(o, f.type, f.ref, e); }
        else enc_one(o, f.type, f.ref, v.items[k]);
    }
}
struct Dec {
    const std::string &s; size_t p;
    template<typename T> T num() { T v; memcpy(&v, s.data() + p, sizeof v); p += sizeof v; return v; }
    std::string str() { uint32_t n = num<uint32_t>(); std::string r = s.substr(p, n); p += n; return r; }
    Val one(Type t, const MsgD *r) {
        if (t == T_MSG) return msg(*r);
        Val v; v.present = s[p++] != 0;
        if (!v.present && t != T_BYTES) return v;
        if (t == T_STRING || t == T_BYTES) v.s = str();
        else if (t == T_DOUBLE || t == T_FLOAT) v.d = num<double>();
        else if (t == T_U32 || t == T_U64) v.u = num<uint64_t>();
        else v.i = num<int64_t>();
        return v;
    }
    Val msg(const MsgD &d) {
        Val v;
        for (auto &f : d.fields) {
            v.items.emplace_back();
            if (f.repeated) { uint32_t n = num<uint32_t>(); for (uint32_t k = 0; k < n; ++k) v.items.back().items.push_back(one(f.type, f.ref)); }
            else v.items.back() = one(f.type, f.ref);
        }
        fix_msg(d, v);
        return v;
    }
};

// ---- value classes
inline Val vi(int64_t i) { Val v; v.present = true; v.i = i; return v; }
inline Val vu(uint64_t u) { Val v; v.present = true; v.u = u; return v; }
inline Val vd(double d) { Val v; v.present = true; v.d = d; return v; }
inline Val vs(const std::string &s) { Val v; v.present = true; v.s = s; return v; }

inline std::vector<std::string> texts(bool thorough)
{
    std::vector<std::string> t = { "", "a", "\"", "\\", "/", "\b\f\n\r\t", std::string("\0", 1), "\x1f", "\x7f", "null", "true", "0", "{}", "[1,2]", "a\"b\\c/d", "\\u0041", "\\", "\\\"", " lead and trail ",
        "\xc2\x80", "\xdf\xbf", "\xe0\xa0\x80", "\xed\x9f\xbf", "\xee\x80\x80", "\xef\xbf\xbf", "\xf0\x90\x80\x80", "\xf4\x8f\xbf\xbf", "a\xf0\x9f\x98\x80z", "\xec\x9d\xb4\xec\xa3\xbc\xec\x98\x81", "$1$", "%s%n", std::string("a\0b", 3) };
    // every control character and every ASCII character, next to others
    for (int c = 0; c < 128; ++c) t.push_back(std::string("x") + (char) c + "y");
    for (size_t n : { 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 127, 128, 255, 256, 257, 1000, 4095, 4096, 5000 }) { t.push_back(std::string(n, 'k')); t.push_back(std::string(n - 1, '\n') + "\xe2\x82\xac"); }
    if (thorough) { t.push_back(std::string(1 << 20, 'q')); t.push_back(std::string(1 << 16, '"')); }
    return t;
}
inline std::vector<std::string> bad_texts()
{
    return { "\x80", "\xbf", "a\xc0\x80", "\xc1\xbf", "\xc2", "\xc2" "a", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xe2\x82", "\xe2\x82z", "\xed\xa0\x80", "\xed\xbf\xbf", "\xf0\x80\x80\x80", "\xf0\x8f\xbf\xbf", "\xf0\x90\x80", "\xf0\x90\x80q", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xf8\x88\x80\x80\x80", "\xfe", "\xff", "ok\xff", "\xe2\x28\xa1", "\xf0\x28\x8c\xbc" };
}
inline std::vector<Val> classes(Type t, bool thorough, bool nonfinite = false, bool bad = false)
{
    std::vector<Val> r;
    auto bounds = [&](bool sgn, int bits) {
        for (int k = 0; k < bits; ++k) {
            uint64_t b = 1ULL << k;
            if (sgn) { if (k < bits - 1) for (int64_t x : { (int64_t) b - 1, (int64_t) b, (int64_t) b + 1 }) { if (bits == 32 && x > INT32_MAX) continue; r.push_back(vi(x)); r.push_back(vi(-x)); } }
            else for (uint64_t x : { b - 1, b, b + 1 }) r.push_back(vu(bits == 32 ? (uint32_t) x : x));
        }
        if (sgn) { r.push_back(vi(bits == 32 ? INT32_MAX : INT64_MAX)); r.push_back(vi(bits == 32 ? INT32_MIN : INT64_MIN)); r.push_back(vi(bits == 32 ? INT32_MIN + 1 : INT64_MIN + 1)); }
        else r.push_back(vu(bits == 32 ? UINT32_MAX : UINT64_MAX));
        for (int64_t p = 10; p > 0 && p < INT64_MAX / 10; p *= 10) { if (bits == 32 && p > INT32_MAX) break; if (sgn) { r.push_back(vi(p)); r.push_back(vi(-p)); r.push_back(vi(p - 1)); } else { r.push_back(vu((uint64_t) p)); r.push_back(vu((uint64_t) p - 1)); } }
    };
    switch (t) {
        case T_BOOL: r = { vi(0), vi(1) }; break;
        case T_I32: bounds(true, 32); break; case T_I64: bounds(true, 64); break;
        case T_U32: bounds(false, 32); break; case T_U64: bounds(false, 64); break;
        case T_FLOAT:
            for (float x : { 0.0f, -0.0f, 1.0f, -1.0f, 0.1f, 0.2f, 0.3f, 1.0f / 3, 3.4028235e38f, 1.17549435e-38f, 1.4e-45f, 5.877e-39f, 16777216.0f, 16777217.0f, 123456.789f, 1e10f, 9.999999e9f, 8388609.0f, 0.99999994f, 1.0000001f, 3.14159265f, 1e-5f, 1e-10f }) { r.push_back(vd((double) x)); r.push_back(vd(-(double) x)); }
            if (nonfinite) { r.push_back(vd(INFINITY)); r.push_back(vd(-INFINITY)); r.push_back(vd(NAN)); }
            break;
        case T_DOUBLE:
            for (double x : { 0.0, -0.0, 1.0, 0.1, 0.2, 0.3, 1.0 / 3, 2.0 / 3, 1.7976931348623157e308, 2.2250738585072014e-308, 4.9406564584124654e-324, 1e-310, 9007199254740992.0, 9007199254740993.0, 123456789.123456789, 1e15, 1e16, 1e17, 1e21, 1e22, 1e23, 1e100, 1e-7, 5e-324, 0.30000000000000004, 3.141592653589793, 100.0, 1e5, 123456.0, 0.5, 2.5 }) { r.push_back(vd(x)); r.push_back(vd(-x)); }
            if (nonfinite) { r.push_back(vd(INFINITY)); r.push_back(vd(-INFINITY)); r.push_back(vd(NAN)); }
            break;
        case T_STRING: for (auto &s : texts(thorough)) r.push_back(vs(s)); if (bad) for (auto &s : bad_texts()) r.push_back(vs(s)); break;
        case T_BYTES:
            r.push_back(vs(""));
            for (int c = 0; c < 256; ++c) r.push_back(vs(std::string(1, (char) c)));
            for (size_t n = 2; n < 20; ++n) { std::string s; for (size_t k = 0; k < n; ++k) s += (char) (k * 53 + n); r.push_back(vs(s)); r.push_back(vs(std::string(n, '\0'))); r.push_back(vs(std::string(n, '\xff'))); }
            for (size_t n : { 254, 255, 256, 257, 1023, 1024, 1025, 3000 }) r.push_back(vs(std::string(n, '\x5a')));
            break;
        default: break;
    }
    return r;
}
// three representative values per type: a "zero" that must still count as present, an ordinary and an extreme one
inline Val rep(Type t, int k)
{
    switch (t) {
        case T_BOOL: return vi(k != 0); case T_I32: return vi(k == 0 ? 0 : k == 1 ? 42 : INT32_MIN); case T_I64: return vi(k == 0 ? 0 : k == 1 ? -7 : INT64_MIN);
        case T_U32: return vu(k == 0 ? 0 : k == 1 ? 7 : UINT32_MAX); case T_U64: return vu(k == 0 ? 0 : k == 1 ? 8 : UINT64_MAX);
        case T_FLOAT: return vd(k == 0 ? 0.0 : k == 1 ? 0.5 : (double) 3.4028235e38f); case T_DOUBLE: return vd(k == 0 ? 0.0 : k == 1 ? 0.1 : 5e-324);
        case T_STRING: return vs(k == 0 ? "" : k == 1 ? "text" : "\"\\\xf0\x9f\x98\x80\n"); default: return vs(k == 0 ? std::string(1, '\0') : k == 1 ? "bin" : "\xff\xfe\xfd\xfc");
    }
}
Val rep_msg(const MsgD &d, int k, int depth = 0);
inline Val rep_field(const FieldD &f, int k, int depth = 0)
{
    Val one = f.type == T_MSG ? rep_msg(*f.ref, k, depth + 1) : rep(f.type, k);
    if (!f.repeated) return one;
    Val v; int n = k == 0 ? 1 : k == 1 ? 2 : 3;
    for (int j = 0; j < n; ++j) v.items.push_back(f.type == T_MSG ? rep_msg(*f.ref, (k + j) % 3, depth + 1) : rep(f.type, (k + j) % 3));
    v.present = true; return v;
}
// k = 0: only the first field; 1: all fields; 2: every other field
inline Val rep_msg(const MsgD &d, int k, int depth)
{
    Val v = empty_msg(d);
    for (size_t j = 0; j < d.fields.size(); ++j) {
        if (k == 0 && j > 0) break;
        if (k == 2 && j % 2 == 0) continue;
        if (d.fields[j].type == T_MSG && depth > 3) continue;
        v.items[j] = rep_field(d.fields[j], k, depth);
    }
    fix_msg(d, v); return v;
}

typedef std::function<void(const Val&)> Sink;

// every presence pattern of the first n fields (all of them for small messages) in the three representative fillings
inline void masks(const MsgD &d, const Sink &out)
{
    size_t n = d.fields.size();
    for (uint64_t m = 0; m < (1ULL << n); ++m)
        for (int k = 0; k < 3; ++k) {
            if (m == 0 && k) continue;
            Val v = empty_msg(d);
            for (size_t j = 0; j < n; ++j) if (m >> j & 1) v.items[j] = rep_field(d.fields[j], k);
            fix_msg(d, v); out(v);
        }
}
// one, and two, fields present; all but one present
inline void singles(const MsgD &d, const Sink &out)
{
    size_t n = d.fields.size();
    out(empty_msg(d));
    for (size_t a = 0; a < n; ++a) for (size_t b = a; b < n; ++b) for (int k = 0; k < 3; ++k) {
        Val v = empty_msg(d); v.items[a] = rep_field(d.fields[a], k); v.items[b] = rep_field(d.fields[b], (k + (a != b)) % 3); fix_msg(d, v); out(v);
    }
    for (size_t a = 0; a <= n; ++a) for (int k = 0; k < 3; ++k) {
        Val v = empty_msg(d); for (size_t j = 0; j < n; ++j) if (j != a) v.items[j] = rep_field(d.fields[j], k); fix_msg(d, v); out(v);
    }
}
// every value class of every field alone; repeated: every list up to length len of representatives, long lists
inline void field_classes(const MsgD &d, bool thorough, bool nonfinite, bool bad, const Sink &out)
{
    for (size_t j = 0; j < d.fields.size(); ++j) {
        auto &f = d.fields[j];
        auto one = [&](const Val &x) { Val v = empty_msg(d); v.items[j] = x; fix_msg(d, v); out(v); };
        if (f.type != T_MSG) {
            for (auto &x : classes(f.type, thorough, nonfinite, bad)) {
                if (!f.repeated) { one(x); continue; }
                Val l; l.items = { x }; one(l);
                Val m; m.items = { rep(f.type, 1), x, rep(f.type, 2) }; one(m);
            }
        }
        if (f.repeated) {
            auto elem = [&](int k) { return f.type == T_MSG ? (k == 3 ? empty_msg(*f.ref) : rep_msg(*f.ref, k)) : k == 3 ? rep(f.type, 1) : rep(f.type, k); };
            int base = f.type == T_MSG ? 4 : 3, maxlen = thorough ? 6 : 4;
            for (int len = 0; len <= maxlen; ++len) {
                int total = 1; for (int k = 0; k < len; ++k) total *= base;
                for (int c = 0; c < total; ++c) { Val l; int x = c; for (int k = 0; k < len; ++k) { l.items.push_back(elem(x % base)); x /= base; } one(l); }
            }
            for (int len : { 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 1000 }) { Val l; for (int k = 0; k < len; ++k) l.items.push_back(elem(k % 3)); one(l); }
        } else if (f.type == T_MSG) {
            // every presence pattern of the inner message
            size_t n = f.ref->fields.size();
            for (uint64_t m = 0; m < (1ULL << n); ++m) for (int k = 0; k < 3; ++k) { Val x = empty_msg(*f.ref); for (size_t q = 0; q < n; ++q) if (m >> q & 1) x.items[q] = rep_field(f.ref->fields[q], k, 1); one(x); }
        }
    }
}
// sizes: long lists, texts and byte strings; characters that need treatment at every offset
inline void sizes(const MsgD &d, bool huge, const Sink &out)
{
    for (size_t j = 0; j < d.fields.size(); ++j) {
        auto &f = d.fields[j];
        auto one = [&](const Val &x) { Val v = empty_msg(d); v.items[j] = x; fix_msg(d, v); out(v); };
        if (f.repeated) {
            std::vector<int> lens = { 511, 512, 513, 1023, 1024, 1025, 2047, 2049, 4095, 4096, 4097, 8193 }; if (huge || d.fields.size() <= 12) for (int l : { 32769, 65535, 65536, 65537, 65600, 131073 }) lens.push_back(l);
            for (int len : lens) { Val l; for (int k = 0; k < len; ++k) l.items.push_back(f.type == T_MSG ? (len < 1000 ? rep_msg(*f.ref, k % 3) : k % 2 ? empty_msg(*f.ref) : rep_msg(*f.ref, 0)) : rep(f.type, k % 3)); one(l); }
            continue;
        }
        std::vector<size_t> offs; for (size_t n = 0; n <= 300; ++n) offs.push_back(n);
        for (size_t b = 512; b <= (huge ? 1u << 17 : 1u << 16); b *= 2) for (size_t n = b - 4; n <= b + 3; ++n) offs.push_back(n);
        if (f.type == T_STRING) for (size_t n : offs) { for (auto x : { "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\"", "\\", "\n", "\x01" }) { if (n > 300 && *x != '\xe2' && *x != '"' && *x != '\xf0') continue; one(vs(std::string(n, 'k') + x + "end")); } if (n <= 300) { one(vs(std::string(n, '\\'))); one(vs(std::string(n, '\x1f') + "z")); } }
        if (f.type == T_BYTES) for (size_t n : offs) { std::string s; for (size_t k = 0; k < n; ++k) s += (char) (k * 167 + n + (k >> 8)); one(vs(s)); }
    }
}
// every string over an alphabet up to a length, in one field
inline void strings(const std::vector<std::string> &alphabet, int maxlen, const std::function<void(const std::string&)> &out)
{
    std::function<void(const std::string&, int)> rec = [&](const std::string &p, int n) { out(p); if (n < maxlen) for (auto &a : alphabet) rec(p + a, n + 1); };
    rec("", 0);
}

} // namespace vals
#endif
