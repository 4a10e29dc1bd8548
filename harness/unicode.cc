// C03: Unicode text in values and names.
#include "vh.hh"
#include "refjson.hh"
#include "inc_unicode.hh"
#include "bridge.hh"
using namespace ref;
typedef ::uni::T T;
typedef PG::Parameters Par;

static std::string q(const std::string &s) { return vh::printable(s, 300); }

// serialization: exact text, or refusal
static std::string check_write(const std::string &text)
{
    bool valid = valid_utf8(text);
    for (int ascii_ = 0; ascii_ < 2; ++ascii_) {
        if (!valid && !ascii_) continue;
        for (int where = 0; where < 2; ++where) {
            T m; Par p; p.ensure_ascii = ascii_ != 0; std::string out;
            if (where == 0) m.s = text; else { m.r.push_back(std::string("x")); m.r.push_back(text); }
            bool ok = m.serialize(out, &p);
            vh::info().extra_evals++;
            if (!valid) { if (ok) return "text that is not UTF-8 is written under ensure_ascii: " + q(text) + " as " + q(out); continue; }
            if (!ok) return "serialization of " + q(text) + " fails: " + p.error.message;
            if (ascii_ && !ascii(out)) return "non-ASCII output under ensure_ascii: " + q(out);
            JV j; Parser P(out); if (!P.whole(j)) return "ill-formed output " + q(out) + ": " + P.err;
            const JV *v = where == 0 ? (j.a.size() == 1 ? &j.a[0] : nullptr) : (j.a.size() == 1 && j.a[0].a.size() == 2 ? &j.a[0].a[1] : nullptr);
            if (!v || v->t != JV::STR || v->s != text) return "output " + q(out) + " does not denote " + q(text);
            T n; if (!n.deserialize(out, &p)) return "output " + q(out) + " is rejected";
            if (!(n == m)) return "output " + q(out) + " does not restore " + q(text);
            const std::string got = where == 0 ? std::string(*n.s) : std::string(*n.r.back());
            if (got != text) return "output " + q(out) + " reads as " + q(got);
        }
    }
    return "";
}
// deserialization of a string literal, as a value, an element, an unknown name and an unknown value
static std::string check_read(const std::string &lit)
{
    std::string want; bool ok; { Parser P(lit); JV j; ok = P.whole(j) && j.t == JV::STR; want = j.s; }
    for (int where = 0; where < 5; ++where) {
        if (ok && where == 2 && (want == "s" || want == "r")) continue;
        std::string doc = where == 0 ? "{\"s\":" + lit + "}" : where == 1 ? "{\"r\":[\"x\"," + lit + ",\"y\"]}" : where == 2 ? "{" + lit + ":[],\"s\":\"v\"}" : where == 3 ? "{\"zz\":[" + lit + "],\"s\":\"v\"}" : "{\"zz\":{" + lit + ":" + lit + "},\"s\":\"v\"}";
        T m; bool got = m.deserialize(doc);
        vh::info().extra_evals++;
        if (got != ok) return doc + (got ? " is accepted" : " is rejected");
        if (!ok) continue;
        if (where == 0 && (m.s.empty() || std::string(*m.s) != want)) return doc + " reads as " + q(*m.s);
        if (where == 1 && (m.r.size() != 3 || std::string(*m.r[1]) != want)) return doc + " reads as " + (m.r.size() > 1 ? q(*m.r[1]) : "nothing");
        if (where >= 2 && *m.s != std::string("v")) return doc + ": the member after it is lost";
    }
    return "";
}

template<typename A, typename B> static std::string loop(uint32_t from, uint32_t to, A make, B check)
{
    for (uint32_t c = from; c < to; ++c) { std::string e = check(make(c)); if (!e.empty()) return e; }
    return "";
}
static std::string esc(uint32_t u, int style) { char b[16]; snprintf(b, sizeof b, style == 0 ? "%04x" : "%04X", u); if (style == 2) for (int k = 0; k < 4; k += 2) b[k] = (char) tolower(b[k]); return std::string("\\u") + b; }

// payload: type, a, b
struct P { char type; uint32_t a, b; };
static std::string run(const std::string &p)
{
    P c; memcpy(&c, p.data(), sizeof c);
    const std::string E = "\xe2\x82\xac", G = "\xf0\x9f\x98\x80";
    uint32_t a = c.a, b = c.b;
    switch (c.type) {
        // every scalar value in [a, b), alone and next to others
        case 's': return loop(a, b, [](uint32_t u) { return u; }, [&](uint32_t u) -> std::string {
            if (u >= 0xD800 && u < 0xE000) return "";
            std::string t = utf8(u), e;
            for (auto &x : { t, "a" + t + "b", t + t, E + t + G, "\x7f" + t }) { e = check_write(x); if (!e.empty()) return e; }
            if (u >= 0x20 && u != '"' && u != '\\') for (auto &x : { t, "x" + t + "y", t + E, G + t }) { e = check_read("\"" + x + "\""); if (!e.empty()) return e; }
            return ""; });
        // every \uXXXX in [a, b), alone and followed by others, in three spellings
        case 'e': return loop(a, b, [](uint32_t u) { return u; }, [&](uint32_t u) -> std::string {
            for (int st = 0; st < 3; ++st) { std::string t = esc(u, st), e;
                for (auto &x : { t, "x" + t + "y", t + t, t + "\\n", "\\\\" + t, t + E, G + t, t + "\\u0041", t + "\\ud83d", t + "\\udc00", t + "\\ud83d\\ude00", "\\ud83d\\ude00" + t, "\\ud83d" + t, t + "\\", t + "\\u", t + "\\u00" }) { e = check_read("\"" + x + "\""); if (!e.empty()) return e; } }
            return ""; });
        // surrogate pairs: lead a, all trails, b spellings
        case 'p': return loop(0xDC00, 0xE000, [&](uint32_t t) { return "\"" + esc(a, (int) (b + t) % 3) + esc(t, (int) (b + t / 3) % 3) + "\""; }, check_read);
        // lead a followed by every code unit that is not a trail (step 1)
        case 'l': return loop(0, 0x10000, [&](uint32_t t) { return "\"" + esc(a, 0) + esc(t, 0) + "\""; }, [](const std::string &s) { return check_read(s); });
        // bad escapes: a = byte at position b of an escape
        case 'x': {
            std::string t = "\\u0041"; t[b] = (char) a; std::string e;
            if (a < 0x20 || a >= 0x80) return ""; // raw control characters and bytes that are not UTF-8: not covered
            for (auto &x : { t, "x" + t + "y", t + "1", t.substr(0, b + 1), "\\ud83d" + t, t + "\\ude00" }) { e = check_read("\"" + x + "\""); if (!e.empty()) return e; }
            std::string u = "\\ud83d\\ude00"; u[b] = (char) a; e = check_read("\"" + u + "\""); if (!e.empty()) return e;
            u = "\\ud83d\\ude00"; u[6 + b] = (char) a; return check_read("\"" + u + "\"");
        }
        // all byte strings beginning with a and b: lengths 2 and 3 and, with few bytes, 4
        case 'w': {
            std::string s; s += (char) a; std::string e;
            if (b == 0) { for (auto &x : { s, "k" + s, s + "k", s + E, E + s }) { e = check_write(x); if (!e.empty()) return e; } }
            s += (char) b; for (auto &x : { s, "k" + s, s + "k", G + s, s + G }) { e = check_write(x); if (!e.empty()) return e; }
            for (int k = 0; k < 256; ++k) {
                std::string u = s + (char) k; e = check_write(u); if (!e.empty()) return e;
                if (a >= 0xF0) {
                    static const int F[] = { 0x00, 0x22, 0x41, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xe0, 0xf0, 0xff };
                    for (int f : F) { e = check_write(u + (char) f); if (!e.empty()) return e; e = check_write(u + (char) f + "z"); if (!e.empty()) return e; }
                    e = check_write("z" + u); if (!e.empty()) return e;
                }
            }
            return "";
        }
        // escapes in the two-character form and the short strings over the significant characters
        default: return "?";
    }
}

// names: each field of the name messages is found under every spelling of its name, and no other field is
struct Setter1 { size_t k; int v; template<typename F> void operator()(size_t i, F &f) { if (i == k) f = v; } };
template<typename M> static std::string check_names(const std::string &p)
{
    const MsgD &d = desc_of((const M*) nullptr); size_t k; memcpy(&k, p.data(), sizeof k);
    auto &f = d.fields[k]; std::string n = f.json;
    // spellings of the name
    std::vector<uint32_t> cps; for (size_t i = 0; i < n.size();) { unsigned char c = (unsigned char) n[i]; int len = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4; uint32_t u = len == 1 ? c : c & (0x7F >> len); for (int j = 1; j < len; ++j) u = u << 6 | ((unsigned char) n[i + (size_t) j] & 63); cps.push_back(u); i += (size_t) len; }
    auto spell = [](uint32_t u, int st) { return u < 0x10000 ? esc(u, st) : esc(0xD800 + ((u - 0x10000) >> 10), st) + esc(0xDC00 + ((u - 0x10000) & 0x3FF), st); };
    std::vector<std::string> sp = { n };
    for (int st = 0; st < 3; ++st) { std::string t; for (auto u : cps) t += spell(u, st); sp.push_back(t); }
    if (cps.size() > 1) for (size_t j = 0; j < cps.size(); ++j) { std::string t; for (size_t i = 0; i < cps.size(); ++i) t += i == j ? spell(cps[i], (int) i % 3) : utf8(cps[i]); sp.push_back(t); }
    for (auto &s : sp) {
        M m; std::string doc = "{\"" + s + "\":7}"; Par par;
        if (!m.deserialize(doc, &par)) return doc + " is rejected: " + par.error.message;
        Val v = br::value_of(m); vh::info().extra_evals++;
        for (size_t i = 0; i < d.fields.size(); ++i) if (v.items[i].present != (i == k) || (i == k && v.items[i].i != 7)) return doc + " sets the wrong field (" + std::to_string(i) + ", " + q(d.fields[i].json) + ")";
    }
    // what is written
    for (int a = 0; a < 2; ++a) {
        M m; visit(m, Setter1{k, 9}); Par par; par.ensure_ascii = a; std::string out;
        if (!m.serialize(out, &par)) return "serialization fails: " + par.error.message;
        JV j; Parser P(out, true); if (!P.whole(j) || j.k.size() != 1 || j.k[0] != n) return "name " + q(n) + " written as " + q(out);
        if (a && !ascii(out)) return "non-ASCII name under ensure_ascii: " + q(out);
        M o; if (!o.deserialize(out) || !(o == m)) return q(out) + " does not restore the field";
    }
    // neighbours are other names
    for (size_t j = 0; j < cps.size(); ++j) for (uint32_t u : { cps[j] + 1, cps[j] - 1, cps[j] ^ 0x20, cps[j] + 0x40, cps[j] + 0x100, cps[j] + 0x10000, cps[j] & 0xFF, cps[j] & 0xFFFF }) {
        if (u > 0x10FFFF || (u >= 0xD800 && u < 0xE000)) continue;
        auto c = cps; c[j] = u; std::string t, raw; for (auto x : c) { t += spell(x, 0); raw += utf8(x); }
        int want = d.find(raw);
        M m; std::string doc = "{\"" + t + "\":3}"; if (!m.deserialize(doc)) return doc + " is rejected";
        Val v = br::value_of(m); vh::info().extra_evals++;
        for (size_t i = 0; i < d.fields.size(); ++i) if (v.items[i].present != ((int) i == want)) return doc + " sets the wrong field (" + std::to_string(i) + ")";
    }
    return "";
}
NAME_CHECKS

int main(int argc, char **argv)
{
    vh::Runner R(argc, argv);
    R.kind("u", run);
    R.kind("lit", check_read);
    R.kind("text", check_write);
    R.kind("name", [](const std::string &p) { return NAMES[(size_t) p[0]].first(p.substr(1)); });
    R.show = [](const std::string &k, const std::string &p) { char b[100]; if (k == "lit" || k == "text") return vh::printable(p, 500); if (k == "name") { size_t f; memcpy(&f, p.data() + 1, sizeof f); snprintf(b, sizeof b, "message %d field %zu", p[0], f); return std::string(b); } P c; memcpy(&c, p.data(), sizeof c); snprintf(b, sizeof b, "%c %x %x", c.type, c.a, c.b); return std::string(b); };
    return R.explore([&](vh::Shard &S) {
        auto go = [&](char t, uint32_t a, uint32_t b) { if (!S.mine()) return; P c; memset(&c, 0, sizeof c); c.type = t; c.a = a; c.b = b; S.run("u", std::string((const char*) &c, sizeof c)); };
        for (size_t m = 0; m < NAMES.size(); ++m) for (size_t k = 0; k < NAMES[m].second; ++k) if (S.mine()) S.run("name", std::string(1, (char) m) + std::string((const char*) &k, sizeof k));
        for (uint32_t u = 0; u < 0x110000; u += 0x100) go('s', u, u + 0x100);
        for (uint32_t u = 0; u < 0x10000; u += 0x40) go('e', u, u + 0x40);
        for (uint32_t u = 0xD800; u < 0xDC00; ++u) for (uint32_t st = 0; st < (R.thorough() ? 3u : 1u); ++st) go('p', u, st);
        for (uint32_t u = 0xD800; u < 0xE000; u += R.thorough() ? 1 : 0x111) go('l', u, 0);
        for (uint32_t a = 0; a < 256; ++a) for (uint32_t k = 1; k < 6; ++k) go('x', a, k);
        for (uint32_t a = 0x80; a < 256; ++a) for (uint32_t b = 0; b < 256; ++b) go('w', a, b);
        // short literals over the significant pieces
        std::vector<std::string> al = { "a", "\\", "\\n", "\\\"", "u", "0", "\\u0041", "\\u00", "\\u20ac", "\\ud83d", "\\ude00", "\\uDBFF", "\\uDFFF", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\\/", "d", "\\ud8" };
        int L = R.pick(4, 5);
        std::function<void(const std::string&, int)> rec = [&](const std::string &s, int n) { if (n == 2 && !S.mine()) return; if (n >= 2 || S.id == 0) S.run("lit", "\"" + s + "\""); if (n < L) for (auto &x : al) rec(s + x, n + 1); };
        rec("", 0);
        std::vector<std::string> tl = { "a", "\"", "\\", "/", "\n", std::string(1, '\0'), "\x1f", "\x7f", "\xc2\x80", "\xdf\xbf", "\xe2\x82\xac", "\xed\x9f\xbf", "\xf0\x9f\x98\x80", "\xf4\x8f\xbf\xbf", "\xc2", "\x80", "\xe2\x82", "\xed\xa0\x80", "\xf0\x9f\x98", "\xff", "u0041" };
        std::function<void(const std::string&, int)> rec2 = [&](const std::string &s, int n) { if (n == 2 && !S.mine()) return; if (n >= 2 || S.id == 0) S.run("text", s); if (n < L) for (auto &x : tl) rec2(s + x, n + 1); };
        rec2("", 0);
        // long texts: a character, raw or escaped, at every offset up to 300 and near the powers of two
        std::vector<int> offs; for (int n = 0; n <= 300; ++n) offs.push_back(n);
        for (int p = 512; p <= 1 << 17; p *= 2) for (int d = -7; d <= 3; ++d) offs.push_back(p + d);
        for (int n : offs) { if (!S.mine()) continue; std::string k((size_t) n, 'k');
            for (uint32_t u : { 0x22u, 0x1u, 0xE9u, 0x20ACu, 0x1F600u }) { std::string t = k + utf8(u) + "k"; S.run("text", t); if (u > 0x22) S.run("lit", "\"" + t + "\""); }
            for (auto e : { "\\n", "\\\"", "\\u20ac", "\\ud83d\\ude00", "\\ud83d", "\\ude00", "\\ud83dx", "\\u12", "\\x", "\\u0000" }) { S.run("lit", "\"" + k + e + "\""); S.run("lit", "\"" + k + e + "end\""); }
            for (auto b : { "\x80", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xed\xa0\x80", "\xc0\x80" }) { S.run("text", k + b); S.run("text", k + b + "end"); } }
        // many of them: lengths of several units
        for (auto u : { "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "a\xe2\x82\xac", "\"", "\x02" }) { std::string t; for (int n = 0; n <= 600; ++n) { t += u; if (n > 300 && n % 5) continue; if (!S.mine()) continue; S.run("text", t); S.run("text", "a" + t); if (u[0] != '"' && u[0] != 2) S.run("lit", "\"" + t + "\""); } }
        for (auto u : { "\\u20ac", "\\ud83d\\ude00", "\\n", "\\u0041" }) { std::string t; for (int n = 0; n <= 600; ++n) { t += u; if (!S.mine()) continue; S.run("lit", "\"" + t + "\""); } }
    });
}
