// C09: numbers, in the locale given by --env.
#include "vh.hh"
#include "refjson.hh"
#include "inc_numbers.hh"
#include "bridge.hh"
#include <locale>
#include <clocale>
using namespace ref;
typedef ::num::T T;
typedef PG::Parameters Par;

struct Punct : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\3"; } std::string do_truename() const override { return "wahr"; } std::string do_falsename() const override { return "falsch"; } };
static std::string ENV = "C"; static locale_t USED = (locale_t) 0;
static std::string state_of_locale() { struct lconv *l = localeconv(); std::string s = setlocale(LC_ALL, nullptr); s += std::string("|") + l->decimal_point + "|" + l->thousands_sep + "|" + std::use_facet<std::numpunct<char>>(std::locale()).decimal_point() + "|" + std::locale().name() + "|" + std::to_string((unsigned long) uselocale((locale_t) 0)); return s; }
static std::string BEFORE;
static void set_env()
{
    if (ENV == "de" || ENV == "both") { if (!setlocale(LC_ALL, "de_DE.UTF-8")) { fprintf(stderr, "no locale de_DE\n"); _exit(93); } }
    if (ENV == "global" || ENV == "both") std::locale::global(std::locale(std::locale::classic(), new Punct));
    if (ENV == "used") { USED = newlocale(LC_ALL_MASK, "de_DE.UTF-8", (locale_t) 0); if (!USED) { fprintf(stderr, "no locale de_DE\n"); _exit(93); } uselocale(USED); }
    BEFORE = state_of_locale();
}

// field k of T is single, k + 6 repeated
static const Type TYPES[] = { T_I32, T_I64, T_U32, T_U64, T_FLOAT, T_DOUBLE };
static const char *NAMES[] = { "a", "b", "c", "d", "e", "f" };

// what the text means for a type: false when it must be rejected
static bool meaning(Type t, const std::string &s, Val &v)
{
    if (!number_syntax(s)) return false;
    __int128 n; v.present = true;
    switch (t) {
        case T_DOUBLE: v.d = to_double(s); return std::isfinite(v.d);
        case T_FLOAT: v.d = (double) to_float(s); return std::isfinite(v.d);
        default: if (!to_integer(s, tmin(t), tmax(t), n)) return false; if (is_signed(t)) v.i = (int64_t) n; else v.u = (uint64_t) n; return true;
    }
}
static std::string check_text(const std::string &text)
{
    const MsgD &d = desc_of((const T*) nullptr);
    for (size_t k = 0; k < 6; ++k) {
        Val w; bool ok = meaning(TYPES[k], text, w);
        for (int rep = 0; rep < 2; ++rep) {
            T m; std::string doc = std::string("{\"") + (rep ? "r" : "") + NAMES[k] + "\":" + (rep ? "[1," + text + "]" : text) + "}";
            bool got = m.deserialize(doc); vh::info().extra_evals++;
            if (got != ok) return "field of type " + d.fields[k].cname + ": " + doc + (got ? " is accepted: " + dump(d, br::value_of(m)) : " is rejected");
            if (!ok) continue;
            Val v = br::value_of(m); const Val &x = rep ? v.items[k + 6].items.back() : v.items[k];
            if (x != w) return doc + " is stored as " + dump_scalar(TYPES[k], x) + " instead of " + dump_scalar(TYPES[k], w);
        }
    }
    vh::info().traces = 1;
    return "";
}
template<typename V, typename F, typename L> static std::string round_trip(Type t, V x, F &&field, L &&list)
{
    T m; field(m) = x; list(m).push_back(x); std::string out;
    if (!m.serialize(out)) return "serialization fails";
    T n; if (!n.deserialize(out)) return "own output is rejected: " + out;
    V y = field(n), z = list(n).empty() ? V() : list(n).front();
    if (list(n).size() != 1 || field(n).empty() || memcmp(&x, &y, sizeof x) || memcmp(&x, &z, sizeof x)) return "value restored differently from " + out;
    // the text is a number with that value
    JV j; Parser P(out); if (!P.whole(j) || j.a.size() != 2 || j.a[0].t != JV::NUM) return "ill-formed output " + out;
    for (auto &s : { j.a[0].s, j.a[1].a.empty() ? std::string() : j.a[1].a[0].s }) {
        if (std::is_floating_point<V>::value) { V w = sizeof(V) == 4 ? (V) to_float(s) : (V) to_double(s); if (memcmp(&w, &x, sizeof x)) return "written as " + out; }
        else { Val w; if (!meaning(t, s, w) || (std::is_signed<V>::value ? w.i != (int64_t) x : w.u != (uint64_t) x)) return "written as " + out; }
    }
    vh::info().extra_evals++;
    return "";
}
static std::string check_bits(int type, uint64_t bits)
{
    std::string e;
    switch (type) {
        case 0: e = round_trip<int32_t>(T_I32, (int32_t) bits, [](T &m) -> decltype(m.a)& { return m.a; }, [](T &m) -> decltype(m.ra)& { return m.ra; }); break;
        case 1: e = round_trip<int64_t>(T_I64, (int64_t) bits, [](T &m) -> decltype(m.b)& { return m.b; }, [](T &m) -> decltype(m.rb)& { return m.rb; }); break;
        case 2: e = round_trip<uint32_t>(T_U32, (uint32_t) bits, [](T &m) -> decltype(m.c)& { return m.c; }, [](T &m) -> decltype(m.rc)& { return m.rc; }); break;
        case 3: e = round_trip<uint64_t>(T_U64, (uint64_t) bits, [](T &m) -> decltype(m.d)& { return m.d; }, [](T &m) -> decltype(m.rd)& { return m.rd; }); break;
        case 4: { float f; uint32_t b = (uint32_t) bits; memcpy(&f, &b, 4); if (!std::isfinite(f)) return ""; e = round_trip<float>(T_FLOAT, f, [](T &m) -> decltype(m.e)& { return m.e; }, [](T &m) -> decltype(m.re)& { return m.re; }); break; }
        default: { double f; memcpy(&f, &bits, 8); if (!std::isfinite(f)) return ""; e = round_trip<double>(T_DOUBLE, f, [](T &m) -> decltype(m.f)& { return m.f; }, [](T &m) -> decltype(m.rf)& { return m.rf; }); }
    }
    if (!e.empty()) { char b[64]; snprintf(b, sizeof b, "type %s, bits %llx: ", NAMES[type], (unsigned long long) bits); return b + e; }
    return "";
}
// payload: type, low, high, step
struct Range { int type; uint64_t from, to, step; };
static std::string check_range(const std::string &p)
{
    Range r; memcpy(&r, p.data(), sizeof r);
    for (uint64_t b = r.from; b < r.to; b += r.step) { std::string e = check_bits(r.type, b); if (!e.empty()) return e; }
    return "";
}
static std::string check_list(const std::string &p)
{
    for (size_t k = 1; k + 8 <= p.size(); k += 8) { uint64_t b; memcpy(&b, p.data() + k, 8); std::string e = check_bits(p[0], b); if (!e.empty()) return e; }
    return "";
}

static std::string guard(std::string e)
{
    if (e.empty()) { std::string a = state_of_locale(); if (a != BEFORE) return "the locale was changed: " + a + " instead of " + BEFORE; }
    return e.empty() ? e : "locale " + ENV + ": " + e;
}

int main(int argc, char **argv)
{
    vh::Runner R(argc, argv);
    ENV = R.opts["env"]; set_env();
    R.kind("text", [](const std::string &p) { return guard(check_text(p)); });
    R.kind("range", [](const std::string &p) { return guard(check_range(p)); });
    R.kind("list", [](const std::string &p) { return guard(check_list(p)); });
    R.show = [](const std::string &k, const std::string &p) { if (k == "text") return vh::printable(p, 500); if (k == "list") return std::string("bit patterns of type ") + NAMES[(size_t) p[0]]; Range r; memcpy(&r, p.data(), sizeof r); char b[100]; snprintf(b, sizeof b, "type %s bits %llx to %llx step %llx", NAMES[r.type], (unsigned long long) r.from, (unsigned long long) r.to, (unsigned long long) r.step); return std::string(b); };
    return R.explore([&](vh::Shard &S) {
        bool main_env = ENV == "C";
        // 1. every text over the number alphabet
        const std::string al = "019-+.eE"; int L = main_env ? R.pick(6, 8) : R.pick(4, 6);
        std::function<void(std::string&)> rec = [&](std::string &s) {
            if (s.size() == 3 && !S.mine()) return;
            if (!s.empty() && (s.size() >= 3 || S.id == 0)) { S.run("text", s); S.state(vh::hash(std::to_string(number_syntax(s)) + std::to_string(s.size()) + s.substr(s.size() - 1) + (s.find_first_of("eE") == std::string::npos ? "" : "e") + (s.find('.') == std::string::npos ? "" : "."))); S.transition(); }
            if ((int) s.size() < L) for (char c : al) { s += c; rec(s); s.pop_back(); }
        };
        { std::string s; rec(s); }
        // other characters
        for (int c = 0x21; c < 256; ++c) { char x = (char) c; if (strchr("\"\\{}[],:/", x)) continue; if (c >= 0x80 && !main_env) continue; if (!S.mine()) continue; for (auto t : { std::string(1, x), x + std::string("1"), "1" + std::string(1, x), "-" + std::string(1, x), "1." + std::string(1, x), "1e" + std::string(1, x), "1" + std::string(1, x) + "5" }) { if (t == "t" || t == "n") continue; S.run("text", t); } }
        // 2. integers at every boundary, in every form
        std::vector<__int128> edge;
        for (int k = 0; k < 70; ++k) for (int o = -3; o <= 3; ++o) { __int128 b = (__int128) 1 << k; edge.push_back(b + o); edge.push_back(-b + o); }
        for (__int128 p = 1; p < (__int128) 1 << 100; p *= 10) for (int o = -2; o <= 2; ++o) { edge.push_back(p + o); edge.push_back(-p + o); edge.push_back(p * 9 + o); }
        for (int o = 0; o < 20; ++o) for (__int128 b : { (__int128) INT32_MAX, (__int128) INT32_MIN, (__int128) UINT32_MAX, (__int128) INT64_MAX, (__int128) INT64_MIN, (__int128) UINT64_MAX, (__int128) 0 }) { edge.push_back(b + o); edge.push_back(b - o); }
        for (auto v : edge) {
            if (!S.mine()) continue;
            std::string s = i128(v), sign = s[0] == '-' ? "-" : "", m = sign.empty() ? s : s.substr(1);
            std::vector<std::string> f = { s, s + ".0", s + ".000000000000000000000000", s + ".5", s + ".0000000000000000000001", s + ".9999999999999999999999", s + "e0", s + "E+0", s + "e-0", s + "e+00000000000000000000", s + "0e-1", s + "000e-3", s + "5e-1", s + ".0e0", s + "e-1", s + "e1", sign + "0" + m, "+" + s, s + "." , s + "e", "-" + s, sign + "0." + m + "e" + std::to_string(m.size()), sign + "0.0" + m + "E+" + std::to_string(m.size() + 1) };
            for (size_t k = 1; k < m.size(); ++k) { f.push_back(sign + m.substr(0, k) + "." + m.substr(k) + "e" + std::to_string(m.size() - k)); f.push_back(sign + m.substr(0, k) + "." + m.substr(k)); f.push_back(sign + m.substr(0, k) + "." + m.substr(k) + "E+0" + std::to_string(m.size() - k)); f.push_back(sign + m.substr(0, k) + "." + m.substr(k) + "e" + std::to_string(m.size() - k - 1)); }
            for (auto &t : f) { S.run("text", t); S.transition(); }
        }
        // 3. floating point: halfway cases, extremes, long mantissas and exponents (generated exactly; strtod rounds correctly)
        std::vector<std::string> fl = FLOAT_TEXTS;
        for (auto &t : fl) if (S.mine()) { S.run("text", t); S.run("text", "-" + t); }
        for (int e = -400; e <= 400; ++e) { if (!S.mine()) continue; for (auto m : { "1", "9", "1.5", "4.9406564584124654", "1.7976931348623157", "1.7976931348623159", "2.2250738585072014", "3.4028235", "3.4028236", "1.4012985", "0.7006492321624085", "9007199254740993", "0.000000000000000000001", "123456789012345678901234567890", "5", "0", "0.0" }) { S.run("text", std::string(m) + "e" + std::to_string(e)); S.run("text", std::string("-") + m + "E" + (e >= 0 ? "+" : "") + std::to_string(e)); } }
        for (int n : { 1, 10, 17, 18, 19, 20, 21, 30, 31, 32, 39, 40, 63, 64, 65, 100, 127, 128, 255, 256, 300, 308, 309, 310, 400, 767, 768, 800, 1000, 1100, 5000 }) {
            if (!S.mine()) continue;
            std::string z((size_t) n, '0'), o((size_t) n, '1'), nine((size_t) n, '9');
            for (auto &t : { o, nine, "1" + z, "0." + z + "1", "0." + o, "0." + nine, "1" + z + "e-" + std::to_string(n), "1." + z, "0." + z + "1e" + std::to_string(n + 1), "1e" + o, "1e-" + o, "0e" + nine, "1e" + z, "1e" + z + "1", "1e-" + z + "1", nine + "." + nine, "1." + z + "1", "12." + z + "e1", "0." + z, "-0." + z, "0" + z, "1" + z + "." + z, "25" + z + "e-" + std::to_string(n + 1), "25" + z + "e-" + std::to_string(n) }) S.run("text", t);
        }
        // 4. values: bit patterns
        std::string pl;
        auto flush = [&](int type) { if (pl.size() > 1) S.run("list", pl); pl.assign(1, (char) type); };
        auto bits = [&](int type, uint64_t b) { if (pl.empty() || pl[0] != (char) type || pl.size() > 4096) flush(type); pl.append((const char*) &b, 8); };
        for (int type = 0; type < 4; ++type) {
            int w = type == 0 || type == 2 ? 32 : 64;
            for (int a = 0; a <= w; ++a) { if (!S.mine()) continue; for (int b = a; b <= w; ++b) { // runs of ones
                uint64_t hi = b == 64 ? ~0ULL : (1ULL << b) - 1, lo = a == 64 ? ~0ULL : (1ULL << a) - 1, r = hi & ~lo; for (int o = -2; o <= 2; ++o) { bits(type, r + (uint64_t) o); bits(type, ~r + (uint64_t) o); } }
                for (int b = 0; b < w; ++b) for (int o = -5; o <= 5; ++o) bits(type, (a < 64 ? 1ULL << a : 0) + (1ULL << b) + (uint64_t) o); }
            flush(type);
            uint64_t p = 1; for (int k = 0; k < 20; ++k, p *= 10) { if (!S.mine()) continue; for (uint64_t o = 0; o < 2000; ++o) { bits(type, p + o - 1000); bits(type, 0 - p + o - 1000); } } flush(type);
            for (uint64_t b = 0; b < 65536; b += 4096) if (S.mine()) { for (uint64_t k = 0; k < 4096; ++k) { bits(type, b + k - 32768); bits(type, (1ULL << (w - 1)) + b + k - 32768); } flush(type); }
        }
        uint32_t MX = main_env ? 1 : 4;
        for (uint32_t e = 0; e < 255; ++e) for (uint32_t s = 0; s < 2; ++s) { // floats
            if (!S.mine() || e % MX) continue;
            uint32_t base = s << 31 | e << 23;
            for (uint32_t a = 0; a < 23; ++a) for (uint32_t b = a; b < 23; ++b) { uint32_t m = 1u << a | 1u << b; bits(4, base | m); bits(4, base | (~m & 0x7FFFFF)); bits(4, base | (((1u << b) - 1) & ~((1u << a) - 1))); }
            for (uint32_t k = 0; k < 256; ++k) { bits(4, base | k); bits(4, base | k << 15); bits(4, base | (0x7FFFFF - k)); }
            flush(4);
        }
        for (uint64_t e = 0; e < 2047; ++e) for (uint64_t s = 0; s < 2; ++s) { // doubles
            if (!S.mine() || e % MX) continue;
            uint64_t base = s << 63 | e << 52, all = (1ULL << 52) - 1;
            for (uint64_t a = 0; a < 52; ++a) { bits(5, base | 1ULL << a); bits(5, base | (all ^ 1ULL << a)); bits(5, base | ((1ULL << a) - 1)); bits(5, base | (all & ~((1ULL << a) - 1))); if (R.thorough()) for (uint64_t b = 0; b < a; ++b) { uint64_t m = 1ULL << a | 1ULL << b; bits(5, base | m); bits(5, base | (all & ~m)); } }
            for (uint64_t k = 0; k < 32; ++k) { bits(5, base | k); bits(5, base | k << 47); bits(5, base | (all - k)); }
            flush(5);
        }
        if (R.thorough() && main_env) for (int type : { 4, 0, 2 }) for (uint64_t hi = 0; hi < 65536; hi += 16) if (S.mine()) { Range r; memset(&r, 0, sizeof r); r.type = type; r.from = hi << 16; r.to = (hi + 16) << 16; r.step = type == 4 ? 1 : 7; S.run("range", std::string((const char*) &r, sizeof r)); }
    });
}
