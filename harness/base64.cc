// C10: bytes fields.
#include "vh.hh"
#include "refjson.hh"
#include "inc_base64.hh"
#include "bridge.hh"
using namespace ref;
typedef PG::Parameters Par;
static std::string q(const std::string &s) { return vh::printable(s, 300); }

// where the byte string is put: 0 single, 1 repeated, 2 nested, 3 repeated nested
template<typename M> static std::string check_bytes_(const std::string &data, bool every)
{
    const MsgD &d = desc_of((const M*) nullptr); const MsgD &sub = *d.fields[2].ref;
    for (int where = 0; where < (every ? 4 : 1); ++where) {
        Val v = empty_msg(d), b; b.s = data; b.present = !data.empty();
        if (where == 0) v.items[0] = b; else if (where == 1) { b.present = true; v.items[1].items = { b, b }; }
        else { Val m = empty_msg(sub); m.items[0] = b; if (where == 2) v.items[2] = m; else v.items[3].items = { m, empty_msg(sub), m }; }
        fix_msg(d, v);
        M o; br::set(o, v); std::string out; vh::info().extra_evals++;
        if (!o.serialize(out)) return "serialization fails";
        JV j; Parser P(out); if (!P.whole(j)) return "ill-formed output " + q(out);
        std::string e = match_msg(d, v, j, false); if (!e.empty()) return e + ": " + q(out);
        M n; Par par; if (!n.deserialize(out, &par)) return "own output rejected: " + q(out);
        if (br::value_of(n) != v || !(n == o)) return q(out) + " read as " + q(dump(d, br::value_of(n)));
    }
    return "";
}
// the text of a JSON string literal (without quotes)
template<typename M> static std::string check_text_(const std::string &lit, bool every)
{
    const MsgD &d = desc_of((const M*) nullptr);
    JV jl; { std::string l = "\"" + lit + "\""; Parser P(l); if (!P.whole(jl) || jl.t != JV::STR) return "bad test literal " + lit; }
    std::string want; int ok = unb64(jl.s, want);
    if (ok == 2) return ""; // discarded bits that are not zero: not covered
    auto name = [&](const MsgD &d, size_t k) { return "\"" + d.fields[k].json + "\":"; }; const MsgD &sub = *d.fields[2].ref;
    for (int where = 0; where < (every ? 4 : 1); ++where) {
        std::string v = "\"" + lit + "\"";
        std::string doc = where == 0 ? "{" + name(d, 0) + v + "}" : where == 1 ? "{" + name(d, 1) + "[\"QQ==\"," + v + "]}" : where == 2 ? "{" + name(d, 2) + "{" + name(sub, 0) + v + "}}" : "{" + name(d, 3) + "[{},{" + name(sub, 0) + v + "}]}";
        M n; Par p; bool got = n.deserialize(doc, &p); vh::info().extra_evals++;
        if (got != (ok == 1)) return q(doc) + (got ? " is accepted" : " is rejected: " + p.error.message);
        if (!got) { if (p.error.code == PG::PGERR_OK) return q(doc) + ": no error code"; continue; }
        Val x = br::value_of(n); const Val &b = where == 0 ? x.items[0] : where == 1 ? x.items[1].items.back() : where == 2 ? x.items[2].items[0] : x.items[3].items.back().items[0];
        if (b.s != want) return q(doc) + " read as " + q(b.s) + " instead of " + q(want);
    }
    return "";
}
typedef std::string (*Fn)(const std::string&, bool);
SCHEMAS
// payload: schema, then data
static std::string all_with(const std::string &p, int from, int to)
{
    // every byte string with the prefix and one more byte
    for (int k = from; k < to; ++k) { std::string e = BYTES[(size_t) p[0]](p.substr(1) + (char) k, p.size() < 3); if (!e.empty()) return e + " (contents " + q(p.substr(1) + (char) k) + ")"; }
    return "";
}

int main(int argc, char **argv)
{
    vh::Runner R(argc, argv);
    R.kind("bytes", [](const std::string &p) { return BYTES[(size_t) p[0]](p.substr(1), true); });
    R.kind("last", [](const std::string &p) { return all_with(p, 0, 256); });
    R.kind("text", [](const std::string &p) { return TEXTS[(size_t) p[0]](p.substr(2), p[1] != 0); });
    R.show = [](const std::string &k, const std::string &p) { return k + " schema " + std::to_string((int) p[0]) + ": " + vh::printable(p.substr(1), 500); };
    return R.explore([&](vh::Shard &S) {
        for (size_t sc = 0; sc < NSCHEMAS; ++sc) {
            std::string P(1, (char) sc);
            if (S.id == 0) S.run("bytes", P);
            if (S.mine()) S.run("last", P);
            for (int a = 0; a < 256; ++a) { if (!S.mine()) continue; S.run("last", P + (char) a); if (sc == 0) for (int b = 0; b < 256; b += R.pick(3, 1)) S.run("last", P + (char) a + (char) b); else for (int b = 0; b < 256; b += 51) S.run("last", P + (char) a + (char) b); }
            // every length, several contents
            for (int n = 0; n <= (sc ? R.pick(400, 2000) : R.pick(1500, 5000)); ++n) { if (!S.mine()) continue; std::string x, y; for (int k = 0; k < n; ++k) { x += (char) (k * 89 + n); y += (char) (255 - k); } for (auto &s : { x, y, std::string((size_t) n, '\0'), std::string((size_t) n, '\xff') }) S.run("bytes", P + s); }
            std::vector<int> big = { 300000, 1000000 }; for (int p = 512; p <= (sc ? 1 << 14 : 1 << 18); p *= 2) for (int d = -4; d <= 4; ++d) { big.push_back(p + d); big.push_back(p / 4 * 3 + d); }
            for (int n : big) if (S.mine()) { std::string x; for (int k = 0; k < n; ++k) x += (char) (k * 7 + k / 256); S.run("bytes", P + x); }
            // one byte set at every place of a block
            for (int n = 1; n <= 12; ++n) for (int k = 0; k < n; ++k) for (int b = 0; b < 256; ++b) { if (!S.mine()) continue; std::string x((size_t) n, '\0'), y((size_t) n, '\xff'); x[(size_t) k] = y[(size_t) k] = (char) b; S.run("bytes", P + x); S.run("bytes", P + y); }
            // texts
            std::string T = P + '\1', F = P + '\0';
            for (auto base : { "QUJD", "QUI=", "QQ==", "QUJDREVG", "QUJDREU=", "QUJDRA==", "QQ==QQ==", "QUI=QUI=", "QUJDQQ==QUJD", "" }) {
                std::string b = base;
                for (size_t k = 0; k <= b.size(); ++k) for (int c = 0; c < 256; ++c) {
                    if (!S.mine()) continue;
                    char x[8]; snprintf(x, sizeof x, "\\u%04x", c); std::string ch = x;
                    S.run("text", T + b.substr(0, k) + ch + b.substr(k)); if (k < b.size()) S.run("text", T + b.substr(0, k) + ch + b.substr(k + 1));
                    if (c > 0x20 && c < 0x7f && c != '"' && c != '\\') { ch = std::string(1, (char) c); S.run("text", T + b.substr(0, k) + ch + b.substr(k)); if (k < b.size()) S.run("text", T + b.substr(0, k) + ch + b.substr(k + 1)); }
                }
                for (size_t k = 0; k < b.size(); ++k) if (S.mine()) { S.run("text", T + b.substr(0, k)); S.run("text", T + b.substr(k)); S.run("text", T + b.substr(0, k) + b.substr(k + 1)); }
                for (auto w : { " ", "\\n", "\\t", "\\r\\n", "=", "==", "===", "====", "\\u0000", "\xc3\xa9", "-", "_", "\\/", "\\u20ac", "\\u0151", "\\u0141" }) for (size_t k = 0; k <= b.size(); ++k) if (S.mine()) S.run("text", T + b.substr(0, k) + w + b.substr(k));
            }
            auto words = [&](const std::string &al, int L, const std::string &pre) {
                std::function<void(std::string&)> rec = [&](std::string &s) { if (s.size() == 2 && !S.mine()) return; if (s.size() >= 2 || S.id == 0) S.run("text", pre + s); if ((int) s.size() < L) for (char c : al) { s += c; rec(s); s.pop_back(); } };
                std::string s; rec(s);
            };
            words("AQ=/+z9-", sc ? 4 : R.pick(6, 7), F); words("Qg=*", sc ? 5 : R.pick(9, 11), F); words("A=", 12, F);
            // all four-character texts of the alphabet ends, and all two-character ends
            for (char a : std::string("AZaz09+/")) for (char b : std::string("AZaz09+/=@[`{:.,-_")) { if (!S.mine()) continue; for (char c : std::string("AZaz09+/=")) for (char e : std::string("AZaz09+/=-")) S.run("text", F + std::string({ a, b, c, e })); }
        }
    });
}
