// C08: the work of the deserializer, counted, on families of documents of growing length.
#include "vh.hh"
#include "cost.hh"
#include "values.hh"
#include SCHEMA_INC
#include "bridge.hh"

static size_t N = 1000;
static std::vector<std::string> parts(const std::string &p) { std::vector<std::string> v(1); for (char c : p) if (c == 1) v.emplace_back(); else v.back() += c; return v; }
static std::string rep(const std::string &u, size_t n)
{
    std::string s; s.reserve(u.size() * n + 64);
    auto k = u.find('#'); // a number of its own in each repetition
    for (size_t i = 0; i < n; ++i) if (k == u.npos) s += u; else { s.append(u, 0, k); s += std::to_string(1000000 + i); s.append(u, k + 1); }
    return s;
}
// payload: prefix, unit, middle, closing unit, suffix
static std::string document(const std::vector<std::string> &v, size_t n) { return v[0] + rep(v[1], n) + v[2] + rep(v[3], n) + v[4]; }

template<typename F> static std::string grow(const std::string &payload, F op)
{
    auto part = parts(payload); std::string verdict;
    auto e = cost::linear([&](size_t n) { std::string doc = document(part, n); std::string v; auto c = op(doc, v); c.verdict = v; verdict += v; return c; }, N, false);
    vh::info().outcome = verdict;
    return e;
}
template<typename M> static std::string check_text(const std::string &p) { return grow(p, [](const std::string &doc, std::string &v) { M m; PG::Parameters ps; return cost::measure([&]{ v += m.deserialize(doc, &ps) ? "Y" : "N" + std::to_string((int) ps.error.code); }); }); }
template<typename M> static std::string check_stream(const std::string &p) { return grow(p, [](const std::string &doc, std::string &v) { M m; PG::Parameters ps; std::istringstream in(doc); return cost::measure([&]{ v += m.deserialize(in, &ps) ? "Y" : "N" + std::to_string((int) ps.error.code); }); }); }
template<typename C> static std::string check_array(const std::string &p) { return grow(p, [](const std::string &doc, std::string &v) { C c; PG::Parameters ps; return cost::measure([&]{ v += PG::deserialize_array(c, doc, &ps) ? "Y" : "N" + std::to_string((int) ps.error.code); }); }); }
typedef std::string (*Fn)(const std::string&);
static const Fn ARRAYS[] = { check_array<std::vector<NS::Doc>>, check_array<std::vector<int32_t>>, check_array<std::list<std::string>>, check_array<std::vector<bool>>, check_array<std::vector<double>>, check_array<std::list<NS::Deep>> };

int main(int argc, char **argv)
{
    vh::Runner R(argc, argv); if (R.thorough()) N = 4000;
    R.kind("text", check_text<NS::Doc>); R.kind("deep", check_text<NS::Deep>); R.kind("stream", check_stream<NS::Doc>);
    R.kind("array", [](const std::string &p) { return ARRAYS[(size_t) p[0] - 'A'](p.substr(1)); });
    R.show = [](const std::string &k, const std::string &p) { auto v = parts(k == "array" ? p.substr(1) : p); return vh::printable(v[0]) + " + N x " + vh::printable(v[1]) + " + " + vh::printable(v[2]) + " + N x " + vh::printable(v[3]) + " + " + vh::printable(v[4]) + (k == "array" ? " into container " + p.substr(0, 1) : ""); };
    static const std::vector<std::string> pre = { "", "{", "{\"", "{\"i", "{\"i\"", "{\"i\":", "{\"i\":1", "{\"s\":\"", "{\"s\":\"\\", "{\"s\":\"\\u", "{\"s\":\"\\ud8", "{\"s\":\"\\ud83d", "{\"s\":\"\\ud83d\\u", "{\"y\":\"", "{\"y\":\"QUJ", "{\"d\":", "{\"d\":-1", "{\"d\":1e", "{\"d\":1.",
        "{\"l\":[", "{\"l\":[1,", "{\"ls\":[", "{\"ls\":[\"", "{\"ly\":[", "{\"ly\":[\"", "{\"m\":{", "{\"m\":{\"t\":\"", "{\"r\":[", "{\"r\":[{\"n\":", "{\"zz\":", "{\"zz\":[", "{\"zz\":{", "{\"zz\":[{\"a\":", "{\"zz\":\"", "{\"zz\":-1", "{\"b\":", "{\"b\":tr", "{\"k\":", "{\"r\":[{\"k\":" };
    static const std::vector<std::string> unit = { "[", "{", "{\"k\":", "{\"zz\":", "[{\"a\":", "[[],", "[],", "{},", "\"", "\"\",", "\"a\",", "\\", "\\\\", "\\n", "1", "1,", "-", " ", "\n", "\r\n", "\t", "a", "QUJD", "=", ",", ":", "]", "}", "\\u0041", "\\ud83d", "\\ud83d\\ude00", "\xC3\xA9", "\xFF", "null,", "true,", "1.5e3,", "0", "9", "e1", ".", "{\"m\":", "{\"r\":[", "\"i\":1,", "\"#\":1,", "\"#\":{},", "{\"n\":#},",
        "\"QUJD\",", "\"s\":\"x\",", "\"l\":[1],", "\"m\":{},", "\"r\":[{}],", "\"zz\":[1],", "{\"t\":\"\\u20ac\"},", std::string(1, '\0') };
    static const std::vector<std::pair<std::string, std::string>> close = { { "", "" }, { "1", "" }, { "", "]" }, { "1", "]" }, { "1", "}" }, { "{}", "]}" }, { "1", "}]" } };
    static const std::vector<std::string> suffix = { "", "}", "\"}", "]}", "null]}", "\"}}", "\"x\":1}", "\"]}", "]}]}" };
    return R.explore([&](vh::Shard &S) {
        auto family = [&](const char *kind, const std::string &head, const std::string &p, const std::string &u, const std::pair<std::string, std::string> &c, const std::string &s) { if (S.mine()) { S.run(kind, head + p + '\1' + u + '\1' + c.first + '\1' + c.second + '\1' + s); S.state(vh::hash(head + p + '\1' + u)); S.transition(); } };
        for (auto &p : pre) for (auto &u : unit) {
            for (auto &c : close) for (auto &s : suffix) if (R.thorough() || c.second.empty() || s == "" || s == "}" || s == "]}") family("text", "", p, u, c, s);
            for (auto &s : suffix) if (R.thorough() || s == "}" || s == "\"}" || s == "]}") family("stream", "", p, u, close[0], s);
            for (auto &c : close) if (R.thorough() || c.second.empty() || p.find('k') != p.npos || u.find('k') != u.npos) family("deep", "", p, u, c, "}");
        }
        static const std::vector<std::string> heads = { "", "[", "[{", "[{\"s\":\"", "[{\"k\":{", "[1,", "[\"", "[\"\\u", "[t", "[-1.5e", "[[", "{\"a\":" };
        for (char k = 'A'; k <= 'F'; ++k) for (auto &p : heads) for (auto &u : unit) for (auto &c : close) if (R.thorough() || c.second.empty() || c.first == "1") for (auto s : { "", "]", "{}]", "1]", "\"\"]" }) if (R.thorough() || *s) family("array", std::string(1, k), p, u, c, s);
    });
}
