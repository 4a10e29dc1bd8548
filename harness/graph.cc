// C14: reference graphs between messages: verdict of the real compiler against a cycle search.
#include "vh.hh"
#include <algorithm>
#include <protogen/protogen.hh>

// payload: n, mode, then the edges as pairs of numbers of two bytes in the order of declaration
struct G { int n; int mode; std::vector<std::pair<int,int>> e; };
static void put(std::string &s, int x) { s += (char) (x & 255); s += (char) (x >> 8); }
static int get(const std::string &s, size_t i) { return (unsigned char) s[i] | (unsigned char) s[i + 1] << 8; }
static std::string enc(const G &g) { std::string s; put(s, g.n); put(s, g.mode); for (auto &x : g.e) { put(s, x.first); put(s, x.second); } return s; }
static G dec(const std::string &s) { G g; g.n = get(s, 0); g.mode = get(s, 2); for (size_t i = 4; i + 3 < s.size(); i += 4) g.e.push_back({ get(s, i), get(s, i + 2) }); return g; }
static std::string nm(int i) { return i < 26 ? std::string(1, (char) ('A' + i)) : "N" + std::to_string(i); }

static std::string proto(const G &g)
{
    static const char *MOD[] = { "", "repeated ", "optional ", "", "repeated " };
    static const char *OPT[] = { "", "", "", " [transient=true]", " [transient=true]" };
    std::string s = "syntax = \"proto3\";\npackage p.q;\n";
    for (int i = 0; i < g.n; ++i) {
        s += "message " + nm(i) + " {"; int k = 0;
        if (g.mode == 6) s += " int32 x = 500;";
        for (size_t j = 0; j < g.e.size(); ++j) {
            if (g.e[j].first != i) continue;
            int m = g.mode < 5 ? g.mode : (int) ((j * 3 + (size_t) g.e[j].second + (size_t) g.mode) % 5);
            std::string q = g.mode == 6 && j % 3 ? (j % 3 == 1 ? "p.q." : "q.") : "";
            int times = g.mode == 7 ? 2 : 1;
            for (int t = 0; t < times; ++t) { ++k; s += std::string(" ") + MOD[m] + q + nm(g.e[j].second) + " f" + std::to_string(k) + " = " + std::to_string(k) + OPT[m] + ";"; m = (m + 1) % 5; }
        }
        s += " }\n";
    }
    return s;
}
static bool cyclic(const G &g)
{
    std::vector<int> in((size_t) g.n, 0), todo; int seen = 0;
    for (auto &x : g.e) ++in[(size_t) x.second];
    for (int i = 0; i < g.n; ++i) if (!in[(size_t) i]) todo.push_back(i);
    while (!todo.empty()) { int i = todo.back(); todo.pop_back(); ++seen; for (auto &x : g.e) if (x.first == i && --in[(size_t) x.second] == 0) todo.push_back(x.second); }
    return seen < g.n;
}
static std::string check(const std::string &payload)
{
    G g = dec(payload); bool want = !cyclic(g);
    vh::info().traces = 1; vh::info().nontrivial = !g.e.empty(); vh::info().outcome = want ? "acyclic" : "cyclic";
    try {
        protogen::Proto3 p; std::istringstream in(proto(g)); p.parse(in, "f.proto");
        std::ostringstream o; protogen::CppGenerator gen; gen.generate(p, o);
        if (!want) return "a cycle is accepted";
        if (p.messages.size() != (size_t) g.n) return "messages were lost or doubled";
    }
    catch (protogen::exception &e) {
        if (want) return "rejected although there is no cycle: " + e.cause();
        std::string c = e.cause(); for (auto &x : c) x = (char) tolower(x);
        if (c.find("circular") == std::string::npos && c.find("cycl") == std::string::npos && c.find("recurs") == std::string::npos) return "the error does not name a circular reference: " + c;
    }
    return "";
}

int main(int argc, char **argv)
{
    vh::Runner R(argc, argv);
    R.kinds = { { "graph", check } };
    R.show = [](const std::string &, const std::string &p) { return proto(dec(p)); };
    return R.explore([&](vh::Shard &S) {
        auto graphs = [&](int n, bool loops, std::vector<int> modes) {
            std::vector<std::pair<int,int>> all;
            for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (loops || i != j) all.push_back({ i, j });
            for (uint64_t bits = 0; bits < (1ull << all.size()); ++bits) {
                if (!S.mine()) continue;
                G g; g.n = n; g.mode = 0; for (size_t k = 0; k < all.size(); ++k) if (bits >> k & 1) g.e.push_back(all[k]);
                S.state(vh::hash(enc(g))); S.transition(g.e.size());
                for (int m : modes) { g.mode = m; S.run("graph", enc(g)); if (g.e.size() > 1) { auto h = g; std::reverse(h.e.begin(), h.e.end()); S.run("graph", enc(h)); } }
            }
        };
        for (int n = 1; n <= 3; ++n) graphs(n, true, { 0, 1, 2, 3, 4, 5, 6, 7 });
        graphs(4, true, R.thorough() ? std::vector<int>{ 0, 1, 2, 3, 4, 5, 6, 7 } : std::vector<int>{ 0, 5 });
        if (R.thorough()) graphs(5, false, { 5 });
        // rings, chains, rings with tails, ring as a separate component, in several orders of declaration
        for (int n : { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 513, 700 }) for (int order = 0; order < 4; ++order) for (int shape = 0; shape < 7; ++shape) for (int at = 0; at < n; at += 1 + n / (n > 200 ? 3 : 6)) for (int mode : { 0, 1, 5, 7 }) {
            if (n > 200 && mode == 1) continue;
            if (!S.mine()) continue;
            auto pos = [&](int i) { switch (order) { case 0: return i; case 1: return n - 1 - i; case 2: return i % 2 ? n - 1 - i / 2 : i / 2; default: return (int) ((long) i * 7 % n); } };
            if (order == 3 && n % 7 == 0) continue;
            G g; g.n = n; g.mode = mode;
            for (int i = 0; i + 1 < n; ++i) g.e.push_back({ pos(i), pos(i + 1) });
            switch (shape) {
                case 0: break;                                                        // chain
                case 1: g.e.push_back({ pos(n - 1), pos(0) }); break;                 // ring
                case 2: g.e.push_back({ pos(n - 1), pos(at) }); break;                // ring with a tail leading to it
                case 3: g.e.push_back({ pos(at), pos(0) }); break;                    // ring with a tail leaving it
                case 4: g.n = n + 2; g.e.push_back({ n, n + 1 }); g.e.push_back({ n + 1, n }); break; // separate ring, last
                case 5: for (int i = 0; i + 2 < n && i < 60; ++i) g.e.push_back({ pos(i), pos(i + 2) }); break; // many paths
                case 6: for (int i = 0; i < at && i < 50; ++i) g.e.push_back({ pos(i), pos(at) }); g.e.push_back({ pos(at), pos(at) }); break; // self-reference reached from everywhere
            }
            S.run("graph", enc(g));
        }
        // a cycle of any length behind any number of acyclic references, in messages with many fields: message 0 refers to acyclic ones, and at one place to a ring
        for (int w : { 1, 2, 3, 7, 31, 62, 63 }) for (int at = 0; at <= w; at += 1 + w / 8) for (int len : { 0, 1, 2, 3, 5, 20, 40 }) for (int mode : { 0, 5 }) for (int rev = 0; rev < 2; ++rev) {
            if (!S.mine()) continue;
            G g; g.n = 1 + w + len; g.mode = mode; auto pos = [&](int i) { return rev ? g.n - 1 - i : i; };
            for (int i = 0; i <= w; ++i) { if (i == at && len) g.e.push_back({ pos(0), pos(1 + w) }); if (i < w) g.e.push_back({ pos(0), pos(1 + i) }); }
            for (int i = 0; i < len; ++i) g.e.push_back({ pos(1 + w + i), pos(1 + w + (i + 1) % len) });
            for (int i = 0; i + 1 < w; i += 2) g.e.push_back({ pos(1 + i), pos(2 + i) });
            S.run("graph", enc(g));
            if (len > 1) { g.e.erase(std::find(g.e.begin(), g.e.end(), std::make_pair(pos(w + len), pos(1 + w)))); S.run("graph", enc(g)); } // opened
        }
    });
}
