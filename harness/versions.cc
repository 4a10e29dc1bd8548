// C21: data written under one version of a schema and read under another.
#include "versions.hh"
#include "vh.hh"
#include <memory>
std::vector<Version> &versions() { static std::vector<Version> v; return v; }
static bool there(char c) { return c == 'P' || c == 'R'; }
static Sub common(const Sub &s, const char *a, const char *b) { Sub o; if (there(a[0]) && there(b[0])) { o.hn = s.hn; o.n = s.n; } if (there(a[1]) && there(b[1])) { o.ht = s.ht; o.t = s.t; } if (there(a[2]) && there(b[2])) o.k = s.k; return o; }
// what a record becomes on its way from version a to version b
static Rec common(const Rec &r, const Version &a, const Version &b)
{
    Rec o; auto both = [&](int i) { return there(a.top[i]) && there(b.top[i]); };
    if (both(0)) { o.hi = r.hi; o.i = r.i; } if (both(1)) { o.hs = r.hs; o.s = r.s; } if (both(2)) o.m = common(r.m, a.sub, b.sub); if (both(3)) for (auto &x : r.r) o.r.push_back(common(x, a.sub, b.sub)); if (both(4)) o.l = r.l;
    return o;
}
static const std::vector<Rec> &records()
{
    static std::vector<Rec> v;
    if (!v.empty()) return v;
    for (int mask = 0; mask < 32; ++mask) for (int k = 0; k < 3; ++k) {
        auto sub = [&](int z) { Sub s; int w = (z + mask + k) % 8; if (w & 1) { s.hn = true; s.n = 1000000007LL * z - k; } if (w & 2) { s.ht = true; s.t = k == 0 ? "" : k == 1 ? "t}{][,\"\\" : "\xE2\x82\xAC"; } if (w & 4) { for (int q = 0; q <= z % 3; ++q) s.k.push_back(q - 1); } return s; };
        Rec r;
        if (mask & 1) { r.hi = true; r.i = k == 0 ? 0 : k == 1 ? -2147483647 - 1 : 7; } if (mask & 2) { r.hs = true; r.s = k == 0 ? "" : k == 1 ? "]}\"," : "\xC3\xA9 text"; }
        if (mask & 4) r.m = sub(7 - k); if (mask & 8) for (int z = 0; z < 1 + k * 3; ++z) r.r.push_back(sub(z)); if (mask & 16) for (int z = 0; z < 1 + k; ++z) r.l.push_back(z ? "x\"" : "");
        bool dup = false; for (auto &o : v) if (o == r) dup = true; if (!dup) v.push_back(r);
    }
    return v;
}
static std::string show(const Sub &s) { std::string o = "{"; if (s.hn) o += "n=" + std::to_string(s.n) + " "; if (s.ht) o += "t='" + s.t + "' "; for (auto x : s.k) o += std::to_string(x) + ","; return o + "}"; }
static std::string show(const Rec &r) { std::string o; if (r.hi) o += "i=" + std::to_string(r.i) + " "; if (r.hs) o += "s='" + r.s + "' "; if (!r.m.none()) o += "m=" + show(r.m) + " "; for (auto &x : r.r) o += "r:" + show(x); for (auto &x : r.l) o += "l:'" + x + "'"; return vh::printable(o); }
static std::string text_of(const Version &v, size_t k, int mode, std::string &err)
{
    static std::map<std::pair<const Version*, size_t>, std::string> cache; auto it = cache.find({ &v, k * 4 + (size_t) mode }); if (it != cache.end()) return it->second;
    std::string t; if (!v.write(records()[k], t, mode)) err = std::string("not written under ") + v.name; return cache[{ &v, k * 4 + (size_t) mode }] = t;
}
struct Case { uint32_t a, b, k, mode; };
static std::string check(const std::string &p)
{
    Case c; memcpy(&c, p.data(), sizeof c); const Version &a = versions()[c.a], &b = versions()[c.b]; std::string err;
    std::string t = text_of(a, c.k, (int) c.mode, err); if (!err.empty()) return err;
    Rec got, want = common(records()[c.k], a, b);
    std::string path = std::string(" (") + a.name + " " + a.top + "/" + a.sub + " to " + b.name + " " + b.top + "/" + b.sub + ")";
    if (!b.read(t, got, err)) return "rejected" + path + ": " + vh::printable(t) + ": " + err;
    if (!(got == want)) return "read as " + show(got) + " instead of " + show(want) + path + " from " + vh::printable(t);
    vh::info().nontrivial = t.size() > 2; vh::info().traces = 1;
    return "";
}
// a chain: what a reader of version b writes again is read by version c
struct Chain { uint32_t a, b, c, k; };
static std::string check_chain(const std::string &p)
{
    Chain c; memcpy(&c, p.data(), sizeof c); const Version &a = versions()[c.a], &b = versions()[c.b], &d = versions()[c.c]; std::string err;
    std::string t = text_of(a, c.k, 0, err), t2; if (!err.empty()) return err;
    Rec mid, got, want = common(common(records()[c.k], a, b), b, d);
    if (!b.read(t, mid, err) || !b.write(mid, t2, 0) || !d.read(t2, got, err)) return "a step fails: " + vh::printable(t) + " " + vh::printable(t2) + ": " + err;
    if (!(got == want)) return std::string("through ") + b.name + ": read as " + show(got) + " instead of " + show(want) + " from " + vh::printable(t2);
    vh::info().traces = 1;
    return "";
}
int main(int argc, char **argv)
{
    vh::Runner R(argc, argv);
    std::sort(versions().begin(), versions().end(), [](const Version &x, const Version &y) { return atoi(x.name + 1) < atoi(y.name + 1); });
    R.kinds = { { "pair", check }, { "chain", check_chain } };
    R.show = [](const std::string &k, const std::string &p) { Case c; memcpy(&c, p.data(), sizeof c); return std::string(versions()[c.a].name) + " > " + versions()[c.b].name + (k == "chain" ? std::string(" > ") + versions()[c.k].name : " " + show(records()[c.k])); };
    return R.explore([&](vh::Shard &S) {
        uint32_t N = (uint32_t) versions().size(), K = (uint32_t) records().size();
        for (uint32_t a = 0; a < N; ++a) for (uint32_t b = 0; b < N; ++b) {
            if (versions()[a].numbers != versions()[b].numbers || !S.mine()) continue;
            S.state(vh::hash(std::string((const char*) &a, 4) + std::string((const char*) &b, 4)));
            for (uint32_t k = 0; k < K; ++k) for (uint32_t m = 0; m < 3; ++m) {
                if (!R.thorough() && (m ? (k + a + b) % 5 != m : false)) continue;
                S.transition(); Case c{ a, b, k, m }; S.run("pair", std::string((const char*) &c, sizeof c));
            }
        }
        uint32_t step = (uint32_t) R.pick(5, 1);
        for (uint32_t a = 0; a < N; a += step) for (uint32_t b = a % 3; b < N; b += step) {
            if (versions()[a].numbers != versions()[b].numbers || !S.mine()) continue;
            for (uint32_t c = b % 5; c < N; c += 7) { if (versions()[a].numbers != versions()[c].numbers) continue; Chain x{ a, b, c, (a * 31 + b * 7 + c) % K }; S.run("chain", std::string((const char*) &x, sizeof x)); }
        }
    });
}
