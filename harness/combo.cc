// C16: obfuscate_strings and cpp_use_lists change neither the JSON written nor the JSON accepted.
#include COMBO_INC
#include "bridge.hh"
using namespace ref;
static const MsgD &D() { return desc_of((const combo0::All*) nullptr); }
template<typename M> static bool out(const Val &v, std::string &s, int mode) { M m; br::set(m, v); PG::Parameters p; p.ensure_ascii = mode & 1; p.serialize_null = mode & 2; return m.serialize(s, &p); }
template<typename M> static std::string in(const std::string &s) { M m; PG::Parameters p; bool ok = m.deserialize(s, &p); return ok ? dump(D(), br::value_of(m)) : "error " + std::to_string((int) p.error.code) + " " + std::to_string(p.error.line) + ":" + std::to_string(p.error.column); }
static std::string check(const std::string &p)
{
    vals::Dec dec{p, 0}; Val v = dec.msg(D());
    for (int mode = 0; mode < 4; ++mode) {
        std::string a, b, c, d; bool r = out<combo0::All>(v, a, mode);
        if (out<combo1::All>(v, b, mode) != r || out<combo2::All>(v, c, mode) != r || out<combo3::All>(v, d, mode) != r) return "different verdicts of serialization";
        if (a != b || a != c || a != d) return "different texts: " + vh::printable(a) + " / " + vh::printable(b) + " / " + vh::printable(c) + " / " + vh::printable(d);
        for (int cut = 0; cut < 4; ++cut) {
            std::string t = cut ? a.substr(0, a.size() * (size_t) cut / 4) + (cut == 3 ? "]" : "") : a;
            std::string x = in<combo0::All>(t);
            if (in<combo1::All>(t) != x || in<combo2::All>(t) != x || in<combo3::All>(t) != x) return "different readings of " + vh::printable(t);
        }
    }
    vh::info().traces = 1;
    return "";
}
int main(int argc, char **argv)
{
    vh::Runner R(argc, argv);
    R.kinds = { { "combo", check } };
    return R.explore([&](vh::Shard &S) {
        auto sink = [&](const Val &v) { if (!S.mine()) return; std::string p; vals::enc(p, D(), v); S.run("combo", p); };
        vals::singles(D(), sink);
        vals::field_classes(D(), R.thorough(), false, false, sink);
        for (int k = 0; k < 8; ++k) sink(vals::rep_msg(D(), k, 0));
    });
}
