// C01 / C02: serialization, against the reference parser, and back.
#include "vh.hh"
#include "values.hh"
#include SCHEMA_INC
#include "bridge.hh"
using namespace ref;
static bool C02 = false; // which property is being decided

// case: parameters, message index, value
template<typename M> static std::string check_msg(const std::string &payload)
{
    const MsgD &d = desc_of((const M*) nullptr);
    unsigned p = (unsigned char) payload[0];
    vals::Dec dec{payload, 2};
    Val v = dec.msg(d);
    M obj; br::set(obj, v);
    Val before = br::value_of(obj);
    if (before != v) return "object does not hold the assigned value: " + dump(d, before) + " instead of " + dump(d, v);

    PG::Parameters params, *pp = &params;
    params.ensure_ascii = p & 1; params.serialize_null = p & 2;
    if (p & 4) { pp = nullptr; }
    std::string out;
    bool ok = obj.serialize(out, pp);
    Val after = br::value_of(obj);
    if (after != v) return "serialize changed the object";
    Val want = v; drop_transient(d, want); fix_msg(d, want);

    // text that is not UTF-8 cannot be represented under ensure_ascii
    std::function<bool(const MsgD&, const Val&)> bad = [&](const MsgD &m, const Val &x) {
        for (size_t k = 0; k < m.fields.size(); ++k) {
            auto &f = m.fields[k];
            if (f.transient) continue;
            std::vector<const Val*> es; if (f.repeated) for (auto &e : x.items[k].items) es.push_back(&e); else es.push_back(&x.items[k]);
            for (auto e : es) { if (f.type == T_STRING && !valid_utf8(e->s)) return true; if (f.type == T_MSG && bad(*f.ref, *e)) return true; }
        }
        return false;
    };
    bool invalid = bad(d, want);
    if (invalid && params.ensure_ascii) {
        if (ok) return "text that is not UTF-8 was serialized under ensure_ascii: " + vh::printable(out);
        if (C02 && params.error.code == PG::PGERR_OK) return "failure without an error code";
        vh::info().outcome = "refused";
        return "";
    }
    if (!ok) return "serialization failed: " + params.error.message;
    if (!C02 && invalid) return "";
    vh::info().outcome = out.substr(0, 64);
    if (C02) {
        Parser ps(out, !invalid); JV j;
        if (!ps.whole(j)) return "output is not JSON: " + ps.err + ": " + vh::printable(out);
        if (params.ensure_ascii && pp && !ascii(out)) return "non-ASCII output: " + vh::printable(out);
        std::string e = match_msg(d, want, j, pp && params.serialize_null);
        if (!e.empty()) return e + ": " + vh::printable(out) + " for " + dump(d, want).substr(0, 1000);
        vh::info().traces = 1;
        return "";
    }
    M back; PG::Parameters rp;
    if (!back.deserialize(out, p & 8 ? nullptr : &rp)) return "own output is rejected: " + rp.error.message + " at " + std::to_string(rp.error.line) + ":" + std::to_string(rp.error.column) + ": " + vh::printable(out);
    Val got = br::value_of(back);
    if (got != want) return "read back " + dump(d, got).substr(0, 1500) + " instead of " + dump(d, want).substr(0, 1500) + " from " + vh::printable(out);
    if (want == v) {
        if (!(back == obj) || back != obj || !back.equal(obj) || !obj.equal(back)) return "the object read back is not equal to the original: " + vh::printable(out);
        if (back.empty() != obj.empty()) return "empty() differs";
    }
    // once more: the second generation has the same text
    std::string out2; PG::Parameters params2; params2.ensure_ascii = params.ensure_ascii; params2.serialize_null = params.serialize_null;
    if (!back.serialize(out2, p & 4 ? nullptr : &params2) || (want == v && out2 != out)) return "second generation text differs: " + vh::printable(out2) + " / " + vh::printable(out);
    return "";
}

typedef std::string (*Fn)(const std::string&);
static const Fn FNS[] = { check_msg<NS::All>, check_msg<NS::Pres>, check_msg<NS::Mid>, check_msg<NS::L6>, check_msg<NS::Wide>, check_msg<NS::Names>, check_msg<NS::X40> };
static const MsgD &desc(int k)
{
    switch (k) { case 0: return desc_of((const NS::All*) nullptr); case 1: return desc_of((const NS::Pres*) nullptr); case 2: return desc_of((const NS::Mid*) nullptr);
        case 3: return desc_of((const NS::L6*) nullptr); case 4: return desc_of((const NS::Wide*) nullptr); case 6: return desc_of((const NS::X40*) nullptr); default: return desc_of((const NS::Names*) nullptr); }
}

int main(int argc, char **argv)
{
    vh::Runner R(argc, argv);
    C02 = R.opts["prop"] == "C02";
    R.kind("value", [](const std::string &p) { return FNS[(size_t) p[1]](p); });
    R.show = [](const std::string &, const std::string &p) {
        unsigned q = (unsigned char) p[0]; vals::Dec dec{p, 2}; const MsgD &d = desc(p[1]);
        return std::string(q & 1 ? "ensure_ascii " : "") + (q & 2 ? "serialize_null " : "") + (q & 4 ? "no-params " : "") + d.name + dump(d, dec.msg(d));
    };
    return R.explore([&](vh::Shard &S) {
        bool T = R.thorough();
        auto emit = [&](int k, unsigned p, const Val &v) { std::string c; c += (char) p; c += (char) k; vals::enc(c, desc(k), v); S.run("value", c); };
        auto each = [&](int k) { return [&, k](const Val &v) { if (!S.mine()) return; for (unsigned p = 0; p < 4; ++p) emit(k, p, v); emit(k, 12, v); }; };
        vals::masks(desc(1), each(1));                       // every presence pattern
        vals::singles(desc(0), each(0));                     // pairs of fields of every kind
        vals::field_classes(desc(0), T, C02, C02, each(0)); // every value class of every field
        vals::masks(desc(2), each(2));
        vals::masks(desc(3), each(3));                       // chain of nested messages
        vals::singles(desc(4), each(4));                     // 64 fields
        vals::masks(desc(5), each(5));                       // names
        vals::sizes(desc(1), T, [&](const Val &v) { if (!S.mine()) return; emit(1, 0, v); emit(1, 1, v); emit(1, 14, v); });
        vals::sizes(desc(0), T, [&](const Val &v) { if (!S.mine()) return; emit(0, (unsigned) R.pick(0, 3), v); });
        for (int n = 0; n <= 40; ++n) for (int k = 0; k < 3; ++k) { // down to the bottom of a long chain
            std::function<Val(const MsgD&, int)> chain = [&](const MsgD &d, int left) { Val v = empty_msg(d); if (left > 0 && d.fields[0].ref) { if (d.fields[0].repeated) { v.items[0].items = { chain(*d.fields[0].ref, left - 1) }; if (k == 2) v.items[0].items.push_back(empty_msg(*d.fields[0].ref)); } else v.items[0] = chain(*d.fields[0].ref, left - 1); } if (left == 0 || k == 1) v.items[1] = vals::rep(d.fields[1].type, k); fix_msg(d, v); return v; };
            each(6)(chain(desc(6), n));
        }
        // texts over the characters that matter, in a string field of Pres
        int sf = -1; for (size_t k = 0; k < desc(1).fields.size(); ++k) if (desc(1).fields[k].type == T_STRING && !desc(1).fields[k].repeated && !desc(1).fields[k].transient) sf = (int) k;
        std::vector<std::string> alpha = { "a", "\"", "\\", "/", "\n", std::string("\0", 1), "\x1f", "u", "0", "{", ",", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\x7f" };
        if (C02) for (auto s : { "\x80", "\xc3", "\xed\xa0\x80", "\xff" }) alpha.push_back(s);
        vals::strings(alpha, T ? 4 : 3, [&](const std::string &s) {
            if (!S.mine()) return;
            Val v = empty_msg(desc(1)); v.items[(size_t) sf] = vals::vs(s); fix_msg(desc(1), v);
            for (unsigned p = 0; p < 2; ++p) emit(1, p, v);
        });
        if (T) { // all triples of fields
            const MsgD &d = desc(0); size_t n = d.fields.size();
            for (size_t a = 0; a < n; ++a) for (size_t b = a + 1; b < n; ++b) for (size_t c = b + 1; c < n; ++c) for (int k = 0; k < 3; ++k) {
                if (!S.mine()) continue;
                Val v = empty_msg(d); v.items[a] = vals::rep_field(d.fields[a], k); v.items[b] = vals::rep_field(d.fields[b], (k + 1) % 3); v.items[c] = vals::rep_field(d.fields[c], (k + 2) % 3); fix_msg(d, v);
                for (unsigned p = 0; p < 4; ++p) emit(0, p, v);
            }
        }
    });
}
