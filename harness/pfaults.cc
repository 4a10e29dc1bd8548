// C24: the schema parser and the generator whose memory runs out or whose stream throws, at every point.
#include "faults.hh"
#include "vh.hh"
#include <protogen/proto3.hh>
#include <protogen/protogen.hh>

class InBuf : public std::streambuf { const std::string &s; size_t i = 0; long calls = 0, at; char c; public: InBuf(const std::string &s, long at) : s(s), at(at) {} long used() const { return calls; }
    int_type underflow() override { if (gptr() < egptr()) return traits_type::to_int_type(*gptr()); if (++calls == at) throw mem::Marker(); if (i >= s.size()) return traits_type::eof(); c = s[i++]; setg(&c, &c, &c + 1); return traits_type::to_int_type(c); } };
class OutBuf : public std::streambuf { long calls = 0, at; public: uint64_t h = 1; size_t n = 0; OutBuf(long at) : at(at) {} long used() const { return calls; }
    void add(const char *p, size_t k) { for (size_t j = 0; j < k; ++j) h = (h ^ (unsigned char) p[j]) * 0x100000001b3ULL; n += k; }
    int_type overflow(int_type x) override { if (++calls == at) throw mem::Marker(); char c = (char) x; add(&c, 1); return x; } std::streamsize xsputn(const char *p, std::streamsize k) override { if (++calls == at) throw mem::Marker(); add(p, (size_t) k); return k; } };

static std::string dump(const protogen::Proto3 &p)
{
    std::string s; for (auto &o : p.options) s += o.first + "=" + o.second.value + ";";
    for (auto &m : p.messages) { s += m->qualifiedName() + "{"; for (auto &o : m->options) s += o.first + "=" + o.second.value + ";"; for (auto &f : m->fields) { s += f.name + ":" + std::to_string(f.index) + ":" + std::to_string((int) f.type.id) + (f.type.repeated ? "r" : "") + (f.type.optional ? "o" : "") + (f.type.ref ? "->" + f.type.ref->qualifiedName() : "") + ","; for (auto &o : f.options) s += o.first + "=" + o.second.value + ";"; } s += "}"; }
    return s;
}
struct Report { std::string problem, parsed, generated, again; bool fired1 = false, fired2 = false; long mem1 = 0, mem2 = 0, in = 0, out = 0; };
// k-th fault of the parser (phase 1) or of the generator (phase 2)
struct Fault { int phase = 0; long mem = 0; bool persist = false; long stream = 0; bool mask = false; };
static std::string fault_text(const Fault &f) { return f.phase ? std::string(f.phase == 1 ? " (parser, " : f.phase == 2 ? " (generator, " : " (destruction, ") + (f.mem ? "allocation " + std::to_string(f.mem) + (f.persist ? " and all later ones fail)" : " fails)") : "the stream throws at call " + std::to_string(f.stream) + (f.mask ? ", exceptions enabled)" : ")")) : ""; }

static void once(const std::string &text, const Fault &f, Report &r)
{
    Surroundings s;
    std::unique_ptr<protogen::Proto3> p(new protogen::Proto3());
    {
        InBuf buf(text, f.phase == 1 ? f.stream : 0); std::istream in(&buf); if (f.phase == 1 && f.mask) in.exceptions(std::ios::badbit); in.setf(std::ios::hex, std::ios::basefield); Format<std::istream> fmt(in);
        std::string what; bool syntax = false; std::string name("/a/schema.proto");
        Outcome x = attempt([&] { try { p->parse(in, name); return true; } catch (protogen::exception &e) { mem::disarm(); syntax = true; what = "!" + std::to_string(e.line) + ":" + std::to_string(e.column) + " " + e.cause(); return false; } }, f.phase == 1 ? f.mem : 0, f.persist);
        r.mem1 = mem::count; r.in = buf.used(); r.fired1 = f.phase == 1 && (mem::fired || x == MARKER || in.bad());
        if (!(r.problem = s.changed()).empty()) return;
        if (!(r.problem = fmt.changed(in)).empty()) { r.problem = "parser: " + r.problem; return; }
        if (x == OTHER || (x > YES && !r.fired1)) { r.problem = "parser: an exception without a cause"; return; }
        if (syntax && what.size() < 5) { r.problem = "parser: an exception without a message"; return; }
        if (x > YES || (in.bad() && f.phase == 1)) return;
        r.parsed = syntax ? what : dump(*p); if (syntax) return;
    }
    {
        OutBuf buf(f.phase == 2 ? f.stream : 0); std::ostream out(&buf); if (f.phase == 2 && f.mask) out.exceptions(std::ios::badbit); out.setf(std::ios::uppercase); out.fill('#'); Format<std::ostream> fmt(out); std::string what; bool semantic = false; protogen::CppGenerator gen;
        Outcome x = attempt([&] { try { gen.generate(*p, out); return true; } catch (protogen::exception &e) { mem::disarm(); semantic = true; what = "!" + e.cause(); return false; } }, f.phase == 2 ? f.mem : 0, f.persist);
        r.mem2 = mem::count; r.out = buf.used(); r.fired2 = f.phase == 2 && (mem::fired || x == MARKER || out.bad());
        if (!(r.problem = s.changed()).empty()) return;
        if (!(r.problem = fmt.changed(out)).empty()) { r.problem = "generator: " + r.problem; return; }
        if (x == OTHER || (x > YES && !r.fired2)) { r.problem = "generator: an exception without a cause"; return; }
        if (x <= YES && !out.bad()) r.generated = semantic ? what : std::to_string(buf.n) + " bytes " + std::to_string(buf.h);
        // the schema can be used again
        if (r.fired2 || semantic) { OutBuf again(0); std::ostream o(&again); protogen::CppGenerator g; try { g.generate(*p, o); r.again = std::to_string(again.n) + " bytes " + std::to_string(again.h); } catch (protogen::exception &e) { r.again = "!" + e.cause(); } }
    }
    if (f.phase == 3) { mem::arm(f.mem, f.persist); p.reset(); mem::disarm(); }
}
static std::string check(const std::string &text)
{
    Report base; { Report w; once(text, Fault(), w); } once(text, Fault(), base); if (!base.problem.empty()) return base.problem;
    { long b = mem::live; { Report r; once(text, Fault(), r); } if (mem::live != b) return std::to_string(mem::live - b) + " blocks of memory are not released"; }
    std::string bad; uint64_t n = 0;
    auto run = [&](const Fault &f) {
        ++n; vh::info().traces = 0; long before = mem::live;
        { Report r; once(text, f, r); bad = r.problem; if (bad.empty() && !r.parsed.empty() && r.parsed != base.parsed && !(r.fired1 && r.parsed[0] == '!')) bad = "the parser gives " + r.parsed.substr(0, 500) + " instead of " + base.parsed.substr(0, 500); if (bad.empty() && !r.generated.empty() && r.generated != base.generated && !(r.fired2 && r.generated[0] == '!')) bad = "the generator gives " + r.generated + " instead of " + base.generated; if (bad.empty() && !r.again.empty() && r.again != base.generated) bad = "afterwards the generator gives " + r.again + " instead of " + base.generated; }
        if (bad.empty() && mem::live != before) bad = std::to_string(mem::live - before) + " blocks of memory are not released";
        if (!bad.empty()) bad += fault_text(f);
        return bad.empty();
    };
    for (int phase = 1; phase < 3; ++phase) {
        for (long k = 1; k <= (phase == 1 ? base.mem1 : base.mem2); ++k) for (int p = 0; p < 2; ++p) { Fault f; f.phase = phase; f.mem = k; f.persist = p; if (!run(f)) return bad; }
        for (long k = 1; k <= (phase == 1 ? base.in : base.out); ++k) for (int m = 0; m < 2; ++m) { Fault f; f.phase = phase; f.stream = k; f.mask = m; if (!run(f)) return bad; }
    }
    for (long k = 1; k < 40; ++k) for (int p = 0; p < 2; ++p) { Fault f; f.phase = 3; f.mem = k; f.persist = p; if (!run(f)) return bad; }
    vh::info().extra_evals = n; vh::info().outcome = base.parsed.substr(0, 1) + base.generated.substr(0, 1);
    return "";
}

int main(int argc, char **argv)
{
    vh::Runner R(argc, argv);
    R.kind("schema", check);
    return R.explore([&](vh::Shard &S) {
        auto put = [&](const std::string &t) { if (!S.mine()) return; S.run("schema", t); S.transition(); S.state(vh::hash(t)); };
        std::vector<std::string> c = {
            "syntax=\"proto3\";", "syntax=\"proto3\"; message A { }", "syntax=\"proto3\"; package a.b; message A { int32 x = 1; }",
            "syntax=\"proto3\"; package a; /* c */ option obfuscate_strings = true; // d\nmessage A { repeated string s = 2 [name=\"a_rather_long_name_for_a_field\"]; bytes y = 3; }\npackage b; message B { a.A a = 1; repeated a.A l = 2; double d = 3; }",
            "syntax=\"proto3\"; option cpp_use_lists = true; option number_names = true; message A_message_with_a_name_longer_than_sixteen { optional bool b = 1 [transient=true]; repeated bool a_field_with_a_name_longer_than_sixteen = 19; }",
            "syntax=\"proto3\"; message C { B b = 1; } message B { A a = 1; } message A { }", "syntax=\"proto3\"; message A { B b = 1; } message B { A a = 1; }", "syntax=\"proto3\"; message A { repeated A a = 1; }", "syntax=\"proto3\"; message A { int32 class = 1; }",
            "syntax=\"proto3\"; message A { int32 x = 1; int32 y = 1; }", "syntax=\"proto3\"; message A { X x = 1; }", "syntax=\"proto3\"; message A { int32 x = 1 [name=\"y\"]; int32 y = 2; }", "syntax=\"proto3\"; message A { int32 x = 1 [name=\"\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80\"]; string z = 4 [name=\"\xff\"]; }",
            "syntax=\"proto3\"; message A {} message A {}", "syntax=\"proto2\";", "message A { int32 x = 1 /", "message A { string s = 1 [name = \"abc", "/* open", "message A { enum x = 1; }", "package a..b;", "syntax=\"proto3\"; option obfuscate_strings = 5; message A { int32 a = 1; }" };
        { std::string m = "syntax=\"proto3\"; message A { "; for (int k = 1; k <= 65; ++k) m += "int32 f" + std::to_string(k) + " = " + std::to_string(k) + ";"; c.push_back(m + "}"); }
        { std::string m = "syntax=\"proto3\"; message M0 {} "; for (int k = 1; k <= R.pick(6, 30); ++k) m += "message M" + std::to_string(k) + " { M" + std::to_string(k - 1) + " a = 1; repeated M" + std::to_string(k / 2) + " b = 2; }"; c.push_back(m); }
        for (auto &t : c) put(t);
        for (size_t k = 0; k < c.size(); ++k) { if (c[k].size() > 500) continue; size_t step = R.thorough() ? 1 : 9; for (size_t i = 0; i < c[k].size(); i += step) { put(c[k].substr(0, i)); if (R.thorough()) { std::string u = c[k]; u[i] = '?'; put(u); } } }
        for (auto t : { "double", "float", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bytes", "string" }) for (auto m : { "", "repeated " }) for (auto o : { "", "option obfuscate_strings = true;", "option cpp_use_lists = true;" }) { if (!R.thorough() && *o && *m) continue; put("syntax=\"proto3\";" + std::string(o) + " message A { " + m + t + " x = 1; }"); }
    });
}
