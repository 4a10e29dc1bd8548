import itertools, os, re, vt
from schema import NUM
LEVEL = 'exploration'
RULE = ('every field type x modifier in one schema under all 8 option combinations x 4 package depths, member types asserted; every subset of 8 classes of fields (number, bool, string, bytes, message, and repeated ones), each header compiled alone as the first include; two compilers, C++11 to C++23, -pedantic-errors; all ordered pairs of 14 diverse headers in one translation unit, and all of them linked into one program twice; the headers of 230 schema files with nearly equal names in one translation unit; '
        '1, 63, 64 and 65 fields of every type executed; every C++ keyword and every identifier of the generated code as a field, message and package name; all assignments of 5 related names to package, messages and fields')
CPP = {'double': 'double', 'float': 'float', 'int32': 'int32_t', 'sint32': 'int32_t', 'uint32': 'uint32_t', 'int64': 'int64_t', 'sint64': 'int64_t', 'uint64': 'uint64_t', 'fixed32': 'uint32_t', 'fixed64': 'uint64_t', 'sfixed32': 'int32_t', 'sfixed64': 'int64_t', 'bool': 'bool'}
PG = 'protogen_3_0_0'
OPTS = ['number_names', 'obfuscate_strings', 'cpp_use_lists']
KEYWORDS = '''alignas alignof and and_eq asm auto bitand bitor bool break case catch char char8_t char16_t char32_t class compl concept const consteval constexpr constinit const_cast continue co_await co_return co_yield decltype default delete do double dynamic_cast else enum explicit export extern false float for friend goto if inline int long mutable namespace new noexcept not not_eq nullptr operator or or_eq private protected public register reinterpret_cast requires return short signed sizeof static static_assert static_cast struct switch template this thread_local throw true try typedef typeid typename union unsigned using virtual void volatile wchar_t while xor xor_eq'''.split()
PROTO_WORDS = 'message repeated string enum double float bool int32 int64 uint32 uint64 sint32 sint64 fixed32 fixed64 sfixed32 sfixed64 bytes package syntax map option true false optional'.split()
ORDINARY = 'id key title Person Address address email phone_number x1 _a a_ A_B intx Int Class CLASS classs bool_ Double while_ New delete_ keyword Integer string_t texto idade final override import module import_ Namespace structure foo Bar baz_9 L veryLongNameOfAFieldWithManyCharactersInItToBeSure'.split()


MEMBERS = set('clear empty equal swap serialize deserialize serializer_type value_type serialize_array deserialize_array'.split())


def cpp_type(t, repeated, lists):
    base = {'string': PG + '::string_field', 'bytes': 'std::vector<uint8_t>'}.get(t) or (CPP[t] if t in CPP else t)
    if repeated: return '%s<%s>' % ('std::list' if lists else 'std::vector', base)
    return PG + '::field<%s>' % base if t in CPP else base


class Comp:
    """Compiles snippets in parallel, each alone, and reports the first failure."""
    def __init__(self, ctx): self.ctx, self.n, self.jobs = ctx, 0, []

    def add(self, src, compilers, what, schema): self.jobs += [(src, c, what, schema) for c in compilers]

    def cmd(self, c, f): return [c[0], '-std=' + c[1], '-fsyntax-only', '-pedantic-errors', '-w', '-I', self.ctx.path('gen'), f]

    def one(self, job):
        src, c, what, schema = job
        i = self.n = self.n + 1
        f = self.ctx.write('tu/%s.cc' % hash((src, c)), src)
        rc, o, e = vt.sh(self.cmd(c, f), 600)
        if rc == 0: os.unlink(f)
        return rc, e, f

    def run(self, label):
        for job, (rc, e, f) in zip(self.jobs, self.ctx.parallel(self.one, self.jobs)):
            if rc != 0: self.ctx.compile_failed(self.cmd(job[1], f), '%s\n%s\n%s' % (job[2], e, job[0][:3000]), job[3])
        n = len(self.jobs); self.jobs = []
        self.ctx.parts.append({'label': label, 'evaluations': n, 'distinct': n, 'states': 0, 'transitions': 0, 'traces': 0, 'samples': []})
        self.ctx.log('%s: %d compilations' % (label, n))


G11, C11 = ('g++', 'c++11'), ('clang++', 'c++11')
ALL = [(c, s) for c, ss in (('g++', ('c++11', 'c++14', 'c++17', 'c++20', 'c++23')), ('clang++', ('c++11', 'c++14', 'c++17', 'c++20', 'c++2b'))) for s in ss]
FEW = [G11, C11, ('g++', 'c++20'), ('clang++', 'c++2b')]


def use(t, n=''): return 'void use%s(std::string &s) { %s m, o(m); m.serialize(s); m.deserialize(s); m = o; m.swap(o); m.clear(); if (m == o || m != o || m.empty()) s.clear(); %s::Parameters p; std::istringstream in(s); m.deserialize(in, &p); std::ostringstream os; m.serialize(os, &p); }\n' % (n, t, PG)


def types(ctx, comp):
    for k, (opt, pkg) in enumerate(itertools.product(itertools.product((0, 1), repeat=3), ('', 'p', 'p.q', 'p.q.r.s'))):
        s = 'syntax = "proto3";\n' + ('package %s;\n' % pkg if pkg else '') + ''.join('option %s = %s;\n' % (o, 'true' if v else 'false') for o, v in zip(OPTS, opt) if v or k % 2)
        ns = ''.join('::' + x for x in pkg.split('.')) if pkg else ''
        ms, asserts, n = 'message Sub { string a = 1; }\nmessage None { }\n', '', 0
        for j, ty in enumerate(list(NUM) + ['Sub', 'None']):
            ms += 'message T_%s {\n' % ty
            for i, (mod, tr) in enumerate(itertools.product(('', 'optional ', 'repeated '), ('', ' [transient = true]'))):
                ms += '  %s%s f%d = %d%s;\n' % (mod, ty, i, i + 1, tr)
                T = '%s::%s' % (ns, ty) if ty in ('Sub', 'None') else ty
                asserts += 'static_assert(std::is_same<decltype(%s::T_%s::f%d), %s>::value, "%s%s");\n' % (ns, ty, i, cpp_type(T, 'rep' in mod, opt[2]).replace('<::', '< ::'), mod, ty)
            ms += '}\n'
            asserts += use('%s::T_%s' % (ns, ty), '%d' % j)
        ctx.header('types%d' % k, s + ms)
        src = '#include "types%d.pg.hh"\n#include <type_traits>\n#include <sstream>\n' % k + asserts
        comp.add(src, ALL if ctx.thorough or k in (5, 30) else [(G11, C11)[k % 2]], 'member types', s + ms)
    comp.run('types')


CLASSES = [('n', 'int32', ''), ('t', 'bool', ''), ('s', 'string', ''), ('y', 'bytes', ''), ('m', 'E', ''), ('rn', 'double', 'repeated '), ('rs', 'string', 'repeated '), ('ry', 'bytes', 'repeated '), ('rm', 'E', 'repeated ')]


def subsets(ctx, comp):
    cl = [c for c in CLASSES if c[0] != 't']
    jobs = []
    for bits in range(1 << len(cl)):
        fs = [c for i, c in enumerate(cl) if bits >> i & 1]
        if bits % 5 == 0 and bits & 1: fs = [CLASSES[1]] + fs[1:]   # bool instead of a number
        jobs.append((bits, fs))
    def gen(j):
        bits, fs = j
        o = [x for i, x in enumerate(OPTS) if (bits * 5 // 3) >> i & 1]
        s = 'syntax = "proto3";\n' + ''.join('option %s = true;\n' % x for x in o) + ('package a.b;\n' if bits % 2 else '')
        if any(t == 'E' for _, t, _ in fs): s += 'message E { }\n'
        s += 'message M { ' + ' '.join('%s%s %s = %d;' % (mod, t, n, i + 1) for i, (n, t, mod) in enumerate(fs)) + ' }\n'
        ctx.header('sub%d' % bits, s)
        return bits, s
    for bits, s in ctx.parallel(gen, jobs):
        # nothing is included before the header
        ns = '::a::b::M' if bits % 2 else '::M'
        src = '#include "sub%d.pg.hh"\nvoid use(std::string &s) { %s m, o(m); m.serialize(s); m.deserialize(s); m = o; m.swap(o); m.clear(); if (m == o || m.empty()) s.clear(); }\n' % (bits, ns)
        comp.add(src, [G11, C11] if ctx.thorough or bin(bits).count('1') in (0, 1, 8) else [G11], 'self-contained header', s)
    # single types
    for ty in NUM:
        for mod in ('', 'repeated '):
            n = 'one_%s%d' % (ty, len(mod)); s = 'syntax = "proto3";\nmessage M { %s%s f = 1; }\n' % (mod, ty)
            ctx.header(n, s)
            comp.add('#include "%s.pg.hh"\nvoid use(std::string &s) { M m, o(m); m.serialize(s); m.deserialize(s); m.swap(o); if (m == o) m.clear(); }\n' % n, [C11] if len(mod) == 0 or ctx.thorough else [('clang++', 'c++20')], 'self-contained header', s)
    comp.run('subsets')


def pairs(ctx, comp):
    H = [('num', 'package h1;', 'message M { int32 a = 1; double b = 2; }'), ('str', 'package h2;', 'message M { string a = 1; }'), ('byt', 'package h3;', 'message M { bytes a = 1; }'), ('emp', 'package h4;', 'message M { }'),
         ('rep', 'package h5;', 'message M { repeated int32 a = 1; repeated string b = 2; repeated M2 c = 3; } message M2 { }'), ('lst', 'package h6; option cpp_use_lists = true;', 'message M { repeated int32 a = 1; repeated bytes b = 2; repeated M2 c = 3; } message M2 { bool x = 1; }'),
         ('obf', 'package h7; option obfuscate_strings = true;', 'message M { string a = 1; M2 b = 2; } message M2 { float x = 1; }'), ('nn', 'package h8; option number_names = true;', 'message M { string a = 1; }'),
         ('same', 'package h1;', 'message Other { int32 a = 1; }'), ('sub', 'package h1.sub;', 'message M { int32 a = 1; }'), ('glob', '', 'message M { int64 a = 1; }'),
         ('a_b', 'package h9;', 'message M { string a = 1; }'), ('a-b', 'package h10;', 'message M { string a = 1; }'), ('dir/a_b', 'package h11;', 'message M { bytes a = 1; int32 b = 2; repeated string c = 3; }')]
    T = {}
    os.makedirs(ctx.path('gen', 'pairs', 'dir'))
    for n, head, body in H:
        text = 'syntax = "proto3"; %s %s\n' % (head, body)
        ctx.write('gen/pairs/%s.proto' % n, text)
        # as a user would: relative names, in the directory of the schemas
        rc, o, e = ctx.protogen('%s.proto' % n, '%s.pg.hh' % n, cwd=ctx.path('gen', 'pairs'))
        if rc != 0: raise vt.Violation('the compiler fails on a valid schema: ' + e[-500:], text)
        p = re.search(r'package ([\w.]+);', head)
        T[n] = '::' + (p.group(1).replace('.', '::') + '::' if p else '') + ('Other' if n == 'same' else 'M')
    names = [h[0] for h in H]
    allh = '\n'.join(str(h) for h in H)
    for a, b in itertools.permutations(names, 2):
        comp.add('#include "pairs/%s.pg.hh"\n#include "pairs/%s.pg.hh"\n#include "pairs/%s.pg.hh"\n' % (a, b, a) + 'void use(std::string &s) { %s m; m.serialize(s); m.deserialize(s); %s o; o.serialize(s); o.deserialize(s); }\n' % (T[a], T[b]), [(G11, C11)[(names.index(a) + names.index(b)) % 2]], 'two headers together: %s, %s' % (a, b), allh)
    comp.run('pairs')
    # one program: every header in two translation units, in opposite orders, plus all of them in two others
    tus = {}
    for i, n in enumerate(names):
        m = names[(i + 3) % len(names)]
        for k, order in enumerate(([n, m], [m, n])): tus['t%d_%d' % (i, k)] = (order, [n])
    tus['all0'], tus['all1'] = (names, names), (names[::-1], names)
    main = '#include <string>\n' + ''.join('int run_%s();\n' % t for t in tus) + 'int main() { return 0' + ''.join(' + run_%s()' % t for t in tus) + '; }\n'
    def obj(t):
        inc, us = tus[t]
        src = ''.join('#include "pairs/%s.pg.hh"\n' % n for n in inc) + 'template<typename M> static int rt() { M m, o; std::string s; if (!m.serialize(s) || !o.deserialize(s) || !(m == o) || !m.deserialize(std::string("{\\"zz\\":[{}],\\"a\\":null}"))) return 1; return 0; }\nint run_%s() { return 0%s; }\n' % (t, ''.join(' + rt<%s>()' % T[n] for n in us))
        f = ctx.write('tu/%s.cc' % t, src)
        cmd = ['g++' if t != 'all1' else 'clang++', '-std=c++11', '-O0', '-w', '-I', ctx.path('gen'), '-c', f, '-o', ctx.path('tu', t + '.o')]
        rc, o, e = vt.sh(cmd, 600)
        return rc, cmd, e
    for rc, cmd, e in ctx.parallel(obj, list(tus)):
        if rc != 0: ctx.compile_failed(cmd, e, allh)
    f = ctx.write('tu/main.cc', main); exe = ctx.path('prog')
    rc, o, e = vt.sh(['g++', '-o', exe, f] + [ctx.path('tu', t + '.o') for t in tus], 300)
    if rc != 0: raise vt.Violation('headers used in several translation units do not link', e[-5000:] + '\n' + allh)
    rc, o, e = vt.sh([exe], 60)
    if rc != 0: raise vt.Violation('the program using all the headers fails: status %s' % rc, allh)


def files(ctx, comp):
    """Headers of files whose names nearly agree, in one translation unit."""
    al = ['a', 'A', '-', '_', '.', '2', 'D', ' ', '\u00e9']
    ns = [x for x in al[:4] + al[5:]] + [a + b for a in al for b in al if a + b != '..'] + ['a' + a + b for a in al for b in al] + ['x/' + a for a in al if a != '.'] + ['x_a', 'x-a', 'x/x/a', 'x/x_a', 'x_x/a', '../files/a', './a']
    ns += [c + 'n' * k + d for k in (30, 62, 100, 200) for c in 'ab' for d in 'ab'] + ['n' * k for k in (31, 32, 33, 63, 64, 65, 127, 128, 129)] + ['dir%d/common' % k for k in range(12)]
    ns = [n for n in sorted(set(ns), key=ns.index) if n not in ('.', './a', '../files/a')]
    odd = [chr(c) for c in list(range(1, 32)) + [127]] + list('"\'\\$%?*()#@&;<>|`~!{}[]^+=,:') + ['\u2028', '\U0001F600', '\udcff', '\udcc3']
    ns += ['a%sb' % c for c in odd] + ['a\nb\nc', '\n#error x', 'a\r\nint b;', '$1$', '$2$', 'a$', '??', '*', '/* a', 'a */', '"a"', '%s%n', '\n\n']
    exact = ['back\\', 'back\\\\', 'a??/', 'q??', 'line\n', 'ret\r', 'a*', 'tab\t']  # without extension
    ns += exact
    root = ctx.path('gen', 'files')
    text = lambda k: 'syntax = "proto3"; package fn%d; message M { int32 a = 1; }\n' % k
    def gen(k):
        f = ns[k] + '.proto' * (ns[k] not in exact); f = f + 'x' if f.endswith('/') else f; p = os.path.join(root, f); os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as h: h.write(text(k))
        rc, o, e = ctx.protogen(f, 'out%d.pg.hh' % k, cwd=root)
        if rc != 0: raise vt.Violation('a schema in the file %s is not compiled: %s' % (ascii(f), e[-500:]), text(k))
    os.makedirs(root)
    ctx.parallel(gen, range(len(ns)))
    for c, order in ((G11, range(len(ns))), (C11, range(len(ns) - 1, -1, -1))):
        src = ''.join('#include "files/out%d.pg.hh"\n' % k for k in order) + ''.join('fn%d::M m%d; // %s\n' % (k, k, ascii(ns[k])) for k in order)
        comp.add(src, [c], 'headers of %d schema files together (fnK is package of file K: %s)' % (len(ns), list(enumerate(ns))[:3]), '')
    comp.run('files')


VALUE = {'string': ('"v%d"', '\\"v%d\\"'), 'bytes': None, 'bool': ('true', 'true'), 'float': ('%d.5', '%d.5'), 'double': ('%d.25', '%d.25')}


def limits(ctx, comp):
    kinds = list(NUM) + ['Sub', 'mixed', 'rep']
    src, inc, calls = '', '', ''
    text = {}
    def field(kind, i):
        ty = kind
        if kind == 'mixed': ty = ['string', 'int32', 'double', 'bool', 'uint64', 'Sub', 'bytes'][i % 7]
        return ty, kind == 'rep'
    jobs = []
    for kind in kinds:
        for n in (1, 2, 31, 32, 33, 63, 64, 65, 66, 100):
            for opt in ('', 'option number_names = true;', 'option obfuscate_strings = true;'):
                if opt and n != 64: continue
                if n not in (1, 63, 64, 65) and kind not in ('int32', 'string', 'mixed'): continue
                if opt and kind not in ('string', 'bytes', 'double', 'mixed') and not ctx.thorough: continue
                if n == 63 and kind not in ('int32', 'string', 'mixed', 'Sub', 'bool') and not ctx.thorough: continue
                fs = []
                for i in range(n):
                    ty, r = field(kind, i)
                    if kind == 'rep': ty, r = 'int32', True
                    fs.append('%s%s f%03d = %d%s;' % ('repeated ' if r else '', ty, i, i + 1, ' [transient=true]' if n == 65 and i == 7 and kind in ('int32', 'string') else ''))
                tag = 'lim_%s_%d_%d' % (kind, n, len(opt))
                jobs.append((kind, n, opt, tag, 'syntax = "proto3"; package %s; %s\nmessage Sub { int32 x = 1; }\nmessage M {\n%s\n}\n' % (tag, opt, '\n'.join(fs))))
    def gen(j):
        kind, n, opt, tag, s = j
        if n <= 64: ctx.header(tag, s)
        else:
            p = ctx.write('gen/%s.proto' % tag, s)
            rc, o, e = ctx.protogen(p, ctx.path('gen', tag + '.pg.hh'))
            if rc == 0: raise vt.Violation('a message with %d fields is accepted' % n, s)
            if rc != 1: raise vt.Violation('a message with %d fields: status %s' % (n, rc), s)
    ctx.parallel(gen, jobs)
    run = [j for j in jobs if j[1] <= 64]
    # execution: each field alone, then all of them
    for kind, n, opt, tag, s in run:
        inc += '#include "%s.pg.hh"\n' % tag
        b = 'static int go_%s() {\n  using namespace %s; std::string t, all = "{";\n' % (tag, tag)
        b += '  M full;\n'
        for i in range(n):
            ty, r = field(kind, i)
            name = str(i + 1) if 'number' in opt else 'f%03d' % i
            if kind == 'rep': set_, js = 'm.f%03d.push_back(%d);' % (i, i), '[%d]' % i
            elif ty == 'Sub': set_, js = 'm.f%03d.x = %d;' % (i, i), '{\\"%s\\":%d}' % ('1' if 'number' in opt else 'x', i)
            elif ty == 'bytes': set_, js = 'm.f%03d.assign(3, 0);' % i, '\\"AAAA\\"'
            else:
                v = VALUE.get(ty, ('%d', '%d')); w = [x % i if '%' in x else x for x in v]
                set_, js = 'm.f%03d = %s;' % (i, w[0]), w[1]
            pair = '\\"%s\\":%s' % (name, js)
            b += '  { M m, o; %s const char *x = "{%s}"; t.clear(); if (!m.serialize(t) || t != x || !o.deserialize(t) || !(o == m) || o.empty()) return bad(M(), "%s", %d, t); o.clear(); if (!o.empty() || o == m) return bad(M(), "%s", %d, t); }\n' % (set_, pair, tag, i, tag, i)
            b += '  { M &m = full; %s } all += "%s%s";\n' % (set_, ',' if i else '', pair)
        b += '  all += "}"; M o; t.clear(); if (!full.serialize(t) || t != all || !o.deserialize(t) || !(o == full)) return bad(M(), "%s", -1, t);\n  return 0;\n}\n' % tag
        text[tag] = (b, s)
    size = (len(run) + 15) // 16
    def build(k):
        js = run[k * size:(k + 1) * size]
        if not js: return
        f = ctx.write('tu/lim%d.cc' % k, ''.join('#include "%s.pg.hh"\n' % j[3] for j in js) + '#include <cstdio>\ntemplate<typename M> static int bad(M, const char *t, int i, const std::string &s) { printf("%s: field %d: %s\\n", t, i, s.c_str()); return 1; }\n' + ''.join(text[j[3]][0] for j in js) + 'int main() { return 0' + ''.join(' || go_%s()' % j[3] for j in js) + '; }\n')
        cmd = ['g++', '-std=c++11', '-O0', '-w', '-I', ctx.path('gen'), '-o', ctx.path('lim%d' % k), f]
        rc, o, e = vt.sh(cmd, 600)
        if rc != 0: ctx.compile_failed(cmd, e, js[0][4])
        rc, o, e = vt.sh([ctx.path('lim%d' % k)], 100)
        if rc != 0: raise vt.Violation('a message with many fields does not work: status %s, %s' % (rc, o[:2000]), js[0][4])
    ctx.parallel(build, range(16))
    ctx.parts.append({'label': 'limits', 'evaluations': len(jobs), 'distinct': len(jobs), 'states': 0, 'transitions': 0, 'traces': 0, 'samples': []})
    ctx.log('limits: %d schemas' % len(jobs))


def bisect(ctx, comp, items, make, compiler, what):
    """items: list of (source fragments); compiles them together, finds a single failing one."""
    def fails(its): return comp.one((make(its), compiler, what, ''))
    rc, e, f = fails(items)
    if rc == 0: return
    for it in items:
        rc1, e1, f1 = fails([it])
        if rc1 != 0: ctx.compile_failed(comp.cmd(compiler, f1), '%s\n%s' % (what, e1), it['text'])
    ctx.notes.append('%s: a batch fails although each of its members compiles' % what); ctx.log(ctx.notes[-1])


def batch(ctx, comp, items, make, compilers, what, size):
    jobs = [(items[k:k + size], c) for k in range(0, len(items), size) for c in compilers]
    ctx.parallel(lambda j: bisect(ctx, comp, j[0], make, j[1], what), jobs)


def names(ctx, comp):
    # every identifier of the generated code
    s = open(os.path.join(ctx.work, 'gen', 'types29.pg.hh')).read() + open(os.path.join(ctx.work, 'gen', 'types4.pg.hh')).read()
    code = re.sub(r'"(\\.|[^"\\])*"', '""', re.sub(r'//[^\n]*|/\*.*?\*/', '', s, flags=re.S))
    ids = {i for i in re.findall(r'\b[A-Za-z_]\w*\b', code) if not re.match(r'(T_|Sub|None)', i)}
    ids = {i for i in ids if not (i.endswith('_type') and i[:-5] in ids)}
    includes = sorted(set(re.findall(r'#include\s*(<[^>]+>)', s)))
    words = sorted((set(ids) | set(KEYWORDS) | set(ORDINARY) | MEMBERS) - set(PROTO_WORDS) | {'message', 'package'})
    ctx.log('%d words' % len(words))
    # macros and global declarations of the standard library
    inc = ''.join('#include %s\n' % i for i in includes) + '#include <cassert>\n#include <cerrno>\n#include <stdlib.h>\n#include <locale.h>\n#include <math.h>\n#include <string.h>\n#include <stdio.h>\n#include <time.h>\n'
    rc, o, e = vt.sh(['g++', '-std=c++11', '-dM', '-E', ctx.write('probe0.cc', inc)], 60, check=True)
    macros = set(re.findall(r'#define (\w+)', o))
    rc, o, e = vt.sh(['clang++', '-std=c++2b', '-dM', '-E', ctx.path('probe0.cc')], 60, check=True); macros |= set(re.findall(r'#define (\w+)', o))
    own = set(re.findall(r'#\s*(?:define|ifndef|ifdef|undef)\s+(\w+)', s))
    macros |= own
    words = [w for w in words if w not in macros]
    glob = set()
    for decl in ('namespace %s {}', 'struct %s {};'):
        for c in (G11, C11):
            p = ctx.write('probe1.cc', inc + ''.join('#line %d "W"\n%s\n' % (k + 1, decl % w) for k, w in enumerate(words) if w not in KEYWORDS))
            rc, o, e = vt.sh([c[0], '-std=' + c[1], '-fsyntax-only', '-w'] + (['-ferror-limit=0'] if c[0] == 'clang++' else []) + [p], 60)
            for m in re.findall(r'^W:(\d+):', e, re.M): glob.add(words[int(m) - 1])
    glob -= set(KEYWORDS)
    def accepted(tag, text, word):
        p = ctx.write('gen/%s.proto' % tag, text)
        rc, o, e = ctx.protogen(p, ctx.path('gen', tag + '.pg.hh'))
        if rc is None or rc not in (0, 1) or (rc == 1 and not e.strip()): raise vt.Violation('the name %s: status %s without a diagnostic' % (word, rc), text)
        if rc != 0 and word in ORDINARY: raise vt.Violation('an ordinary name is rejected: ' + e[-300:], text)
        return rc == 0
    # 1. fields
    types = ['int32', 'string', 'S', 'repeated bytes']
    def fields(w):
        t = 'f_' + w
        text = 'syntax = "proto3"; package F%d;\nmessage S { int32 a = 1; }\nmessage M { %s b = 1; %s %s = 2; int32 z = 3; }\n' % (words.index(w), types[(words.index(w) + 1) % 4], types[words.index(w) % 4], w)
        return {'w': w, 'tag': t, 'text': text, 'k': words.index(w)} if accepted(t, text, w) else None
    fl = [x for x in ctx.parallel(fields, words) if x]
    make = lambda its: ''.join('#include "%s.pg.hh"\n' % i['tag'] for i in its) + ''.join(use('F%d::M' % i['k'], str(i['k'])) + 'void acc%d(F%d::M_type &m) { (void) m.%s; }\n' % (i['k'], i['k'], i['w']) for i in its)
    batch(ctx, comp, fl, make, [G11, ('clang++', 'c++2b')] + ([('g++', 'c++20'), C11] if ctx.thorough else []), 'field name', 60)
    # 2. messages
    def messages(w):
        k = words.index(w); t = 'm_' + w
        text = 'syntax = "proto3"; package M%d;\nmessage U { M%d.%s a = 1; repeated M%d.%s b = 2; int32 x = 3; string s = 4; bytes y = 5; }\nmessage %s { int32 v = 1; uint64 c = 2; bytes d = 3; repeated string e = 4; }\nmessage T { repeated int64 x = 3; U u = 4; bool bb = 5; }\n' % (k, k, w, k, w, w)
        return {'w': w, 'tag': t, 'text': text, 'k': k} if accepted(t, text, w) else None
    ml = [x for x in ctx.parallel(messages, words) if x]
    make = lambda its: ''.join('#include "%s.pg.hh"\n' % i['tag'] for i in its) + ''.join(use('M%d::U' % i['k'], str(i['k'])) + 'void acc%d(M%d::T &t) { M%d::%s m; t.u.a = m; t.u.b.push_back(m); m.v = 1; }\n' % (i['k'], i['k'], i['k'], i['w']) for i in its)
    batch(ctx, comp, ml, make, [G11, ('clang++', 'c++2b')] + ([('g++', 'c++20'), C11] if ctx.thorough else []), 'message name', 60)
    # 3. packages, alone (as global names) and inside
    def packages(w):
        k = words.index(w); out = []
        if w in ('message', 'package'): return []
        for t, p in (('p1_', w), ('p2_', 'N%d.%s' % (k, w)), ('p3_', 'O%d.%s.%s' % (k, w, w)), ('p4_', '%s.Q%d' % (w, k))):
            if w in glob and p.startswith(w): continue
            text = 'syntax = "proto3"; package %s;\nmessage X%d { int32 a = 1; string b = 2; repeated bytes c = 3; repeated int64 d = 4; }\nmessage Y%d { X%d x = 1; repeated X%d y = 2; }\n' % (p, k, k, k, k)
            if accepted(t + w, text, w): out.append({'w': w, 'tag': t + w, 'text': text, 'k': k, 'p': p})
        return out
    pl = [x for l in ctx.parallel(packages, words) for x in l]
    # a header alone after others may suffer from their namespaces: one class of packages per batch, global ones one by one
    make = lambda its: ''.join('#include "%s.pg.hh"\n' % i['tag'] for i in its) + ''.join(use('::%s::Y%d' % (i['p'].replace('.', '::'), i['k']), i['tag']) for i in its)
    inner = [i for i in pl if i['tag'][:2] in ('p2', 'p3')]; outer = [i for i in pl if i['tag'][:2] in ('p1', 'p4')]
    batch(ctx, comp, inner, make, [G11, ('clang++', 'c++2b')] if ctx.thorough else [G11], 'package name', 60)
    batch(ctx, comp, outer, make, [C11, ('g++', 'c++20')] if ctx.thorough else [C11], 'package name', 60)
    # 4. messages in the global namespace
    def globals_(w):
        if w in glob or w in ('message', 'package'): return None
        k = words.index(w); t = 'g_' + w
        text = 'syntax = "proto3";\nmessage %s { int32 v = 1; string c = 2; repeated bytes d = 3; }\nmessage GT%d { %s x = 3; repeated %s y = 4; }\n' % (w, k, w, w)
        return {'w': w, 'tag': t, 'text': text, 'k': k} if accepted(t, text, w) else None
    gl = [x for x in ctx.parallel(globals_, words) if x]
    make = lambda its: ''.join('#include "%s.pg.hh"\n' % i['tag'] for i in its) + ''.join(use('::GT%d' % i['k'], str(i['k'])) for i in its)
    batch(ctx, comp, gl, make, [G11], 'message name without package', 60)
    n = len(fl) + len(ml) + len(pl) + len(gl)
    ctx.parts.append({'label': 'names', 'evaluations': 7 * len(words), 'distinct': n, 'states': 0, 'transitions': 0, 'traces': 0, 'samples': [{'word': words[len(words) // 2]}]})
    ctx.log('names: %d words, %d accepted uses compiled' % (len(words), n))


def relations(ctx, comp):
    W = ['x', 'y', 'x_type', 'A', 'f']
    items = []
    for pkg in ('x', 'p.x', 'x.x', 'y', 'x_type', 'A.x'):
        for m1, m2 in itertools.permutations(W[:4], 2):
            for f1, f2 in itertools.permutations(W, 2): items.append((pkg, m1, m2, f1, f2))
    def gen(k):
        pkg, m1, m2, f1, f2 = items[k]
        text = 'syntax = "proto3"; package K%d.%s;\nmessage %s { %s %s = 1; int32 %s = 2; repeated %s rr = 3; }\nmessage %s { string %s = 1; }\n' % (k, pkg, m1, m2, f1, f2, m2, m2, f2)
        p = ctx.write('gen/rel%d.proto' % k, text)
        rc, o, e = ctx.protogen(p, ctx.path('gen', 'rel%d.pg.hh' % k))
        if rc not in (0, 1): raise vt.Violation('status %s' % rc, text)
        clash = m1 + '_type' in (m2, f1, f2) or m2 + '_type' in (m1, f1, f2)
        if rc == 1:
            if not clash and m1 not in (f1, f2) and m2 != f2: raise vt.Violation('names that do not clash are rejected: ' + e[-300:], text)
            return None
        ns = '::K%d::%s' % (k, pkg.replace('.', '::'))
        b = 'namespace T%d { typedef %s::%s M1; typedef %s::%s M2;\n' % (k, ns, m1, ns, m2) + use('M1')
        b += 'void acc(M1 &m, M2 &n, %s::%s_type &t) { m.rr.push_back(n); t.%s = n; t.%s = 1;' % (ns, m1, f1, f2)
        if f1 != m1: b += ' m.%s = n;' % f1
        if f2 != m1: b += ' m.%s = 1;' % f2
        if f2 != m2: b += ' n.%s = "";' % f2
        return {'tag': 'rel%d' % k, 'text': text, 'src': b + ' } }\n'}
    its = [x for x in ctx.parallel(gen, range(len(items))) if x]
    make = lambda l: ''.join('#include "%s.pg.hh"\n' % i['tag'] for i in l) + ''.join(i['src'] for i in l)
    batch(ctx, comp, its, make, [G11, C11] if ctx.thorough else [G11], 'related names', 80)
    ctx.parts.append({'label': 'relations', 'evaluations': len(items), 'distinct': len(its), 'states': 0, 'transitions': 0, 'traces': 0, 'samples': []})
    ctx.log('relations: %d schemas, %d accepted and compiled' % (len(items), len(its)))


def run(ctx):
    ctx.build()
    comp = Comp(ctx)
    types(ctx, comp); subsets(ctx, comp); pairs(ctx, comp); files(ctx, comp); limits(ctx, comp); names(ctx, comp); relations(ctx, comp)
    ctx.coverage(rule=RULE, exhaustive=True)
    ctx.assumptions += ['names that are macros or global declarations of the standard library are not decided', 'fields named like their own message or like a member of every generated class are accessed through the base class']
