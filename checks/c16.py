import collections, itertools, os, re, vt, c11
import common_schemas
from schema import *
LEVEL = 'exploration'
RULE = ('JSON names: every length 1..40 and the powers of two to 1024, every allowed ASCII character at every position of names of 1, 2, 8 and 9 characters (thorough 1..9), every name of up to 3 of 14 special characters, UTF-8 boundary characters at every position, plain and obfuscated: written and read in 3 spellings with 7 near misses each; literals of the obfuscated headers scanned for the names; '
        'every assignment of 6 names and 2 persistences to 3 fields x number_names: accepted exactly when the JSON names differ, and then compiled: all presence masks written and read, all pairs of masks compared, swapped, copied, cleared; 5 options x 9 values; rejected characters at every position of 4 lengths; 4 option combinations compared text by text; transient and persistent fields of every kind side by side: values, copies, swaps, documents naming them')
SPECIAL = '$12?/*%#{}[]: '


def names_all(thorough):
    out = ['']
    for n in list(range(1, 41)) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1024]:
        out.append(''.join(chr(97 + (i * 7 + n) % 26) for i in range(n)))
        out.append('Z' * n)
    chars = [chr(c) for c in range(0x20, 0x7f) if chr(c) not in '\'"\\']
    for n in (range(1, 10) if thorough else (1, 2, 8, 9)):
        for p in range(n):
            out += ['kjihgfedc'[:p] + c + 'kjihgfedc'[p + 1:n] for c in chars]
    for n in (1, 2, 3): out += [''.join(t) for t in itertools.product(SPECIAL, repeat=n)]
    if thorough: out += [''.join(t) for t in itertools.product('$1?/', repeat=5)]
    for u in '\x7f\x80\x85\xe9\u07ff\u0800\u2028\u20ac\ud7ff\ue000\ufeff\ufffd\uffff\U00010000\U0001f600\U0010ffff':
        for n in (1, 2, 4, 8):
            for p in range(n): out.append('mnopqrst'[:p] + u + 'mnopqrst'[p + 1:n])
        out += [u * 2, u * 3, u + 'é' + u]
    out += ['$1$', '$2$', '$$', 'a$1$b', '$1$$2$', '$10$', '??=', '??/', '??(', '??)', '<:', '%:', '//', '/*', '*/', '\\'[:0] + '#include', '_X_Y_Z', 'X_Y_Z', 'a.b', '-', '@type', 'null', 'true', 'int', 'name', 'class', '0', '1', '01', '-1', '1.5', 'AUTO-REMOVE', '------', '--- CODE', 'R(', ')"'[:1], 'u8', '%s%n%d']
    seen, res = set(), []
    for n in out:
        if n not in seen: seen.add(n); res.append(n)
    return res


def lit(b):
    return '"' + ''.join('\\x%02x""' % c for c in b) + '"'


def literals(code):
    """decoded string literals of C++ code"""
    code = re.sub(r'R"\((.*?)\)"', '""', code, flags=re.S)
    out = []
    for m in re.finditer(r"//[^\n]*|/\*.*?\*/|'(?:\\.|[^'\\\n])*'|\"((?:\\.|[^\"\\\n])*)\"", code, re.S):
        if m.group(1) is None: continue
        s = m.group(1)
        b = b''
        i = 0
        s = s.encode('utf-8', 'surrogateescape')
        while i < len(s):
            c = s[i:i + 1]
            if c != b'\\': b += c; i += 1; continue
            d = s[i + 1:i + 2]
            if d == b'x':
                h = re.match(rb'[0-9a-fA-F]+', s[i + 2:]); v = h.group(0) if h else b'0'
                b += bytes([int(v, 16) & 0xff]); i += 2 + len(v)
            elif d in b'01234567':
                h = re.match(rb'[0-7]{1,3}', s[i + 1:]).group(0); b += bytes([int(h, 8) & 0xff]); i += 1 + len(h)
            elif d == b'u': b += chr(int(s[i + 2:i + 6], 16)).encode('utf-8', 'surrogatepass'); i += 6
            else: b += {b'n': b'\n', b't': b'\t', b'r': b'\r', b'0': b'\0'}.get(d, d); i += 2
        out.append(b)
    return out


def table(ns, msg, fields):
    """fields: (C++ name, JSON name, transient)"""
    T = '::%s::%s' % (ns, msg)
    s = 'static struct Add_%s_%s { Add_%s_%s() { typedef %s T; table().push_back(Mt{ "%s.%s", OpsOf<T>::ops(), {\n' % (ns, msg, ns, msg, T, ns, msg)
    for c, j, tr in fields:
        s += '{ std::string(%s), %s, [](void *p, int v) { ((T*) p)->%s = v; }, [](const void *p) -> long { auto &x = ((const T*) p)->%s; return x.empty() ? -1 : (long) (int32_t) x; } },\n' % (lit(j.encode()), str(tr).lower(), c, c)
    return s + '} }); } } add_%s_%s;\n' % (ns, msg)


def run(ctx):
    ctx.build()
    inc = {}   # harness index -> (includes, tables)
    def emit(k, header, tab):
        a = inc.setdefault(k, ['', '']); a[0] += '#include "%s.pg.hh"\n' % header; a[1] += tab
    # ---- names
    names = names_all(ctx.thorough)
    per = 60
    groups = [names[i:i + per] for i in range(0, len(names), per)]
    def visible(tag, ns, nm, obf=True):
        """names whose text is in the obfuscated header (more often than in a header with other names)"""
        def text(ns, nm): return 'syntax = "proto3"; package %s;\noption obfuscate_strings = true;\nmessage M {\n%s}\n' % (ns, ''.join('  int32 q%d = %d [name = "%s"];\n' % (i, i + 1, n) for i, n in enumerate(nm)))
        def read(name, ns, nm):
            return open(ctx.header(name, text(ns, nm)), encoding='utf-8', errors='surrogateescape').read()
        # the guard and the package are the same: the files have the same name, in different places
        code, base = read(tag, ns, nm), read(tag + '_base', ns, ['zzqk%05d' % (i * 37) for i in range(len(nm))])
        code, base = code.replace(tag.upper(), 'TAG'), base.replace((tag + '_base').upper(), 'TAG')
        lits, blits = literals(code), literals(base)
        cl, cb = collections.Counter(lits), collections.Counter(blits)
        cc, bb = code.encode('utf-8', 'surrogateescape'), base.encode('utf-8', 'surrogateescape')
        out = []
        for n in nm:
            if not n: continue
            b = n.encode()
            esc = ''.join(c if ord(c) < 0x80 else ('\\u%04x' % ord(c) if ord(c) < 0x10000 else '\\u%04x\\u%04x' % (0xd7c0 + (ord(c) >> 10), 0xdc00 + (ord(c) & 0x3ff))) for c in n).encode()
            for x in {b, esc}:
                if cl[x] > cb[x] or (len(x) >= 3 and sum(x in l for l in lits) > sum(x in l for l in blits)) or (len(x) >= 5 and cc.count(x) > bb.count(x)): out.append(n); break
        return out
    n_single = [0]
    def group(g):
        ctx.header('g%d_0' % g, 'syntax = "proto3"; package g%d_0;\nmessage M {\n%s}\n' % (g, ''.join('  int32 q%d = %d [name = "%s"];\n' % (i, i + 1, n) for i, n in enumerate(groups[g]))))
        for k, n in enumerate(visible('g%d_1' % g, 'g%d_1' % g, groups[g])):
            # the encoding of one short name can be the text of another: alone, this cannot be
            n_single[0] += 1
            if visible('s%d_%d' % (g, k), 'single', [n]): raise vt.Violation('the JSON name %r is in clear in the obfuscated header' % n, n)
    ctx.parallel(group, range(len(groups)))
    for g in range(len(groups)):
        for obf in (0, 1): emit(g % 8, 'g%d_%d' % (g, obf), table('g%d_%d' % (g, obf), 'M', [('q%d' % i, n, False) for i, n in enumerate(groups[g])]))
    ctx.log('%d names in %d headers, none visible (%d looked at alone)' % (len(names), 2 * len(groups), n_single[0]))
    # ---- assignments of names and persistence to three fields
    N = [None, 'a', 'b', 'c', '1', '2']
    nums = {'a': 1, 'b': 2, 'c': 10}
    asg = list(itertools.product(itertools.product(N, (0, 1)), repeat=3))
    def one(j):
        k, nn, obf, fs = j
        ns = 'x%d_%d' % (k, nn)
        text = 'syntax = "proto3"; package %s; option number_names = %s; option obfuscate_strings = %s;\nmessage M {\n' % (ns, 'true' if nn else 'false', 'true' if obf else 'false')
        fields = []
        for c, (nm, tr) in zip('abc', fs):
            o = (['name = "%s"' % nm] if nm else []) + (['transient = true'] if tr else (['transient = false'] if k % 3 == 0 else []))
            if k % 2: o.reverse()
            text += '  int32 %s = %d%s;\n' % (c, nums[c], ' [' + ', '.join(o) + ']' if o else '')
            fields.append((c, str(nums[c]) if nn else (nm or c), bool(tr)))
        text += '}\n'
        js = [j for _, j, t in fields if not t]
        ok = len(js) == len(set(js))
        p = ctx.write('gen/%s.proto' % ns, text)
        rc, o, e = ctx.protogen(p, ctx.path('gen', ns + '.pg.hh'))
        if rc != 0 and ok: raise vt.Violation('a schema with distinct JSON names is rejected (status %s): %s' % (rc, e.strip()[-300:]), text)
        if rc == 0 and not ok: raise vt.Violation('two fields with the same JSON name are accepted', text)
        if not ok and (rc != 1 or not e.strip()): raise vt.Violation('status %s, no diagnostic' % rc, text)
        return (ns, fields) if ok else None
    jobs = [(k, nn, (k // 5) % 2, fs) for k, fs in enumerate(asg) for nn in (0, 1)]
    acc = [x for x in ctx.parallel(one, jobs) if x]
    # number_names: every assignment is alike, a part of them is compiled
    step = ctx.pick(3, 1)
    for k, (ns, fields) in enumerate([a for i, a in enumerate(acc) if not a[0].endswith('_1') or i % (3 * step) == 0][::1]): emit(k % 8, ns, table(ns, 'M', fields))
    ctx.log('%d assignments of names, %d accepted' % (len(jobs), len(acc)))
    # ---- field numbers as names
    nb = [1, 2, 9, 10, 11, 63, 64, 65, 99, 100, 127, 128, 255, 256, 1000, 18999, 20000, 65535, 65536, 16777216, 536870910, 536870911]
    for obf in (0, 1):
        ns = 'nb%d' % obf
        ctx.header(ns, 'syntax = "proto3"; package %s; option number_names = true; option obfuscate_strings = %s; message M { %s }\n' % (ns, 'true' if obf else 'false', ' '.join('int32 f%d = %d [name = "same"];' % (i, n) for i, n in enumerate(nb))))
        emit(obf, ns, table(ns, 'M', [('f%d' % i, str(n), False) for i, n in enumerate(nb)]))
    # ---- types of the values, characters of the names
    n_rej = [0]
    def verdict(j):
        tag, text, ok = j
        p = ctx.write('gen/%s.proto' % tag, text)
        rc, o, e = ctx.protogen(p, ctx.path('gen', tag + '.pg.hh'))
        if ok is None: return
        if rc == 0 and not ok: raise vt.Violation('accepted', text)
        if rc != 0 and ok: raise vt.Violation('rejected (status %s): %s' % (rc, e.strip()[-300:]), text)
        if rc != 0 and (rc != 1 or not e.strip()): raise vt.Violation('status %s, no diagnostic' % rc, text)
        n_rej[0] += 1
    V = {'true': 'b', 'false': 'b', '1': 'i', '0': 'i', '"true"': 's', '"x"': 's', 'x': 'n', 'True': 'n', 'a.b': 'n', 'TRUE': 'n', '"1"': 's', '7': 'i'}
    jobs = []
    H = 'syntax = "proto3";\n'
    for o in ('number_names', 'obfuscate_strings', 'cpp_use_lists'):
        for v, t in V.items():
            for m in ('message M { int32 a = 1; string b = 2; }', 'message M { }', 'message M { int32 a = 1 [transient=true]; }', ''):
                jobs.append((H + 'option %s = %s;\n%s\n' % (o, v, m), t == 'b'))
                jobs.append((H + '%s\noption %s = %s;\n' % (m, o, v), t == 'b'))
    for v, t in V.items():
        for ty in ('int32', 'string', 'repeated bytes', 'S'):
            for pos in range(3):
                fs = ['int32 k1 = 1;', 'int32 k2 = 2;']; fs.insert(pos, '%s z = 3 [transient = %s];' % (ty, v))
                jobs.append((H + 'message S { }\nmessage M { %s }\n' % ' '.join(fs), t == 'b'))
                fs[pos] = '%s z = 3 [name = %s];' % (ty, v)
                jobs.append((H + 'message S { }\nmessage M { %s }\n' % ' '.join(fs), t == 's'))
        # unknown options take anything
        jobs.append((H + 'option java_thing = %s;\nmessage M { option foo = %s; int32 a = 1 [deprecated = %s, jstype = %s]; }\n' % (v, v, v, v), True))
        # only the documented places
        jobs.append((H + 'message M { option transient = %s; option name = %s; int32 a = 1 [number_names = %s, cpp_use_lists = %s]; }\n' % (v, v, v, v), None))
    for c in list(range(1, 32)) + [0x5c, 0x7f]:
        for n in (1, 2, 8, 9):
            for p in range(n):
                if c in (0x0a,): continue
                jobs.append((H + 'message M { int32 a = 1 [name = "%s"]; }\n' % ('abcdefghi'[:p] + chr(c) + 'abcdefghi'[p + 1:n]), c == 0x7f))
                jobs.append((H + 'option obfuscate_strings = true; message M { int32 a = 1 [name = "%s"]; }\n' % ('abcdefghi'[:p] + chr(c) + 'abcdefghi'[p + 1:n]), c == 0x7f))
    bad = [b'\x80', b'\xbf', b'\xc0\x80', b'\xc1\xbf', b'\xc3', b'\xc3\x28', b'\xe0\x80\x80', b'\xe0\x9f\xbf', b'\xe2\x82', b'\xe2\x28\xa1', b'\xed\xa0\x80', b'\xed\xbf\xbf', b'\xf0\x80\x80\x80', b'\xf0\x8f\xbf\xbf', b'\xf0\x9f\x98', b'\xf4\x90\x80\x80', b'\xf5\x80\x80\x80', b'\xf8\x88\x80\x80\x80', b'\xfe', b'\xff']
    for b in bad:
        for pre in (b'', b'ab'):
            for suf in (b'', b'c'):
                for obf in (b'', b'option obfuscate_strings = true;'):
                    jobs.append((H.encode() + obf + b' message M { int32 a = 1 [name = "' + pre + b + suf + b'"]; }\n', False))
    # clashes at every pair of positions of a longer message
    for n in (2, 3, 20, 64):
        for i, j in itertools.combinations(range(n), 2):
            if n > 3 and (j - i) % 7 != 1 and (i, j) != (0, n - 1): continue
            for how in range(3):
                fs = ['int32 f%d = %d%s;' % (k, k + 1, ' [name = "same"]' if k in (i, j) and how == 0 else ' [name = "f%d"]' % j if k == i and how == 1 else ' [name = "f%d", transient = true]' % i if k == j and how == 2 else '') for k in range(n)]
                jobs.append((H + 'message M { %s }\n' % '\n'.join(fs), how == 2))
    ctx.parallel(verdict, [('v%d' % i, t, ok) for i, (t, ok) in enumerate(jobs)])
    ctx.log('%d verdicts on option values and names' % n_rej[0])
    # ---- combinations of options: the same text
    src = '#include "vh.hh"\n#include "values.hh"\n'
    pk = []
    for k, (obf, lst) in enumerate(itertools.product((False, True), repeat=2)):
        s = Schema('combo%d' % k, all_kinds(), package='combo%d' % k, options={'obfuscate_strings': obf, 'cpp_use_lists': lst})
        src += ctx.schema(s); pk.append(s)
    ctx.write('gen/combo.hh', src)
    def build(k):
        if k == 'trans': return c11.prepare(ctx)[0]
        if k == 'combo': return ctx.cxx('combo', [os.path.join(vt.VERIF, 'harness', 'combo.cc')], flags=['-DCOMBO_INC="combo.hh"'], opt='-O0')
        ctx.write('gen/tab%d.inc.hh' % k, inc[k][0]); ctx.write('gen/tab%d.hh' % k, inc[k][1])
        return ctx.cxx('options%d' % k, [os.path.join(vt.VERIF, 'harness', 'options.cc')], flags=['-DHEADERS_INC="tab%d.inc.hh"' % k, '-DTABLE_INC="tab%d.hh"' % k], opt='-O0', std='-std=c++11')
    exes = ctx.parallel(build, list(range(8)) + ['combo', 'trans'])
    for e in exes: ctx.run_harness(e, args=['--only', 'trans'] if e.endswith('optional') else [], timeout=ctx.pick(800, 7200))
    ctx.parts.append({'label': 'verdicts', 'evaluations': len(jobs) + 2 * len(asg), 'distinct': len(jobs) + 2 * len(asg), 'states': 0, 'transitions': 0, 'traces': 0, 'samples': []})
    ctx.coverage(rule=RULE, exhaustive=True)
    ctx.assumptions += ["names with a single quote, and names that number_names or transient make unused, may be accepted or rejected"]
