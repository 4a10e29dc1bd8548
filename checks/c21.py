import itertools, os, vt
LEVEL = 'exploration'
RULE = ('versions of a schema of 5 fields, one with a nested and one with a repeated message of 3 fields: every assignment of present, absent, transient and renamed to three fields and of present and absent to two, with every assignment to the fields of the inner message (thorough: four states everywhere), declared in different orders, with different numbers, packages, containers and obfuscation, by name and by number; '
        'every ordered pair of versions x 94 records (all presence masks x 3 value classes) x output modes; chains of three versions')
LONG, HUGE = 'l' + 'ong_' * 20 + 'g', 'k' + 'Ab9' * 90  # names of any length
TOP = [('i', 'int32', False), ('s', 'string', False), ('m', 'S', False), ('r', 'S', True), (LONG, 'string', True)]
SUB = [('n', 'int64', False), ('t', 'string', False), (HUGE, 'int32', True)]
TOPN, SUBN = [f[0] for f in TOP], [f[0] for f in SUB]


OWN = [('int32', False, 'x.%s = 77; '), ('string', False, 'x.%s = "own"; '), ('bool', True, 'x.%s.push_back(true); '), ('bytes', False, 'x.%s.push_back(1); '), ('string', True, 'x.%s.push_back("o1"); x.%s.push_back(""); '), ('double', False, 'x.%s = 1.5; '), ('sint64', False, 'x.%s = 0; ')]
FORMS = ['_%s', '%s_', '%s%s', '%s0', '%s1', 'x%s', '__%s', '%s_%s', 'a%s', '%sa', '%s__', '_%s_', '%szz', 'zz%s']


def near(idx, names, base, numbers):
    """fields of this version only, with names (or, with number_names, numbers) close to those of common fields, and other types"""
    out = []
    if (idx // 2) % 3 == 1: return out  # messages can be without fields
    for k, n in enumerate(names):
        if (idx + k) % 3 == 2: continue
        j = idx + 5 * k
        if (idx // 3 + k) % 4 == 3: c = n.upper()
        else: c = FORMS[j % len(FORMS)]; c = c % ((n,) * c.count('%s'))
        if 'zz_' + n == c or 'x9' + n == c: continue
        num = [10 * (base + k) + idx % 10, 100 * (base + k) + 7, int('1%d' % (base + k)) + 500, int('9%d' % (base + k)), 70 + base + k][j % 5] if numbers else 300 + 7 * k + idx % 7
        if num in range(base, base + 5) or any(num == o[3] for o in out): num = 1000 + k
        t, rep, code = OWN[(num if numbers else sum(map(ord, c))) % len(OWN)]  # one type for one name, in all versions
        out.append((c, t, rep, num, code.replace('%s', c)))
    return out


def schema(idx, top, sub, numbers):
    """text of the schema, and the C++ names of the fields"""
    ns = 'v%d' % idx
    opts = ['option obfuscate_strings = true;'] * (idx % 2) + ['option cpp_use_lists = true;'] * (idx % 3 == 0) + ['option number_names = true;'] * numbers
    def fields(defs, states, base):
        out, cpp = [], []
        for k, ((n, t, rep), st) in enumerate(zip(defs, states)):
            c = n
            if st == 'R': c = ['zz_', 'A', 'q_', 'x9'][(idx + k) % 4] + n
            cpp.append(c)
            if st == 'A': continue
            o = []
            if st == 'R' and not numbers: o.append('name = "%s"' % n)
            if st == 'T': o.append('transient = true')
            num = base + k if numbers else 1 + (k * 3 + idx) % 11
            out.append('%s%s %s = %d%s;' % ('repeated ' if rep else '', t, c, num, ' [%s]' % ', '.join(o) if o else ''))
        r = idx % (len(out) or 1); out = out[r:] + out[:r]
        if idx % 4 >= 2: out.reverse()
        return out, cpp
    tf, tc = fields(TOP, top, 1); sf, sc = fields(SUB, sub, 20)
    # fields that no common field has the name of
    if idx % 5 == 1: tf.insert(len(tf) // 2, 'repeated S own%d = 900;' % idx)
    for n, t, rep, num, _ in near(idx, TOPN, 1, numbers): tf.insert((idx + num) % (len(tf) + 1), '%s%s %s = %d;' % ('repeated ' if rep else '', t, n, num))
    for n, t, rep, num, _ in near(idx, SUBN, 20, numbers): sf.insert((idx + num) % (len(sf) + 1), '%s%s %s = %d;' % ('repeated ' if rep else '', t, n, num))
    return 'syntax = "proto3"; package %s;\n%s\nmessage S { %s }\nmessage T { %s }\n' % (ns, ' '.join(opts), ' '.join(sf), ' '.join(tf)), tc, sc


def code(idx, top, sub, numbers, tc, sc):
    ns = 'v%d' % idx
    i, s, m, r, l = tc; n, t, k = sc
    has = dict(zip('ismrl', [c != 'A' for c in top])); sh = dict(zip('ntk', [c != 'A' for c in sub]))
    o = 'namespace w%d {\n' % idx
    o += 'inline void setsub(::%s::S &x, const Sub &v, bool own) { (void) x; (void) v; (void) own; %s%s%s }\n' % (ns, 'if (v.hn) x.%s = v.n; ' % n if sh['n'] else '', 'if (v.ht) x.%s = v.t; ' % t if sh['t'] else '', 'for (auto e : v.k) x.%s.push_back(e); ' % k if sh['k'] else '')
    o = o[:-2] + 'if (own) { ' + ''.join(x[4] for x in near(idx, SUBN, 20, numbers)) + '} }\n'
    o += 'inline void getsub(const ::%s::S &x, Sub &v) { (void) x; (void) v; %s%s%s }\n' % (ns, 'if (!x.%s.empty()) { v.hn = true; v.n = x.%s; } ' % (n, n) if sh['n'] else '', 'if (!x.%s.empty()) { v.ht = true; v.t = x.%s; } ' % (t, t) if sh['t'] else '', 'for (auto e : x.%s) v.k.push_back(e);' % k if sh['k'] else '')
    o += 'inline bool write(const Rec &v, std::string &out, int mode) { ::%s::T x; (void) v; bool own = (mode + %d) %% 2; ' % (ns, idx)
    if has['i']: o += 'if (v.hi) x.%s = v.i; ' % i
    if has['s']: o += 'if (v.hs) x.%s = v.s; ' % s
    if has['m']: o += 'setsub(x.%s, v.m, own); ' % m
    if has['r']: o += 'x.%s.resize(v.r.size()); { auto it = v.r.begin(); for (auto &e : x.%s) setsub(e, *it++, own); } ' % (r, r)
    if has['l']: o += 'for (auto &e : v.l) x.%s.push_back(e); ' % l
    o += 'if (own) { ' + ''.join(x[4] for x in near(idx, TOPN, 1, numbers)) + '} '
    o += 'PG::Parameters p; p.ensure_ascii = mode & 1; p.serialize_null = mode & 2; return x.serialize(out, &p); }\n'
    o += 'inline bool read(const std::string &in, Rec &v, std::string &err) { ::%s::T x; (void) v; PG::Parameters p; if (!x.deserialize(in, &p)) { err = p.error.message; return false; } ' % ns
    if has['i']: o += 'if (!x.%s.empty()) { v.hi = true; v.i = x.%s; } ' % (i, i)
    if has['s']: o += 'if (!x.%s.empty()) { v.hs = true; v.s = x.%s; } ' % (s, s)
    if has['m']: o += 'getsub(x.%s, v.m); ' % m
    if has['r']: o += 'for (auto &e : x.%s) { v.r.emplace_back(); getsub(e, v.r.back()); } ' % r
    if has['l']: o += 'for (auto &e : x.%s) v.l.push_back(e); ' % l
    o += 'return true; }\nstatic struct Add { Add() { versions().push_back(Version{ "%s", "%s", "%s", %s, write, read }); } } add;\n}\n' % (ns, ''.join(top), ''.join(sub), str(numbers).lower())
    return o


def run(ctx):
    ctx.build()
    subs = list(itertools.product('PATR', repeat=3)); vs = []
    if ctx.thorough:
        for k, top in enumerate(itertools.product('PATR', repeat=5)): vs.append((top, subs[(k * 29 + 7) % 64], k % 3 == 2))
    else:
        for k, (a, b) in enumerate(itertools.product(itertools.product('PATR', repeat=3), itertools.product('PA', repeat=2))): vs.append(((a[0], b[0], a[1], a[2], b[1]), subs[(k * 29 + 7) % 64], k % 3 == 2))
    for k, s in enumerate(subs): vs.append((tuple('PPPPP'), s, k % 4 == 3))
    parts = [['', ''] for _ in range(vt.NCPU)]
    def one(idx):
        top, sub, num = vs[idx]
        text, tc, sc = schema(idx, top, sub, num)
        ctx.header('v%d' % idx, text)
        return code(idx, top, sub, num, tc, sc)
    codes = ctx.parallel(one, range(len(vs)))
    for idx, c in enumerate(codes): p = parts[idx % vt.NCPU]; p[0] += '#include "v%d.pg.hh"\n' % idx; p[1] += c
    def comp(k):
        src = ctx.write('gen/part%d.cc' % k, '#include "versions.hh"\n' + parts[k][0] + '#ifndef PG\n#define PG protogen_3_0_0\n#endif\n' + parts[k][1])
        o = ctx.path('gen', 'part%d.o' % k)
        cmd = ['g++', '-std=c++11', '-O0', '-w', '-c', '-I', os.path.join(vt.VERIF, 'harness'), '-I', ctx.path('gen'), '-o', o, src]
        rc, _, e = vt.sh(cmd, 800)
        if rc != 0: ctx.compile_failed(cmd, e, '')
        return o
    objs = ctx.parallel(comp, range(vt.NCPU))
    ctx.log('%d versions' % len(vs))
    exe = ctx.cxx('versions', [os.path.join(vt.VERIF, 'harness', 'versions.cc')], libs=objs)
    ctx.run_harness(exe, timeout=ctx.pick(800, 14400))
    ctx.coverage(rule=RULE, exhaustive=True, schema_versions=len(vs))
    ctx.assumptions += ['versions keep the type of a common field; names and numbers are not given to other fields']
