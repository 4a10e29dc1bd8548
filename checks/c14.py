import os, itertools, vt
LEVEL = 'exploration'
RULE = ('every labelled digraph with up to 4 messages, self-references included (and, thorough, 5 messages without them), in several edge kinds (single, repeated, optional, transient, doubled, qualified names) and both field orders, in process against a cycle search; rings, chains, rings with tails and dense chains of up to 700 messages in 4 declaration orders; a ring of 1 to 40 behind one of up to 63 references; '
        'every acyclic digraph of up to 4 messages (thorough: 5) compiled by the command and its header by g++, with all messages instantiated')


def dags(n):
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    # every acyclic digraph: grow by all permutations' upper triangles
    seen = set()
    for perm in itertools.permutations(range(n)):
        up = [(perm[a], perm[b]) for a in range(n) for b in range(a + 1, n)]
        for bits in range(1 << len(up)): seen.add(frozenset(e for k, e in enumerate(up) if bits >> k & 1))
    return sorted(seen, key=lambda e: (len(e), sorted(e)))


MODS = ['', 'repeated ', 'optional ']


def text(package, n, edges, mode):
    s = 'syntax = "proto3";\npackage %s;\n' % package
    for i in range(n):
        s += 'message %s {' % 'ABCDEFGH'[i]
        k = 0
        for a, b in sorted(edges):
            if a != i: continue
            m = mode if mode < 3 else (a + 2 * b) % 3
            k += 1; s += ' %s%s%s f%d = %d%s;' % (MODS[m], 'ABCDEFGH'[b], '', k, k, ' [transient=true]' if mode == 3 and (a + b) % 4 == 3 else '')
            if mode == 3 and b % 2: k += 1; s += ' repeated %s g%d = %d;' % ('ABCDEFGH'[b], k, k)
        if i % 2: s += ' int32 x = 100;'
        s += ' }\n'
    return s


def run(ctx):
    d = ctx.build(targets=('libprotogen_static', 'protogen'))
    lib = [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs if f.endswith('.a')]
    exe = ctx.cxx('graph', [os.path.join(vt.VERIF, 'harness', 'graph.cc')], opt='-O2', libs=lib)
    ctx.run_harness(exe, timeout=ctx.pick(840, 7200))
    # headers
    cases = []
    for n in range(1, 5): cases += [(n, e, m) for e in dags(n) for m in ((0, 3) if n == 4 else (0, 1, 2, 3))]
    if ctx.thorough: cases += [(4, e, 1) for e in dags(4)] + [(5, e, 3) for e in dags(5)]
    def gen(k):
        n, e, m = cases[k]
        ctx.header('d%d' % k, text('p%d' % k, n, e, m))
    ctx.parallel(gen, range(len(cases)))
    ctx.log('%d headers generated' % len(cases))
    size = 40
    def comp(b):
        ks = range(b, min(b + size, len(cases)))
        src = ''.join('#include "d%d.pg.hh"\n' % k for k in ks)
        for k in ks:
            src += 'void use%d(std::string &s) {' % k + ''.join(' { p%d::%s m, o(m); m.serialize(s); m.deserialize(s); m = o; m.swap(o); m.clear(); if (m == o) s.clear(); }' % (k, 'ABCDEFGH'[i]) for i in range(cases[k][0])) + ' }\n'
        f = ctx.write('tu%d.cc' % b, src)
        cmd = ['g++', '-std=c++11', '-fsyntax-only', '-w', '-I', ctx.path('gen'), f]
        rc, o, e = vt.sh(cmd, 600)
        if rc != 0: return b, cmd, e
        os.unlink(f)
        return None
    for r in ctx.parallel(comp, range(0, len(cases), size)):
        if r:
            b, cmd, e = r
            # find one
            for k in range(b, min(b + size, len(cases))):
                f = ctx.write('one.cc', '#include "d%d.pg.hh"\nvoid use(std::string &s) { p%d::A m; m.serialize(s); }\n' % (k, k))
                rc, o, e2 = vt.sh(['g++', '-std=c++11', '-fsyntax-only', '-w', '-I', ctx.path('gen'), f], 600)
                if rc != 0: ctx.compile_failed(cmd, e2, text('p%d' % k, *cases[k]))
            ctx.compile_failed(cmd, e, 'only together')
    ctx.log('headers compiled')
    ctx.parts.append({'label': 'headers', 'evaluations': len(cases), 'distinct': len(cases), 'states': len(cases), 'transitions': 0, 'traces': len(cases), 'samples': [{'case': text('p', *cases[len(cases) // 2])}]})
    ctx.coverage(rule=RULE, exhaustive=True)
    ctx.assumptions += ['messages of different packages cannot appear in one schema file']
