import itertools, os, vt
LEVEL = 'exploration'
RULE = ('3 schemas in every layout that differs from the plain one at one token boundary (18 separators: white space, line ends, comments, nothing) or at two (thorough all pairs; quick the near ones and part of the others), and uniformly; '
        'every sequence of 4 (thorough 5) compilations out of 14 schemas (7 rejected ones) in one process, every sequence of 3 with one generator object; every permutation of the fields of 7 messages of up to 6 fields (names with long common prefixes, numbers equal modulo 256 and 65536), by the command; the command in other environments and directories; '
        'every order of assigning every subset of 7 fields')
MSGS = [
    ('', 'm', ['int32 b = 1;', 'string a = 2;', 'bytes c = 3;', 'repeated S d = 4;', 'bool B = 5;', 'S _x = 6;']),
    ('option obfuscate_strings = true;', 'm.n', ['int32 zz = 9 [name = "q"];', 'string z = 1;', 'double y = 20 [transient = true];', 'repeated bytes a1 = 4;', 'S a10 = 5 [name = "z1"];']),
    ('option number_names = true;', '', ['int32 b = 10;', 'string a = 9;', 'S c = 100;', 'repeated float d = 1;']),
    ('option cpp_use_lists = true;', 'l', ['repeated int32 b = 10;', 'repeated S a = 9;', 'S c = 100;', 'repeated bool d = 1;', 'fixed64 e = 2;']),
    ('', 'p', ['int32 customer_address_line_number_one_hundred_and_one = 1;', 'int32 customer_address_line_number_one_hundred_and_two = 257;', 'string customer_address_line_number_one_hundred_and_on = 65537;', 'bool Customer_address_line_number_one_hundred_and_one = 513;', 'S customer_address_line_number_one_hundred_and_tw0 = 3;']),
    ('option number_names = true;', 'q', ['int32 a = 1;', 'int32 aa = 257;', 'string aaa = 65537;', 'bool ab = 16777217;', 'S b = 536870911;']),
    ('', 'o', ['string s1 = 1;', 'string s2 = 2 [name = "s3"];', 'string s3 = 3 [transient = true];', 'int64 s4 = 4 [transient = false, name = "s2"];']),
]


def run(ctx):
    d = ctx.build(targets=('libprotogen_static', 'protogen'))
    lib = [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs if f.endswith('.a')]
    ctx.header('hist', 'syntax = "proto3"; package hist; message S { int32 n = 2; string t = 1; } message H { int32 a = 1; string b = 2; repeated double c = 3; S d = 4; bytes e = 5; repeated S f = 6; bool g = 7; }\n')
    exe = ctx.cxx('histories', [os.path.join(vt.VERIF, 'harness', 'histories.cc')], opt='-O1', libs=lib)
    ctx.run_harness(exe, timeout=ctx.pick(800, 14400))
    # ---- field orders, by the command
    n = [0]
    def compile(w, text, out=None, proto='x.proto', env=None, cwd=None):
        os.makedirs(w, exist_ok=True)
        p = os.path.join(w, proto) if not os.path.isabs(proto) else proto
        open(p, 'w').write(text)
        rc, o, e = ctx.protogen(proto if cwd else p, None, env=env, cwd=cwd or w); n[0] += 1
        if rc != 0: raise vt.Violation('a valid schema is rejected: ' + e[:500], text)
        return o
    jobs = []
    for k, (opt, pkg, fields) in enumerate(MSGS):
        for perm in itertools.permutations(range(len(fields))):
            for msgs in (0, 1):
                if msgs and k % 2: continue
                jobs.append((k, perm, msgs))
    def text(k, perm, other):
        opt, pkg, fields = MSGS[k]
        a = 'message S { %s }\n' % ('bool v = 2; int32 u = 1;' if other else 'int32 u = 1; bool v = 2;')
        m = 'message T {\n%s\n}\n' % '\n'.join('  ' + fields[i] for i in perm)
        return 'syntax = "proto3";\n%s\n%s\n%s%s' % ('package %s;' % pkg if pkg else '', opt, a, m)
    # the header may depend on the path: every worker has one, and compares with what it got for the written order
    def worker(i):
        w = ctx.path('p', str(i)); first = {}
        for k, perm, other in [(k, tuple(range(len(m[2]))), 0) for k, m in enumerate(MSGS)] + jobs[i::vt.NCPU]:
            o = compile(w, text(k, perm, other))
            if first.setdefault(k, o) != o:
                i = next((i for i, (a, b) in enumerate(zip(o, first[k])) if a != b), min(len(o), len(first[k])))
                raise vt.Violation('the order of the fields changes the header: ...%s INSTEAD OF ...%s' % (o[max(0, i - 60):i + 150], first[k][max(0, i - 60):i + 150]), text(k, perm, other))
    ctx.parallel(worker, range(vt.NCPU))
    ctx.log('%d orders of fields' % len(jobs))
    # ---- the same file, from other directories, in other environments, again
    w = ctx.path('env'); os.makedirs(os.path.join(w, 'sub')); home = ctx.path('home'); os.makedirs(home)
    for k in range(len(MSGS)):
        t = text(k, range(len(MSGS[k][2])), 0); p = os.path.join(w, 'x.proto'); open(p, 'w').write(t); first = None
        for cwd, arg in ((w, 'x.proto'), (w, './x.proto'), (os.path.join(w, 'sub'), '../x.proto'), ('/', p), (w, p), (w, 'sub/../x.proto')):
            for env in ({}, {'LANG': 'de_DE.UTF-8', 'LC_ALL': 'de_DE.UTF-8'}, {'LC_ALL': 'C', 'TZ': 'Asia/Tokyo', 'HOME': home, 'USER': 'nobody'}, {'MALLOC_PERTURB_': '165', 'GLIBC_TUNABLES': 'glibc.malloc.check=1', 'SOURCE_DATE_EPOCH': '0'}):
                for out in (None, os.path.join(w, 'o.hh')):
                    rc, o, e = ctx.protogen(arg, out, cwd=cwd, env=env); n[0] += 1
                    if rc != 0: raise vt.Violation('rejected from another directory or environment: ' + e[:300], t)
                    if out: o = open(out, encoding='utf-8', errors='replace').read()
                    if first is None: first = o
                    if o != first: raise vt.Violation('another header from %s in %s with %s' % (arg, cwd, env), t)
    ctx.log('%d runs of the command' % n[0])
    ctx.parts.append({'label': 'command', 'evaluations': n[0], 'distinct': n[0], 'states': 0, 'transitions': 0, 'traces': 0, 'samples': []})
    ctx.coverage(rule=RULE, exhaustive=True)
    ctx.assumptions += ['the header may depend on the path of the schema (include guard)']
