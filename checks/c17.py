import itertools, os, re, shutil, vt
LEVEL = 'fault_enumeration'
RULE = ('13 runs of the command (new, old, linked, missing, unusable output; standard output; schema as output; valid, invalid, large, missing schemas): every system call on the schema, the output, the path or standard error is a fault point; every plan of 1 fault (2 for four of the runs; thorough 2 and 3) over up to 8 errors or cuts per call, found depth-first along the calls that really occur; '
        'input failing after every byte; output space ending at every third byte (thorough every byte) and every byte around 4096-byte blocks; a reader leaving after every 211th byte (thorough 13th); full and closed devices; '
        '60 schema errors x 14 forms of paths x 2 outputs for the form of the diagnostic; an error at every line up to 1300 and every column up to 530 (thorough 5000)')

ERRORS = ['message', 'message A', 'message A {', 'message A { int32', 'message A { int32 a', 'message A { int32 a =', 'message A { int32 a = 1', 'message A { int32 a = 1 }', 'message A { int32 a = 0; }',
    'message A { int32 a = -1; }', 'message A { int32 a = 19000; }', 'message A { int32 a = 536870912; }', 'message A { int32 a = x; }', 'message A { int32 a = "1"; }', 'message A { int32 a = 1; int32 a = 2; }',
    'message A { int32 a = 1; int32 b = 1; }', 'message A { B b = 1; }', 'message A { A a = 1; }', 'message A { B b = 1; } message B { A a = 1; }', 'message A { } message A { }', 'message A { enum E { X = 0; } }',
    'enum E { X = 0; }', 'message A { oneof x { int32 a = 1; } }', 'message A { map<string, int32> m = 1; }', 'message A { message B { } }', 'import "x.proto";', 'service S { }', 'message A { repeated A a = ; }',
    'message A { required int32 a = 1; }', 'message A { repeated a = 1; }', 'message A { repeated repeated int32 a = 1; }', 'message A { int32 a = 1 [name = "b"]; int32 b = 2; }', 'message A { int32 a = 1 [name = 1]; }',
    'message A { int32 a = 1 [transient = "x"]; }', 'message A { int32 a = 1 [name = "a\\b"]; }', 'message A { int32 a = 1 [name = ]; }', 'message A { int32 a = 1 [= 1]; }', 'message A { int32 a = 1 [name "a"]; }',
    'option number_names = 1; message A { int32 a = 1; }', 'option obfuscate_strings = "x"; message A { int32 a = 1; }', 'option x', 'option = 1;', '/* never closed', 'message A { /', 'message A { int32 a = 1 [name = "x', '"', '@', 'message A { int32 a = 1; }}',
    'message 1 { }', 'message A { 1 a = 1; }', 'message class { int32 a = 1; }', 'message A { int32 int = 1; }', '\x01', 'message A { int32 a = 1; } x', '}', '{', ';;=', 'syntax = "proto2";', 'message A { string s = 1 ; int64 = 2; }', 'message A { .B b = 1; }', 'message A { p..B b = 1; }']


def run(ctx):
    ctx.build()
    d = ctx.path('io'); os.makedirs(d)
    exe = ctx.cxx('iofault', [os.path.join(vt.VERIF, 'harness', 'iofault.cc')])
    r = ctx.run_harness(exe, args=['--exe', os.path.join(ctx.builds['build'], 'protogen'), '--root', d], timeout=ctx.pick(840, 14400))
    # ---- the form of the diagnostics
    base = ctx.path('diag'); os.makedirs(base)
    def forms(k):
        w = os.path.join(base, 'e%d' % k); deep = os.path.join(w, *['d' * 200] * 8)
        for p in ('', 'a b', 'x:1:2', 'é', "q'", '%s', 'sub', '$1$'): os.makedirs(os.path.join(w, p), exist_ok=True)
        os.makedirs(deep)
        return w, [('x.proto', 'rel'), ('./x.proto', 'rel'), ('sub/../x.proto', 'rel'), (os.path.join(w, 'x.proto'), 'abs'), ('a b/x y.proto', 'rel'), ('x:1:2/x.proto', 'rel'), ('é/é.proto', 'rel'), ("q'/x.proto", 'rel'), ('%s/%d.proto', 'rel'), ('$1$/$2$.proto', 'rel'), ('link.proto', 'link'), ('noext', 'rel'), ('-x', 'rel'), (os.path.join(deep, 'x.proto'), 'abs')]
    n = [0]
    def one(k):
        text = ('' if 'proto2' in ERRORS[k] else 'syntax = "proto3";\n') + ERRORS[k] + '\n'
        w, fs = forms(k)
        for path, kind in fs:
            full = os.path.join(w, path)
            if kind == 'link':
                if not os.path.lexists(full): os.symlink('sub/real.proto', full)
                open(os.path.join(w, 'sub/real.proto'), 'w').write(text)
            else: open(full, 'w').write(text)
            for out in (None, 'out.hh'):
                rc, o, e = ctx.protogen(path, out, cwd=w); n[0] += 1
                what = 'schema %r at %s' % (ERRORS[k], path)
                if rc is None: raise vt.Violation('the command does not end', text)
                if rc == 0: raise vt.Violation('success for a wrong schema', text)
                if rc < 0: raise vt.Violation('the command is killed (status %d)' % rc, text)
                m = re.match(r'(?s)(.*?):(\d+):(\d+): error: \S', e)
                ok = False
                for m in re.finditer(r':(\d+):(\d+): error: \S', e):
                    p = e[:m.start()].split('\n')[-1]
                    if os.path.realpath(os.path.join(w, p)) == os.path.realpath(full): ok = True
                if not ok: raise vt.Violation('the diagnostic of %s is not path:line:column: error: ...: %r' % (what, e[:500]), text)
        shutil.rmtree(w)
    ctx.parallel(one, range(len(ERRORS)))
    # ---- errors at every line and column: the exit status has 8 bits
    w = os.path.join(base, 'at'); os.makedirs(w)
    def at(j):
        kind, k = j
        text = {'line': 'syntax = "proto3";' + '\n' * (k - 1) + 'x', 'column': 'syntax = "proto3";\n' + ' ' * (k - 1) + 'x', 'messages': 'syntax = "proto3";\n' + ''.join('message M%d { }\n' % i for i in range(k)) + 'message M0 { }', 'fields': 'syntax = "proto3";\nmessage A {\n' + ''.join('int32 f%d = %d;\n' % (i, i + 1) for i in range(k)) + 'int32 f0 = 9999; }'}[kind]
        name = '%s%d.proto' % (kind, k)
        with open(os.path.join(w, name), 'w') as f: f.write(text)
        rc, o, e = ctx.protogen(name, 'o%d_%s.hh' % (k % 64, kind) if k % 2 else None, cwd=w)
        os.unlink(os.path.join(w, name))
        if rc is None or rc <= 0: raise vt.Violation('status %s for a schema with an error at %s %d' % (rc, kind, k), text[:3000])
        m = re.search(r':(\d+):(\d+): error: \S', e)
        if not m or (kind == 'line' and int(m.group(1)) != k) or (kind == 'column' and (int(m.group(1)), int(m.group(2))) != (2, k)): raise vt.Violation('wrong diagnostic for a schema with an error at %s %d: %r' % (kind, k, e[-300:]), text[:3000])
    jobs = [('line', k) for k in list(range(1, ctx.pick(1300, 5000))) + [4096, 8192, 16384, 32767, 32768, 65535, 65536, 65537, 70000, 131072]] + [('column', k) for k in list(range(1, ctx.pick(530, 5000))) + [768, 1024, 4096, 32768, 65535, 65536, 65537]] + [('messages', k) for k in (1, 2, 255, 256, 257, 511, 512)] + [('fields', k) for k in (1, 2, 62, 63)]
    ctx.parallel(at, jobs); n[0] += len(jobs)
    shutil.rmtree(w)
    # ---- wrong uses of the command
    exe = os.path.join(ctx.builds['build'], 'protogen')
    w = os.path.join(base, 'use'); os.makedirs(w)
    open(os.path.join(w, 'x.proto'), 'w').write('syntax = "proto3"; message A { int32 a = 1; }\n')
    open(os.path.join(w, 'empty'), 'w').close()
    long = 'n' * 300
    for args in ([], ['x.proto', 'o', 'o'], ['x.proto', 'o', 'o', 'o'], [''], ['x.proto', ''], ['none.proto'], ['none.proto', 'o'], ['x.proto', 'none/o'], ['x.proto', 'x.proto/o'], ['x.proto/'], ['.'], ['.', 'o'], ['x.proto', '.'], ['x.proto', '/dev/full'], [long], ['x.proto', long], ['/dev/stdin', 'o'], ['x' * 5000], ['x.proto', 'x' * 5000]):
        rc, o, e = vt.sh([exe] + args, 60, cwd=w, input=b'syntax = "proto3"; message A { int32 a = 1; }\n' if '/dev/stdin' in args else b''); n[0] += 1
        if rc == 0 and '/dev/stdin' in args and 'a' in open(os.path.join(w, 'o')).read(): continue
        if rc is None or rc <= 0 or not e.strip(): raise vt.Violation('arguments %r: status %s, diagnostic %r' % ([a[:40] for a in args], rc, e[:200]), '')
    ctx.log('%d diagnostics' % n[0])
    ctx.parts.append({'label': 'diagnostics', 'evaluations': n[0], 'distinct': n[0], 'states': 0, 'transitions': 0, 'traces': 0, 'samples': []})
    ctx.coverage(rule=RULE, exhaustive=True, fault_points=r['states'])
    ctx.assumptions += ['a failure to close the schema, and the state of the output file after a reported failure, are not judged', 'the process runs with SIGPIPE and SIGXFSZ ignored', 'Linux x86-64: faults are injected with ptrace at the system-call boundary']
