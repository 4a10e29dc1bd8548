import glob, os, vt
from schema import *
LEVEL = 'exploration'
RULE = ('16 operations (writing, reading, rejecting, comparing, arrays, obfuscated names, reading one shared object, parsing, rejecting and generating schemas) on 2 values each, in a process whose C locale is de_DE and whose C++ locale has other punctuation; the real code is preempted at control-flow edges by a controlled scheduler: '
        'in fresh processes one preemption at the first passage of every edge (initialization of static data included); in warm ones, one preemption at every edge (passages 1 to 8, 2 for the schema compiler, and the powers of two; thorough 64) for every ordered pair of operations and values; two preemptions at every pair of edges for equal operations and every third one for different ones; every result is compared with the one of the operation alone. '
        'A ThreadSanitizer run of the same operations in 8 free threads looks for races inside an edge')

FIELDS = [F('i', 'int32', 1), F('d', 'double', 2), F('f', 'float', 3), F('s', 'string', 4), F('u', 'uint64', 5), F('b', 'bool', 6), F('y', 'bytes', 7), F('rs', 'string', 8, repeated=True), F('rd', 'double', 9, repeated=True), F('sub', 'Sub', 10), F('subs', 'Sub', 11, repeated=True), F('hidden', 'string', 12, transient=True)]


def run(ctx):
    stub = ctx.write('stub.c', 'void __sanitizer_cov_trace_pc_guard_init(unsigned *a, unsigned *b) { (void) a; (void) b; }\nvoid __sanitizer_cov_trace_pc_guard(unsigned *g) { (void) g; }\n')
    obj = ctx.path('stub.o'); vt.sh(['clang', '-fPIC', '-c', '-o', obj, stub], 60, check=True)
    cov = '-fsanitize-coverage=trace-pc-guard'
    ctx.build()
    def lib(name, flags, cxx, link=''):
        d = ctx.build(name, cxxflags=flags, targets=('libprotogen_static',), cxx=cxx, linkflags=link)
        l = [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs if f.endswith('.a')]
        if not l: raise vt.ToolError('no static library')
        return l
    for ns, o in (('thr', {}), ('thro', {'obfuscate_strings': True, 'cpp_use_lists': True})):
        ctx.header(ns, Schema(ns, [M('Sub', [F('n', 'int32', 1), F('t', 'string', 2)]), M('M', FIELDS)], package=ns, options=o).proto())
    src = os.path.join(vt.VERIF, 'harness', 'threads.cc')
    exes = ctx.parallel(lambda k: ctx.cxx('threads', [src], flags=cov.split(), compiler='clang++', opt='-O1', libs=lib('cov', cov, 'clang++', obj) + ['-ldl']) if k == 0 else
                        ctx.cxx('race', [src], flags=['-fsanitize=thread', '-g', '-DRACE'], compiler='g++', opt='-O1', libs=lib('tsan', '-fsanitize=thread -g', None)), [0, 1], 2)
    loc = {'LOCPATH': ctx.locale()}
    ctx.run_harness(exes[0], env=loc, timeout=ctx.pick(800, 14400))
    n = ctx.pick(10, 300)
    env = dict(os.environ, **loc, TSAN_OPTIONS='halt_on_error=0:exitcode=66:second_deadlock_stack=1')
    rc, o, e = vt.sh([exes[1], str(n)], 600, env=env)
    if rc and 'FATAL: ThreadSanitizer' in e: rc, o, e = vt.sh(['setarch', '-R', exes[1], str(n)], 600, env=env)
    if rc and 'FATAL: ThreadSanitizer' in e: ctx.notes.append('ThreadSanitizer does not run here: ' + e[:200]); rc, o = 0, 'not possible here'
    if rc is None: raise vt.ToolError('the race run exceeded its time')
    if rc != 0:
        if 'ThreadSanitizer' not in e and 'DIFFERENT' not in e: raise vt.Violation('the operations crash in concurrent threads (status %s)' % rc, e[-5000:])
        raise vt.Violation('data race, or another result, in concurrent operations: ' + ([l for l in e.split('\n') if 'WARNING' in l or 'DIFFERENT' in l or 'ERROR' in l or 'FATAL' in l] or ['?'])[0], e[:8000])
    ctx.log('race run:', o.strip())
    ctx.coverage(rule=RULE, exhaustive=True, distinct_nontrivial=ctx.total('states'), race_run=o.strip())
    ctx.assumptions += ['sequentially consistent interleavings at control-flow edges of the generated code and of the schema compiler; the C++ library is atomic between them', 'two threads; at most two preemptions', 'ThreadSanitizer judges finer interleavings, on one free execution']
