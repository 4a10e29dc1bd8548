import os, vt, common_schemas
# C24: memory that runs out and streams that throw, at every point of every operation.
LEVEL = 'fault_enumeration'
RULE = ('messages of every field kind (3 sets of options) x reading (5 overloads, fresh and used objects, with and without Parameters), writing (5 overloads x ensure_ascii, serialize_null, Parameters), copies, assignments, swap, clear, comparison, and arrays (6 containers x 7 operations); '
        'documents of the corpus, right and cut, damaged or extended at every 13th (83rd in long ones; thorough every) character, values of every class of every field; the schema parser and the generator for 23 schemas and every 9th (thorough every) cut of them, field types x options, and the destruction of the parsed schema; '
        'in each: every allocation failing once and from then on, every call on the stream throwing with and without exceptions enabled; the same in a new process, so that first-use initialization fails; then the result, memory, locale, flags, settings, and the objects are compared with the run without a fault')
VARIANTS = [({}, False), ({'obfuscate_strings': True, 'cpp_use_lists': True}, True), ({'number_names': True}, True)]


def run(ctx):
    ctx.build(targets=('libprotogen_static', 'protogen'))
    def prepare(k):
        o, light = VARIANTS[k]
        s = common_schemas.doc_schema(o, package='flt%d' % k, name='faults%d' % k)
        ctx.write('gen/inc_faults%d.hh' % k, '#include "vh.hh"\n' + ctx.schema(s))
        return s, light, ctx.cxx('faults%d' % k, [os.path.join(vt.VERIF, 'harness', 'faults.cc')], flags=['-DSCHEMA_INC="inc_faults%d.hh"' % k, '-DNS=::' + s.package], schema_text=s.proto())
    for s, light, exe in ctx.parallel(prepare, range(len(VARIANTS))):
        ctx.run_harness(exe, label=os.path.basename(exe) + '-warm', args=['--light', '1'] if light else [], extra_replay=s.proto(), timeout=ctx.pick(800, 14400))
        ctx.run_harness(exe, label=os.path.basename(exe) + '-cold', args=['--cold', '1'], extra_replay=s.proto(), timeout=ctx.pick(800, 14400))
    lib = [os.path.join(r, f) for r, _, fs in os.walk(ctx.build(targets=('libprotogen_static', 'protogen'))) for f in fs if f.endswith('.a')]
    if not lib: raise vt.ToolError('no static library')
    exe = ctx.cxx('pfaults', [os.path.join(vt.VERIF, 'harness', 'pfaults.cc')], opt='-O2', libs=lib)
    ctx.run_harness(exe, label='compiler', timeout=ctx.pick(800, 14400))
    ctx.coverage(rule=RULE, exhaustive=True)
