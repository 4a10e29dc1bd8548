"""C04, C05, C06, C08: deserialization of documents (harness/docs.cc)."""
import os, vt, common_schemas


# options that must not make a difference: a smaller exploration
VARIANTS = [({}, False), ({'obfuscate_strings': True, 'cpp_use_lists': True}, True), ({'number_names': True}, True), ({'number_names': True, 'obfuscate_strings': True}, True)]


def explore(ctx, prop, flags=(), opt='-O1', compiler='g++', timeout=840, rule=''):
    ctx.build()
    def prepare(k):
        o, light = VARIANTS[k]
        s = common_schemas.doc_schema(o, package='doc%d' % k if k else 'doc', name='docs%d' % k)
        ctx.write('gen/inc_docs%d.hh' % k, '#include "vh.hh"\n' + ctx.schema(s))
        return s, light, ctx.cxx('docs_%s_%d' % (prop, k), [os.path.join(vt.VERIF, 'harness', 'docs.cc')], flags=['-DSCHEMA_INC="inc_docs%d.hh"' % k, '-DNS=::' + s.package] + list(flags), opt=opt, compiler=compiler, schema_text=s.proto())
    for s, light, exe in ctx.parallel(prepare, range(len(VARIANTS))):
        ctx.run_harness(exe, args=['--prop', prop] + (['--light', '1'] if light else []), extra_replay=s.proto(), timeout=timeout)
    ctx.coverage(rule=rule, exhaustive=True)
    ctx.assumptions += ['behaviour beyond the stated depths and sizes is like that within them', 'the reference reader (harness/refjson.hh) implements RFC 8259 and the statement of the property', 'under number_names and obfuscate_strings, a part of the exploration is repeated']
