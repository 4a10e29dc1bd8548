import os, vt, common_schemas, docs
LEVEL = 'exploration'
RULE = ('documents: every range of 11 corpus documents in 4 layouts followed by the rest, every byte at every place of short documents, one-token insertions, every lexeme for every field, long documents; each through 14 ways of reading with the range between guard pages. '
        'values: all singles and pairs of fields, all value classes, 4 parameter settings; each through all ways of writing and every buffer length from 0 to n+4 (n up to 300) at both ends of guarded memory; targets and objects that hold something already; repeated with obfuscate_strings, cpp_use_lists and number_names; cases are distinct by their bytes')


def run(ctx):
    ctx.build()
    def prepare(k):
        o, light = docs.VARIANTS[k]
        s = common_schemas.doc_schema(o, package='ovl%d' % k if k else 'ovl', name='docs%d' % k)
        ctx.write('gen/inc_docs%d.hh' % k, '#include "vh.hh"\n' + ctx.schema(s))
        return s, light, ctx.cxx('overloads%d' % k, [os.path.join(vt.VERIF, 'harness', 'overloads.cc')], flags=['-DSCHEMA_INC="inc_docs%d.hh"' % k, '-DNS=::' + s.package], schema_text=s.proto())
    for s, light, exe in ctx.parallel(prepare, range(len(docs.VARIANTS))):
        ctx.run_harness(exe, args=['--light', '1'] if light else [], extra_replay=s.proto())
    ctx.coverage(rule=RULE, exhaustive=True)
