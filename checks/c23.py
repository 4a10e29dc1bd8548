import os, vt, common_schemas, docs
LEVEL = 'model_checking'
RULE = ('the model state is the value of one object, the actions are documents, assignments and clear: for every field of three messages, every sequence of up to 4 (thorough 5) actions that concern it (messages of many fields: 2 or 3); every ordered pair of documents with members for two fields; '
        'every document of one member read into an object with all fields set, twice, then with every other field; the value, equality and text of the object are compared after each sequence; the overloads alternate; repeated with obfuscate_strings, cpp_use_lists and number_names')


def run(ctx):
    ctx.build()
    def prepare(k):
        o, light = docs.VARIANTS[k]
        s = common_schemas.doc_schema(o, package='mrg%d' % k, name='docs%d' % k)
        ctx.write('gen/inc_docs%d.hh' % k, '#include "vh.hh"\n' + ctx.schema(s))
        return s, light, ctx.cxx('merge%d' % k, [os.path.join(vt.VERIF, 'harness', 'merge.cc')], flags=['-DSCHEMA_INC="inc_docs%d.hh"' % k, '-DNS=::' + s.package], schema_text=s.proto())
    for s, light, exe in ctx.parallel(prepare, range(len(docs.VARIANTS))):
        ctx.run_harness(exe, args=['--light', '1'] if light else [], extra_replay=s.proto())
    ctx.coverage(rule=RULE, exhaustive=True, traces_validated_against_impl=ctx.total('traces'))
    ctx.assumptions += ['what an object holds after a failed reading, and what null does to a field that holds a value, is not decided']
