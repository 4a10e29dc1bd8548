import os, vt, common_schemas
from schema import *
LEVEL = 'model_checking'


def transient():
    """every kind of field, transient and persistent, side by side; and a message of transient fields only"""
    fs, k = [], 1
    for rep in (False, True):
        for i, t in enumerate(SCALARS + ['Inner', 'Mid']):
            for tr in ((False, True) if i % 2 else (True, False)): fs.append(F('%s%s_%s' % ('r' if rep else 'f', 't' if tr else 'p', t), t, k, repeated=rep, transient=tr)); k += 1
    # 64 fields at most
    some = [f for f in fs if not (f.type.startswith(('sint', 'sfixed')))]
    return [M('Trans', some[:64]), M('AllT', [F(f.name, f.type, f.num, repeated=f.repeated, transient=True) for f in some if f.transient])]


def prepare(ctx):
    ctx.build()
    inc, protos = '', ''
    for name, o in (('oa', {}), ('ob', {'obfuscate_strings': True, 'cpp_use_lists': True, 'number_names': True})):
        sub = M('Sub', [F('n', 'int32', 1), F('t', 'string', 2)])
        m = M('M', [F('i', 'int32', 1), F('s', 'string', 2), F('y', 'bytes', 3), F('l', 'int32', 4, repeated=True), F('m', 'Sub', 5), F('r', 'Sub', 6, repeated=True), F('t', 'int32', 7, transient=True)])
        wide = [x for x in common_schemas.value_messages() if x.name == 'Wide']
        s = Schema(name, all_kinds() + [sub, m] + wide + transient(), package=name, options=o)
        inc += ctx.schema(s); protos += s.proto()
    ctx.write('gen/inc_optional.hh', '#include "vh.hh"\n' + inc)
    exe = ctx.cxx('optional', [os.path.join(vt.VERIF, 'harness', 'optional.cc')], schema_text=protos)
    return exe, protos


def run(ctx):
    exe, protos = prepare(ctx)
    ctx.run_harness(exe, extra_replay=protos)
    ctx.coverage(rule='all sequences of operations (28 on pairs of fields, 44 for strings, 68 on pairs of messages) up to the stated depth, each replayed from new objects on the real classes and compared with the model; every field of two larger messages in all 16 pairs of values', exhaustive=True)
    ctx.assumptions += ['states of moved-from objects are observed only after clear or assignment']
