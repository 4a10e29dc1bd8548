import os, vt, common_schemas
from schema import *
LEVEL = 'model_checking'
VARIANTS = [{}, {'obfuscate_strings': True, 'cpp_use_lists': True}, {'number_names': True}]


def run(ctx):
    ctx.build()
    def prepare(k):
        sub = M('Sub', [F('n', 'int32', 1), F('t', 'string', 5)])
        msg = M('Msg', [F('n', 'int32', 1), F('l', 'int32', 2, repeated=True), F('s', 'Sub', 3), F('y', 'bytes', 4), F('t', 'string', 5), F('r', 'Sub', 6, repeated=True), F('h', 'int32', 7, transient=True)])
        s = Schema('arr%d' % k, [sub, msg, M('Other', [F('n', 'uint64', 1), F('x', 'Sub', 2), F('s', 'Sub', 3)])], package='arr', options=VARIANTS[k])
        ctx.write('gen/inc_arrays%d.hh' % k, '#include "vh.hh"\n' + ctx.schema(s))
        return s, ctx.cxx('arrays%d' % k, [os.path.join(vt.VERIF, 'harness', 'arrays.cc')], flags=['-DSCHEMA_INC="inc_arrays%d.hh"' % k], schema_text=s.proto())
    for k, (s, exe) in enumerate(ctx.parallel(prepare, range(len(VARIANTS)))):
        ctx.run_harness(exe, args=['--light', '1'] if k else [], extra_replay=s.proto())
    ctx.coverage(rule='20 container types: all viable token prefixes of the reference array reader with every continuation in two layouts; 56 lexemes in 16 patterns; all short lists and value classes, lists up to 65537 elements, in 4 parameter settings, through all overloads, into targets that hold something already; containers of messages again under obfuscate_strings, cpp_use_lists and number_names', exhaustive=True)
