import os, vt
from schema import *
LEVEL = 'exploration'
RULE = ('every byte string of up to 2 bytes in 4 places x 8 option combinations (3 bytes: a third of all, thorough all), every length to 1500 (5000; 400 and 2000 under options) in 4 contents, lengths near powers of two and their three quarters to 256 K, one byte anywhere in blocks of up to 12; '
        'every text over 8 characters up to length 6 (7), over 4 up to 9 (11), every byte inserted and substituted anywhere in 10 texts, in plain and escaped form. Each compared with the reference codec (texts with non-zero discarded bits are left out)')


def run(ctx):
    ctx.build()
    inc, rows, texts, protos = '', [], [], ''
    for k in range(8):
        o = {n: True for i, n in enumerate(('number_names', 'obfuscate_strings', 'cpp_use_lists')) if k >> i & 1}
        s = Schema('b%d' % k, [M('S', [F('y', 'bytes', 1), F('n', 'int32', 2)]), M('T', [F('y', 'bytes', 1), F('r', 'bytes', 2, repeated=True), F('m', 'S', 3), F('l', 'S', 4, repeated=True)])], package='b%d' % k, options=o)
        inc += ctx.schema(s); protos += s.proto()
        rows.append('check_bytes_<::b%d::T>' % k); texts.append('check_text_<::b%d::T>' % k)
    ctx.write('gen/inc_base64.hh', '#include "vh.hh"\n' + inc + '#define SCHEMAS static const size_t NSCHEMAS = 8; static const Fn BYTES[] = { %s }; static const Fn TEXTS[] = { %s };\n' % (', '.join(rows), ', '.join(texts)))
    exe = ctx.cxx('base64', [os.path.join(vt.VERIF, 'harness', 'base64.cc')], schema_text=protos)
    ctx.run_harness(exe, extra_replay=protos)
    ctx.coverage(rule=RULE, exhaustive=True)
    ctx.assumptions += ['groups of three bytes are coded independently of their distance from the start beyond the lengths tried']
