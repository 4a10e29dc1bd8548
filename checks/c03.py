import os, vt
from schema import *
LEVEL = 'exploration'
RULE = ('every Unicode scalar value in 5 texts x 2 fields x both settings; every \\uXXXX in 3 spellings x 16 contexts x 5 places; every surrogate pair; every code unit after lead and trail surrogates; every byte at every place of an escape; '
        'every byte string of 2 and 3 bytes with a lead byte above 0x7f and the 4-byte shapes; all short sequences of significant pieces; a character, escape or defect at every offset up to 300 and near the powers of two up to 128 K; names of 512 characters (plain and obfuscated) in every spelling. Each case is distinct by construction and compares with the reference codec')


def names():
    c = set()
    for b in (0x80, 0x100, 0x400, 0x800, 0x1000, 0x2000, 0x4000, 0x8000, 0xD000, 0x10000, 0x20000, 0x40000, 0x80000, 0x100000):
        for d in (-2, -1, 0, 1, 2): c.add(b + d)
    c |= set(range(0x20, 0x7f)) | set(range(0xa0, 0x100)) | {0xD7FF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10FFFF, 0x10FFFE, 0xFEFF, 0x2028, 0x2029, 0x20AC, 0x1F600, 0x1D11E, 0xFFFFF}
    k = 0x345
    while len(c) < 448: c.add(k); k = k * 7 % 0x10F7FF + 1
    c = sorted(x for x in c if not 0xD800 <= x < 0xE000 and x not in (0x22, 0x27, 0x5c, 0x7f))
    one = [chr(x) for x in c]
    return one + [one[i] + one[-1 - i] for i in range(0, len(one), 7)] + [''.join(one[i:i + 9]) for i in range(0, len(one) - 9, 31)]


def run(ctx):
    ctx.build()
    t = M('T', [F('s', 'string', 1), F('r', 'string', 2, repeated=True)])
    ns = names()
    ms = []
    for k in range(0, len(ns), 64): ms.append(M('N%d' % (k // 64), [F('f%d' % i, 'int32', i + 1, json=n) for i, n in enumerate(ns[k:k + 64])]))
    plain = Schema('uni', [t] + ms, package='uni')
    obf = Schema('unio', ms, package='unio', options={'obfuscate_strings': True})
    inc = ctx.schema(plain) + ctx.schema(obf)
    rows = ['{ check_names<::%s::%s>, %d }' % (p, m.name, len(m.fields)) for p in ('uni', 'unio') for m in ms]
    ctx.write('gen/inc_unicode.hh', '#include "vh.hh"\n' + inc + '#define NAME_CHECKS static const std::vector<std::pair<std::string (*)(const std::string&), size_t>> NAMES = { %s };\n' % ', '.join(rows))
    exe = ctx.cxx('unicode', [os.path.join(vt.VERIF, 'harness', 'unicode.cc')], schema_text=plain.proto())
    ctx.run_harness(exe, extra_replay=plain.proto())
    ctx.coverage(rule=RULE, exhaustive=True)
    ctx.assumptions += ['characters do not interact beyond the neighbours tried']
