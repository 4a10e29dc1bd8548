import os, struct, vt
from fractions import Fraction
from schema import *
LEVEL = 'exploration'
RULE = ('every text over the 8 number characters up to length 6 (thorough 8), every byte in 7 number positions, integer boundaries (powers of two and ten, type limits) in 23+ written forms, exact halfway decimals of float and double, exponents -400..400, long mantissas; '
        'bit patterns: runs, two bits, neighbourhoods of all powers for the integer types, all exponents x mantissa shapes for float and double (thorough: all 2^32 floats); each text is given to 6 types x 2 places; in the C locale, with setlocale(de_DE), uselocale(de_DE), a C++ global locale with other punctuation, and both')


def dec(fr):
    """exact decimal text of a fraction whose denominator is a power of two"""
    n, d, e = fr.numerator, fr.denominator, 0
    k = d.bit_length() - 1
    n *= 5 ** k
    s = str(n)
    if k: s = s.rjust(k + 1, '0'); s = s[:-k] + '.' + s[-k:]
    return s


def halfways():
    out = []
    def bits64(b): return Fraction(struct.unpack('<d', struct.pack('<Q', b))[0])
    def bits32(b): return Fraction(struct.unpack('<f', struct.pack('<I', b))[0])
    def add(a, b):
        m = (a + b) / 2
        t = dec(m)
        out.append(t)
        out.append(t + '1' if '.' in t else t + '.00000000000000000000000001')
        # just below: decrease the last digit
        u = list(t); i = len(u) - 1
        while i >= 0:
            if u[i] == '.': i -= 1; continue
            if u[i] == '0': u[i] = '9'; i -= 1; continue
            u[i] = str(int(u[i]) - 1); break
        w = ''.join(u)
        if not (w[0] == '0' and len(w) > 1 and w[1] != '.'): out.append(w + '9' if '.' in w else w + '.999999')
    for e in list(range(0, 2047, 61)) + [1, 2, 1022, 1023, 1024, 2045, 2046]:
        for m in (0, 1, 2, (1 << 51), (1 << 52) - 2, (1 << 52) - 1):
            b = e << 52 | m
            if b + 1 < 2047 << 52: add(bits64(b), bits64(b + 1))
    for e in list(range(0, 255, 9)) + [1, 126, 127, 128, 253, 254]:
        for m in (0, 1, 2, 1 << 22, (1 << 23) - 2, (1 << 23) - 1):
            b = e << 23 | m
            if b + 1 < 255 << 23: add(bits32(b), bits32(b + 1))
    # the limit between the largest value and infinity
    add(bits64((2047 << 52) - 1), Fraction(2) ** 1024); add(bits32((255 << 23) - 1), Fraction(2) ** 128)
    # a float halfway case hidden by rounding to double first
    for b in (127 << 23, 127 << 23 | 1, 150 << 23, 100 << 23 | 5, 1, 2, 1 << 23):
        h = (bits32(b) + bits32(b + 1)) / 2
        for eps in (Fraction(1, 2 ** 60), Fraction(1, 2 ** 200)):
            out.append(dec(h * (1 + eps))); out.append(dec(h * (1 - eps)))
    return sorted(set(out), key=lambda t: (len(t), t))


def run(ctx):
    ctx.build()
    names = 'abcdef'
    types = ['int32', 'int64', 'uint32', 'uint64', 'float', 'double']
    s = Schema('num', [M('T', [F(n, t, k + 1) for k, (n, t) in enumerate(zip(names, types))] + [F('r' + n, t, k + 7, repeated=True) for k, (n, t) in enumerate(zip(names, types))])], package='num')
    ctx.write('gen/inc_numbers.hh', '#include "vh.hh"\n' + ctx.schema(s) + 'static const std::vector<std::string> FLOAT_TEXTS = {\n%s };\n' % ''.join('"%s",\n' % t for t in halfways()))
    loc = ctx.locale()
    exe = ctx.cxx('numbers', [os.path.join(vt.VERIF, 'harness', 'numbers.cc')], schema_text=s.proto())
    for env in ('C', 'de', 'used', 'global', 'both'):
        ctx.run_harness(exe, label='numbers_' + env, args=['--env', env], env={'LOCPATH': loc}, extra_replay=s.proto(), timeout=ctx.pick(840, 7200))
    ctx.coverage(rule=RULE, exhaustive=True)
    ctx.assumptions += ['glibc strtod_l and strtof_l round correctly', 'the other integer type names map to the same four C++ types (C15)']
