import os, vt
LEVEL = 'model_checking'
RULE = ('reference grammar machine with 11 token alphabets: every token sequence whose proper prefixes are viable, 6 to 15 tokens (thorough 8 to 18) beyond 1 to 13 fixed ones, in two layouts; every deletion, duplication, exchange, insertion and substitution of a token (vocabulary of 60) in 5 schemas; '
        'every one-byte edit of them; 300+ field numbers in 3 declarations, in pairs; names of every shape in 27 positions; all pairs of 110 nearly equal names as fields, messages, types, packages and options; up to 100 declarations with duplicates at every distance; non-trivial: the reference decides the verdict (for accepted schemas the whole meaning is compared)')


def build(ctx, flags=''):
    d = ctx.build(targets=('libprotogen_static',), cxxflags=flags)
    lib = [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs if f.endswith('.a')]
    if not lib: raise vt.ToolError('no static library')
    return ctx.cxx('proto', [os.path.join(vt.VERIF, 'harness', 'proto.cc')], flags=flags.split(), opt='-O2', libs=lib)


def run(ctx):
    exe = build(ctx)
    ctx.run_harness(exe, args=['--prop', 'C12'], timeout=ctx.pick(840, 14400))
    ctx.coverage(rule=RULE, exhaustive=True, traces_validated_against_impl=ctx.total('traces'))
    ctx.assumptions += ['not decided: empty, unterminated or comma-less option lists, missing or repeated syntax and package statements, repeated options, keywords (other than message and package) as names, escape sequences in strings, numbers with leading zeros']
