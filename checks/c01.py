import common_schemas
LEVEL = 'exploration'
RULE = ('message values enumerated by construction (every presence pattern of a 10-field message, all pairs (thorough: triples) of fields of every kind, every value class of every field, every short list, nested presence patterns, '
        'every text up to a length over the significant characters) x parameter settings, for each of the 8 combinations of schema options; a case is a (parameters, value) pair, and is non-trivial when it reaches the comparison')


def explore(ctx, prop):
    ctx.build()
    schemas = common_schemas.option_schemas()
    def prepare(s):
        inc = ctx.schema(s)
        ctx.write('gen/inc_%s.hh' % s.name, '#include "vh.hh"\n' + inc)
        ns = '::' + s.package.replace('.', '::') if s.package else ''
        return ctx.cxx('rt_' + s.name, [ctx.path('..', '..', 'harness', 'roundtrip.cc')], flags=['-DSCHEMA_INC="inc_%s.hh"' % s.name, '-DNS=' + ns], schema_text=s.proto())
    exes = ctx.parallel(prepare, schemas)
    for s, e in zip(schemas, exes):
        ctx.run_harness(e, args=['--prop', prop], extra_replay=s.proto())
    ctx.coverage(rule=RULE, exhaustive=True)
    ctx.assumptions += ['values outside the enumerated classes behave like those inside', 'the reference JSON parser and number conversions (glibc strtod) are right']


def run(ctx): explore(ctx, 'C01')
