import os, docs, vt, common_schemas
LEVEL = 'exploration'
RULE = ('in every parser context (27 document prefixes): every string up to a length over the 28 significant bytes, every byte, every pair of bytes; every prefix, one-byte substitution, insertion, deletion and cut of the corpus; '
        'size ladders to 1 MB of 23 repeated units in every context; the same for top-level arrays into six containers (18 contexts); executed under AddressSanitizer and UBSan on exact-size heap buffers with a watchdog; every case executes the deserializer and the whole life of the object afterwards, and counts when its bytes differ from all others; '
        'cost: every family prefix + unit x n + suffix over the contexts, units and suffixes at n = 1000 (thorough 4000) and 16 n: edges executed, bytes moved and memory held must not grow by more than 1.8 x 16')


def run(ctx):
    docs.explore(ctx, 'C08', flags=['-fsanitize=address,undefined', '-fno-sanitize-recover=all'], rule=RULE)
    # the work, counted: 16 times the input, about 16 times the cost
    s = common_schemas.doc_schema(package='cost', name='cost')
    ctx.write('gen/inc_cost.hh', '#include "vh.hh"\n' + ctx.schema(s))
    meter = ctx.cxx('cost', [os.path.join(vt.VERIF, 'harness', 'cost.cc')], flags=['-DSCHEMA_INC="inc_cost.hh"', '-DNS=::cost', '-fsanitize-coverage=trace-pc'], schema_text=s.proto())
    ctx.run_harness(meter, label='cost', extra_replay=s.proto(), timeout=ctx.pick(840, 14400))
