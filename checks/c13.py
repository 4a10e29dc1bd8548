import c12, vt
LEVEL = 'exploration'
RULE = ('under AddressSanitizer and UBSan with a watchdog: in each of 30 schema contexts every byte, every pair of bytes and every triple (thorough: quadruple) of 24 significant bytes; every sequence of 4 (thorough 5) tokens; every prefix, suffix, deletion, and insertion and substitution of 28 (thorough 256) bytes in 5 schemas in 2 layouts; 31 repeated units x 12 contexts up to 200 kB (thorough 2 MB); chains, rings, trees and diamonds of up to 2000 messages; '
        'positions: viable prefixes with one wrong token (11 alphabets), every token edit in 8 layouts (LF, CRLF, tabs, comments of every form), all sequences of two or three separators before nine kinds of error; an error after 0 to 300 (and about each power of two up to 128 K) line ends, blanks and comments of nine forms; a case counts when the bytes differ from all others; '
        'cost: every family prefix + unit x n + suffix of schemas, valid and not, parsed and generated at n = 1500 (thorough 8000) and 16 n: edges executed, bytes moved and memory held must not grow by more than 1.8 x 16')


def run(ctx):
    plain = c12.build(ctx)
    asan = None
    ctx.builds.clear(); d = ctx.work
    import os
    b = ctx.build('build-asan', '-fsanitize=address,undefined -fno-sanitize-recover=all -g1', targets=('libprotogen_static',))
    lib = [os.path.join(r, f) for r, _, fs in os.walk(b) for f in fs if f.endswith('.a')]
    asan = ctx.cxx('proto-asan', [os.path.join(vt.VERIF, 'harness', 'proto.cc')], flags=['-fsanitize=address,undefined', '-fno-sanitize-recover=all'], libs=lib)
    t = ctx.pick(840, 14400)
    ctx.run_harness(plain, label='grammar', args=['--prop', 'C13', '--part', 'grammar'], timeout=t)
    ctx.run_harness(plain, label='layouts', args=['--prop', 'C13', '--part', 'layouts'], timeout=t)
    ctx.run_harness(asan, label='bytes', args=['--prop', 'C13', '--part', 'bytes'], timeout=t)
    ctx.run_harness(plain, label='huge', args=['--prop', 'C13', '--part', 'huge', '--stall', '30'], timeout=t)
    ctx.run_harness(asan, label='sizes', args=['--prop', 'C13', '--part', 'sizes', '--stall', '30'], timeout=t)
    # the work and the memory, counted: 16 times the input, about 16 times the cost
    ctx.builds.clear(); cover = '-fsanitize-coverage=trace-pc'
    stub = ctx.path('trace.o') # for the programs that are used during the build
    vt.sh(['gcc', '-c', '-o', stub, ctx.write('trace.c', 'void __sanitizer_cov_trace_pc(void) {}\n')], check=True)
    b = ctx.build('build-cost', cover + ' -Wl,' + stub, targets=('libprotogen_static',))
    lib = [os.path.join(r, f) for r, _, fs in os.walk(b) for f in fs if f.endswith('.a')]
    meter = ctx.cxx('pcost', [os.path.join(vt.VERIF, 'harness', 'pcost.cc')], flags=[cover], libs=lib)
    ctx.run_harness(meter, label='cost', timeout=t)
    ctx.coverage(rule=RULE, exhaustive=True)
    ctx.assumptions += ['promptly: no input of the size ladders takes more than 30 s under the sanitizers', 'the column of the end of input, and positions after bytes outside ASCII in the same line or lone carriage returns, are not decided', 'positions of errors of meaning (duplicates, numbers, unknown types) are not decided']
