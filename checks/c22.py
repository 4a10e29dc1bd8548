import itertools, os, re, shutil, vt
LEVEL = 'exploration'
RULE = ('the compiler is built from a copy of the repository whose runtime sources and templates carry extra lines: every string of up to 3 symbols (thorough 4) out of 24 (quotes, backslash, question mark, percent, dollar, tab, carriage return, control and UTF-8 characters, escape letters, digits, comment and directive starts), every byte but NUL and line ends at 4 positions, lines of 0 to 70000 characters, every arrangement of up to 3 placeholders, markers and near misses, files with and without a last line break; '
        'every line of the generated header is compared with the source line; in the templates every order, repetition and adjacency of up to 3 parameters')
SYM = ['"', '\\', '?', '%', '$', '\t', '\r', '\x01', '\x0b', '\x1b', '\x7f', '\u00e9', '\U0001f600', 'n', 'x', 'u', '0', '1', "'", '/', '#', '*', ' ', '_X_Y_Z']
FILES = ['protogen.hh', 'json.hh', 'json-array.hh', 'json-base64.hh', 'json-number.hh', 'json-string.hh']
SCHEMA = 'syntax = "proto3"; package p; %smessage S { int32 a = 1; } message E { } message T { int32 i = 1; repeated int32 l = 2; bytes b = 3; string s = 4; S m = 5; repeated S r = 6; double d = 7; bool o = 8; string t = 9 [transient = true]; repeated string q = 10; repeated bytes z = 11; }\n'


def torture(thorough, template):
    """lines of bytes"""
    sym = [s for s in SYM if not (template and s in ('$', '\t'))]
    out = [b'']
    for n in range(1, (4 if thorough else 3) + 1): out += [''.join(t).encode() for t in itertools.product(sym, repeat=n)]
    if not thorough: out += [''.join(t).encode() for t in itertools.product('"\\?/nx0%# ', repeat=4)]
    for c in range(1, 256):
        if c in (10,) or (template and c in (8, 9, 36)): continue
        b = bytes([c]); out += [b, b'ab' + b, b + b'cd', b'e' + b + b'f' + b]
    for n in (2, 7, 8, 9, 63, 64, 65, 127, 128, 129, 255, 256, 257, 509, 510, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 65534, 65535, 65536, 70000): out += [b'x' * n, b'"' * n, b'\\' * n, (b'?"\\' * n)[:n], b' ' * n]
    words = [b'_X_Y_Z', b'_X_Y', b'X_Y_Z', b'__X_Y_Z', b'_X_Y_Z_', b'_x_y_z', b'_X_Y_Z_X_Y_Z', b'AUTO-REMOVE', b'auto-remove', b'AUTO_REMOVE', b'#', b'//', b'-----', b'--- ', b'#include "x"', b'??/', b'??=', b'%s', b'R"(', b')"', b'\\n', b'/*', b'*/', b'GENERATED__', b'#define X', b'"', b'\\', b'']
    if not template: words += [b'$1$', b'$$', b'$']
    for n in (1, 2, 3):
        for t in itertools.product(words if n < 3 else words[:9], repeat=n): out += [b''.join(t), b' '.join(t), b'  ' + b' '.join(t)]
    if template: out = [x for x in out if not x.startswith(b'------') and not x.startswith(b'--- ')] + [b' ------', b'a------', b'-----', b'=------', b' --- CODE_ENTITY', b'x--- A']
    else: out += [b'------', b'--- NAME', b'------ ', b'------x']
    seen, res = set(), []
    for x in out:
        if x not in seen: seen.add(x); res.append(x)
    return res


def run(ctx):
    ctx.build()
    plain = open(ctx.header('plain', SCHEMA % ''), 'rb').read()
    m = re.search(rb'namespace protogen(_\w+)', plain)
    if not m: raise vt.ToolError('no version in the generated header')
    version = m.group(1)
    n_lines = [0]
    def tree(name):
        t = ctx.path(name)
        shutil.copytree(vt.REPO, t, ignore=shutil.ignore_patterns('.git', '_build', 'build'))
        return t
    def cook(line):
        """what a line of the runtime becomes; None if it is removed"""
        if line[:1] == b'#' and b'AUTO-REMOVE' in line: return None
        while b'_X_Y_Z' in line: line = line.replace(b'_X_Y_Z', version, 1)
        return line
    def build(t):
        b = t + '-build'
        vt.sh(['cmake', '-S', t, '-B', b, '-DCMAKE_BUILD_TYPE=Debug', '-DCMAKE_CXX_FLAGS=-O0', '-Wno-dev'], 120, check=True)
        rc, o, e = vt.sh(['make', '-C', b, '-j4', 'protogen'], 800)
        return b, rc, o + e
    def generate(b, schema):
        p = ctx.write(os.path.basename(b) + '.proto', schema)
        rc, o, e = vt.sh([os.path.join(b, 'protogen'), p], 120, text=False)
        if rc != 0: raise vt.Violation('the command built with longer sources fails: ' + e.decode('utf-8', 'replace')[-500:], '')
        return o
    def compare(what, got, want):
        """lists of lines"""
        n_lines[0] += len(want)
        for i, (g, w) in enumerate(zip(got, want)):
            if g != w: raise vt.Violation('%s: line %d is embedded as %r instead of %r' % (what, i + 1, g[:300], w[:300]), '')
        if len(got) != len(want): raise vt.Violation('%s: %d lines are embedded instead of %d' % (what, len(got), len(want)), repr((got[len(want):] + want[len(got):])[:3]))
    # ---- the runtime
    lines = torture(ctx.thorough, False)
    def runtime(end):
        t = tree('rt%d' % end); expect = {}
        for k, f in enumerate(FILES):
            p = os.path.join(t, 'source', 'cpp', f)
            if not os.path.exists(p): raise vt.ToolError('no runtime source ' + f)
            src = open(p, 'rb').read()
            body = src.split(b'\n')
            if body[-1] == b'': body.pop()
            # a part of the lines in each file, and all of them in one
            mine = lines if k == end else lines[k::37 + end]
            mid = len(body) // 2
            # unique first and last lines
            body = [b'//FIRST ' + f.encode()] + body[:mid] + [b'//LINES ' + f.encode()] + mine + [b'//END ' + f.encode()] + body[mid:] + [b'//LAST ' + f.encode()]
            open(p, 'wb').write(b'\n'.join(body) + (b'\n' if end else b''))
            expect[f] = [x for x in map(cook, body) if x is not None]
        b, rc, log = build(t)
        if rc != 0: raise vt.Violation('the compiler cannot be built with runtime sources that carry other lines', log[-5000:])
        for opt in ('', 'option obfuscate_strings = true; option cpp_use_lists = true; '):
            got = generate(b, SCHEMA % opt).split(b'\n')
            for f in FILES:
                a, z = b'//FIRST ' + f.encode(), b'//LAST ' + f.encode()
                if got.count(a) != 1 or got.count(z) != 1: raise vt.Violation('%s: its first or last line is not embedded once' % f, repr(got.count(a)) + repr(got.count(z)))
                compare(f, got[got.index(a):got.index(z) + 1], expect[f])
        shutil.rmtree(t); shutil.rmtree(b)
    # ---- the templates
    tl = torture(ctx.thorough, True)
    def templates(_):
        t = tree('tp'); p = os.path.join(t, 'source', 'cpp', 'code.txt')
        out, names, name = [], [], None
        for line in open(p, 'rb').read().split(b'\n'):
            if line.startswith(b'------') and name is not None:
                k = len(names)
                mine = tl if k == 0 else tl[k::53]
                out += [b'//LINES ' + name] + mine + [b'//END ' + name]; names.append((name, mine)); name = None
            out.append(line)
            if line.startswith(b'--- ') and name is None: name = line[4:].strip()
        open(p, 'wb').write(b'\n'.join(out))
        b, rc, log = build(t)
        if rc != 0: raise vt.Violation('the compiler cannot be built with templates that carry other lines', log[-5000:])
        seen = set()
        for opt in ('', 'option obfuscate_strings = true; option cpp_use_lists = true; '):
            got = generate(b, SCHEMA % opt).split(b'\n'); byname = dict(names); i = 0
            while i < len(got):
                if got[i].startswith(b'//LINES ') and got[i][8:] in byname:
                    nm = got[i][8:]; want = byname[nm] + [b'//END ' + nm]
                    compare('template ' + nm.decode(), got[i + 1:i + 1 + len(want)], want); seen.add(nm); i += len(want)
                i += 1
        if len(seen) < len(names) // 2: raise vt.Violation('only %d of the %d templates are in the headers' % (len(seen), len(names)), '')
        ctx.notes.append('%d of %d templates seen in the headers' % (len(seen), len(names)))
        shutil.rmtree(t); shutil.rmtree(b)
    # ---- parameters
    def parameters(_):
        t = tree('pa'); p = os.path.join(t, 'source', 'cpp', 'code.txt'); text = open(p, 'rb').read()
        # the entity template has the message name, its C++ type and the version
        m = re.search(rb'--- CODE_ENTITY\n(.*?)------', text, re.S)
        if not m: ctx.notes.append('no template CODE_ENTITY: parameters are not explored'); shutil.rmtree(t); return
        atoms = [b'$1$', b'$2$', b'$3$', b'a', b' ', b'"', b'\\', b'1', b'?', b'\xc3\xa9', b'_X_Y_Z']
        cases = [b''.join(x) for n in (1, 2, 3, 4) for x in itertools.product(atoms, repeat=n)]
        body = b''.join(b'//P ' + c + b'\n' for c in cases)
        open(p, 'wb').write(text.replace(m.group(1), b'//V1 $1$\n//V2 $2$\n//V3 $3$\n' + body + m.group(1)))
        b, rc, log = build(t)
        if rc != 0: raise vt.Violation('the compiler cannot be built with templates that carry other lines', log[-5000:])
        got = generate(b, SCHEMA % '').split(b'\n')
        starts = [i for i, x in enumerate(got) if x.startswith(b'//V1 ')]
        if len(starts) != 3: raise vt.Violation('the entity template is printed %d times for 3 messages' % len(starts), '')
        vals = set()
        for i in starts:
            v = [got[i][5:], got[i + 1][5:], got[i + 2][5:]]; vals.add(v[0])
            want = [b'//P ' + re.sub(rb'\$([123])\$', lambda m: v[int(m.group(1)) - 1], c) for c in cases]
            compare('template parameters', got[i + 3:i + 3 + len(want)], want)
        if vals != {b'S', b'E', b'T'}: raise vt.Violation('the first parameter of the entity template is %r' % vals, '')
        shutil.rmtree(t); shutil.rmtree(b)
    ctx.parallel(lambda f: f[0](f[1]), [(runtime, e) for e in (0, 1)] + [(templates, 0), (parameters, 0)], 4)
    # ---- the real sources: every line of the runtime is in the header
    got = plain.split(b'\n')
    for f in FILES:
        want = [x for x in (cook(l) for l in open(os.path.join(vt.REPO, 'source', 'cpp', f), 'rb').read().rstrip(b'\n').split(b'\n')) if x is not None]
        hits = [i for i in range(len(got)) if got[i] == want[0] and got[i:i + len(want)] == want]
        n_lines[0] += len(want)
        if len(hits) != 1: raise vt.Violation('%s is in the generated header %d times as it is' % (f, len(hits)), '')
    ctx.log('%d lines compared' % n_lines[0])
    ctx.parts.append({'label': 'lines', 'evaluations': n_lines[0], 'distinct': len(set(lines)) + len(set(tl)) + 16104, 'states': 0, 'transitions': 0, 'traces': 0, 'samples': [repr(x)[:200] for x in lines[5:3000:300]]})
    ctx.coverage(rule=RULE, exhaustive=True)
    ctx.assumptions += ['in the templates, dollar signs, tabs and backspaces belong to the notation of the templates', 'NUL is left out', 'the lines are embedded by building a copy of the repository with its own CMake files']
