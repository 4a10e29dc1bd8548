#!/usr/bin/env python3
"""Confirms planted bugs (seeded/<id>) in scratch copies and runs the check of their property against them.
usage: plant.py [--nocheck] [--tier quick|thorough] [--all-checks C01,C02] ID...   (no ID: all)
For each: the patch applies to HEAD and changes original lines, builds, passes the tests, the demonstration passes without and fails with it; then the check must exit 1 with VIOLATION.
Results are written to stdout, one line each."""
import sys, os, subprocess, json, re, tempfile, shutil, concurrent.futures as cf, threading
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BASE = '03ba0b7'
ENV = dict(os.environ, CC='gcc', CXX='g++')

def sh(cmd, cwd=None, timeout=600, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env or ENV, stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        return 124, 'timeout'

def tree(dst):
    os.makedirs(dst)
    subprocess.run('git -C %s archive HEAD | tar x -C %s' % (REPO, dst), shell=True, check=True)

def build(dst):
    r, o = sh(['cmake', '-S', dst, '-B', dst + '/_build', '-G', 'Unix Makefiles', '-DCMAKE_BUILD_TYPE=Release', '-Wno-dev'])
    if r: return r, o
    return sh(['make', '-C', dst + '/_build', '-j4'])

def tests(dst):
    r, o = sh(['./run-tests'], cwd=dst + '/_build', timeout=300)
    return r == 0 and len(re.findall(r'\] Passed!', o)) == 11, o

def original_lines(patch):
    """every removed line belongs to the base commit, and there is at least one"""
    removed = 0
    f = None; n = 0
    blame = {}
    for l in open(patch, errors='replace'):
        if l.startswith('--- a/'): f = l[6:].strip()
        elif l.startswith('@@'): n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            if f not in blame: blame[f] = subprocess.run(['git', '-C', REPO, 'blame', '-s', f], stdout=subprocess.PIPE).stdout.decode().split('\n')
            if not blame[f][n - 1].startswith('^' + BASE): return '%s:%d is not an original line' % (f, n)
            removed += 1; n += 1
        elif l.startswith(' '): n += 1
    return None if removed else 'no original line is changed (only insertions)'

def one(id, base, root, opts):
    d = os.path.join(VERIF, 'seeded', id)
    meta = json.load(open(d + '/meta.json'))
    out = []
    o = original_lines(d + '/patch.diff')
    if o: out.append('WARN ' + o)
    demo = os.path.join(root, id + '.demo'); shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
    r, o = sh(['bash', demo + '/demo.sh'], cwd=base, timeout=300)
    if r: return id, meta['property'], 'BAD demo fails on the unchanged tree: %d %s' % (r, o[-400:])
    t = os.path.join(root, id); tree(t)
    r, o = sh(['git', 'apply', '--directory=', d + '/patch.diff'], cwd=t)
    if r: return id, meta['property'], 'BAD patch does not apply: ' + o[-300:]
    r, o = build(t)
    if r: return id, meta['property'], 'BAD does not build: ' + o[-600:]
    ok, o = tests(t)
    if not ok: return id, meta['property'], 'BAD fails the tests: ' + o[-300:]
    r, o = sh(['bash', demo + '/demo.sh'], cwd=t, timeout=300)
    if r == 0: return id, meta['property'], 'BAD demo passes with the patch'
    out.append('demo: %d %s' % (r, ' '.join(o.split())[:100]))
    for prop in (opts['checks'] or [meta['property']]) if not opts['nocheck'] else []:
        v = os.path.join(root, id + '.verif')
        os.makedirs(v)
        for x in ('checks', 'harness', 'lib', 'protos', 'run.py', 'KNOWN_FINDINGS.txt', 'properties.jsonl', 'MANIFEST.json'):
            s = os.path.join(VERIF, x)
            if os.path.isdir(s): shutil.copytree(s, os.path.join(v, x), ignore=shutil.ignore_patterns('__pycache__'))
            elif os.path.exists(s): shutil.copy(s, v)
        shutil.rmtree(t + '/_build', ignore_errors=True)
        r, o = sh(['python3', 'run.py', 'check', prop, opts['tier']], cwd=v, timeout=3600 if opts['tier'] == 'thorough' else 900, env=dict(ENV, VERIF_REPO=t, VERIF_SEED='1', VERIF_TIER='quick'))
        m = re.search(r'VIOLATION property=%s.*' % prop, o)
        detail = ''
        try: detail = ' '.join(open(os.path.join(v, 'replays', prop, 'violation-%s.txt' % opts['tier'])).read().split())[:220]
        except OSError: pass
        out.append('%s %s: exit %d %s' % ('CAUGHT' if r == 1 and m else 'MISSED', prop, r, detail if r == 1 and m else o[-300:]))
        shutil.rmtree(v, ignore_errors=True)
    shutil.rmtree(t, ignore_errors=True)
    return id, meta['property'], ' | '.join(out)

def main():
    a = sys.argv[1:]; opts = {'nocheck': False, 'tier': 'quick', 'checks': None}; ids = []; jobs = 3
    while a:
        x = a.pop(0)
        if x == '--nocheck': opts['nocheck'] = True
        elif x == '--tier': opts['tier'] = a.pop(0)
        elif x == '--all-checks': opts['checks'] = a.pop(0).split(',')
        elif x == '-j': jobs = int(a.pop(0))
        else: ids.append(x)
    ids = ids or sorted(os.listdir(os.path.join(VERIF, 'seeded')))
    root = tempfile.mkdtemp(prefix='plant.', dir='/tmp')
    try:
        base = root + '/base'; tree(base)
        r, o = build(base)
        if r: print(o[-2000:]); return 2
        ok, o = tests(base)
        if not ok: print('tests fail on the unchanged tree', o[-500:]); return 2
        with cf.ThreadPoolExecutor(jobs) as ex:
            for f in cf.as_completed([ex.submit(one, i, base, root, opts) for i in ids]):
                print('%-24s %s %s' % f.result(), flush=True)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return 0
sys.exit(main())
