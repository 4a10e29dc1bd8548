"""Common machinery of the checks: building from /repo, compiling harnesses, evidence, reporting."""
import json, os, shutil, subprocess, sys, time, traceback, concurrent.futures

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
NCPU = 8


class ToolError(Exception): pass


class Violation(Exception):
    """what is wrong, and the content of the replay file"""
    def __init__(self, what, replay, files=None):
        super().__init__(what); self.what, self.replay, self.files = what, replay, files or {}


def sh(cmd, timeout=300, cwd=None, env=None, input=None, check=False, text=True):
    """Runs a command in its own process group; returns (status, stdout, stderr); status None on timeout."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL, cwd=cwd, env=env, start_new_session=True)
    try:
        out, err = p.communicate(input, timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, err = p.communicate(); rc = None
    if text: out, err = out.decode('utf-8', 'replace'), err.decode('utf-8', 'replace')
    if check and rc != 0:
        raise ToolError('%s: status %s\n%s\n%s' % (cmd, rc, out[-3000:], err[-3000:]))
    return rc, out, err


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier, self.seed = prop, tier, int(os.environ.get('VERIF_SEED', '1') or '1')
        self.thorough = tier == 'thorough'
        self.t0 = time.time()
        self.work = os.path.join(VERIF, '.work', '%s-%s' % (prop, tier))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(VERIF, 'replays', prop)
        self.cov, self.assumptions, self.notes = {}, [], []
        self.parts = []
        self.builds = {}

    def log(self, *a):
        print('[%6.1fs]' % (time.time() - self.t0), *a, flush=True)

    def pick(self, quick, thorough): return thorough if self.thorough else quick

    def path(self, *a): return os.path.join(self.work, *a)

    def write(self, name, text):
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f: f.write(text if isinstance(text, bytes) else text.encode())
        return p

    # ------------------------------------------------------------ building

    def build(self, name='build', cxxflags='', targets=('protogen',), cxx=None, linkflags=''):
        """Configures and builds the compiler from /repo's working tree; returns the build directory."""
        if name in self.builds: return self.builds[name]
        d = self.path(name)
        cmd = ['cmake', '-S', REPO, '-B', d, '-DCMAKE_BUILD_TYPE=Release', '-Wno-dev']
        if cxxflags: cmd.append('-DCMAKE_CXX_FLAGS=' + cxxflags)
        if linkflags: cmd.append('-DCMAKE_EXE_LINKER_FLAGS=' + linkflags)
        if cxx: cmd.append('-DCMAKE_CXX_COMPILER=' + cxx)
        sh(cmd, 120, check=True)
        sh(['make', '-C', d, '-j%d' % NCPU] + list(targets), 600, check=True)
        self.builds[name] = d
        self.log('built', name)
        return d

    def protogen(self, proto, out, timeout=60, build='build', cwd=None, env=None):
        exe = os.path.join(self.builds[build], 'protogen')
        e = dict(os.environ); e.update(env or {})
        return sh([exe, proto] + ([out] if out else []), timeout, cwd=cwd, env=e)

    def header(self, name, text, out=None):
        """Compiles a schema that is valid: anything but success is a violation."""
        p = self.write('gen/%s.proto' % name, text)
        out = out or self.path('gen', name + '.pg.hh')
        rc, o, e = self.protogen(p, out)
        if rc is None: rc, o, e = self.protogen(p, out, 180)
        if rc != 0:
            raise Violation('the compiler %s a valid schema: %s' % ('does not terminate on' if rc is None else 'fails (status %s) on' % rc, e.strip()[-500:]), text)
        return out

    def schema(self, s):
        """Header and bridge of a schema; returns the text of the #include lines."""
        self.header(s.name, s.proto())
        self.write('gen/%s.bridge.hh' % s.name, '#include "refjson.hh"\n' + s.bridge())
        return '#include "%s.pg.hh"\n#include "%s.bridge.hh"\n' % (s.name, s.name)

    def cxx(self, exe, sources, flags=(), compiler='g++', opt='-O1', std='-std=c++17', libs=(), timeout=600, schema_text=''):
        """Compiles a harness. A failure is a violation when the same harness compiles without the generated code's faults,
        which cannot be told apart here: a harness always compiles against a conforming header, so report it."""
        exe = self.path(exe)
        cmd = [compiler, std, opt, '-w', '-I', os.path.join(VERIF, 'harness'), '-I', self.path('gen'), '-I', os.path.join(REPO, 'include')] + list(flags) + ['-o', exe] + list(sources) + list(libs) + ['-lpthread']
        rc, o, e = sh(cmd, timeout)
        if rc != 0:
            self.compile_failed(cmd, e, schema_text)
        self.log('compiled', os.path.basename(exe))
        return exe

    def compile_failed(self, cmd, err, schema_text):
        # is the toolchain all right?
        t = self.write('probe.cc', '#include <string>\n#include <vector>\n#include <iostream>\nint main(){std::vector<std::string> v; std::cout << v.size();}\n')
        rc, o, e = sh([cmd[0], cmd[1], '-o', self.path('probe'), t], 120)
        if rc != 0: raise ToolError('the C++ compiler does not work: ' + e[-2000:])
        raise Violation('code that uses the generated headers as documented does not compile', '# command\n%s\n\n# diagnostics\n%s\n\n%s' % (' '.join(cmd), err[:6000], schema_text))

    def locale(self):
        """Makes the locale de_DE.UTF-8; returns the directory for LOCPATH."""
        loc = self.path('locale'); os.makedirs(loc, exist_ok=True)
        sh(['localedef', '-i', 'de_DE', '-f', 'UTF-8', os.path.join(loc, 'de_DE.UTF-8')], 120)
        if not os.path.exists(os.path.join(loc, 'de_DE.UTF-8', 'LC_NUMERIC')): raise ToolError('localedef cannot make de_DE.UTF-8')
        return loc

    def parallel(self, fn, items, workers=NCPU):
        with concurrent.futures.ThreadPoolExecutor(workers) as ex:
            return list(ex.map(fn, items))

    # ------------------------------------------------------------ running harnesses

    def run_harness(self, exe, label=None, args=(), env=None, timeout=840, extra_replay=''):
        """Runs an exploration; raises Violation on a confirmed failure. Returns its result dictionary."""
        label = label or os.path.basename(exe)
        e = dict(os.environ)
        e.setdefault('ASAN_OPTIONS', 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0')
        e.setdefault('UBSAN_OPTIONS', 'print_stacktrace=1:halt_on_error=1')
        e.update(env or {})
        tries = []
        for attempt in range(2):
            d = self.path('run-%s-%d' % (label, attempt)); os.makedirs(d)
            out = os.path.join(d, 'result.json')
            cmd = [exe, '--tier', self.tier, '--dir', d, '--out', out] + list(args)
            if attempt: cmd += ['--stall', '120']
            rc, o, err = sh(cmd, timeout, cwd=d, env=e)
            if rc is None: raise ToolError('%s: exploration exceeded %d s' % (label, timeout))
            if not os.path.exists(out): raise ToolError('%s: no result (status %s)\n%s\n%s' % (label, rc, o[-2000:], err[-2000:]))
            r = json.load(open(out))
            if rc == 2 or (r['tool_error'] and not r['failures']): raise ToolError('%s: harness error\n%s\n%s' % (label, o[-2000:], err[-3000:]))
            r['label'] = label
            if not r['failures']:
                if attempt: self.notes.append('%s: a failure of the first run did not come back: %s' % (label, tries[0]['error'][:300]))
                break
            f = r['failures'][0]
            tries.append(f)
            if f['confirmed'] or attempt == 1:
                if not f['confirmed'] and 'hang' in f['error']:
                    raise ToolError('%s: a stall that is not reproduced alone: %s' % (label, f['payload'][:500]))
                with open(f['file'], 'rb') as fh: payload = fh.read()
                how = '' if f['confirmed'] else ' (only after the cases before it: replay the whole exploration)'
                raise Violation('%s: %s: %s%s' % (label, f['kind'], f['error'][:1500], how),
                                '# %s\n# case (escaped): %s\n# command: %s\n%s\n%s' % (f['error'], f['payload'], ' '.join(cmd), err[-3000:], extra_replay), {'case': payload})
            self.log('unconfirmed failure, running again:', f['error'][:200])
        self.parts.append(r)
        self.log('%s: %d evaluations, %d states, %d transitions' % (label, r['evaluations'], r['states'], r['transitions']))
        return r

    # ------------------------------------------------------------ evidence

    def total(self, key): return sum(p.get(key, 0) for p in self.parts)

    def samples(self):
        s = []
        for p in self.parts: s += [dict(x, part=p['label']) if isinstance(x, dict) else x for x in p.get('samples', [])]
        return s[:40]

    def coverage(self, **kw): self.cov.update(kw)

    def evidence(self, level, violations):
        c = dict(self.cov)
        if self.parts:
            c.setdefault('parts', [{k: v for k, v in p.items() if k not in ('samples', 'failures', 'tool_error')} for p in self.parts])
            c.setdefault('samples', self.samples() or ['none'])
            if level == 'model_checking':
                c.setdefault('states', self.total('states')); c.setdefault('transitions', self.total('transitions')); c.setdefault('traces_validated_against_impl', self.total('traces') or self.total('evaluations'))
            c.setdefault('evaluations', self.total('evaluations')); c.setdefault('distinct_nontrivial', self.total('distinct'))
        if self.notes: c['notes'] = self.notes
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': c or {'samples': ['none']}, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': violations}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', self.prop + '.json')
        with open(p + '.tmp', 'w') as f: json.dump(ev, f, indent=1)
        os.replace(p + '.tmp', p)


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    for line in open(p):
        line = line.strip()
        if line.startswith('property=' + prop + ' '): out.append(line.split(' ', 1)[1])
    return out


def main(prop, level, run, tier):
    ctx = Ctx(prop, tier)
    try:
        try:
            run(ctx)
            for k in known_findings(prop): print('KNOWN-FINDING: property=%s %s' % (prop, k))
            ctx.evidence(level, 0)
            ctx.log('held on everything explored')
            rc = 0
        except Violation as v:
            os.makedirs(ctx.replays, exist_ok=True)
            base = os.path.join(ctx.replays, 'violation-%s' % tier)
            with open(base + '.txt', 'w') as f: f.write('property: %s\n%s\n\n%s\n' % (prop, v.what, v.replay))
            for k, data in v.files.items():
                with open(base + '.' + k, 'wb') as f: f.write(data)
            print(v.what)
            ctx.evidence(level, 1)
            print('VIOLATION property=%s replay=%s' % (prop, base + '.txt'), flush=True)
            rc = 1
    except Exception as e:
        if not isinstance(e, ToolError): traceback.print_exc()
        print('ERROR of the check:', e, flush=True)
        rc = 2
    if not os.environ.get('VERIF_KEEP'): shutil.rmtree(ctx.work, ignore_errors=True)
    return rc
