"""Machinery shared by the checks: building harnesses, running TLC, judging traces."""
import concurrent.futures as cf
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('CLMB_REPO', '/repo')
SPEC = os.path.join(ROOT, 'spec')
HARNESS = os.path.join(ROOT, 'harness')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CXX = ['clang++-18', '-std=c++17', '-w', '-fopenmp', '-I' + os.path.join(REPO, 'include'),
       '-isystem', '/usr/include/eigen3', '-I' + HARNESS]


class ToolError(Exception):
    """The check itself could not run: neither a pass nor a violation."""


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == 'thorough'
        self.rng = random.Random('%s/%d' % (prop, seed))
        self.dir = tempfile.mkdtemp(prefix='clmbv-%s-' % prop)
        self.pool = cf.ThreadPoolExecutor(8)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.models = []
        self.samples = []
        self.assumptions = []
        self.violations = []
        self.notes = {}
        self.n = 0
        self.builds = {}
        for p in glob.glob(os.path.join(ROOT, 'replays', prop + '-*.json')):
            os.remove(p)

    # -- files ---------------------------------------------------------------
    def path(self, name):
        return os.path.join(self.dir, name)

    def fresh(self, ext):
        self.n += 1
        return self.path('f%d.%s' % (self.n, ext))

    # -- harnesses -----------------------------------------------------------
    def build(self, src, *flags, name=None):
        """Start compiling a harness against the current tree; returns a future."""
        exe = self.path(name or src.rsplit('.', 1)[0])
        if exe in self.builds:
            return self.builds[exe]
        def job():
            r = subprocess.run(CXX + ['-O1'] + list(flags) + [os.path.join(HARNESS, src), '-o', exe],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise ToolError('harness %s does not build:\n%s' % (src, r.stdout[-4000:]))
            return exe
        self.builds[exe] = self.pool.submit(job)
        return self.builds[exe]

    def pymodule(self):
        """Compile the Python package of the current tree; returns a future of its directory."""
        if 'pk' in self.builds:
            return self.builds['pk']
        top = self.path('pk')
        pk = os.path.join(top, 'lmb')
        os.makedirs(pk)
        for p in glob.glob(os.path.join(REPO, 'lmb', '*.py')):
            shutil.copy(p, pk)
        shutil.copy(os.path.join(REPO, 'clmb.py'), top)
        def out(*c):
            return subprocess.run(c, stdout=subprocess.PIPE, text=True, check=True).stdout.split()
        inc = out('/usr/bin/python3', '-m', 'pybind11', '--includes')
        ext = out('/usr/bin/python3-config', '--extension-suffix')[0]
        def job(n):
            r = subprocess.run(CXX + ['-O0', '-fPIC', '-shared'] + inc + [os.path.join(REPO, 'lmb', n + '.cpp'), '-o', os.path.join(pk, n + ext)],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise ToolError('the module %s does not build:\n%s' % (n, r.stdout[-4000:]))
        jobs = [self.pool.submit(job, n) for n in ('lmb', 'cf')]
        self.builds['pk'] = self.pool.submit(lambda: [j.result() for j in jobs] and top)
        return self.builds['pk']

    def drive(self, script, timeout=300, omp=1, name='drive.py'):
        """Run drive.py, or another driver, on a script through the Python package; returns the path of its trace."""
        env = {'PYTHONPATH': self.pymodule().result(), 'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg', 'MPLCONFIGDIR': self.dir, 'OMP_NUM_THREADS': str(omp)}
        return self.run(['/usr/bin/python3', os.path.join(HARNESS, name)], script, env=env, timeout=timeout)

    def run(self, exe, script, env=None, timeout=300, args=()):
        """Run a harness on a script (text); returns the path of its trace."""
        sp, tp = self.fresh('script'), self.fresh('ndjson')
        with open(sp, 'w') as f:
            f.write(script)
        e = dict(os.environ, OMP_NUM_THREADS='2', OMP_WAIT_POLICY='passive')
        e.update(env or {})
        ended = None
        try:
            r = subprocess.run(([exe] if isinstance(exe, str) else exe) + [sp, tp] + list(args), env=e, timeout=timeout, cwd=self.dir,
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
            if r.returncode:
                ended = 'rc %d: %s' % (r.returncode, r.stderr[-300:])
        except subprocess.TimeoutExpired:
            ended = 'timeout'
        if ended:
            if not os.path.exists(tp):
                raise ToolError('harness made no trace: ' + ended)
            with open(tp, 'a') as f:
                f.write('\n' + json.dumps({'e': 'crash', 'how': ended}) + '\n')
        return tp

    # -- TLC -------------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=1, timeout=600, heap='2g', extra=(), cwd=SPEC):
        cp = self.fresh('cfg')
        with open(cp, 'w') as f:
            f.write(cfg)
        md = self.fresh('md')
        cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xmx' + heap,
               '-Xss64m', '-cp', CP, 'tlc2.TLC', '-config', cp, '-workers', str(workers), '-metadir', md,
               '-noGenerateSpecTE', '-nowarning'] + list(extra) + [module + '.tla']
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, env=e, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
        except subprocess.TimeoutExpired:
            raise ToolError('TLC timed out on %s' % module)
        shutil.rmtree(md, ignore_errors=True)
        return r.returncode, r.stdout

    def model(self, module, cfg, what, workers=4, timeout=800, heap='6g', extra=()):
        """Exhaustive check of a design model; any error is an error of the machinery."""
        rc, out = self.tlc(module, cfg, workers=workers, timeout=timeout, heap=heap, extra=extra)
        m = re.findall(r'([\d,]+) states generated.*?([\d,]+) distinct', out)
        if rc != 0 or not m:
            raise ToolError('design model %s (%s) fails:\n%s' % (module, what, out[-3000:]))
        gen, dist = (int(x.replace(',', '')) for x in m[-1])
        self.states += dist
        self.transitions += gen
        self.models.append({'module': module, 'what': what, 'distinct_states': dist, 'generated': gen})

    def behaviours(self, module, cfg, num, depth, env=None, timeout=300):
        """Behaviours TLC generates from a specification (lines it prints as JSON)."""
        rc, out = self.tlc(module, cfg, env=env, timeout=timeout,
                           extra=['-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(self.seed)])
        res = []
        for ln in out.splitlines():
            if ln.startswith('"@@'):
                res.append(json.loads(json.loads(ln)[2:]))
        if rc != 0 or not res:
            raise ToolError('no behaviours from %s:\n%s' % (module, out[-3000:]))
        m = re.findall(r'([\d,]+) states (?:checked|generated)', out)
        if m:
            self.transitions += int(m[-1].replace(',', ''))
            self.states += int(m[-1].replace(',', ''))
        return res

    def judge(self, module, trace, check=None, env=None, timeout=600):
        """Validate one trace; returns None, or (index, event, tail of TLC's output)."""
        lines = [x for x in open(trace) if x.strip()]
        good = []
        for x in lines:
            try:
                json.loads(x)
                good.append(x)
            except ValueError:
                good.append(json.dumps({'e': 'garbled'}) + '\n')
        with open(trace, 'w') as f:
            f.writelines(good)
        if not good:
            raise ToolError('empty trace ' + trace)
        e = {'TRACE': trace, 'CHECK': check or self.prop}
        e.update(env or {})
        rc, out = self.tlc(module, 'INIT Init\nNEXT Next\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n', env=e, timeout=timeout)
        m = re.search(r'<<"TRACE", (\d+), (\d+)>>', out)
        if m and rc == 0:
            k, n = int(m.group(1)), int(m.group(2))
            if n != len(good):
                raise ToolError('trace read differently')
            self.events += k
            self.states += k + 1
            self.transitions += k
            if k == n:
                self.traces += 1
                return None
            return k, json.loads(good[k]), ''
        # An evaluation error is a trace the specification has no meaning for.
        g = re.findall(r'([\d,]+) states generated', out)
        if 'Parsing or semantic analysis failed' in out or not g or 'OutOfMemory' in out or 'StackOverflow' in out:
            raise ToolError('TLC failed on %s:\n%s' % (module, out[-3000:]))
        k = min(max(int(g[-1].replace(',', '')) - 1, 0), len(good) - 1)
        err = [x for x in out.splitlines() if x.startswith('Error:') or 'xception' in x]
        return k, json.loads(good[k]), '\n'.join(err)[:1500]

    def conform(self, module, exe, scripts, check=None, env=None, tenv=None, repeat=True, args=(), timeout=300, keep=1, record=None, what=None):
        """Run the harness on every script and validate every trace, in parallel."""
        record = record or (lambda script: self.run(exe, script, env=env, args=args, timeout=timeout))
        def job(script):
            tr = record(script)
            bad = self.judge(module, tr, check, tenv)
            if bad and repeat:
                tr2 = record(script)
                if not self.judge(module, tr2, check, tenv):
                    bad = bad[0], bad[1], 'NOT REPEATED ' + bad[2]
            return script, tr, bad
        for script, tr, bad in self.pool.map(job, scripts):
            if len(self.samples) < keep + 2:
                with open(tr) as f:
                    self.samples.append({'module': module, 'first_events': [x.strip()[:300] for x, _ in zip(f, range(2))]})
            if bad:
                self.reject(module, what or os.path.basename(exe), script, tr, bad)

    def reject(self, module, harness, script, tr, bad):
        k, ev, more = bad
        d = os.path.join(ROOT, 'replays')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%d-%d.json' % (self.prop, self.seed, len(self.violations)))
        pre = [json.loads(x) for x in open(tr)][max(0, k - 5):k]
        with open(p, 'w') as f:
            json.dump({'property': self.prop, 'specification': module, 'harness': harness,
                       'rejected_event_index': k, 'rejected_event': ev, 'events_before': pre,
                       'tlc': more, 'script': script}, f, indent=1)
        self.violations.append((p, ev))

    # -- the end -----------------------------------------------------------------
    def finish(self, level='model_checking'):
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'events_validated': self.events,
               'design_models': self.models, 'samples': self.samples or ['none']}
        cov.update(self.notes)
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump({'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level,
                       'coverage': cov, 'assumptions': self.assumptions,
                       'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.violations)}, f, indent=1)
        for p, ev in self.violations[:5]:
            print('  rejected: %s' % json.dumps(ev)[:400])
        for ln in known(self.prop):
            print(ln)
        if self.violations:
            print('VIOLATION property=%s replay=%s' % (self.prop, self.violations[0][0]))
        return 1 if self.violations else 0

    def close(self):
        self.pool.shutdown(wait=True, cancel_futures=True)
        shutil.rmtree(self.dir, ignore_errors=True)


def known(prop):
    """KNOWN-FINDING lines of the property."""
    try:
        with open(os.path.join(ROOT, 'known_findings.txt')) as f:
            return [x.strip() for x in f if x.startswith('KNOWN-FINDING: property=%s ' % prop)]
    except FileNotFoundError:
        return []


def chunks(items, n):
    """Split a list of script lines into at most n scripts."""
    n = max(1, min(n, len(items)))
    return ['\n'.join(items[i::n]) + '\n' for i in range(n)]
