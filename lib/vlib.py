"""Shared machinery: run TLC (exhaustively or as behaviour generator), replay scenarios into /repo's
parcels in worker processes, collect verdicts, write evidence.  Pure standard library: runs under the
system python3; only the workers (driver modules) run under /opt/venv with /repo on the path."""
import atexit
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
VENVPY = '/opt/venv/bin/python'
TLA_JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = int(os.environ.get('VERIF_JOBS', '8'))


class MachineryError(Exception):
    pass


def _errs(out):
    i = out.find('Error:')
    return out[i:i + 2500] if i >= 0 else out[-2500:]


def scratch(prefix='vf-'):
    return tempfile.mkdtemp(prefix=prefix)


# --------------------------------------------------------------------------------------------- TLC
def _tlc(args, module, cfg_text, timeout, heap='4g', workdir=None):
    wd = workdir or scratch('tlc-')
    try:
        for f in os.listdir(os.path.join(VERIF, 'spec')):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(VERIF, 'spec', f), wd)
        mc, cfgt = cfg_text
        with open(os.path.join(wd, 'MC.tla'), 'w') as f:
            f.write('---- MODULE MC ----\nEXTENDS %s\n%s\n====\n' % (module, mc))
        with open(os.path.join(wd, 'run.cfg'), 'w') as f:
            f.write(cfgt)
        cmd = ['java', '-Djava.io.tmpdir=' + wd, '-Xmx' + heap, '-XX:+UseParallelGC', '-cp', TLA_JARS, 'tlc2.TLC',
               '-config', 'run.cfg', '-metadir', os.path.join(wd, 'meta'), '-noGenerateSpecTE'] + args + ['MC.tla']
        p = subprocess.run(cmd, cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        raise MachineryError('TLC timed out on %s' % module) from e
    finally:
        if workdir is None:
            shutil.rmtree(wd, ignore_errors=True)


def cfg_text(spec='Spec', constants=None, invariants=(), properties=(), extra=''):
    """(definitions for the MC wrapper module, cfg file); constants are TLA+ expressions."""
    t = 'SPECIFICATION %s\n' % spec
    mc = ''
    if constants:
        mc = ''.join('const_%s == %s\n' % (k, v) for k, v in constants.items())
        t += 'CONSTANTS\n' + ''.join('  %s <- const_%s\n' % (k, k) for k in constants)
    for i in invariants:
        t += 'INVARIANT %s\n' % i
    for i in properties:
        t += 'PROPERTY %s\n' % i
    return mc, t + extra + '\nCHECK_DEADLOCK FALSE\n'


def model_check(module, cfg, timeout=800, workers=8, heap='12g', coverage=True):
    """Exhaustive TLC run.  Returns dict(ok, states, distinct, depth, actions, output)."""
    args = ['-workers', str(workers)] + (['-coverage', '1'] if coverage else [])
    rc, out = _tlc(args, module, cfg, timeout, heap)
    m = re.findall(r'([\d,]+) states generated,? ([\d,]+) distinct states found', out)
    if not m:
        raise MachineryError('TLC failed on %s:\n%s' % (module, _errs(out)))
    gen, dis = (int(x.replace(',', '')) for x in m[-1])
    acts = {}
    for a, d, t in re.findall(r'^<(\w+) line .*?>: (\d+):(\d+)', out, re.M):
        acts[a] = [acts.get(a, [0, 0])[0] + int(d), acts.get(a, [0, 0])[1] + int(t)]
    ok = rc == 0 and 'Model checking completed. No error has been found.' in out
    if not ok and 'is violated' not in out:
        raise MachineryError('TLC failed on %s:\n%s' % (module, _errs(out)))
    return dict(ok=ok, states=dis, transitions=gen, actions=acts, output=out)


def generate(module, cfg, num, seed, depth=400, timeout=800, parts=1):
    """Behaviours of the specification: `num` random walks; every completed behaviour prints "@@"+JSON."""
    def one(i):
        args = ['-simulate', 'num=%d' % ((num + parts - 1) // parts), '-depth', str(depth),
                '-seed', str(seed * 1000 + i), '-workers', '1']
        rc, out = _tlc(args, module, cfg, timeout, '3g')
        res = []
        for line in out.splitlines():
            if line.startswith('"@@'):
                res.append(json.loads(json.loads(line)[2:]))
        if rc not in (0,) or not res:
            raise MachineryError('TLC generation failed on %s (rc %d):\n%s' % (module, rc, _errs(out)))
        return res
    with cf.ThreadPoolExecutor(parts) as ex:
        r = list(ex.map(one, range(parts)))
    return [x for y in r for x in y]


def enumerate_all(module, cfg, timeout=800, workers=1):
    """Exhaustive run of a generator module: every terminal state prints "@@"+JSON."""
    rc, out = _tlc(['-workers', str(workers)], module, cfg, timeout, '6g')
    res = [json.loads(json.loads(line)[2:]) for line in out.splitlines() if line.startswith('"@@')]
    if rc != 0:
        raise MachineryError('TLC enumeration failed on %s (rc %d):\n%s' % (module, rc, _errs(out)))
    m = re.findall(r'([\d,]+) states generated,? ([\d,]+) distinct states found', out)
    gen, dis = (int(x.replace(',', '')) for x in m[-1])
    return res, dict(states=dis, transitions=gen)


def validate_traces(module, cfg, traces, timeout=800, workers=4):
    """Trace validation: writes the recorded traces for the module (IOEnv.TRACE) and runs TLC on it. The module
    prints "@@"+JSON verdicts [i, ok, clause] for every trace (total verdict)."""
    wd = scratch('tlc-')
    try:
        with open(os.path.join(wd, 'traces.json'), 'w') as f:
            json.dump(traces, f)
        rc, out = _tlc(['-workers', str(workers)], module, cfg, timeout, '8g', workdir=wd)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    verdicts = {}
    for line in out.splitlines():
        if line.startswith('"@@'):
            v = json.loads(json.loads(line)[2:])
            verdicts[v['i']] = v
    if rc != 0 or len(verdicts) != len(traces):
        raise MachineryError('trace validation incomplete (%d of %d verdicts, rc %d):\n%s'
                             % (len(verdicts), len(traces), rc, _errs(out)))
    m = re.findall(r'([\d,]+) states generated,? ([\d,]+) distinct states found', out)
    gen, dis = (int(x.replace(',', '')) for x in m[-1])
    return [verdicts[i + 1] for i in range(len(traces))], dict(states=dis, transitions=gen)


# ------------------------------------------------------------------------------------------ workers
CCACHE = []


def ccache():
    """Directory for compiled libraries; lives as long as this run (see ccwrap.sh)."""
    if not CCACHE:
        CCACHE.append(scratch('vcc-'))
        atexit.register(shutil.rmtree, CCACHE[0], True)
    return CCACHE[0]


def worker_env(tmp):
    env = {k: v for k, v in os.environ.items() if k not in ('CC', 'MPICC', 'PYTHONPATH')}
    env.update(PATH='/opt/venv/bin:/usr/local/bin:/usr/bin:/bin', PYTHONDONTWRITEBYTECODE='1', PYTHONNOUSERSITE='1',
               PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', TMPDIR=tmp,
               CC=os.path.join(VERIF, 'lib', 'ccwrap.sh'), VERIF_CCACHE=ccache(), PYTHONPATH=REPO + ':' + os.path.join(VERIF, 'drivers') + ':' + os.path.join(VERIF, 'lib'),
               HDF5_USE_FILE_LOCKING='FALSE')
    return env


def _run_batch(driver, func, batch, per_timeout):
    """Runs func(scenario) of the driver for [(index, scenario)], restarting after crashes/hangs.
    Result per scenario: {'ok': obs} / {'exc': text} / {'crash': text}."""
    results = {}
    todo = list(batch)
    while todo:
        wd = scratch('vw-')
        try:
            tmp = os.path.join(wd, 'tmp')
            os.makedirs(tmp)
            inp, outp = os.path.join(wd, 'in.json'), os.path.join(wd, 'out.jsonl')
            with open(inp, 'w') as f:
                json.dump(todo, f)
            log = open(os.path.join(wd, 'log'), 'w+')
            p = subprocess.Popen([VENVPY, os.path.join(VERIF, 'lib', 'worker.py'), driver, func, inp, outp],
                                 cwd=wd, env=worker_env(tmp), stdout=log, stderr=subprocess.STDOUT,
                                 start_new_session=True)
            last, t_last, hung = 0, time.time(), False
            while True:
                try:
                    p.wait(0.2)
                    break
                except subprocess.TimeoutExpired:
                    pass
                n = os.path.getsize(outp) if os.path.exists(outp) else 0
                if n != last:
                    last, t_last = n, time.time()
                if time.time() - t_last > per_timeout:
                    hung = True
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
                    break
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            done = set()
            if os.path.exists(outp):
                with open(outp) as f:
                    for line in f:
                        if not line.endswith('\n'):
                            continue
                        r = json.loads(line)
                        results[r['i']] = r['r']
                        done.add(r['i'])
            rest = [x for x in todo if x[0] not in done]
            if p.returncode == 0 and not hung:
                if rest:
                    raise MachineryError('worker ended early')
                break
            log.seek(0)
            tail = log.read()[-1500:]
            if not done and 'WORKER-READY' not in open(os.path.join(wd, 'log')).read():
                # the package itself does not import: every scenario fails
                for i, _ in rest:
                    results[i] = {'crash': 'worker could not start: ' + tail}
                break
            bad = rest.pop(0)
            results[bad[0]] = {'crash': ('hang (> %d s)' % per_timeout if hung else 'process died, status %s' % p.returncode)
                               + ': ' + tail[-600:]}
            todo = rest
        finally:
            shutil.rmtree(wd, ignore_errors=True)
    return results


def replay(driver, func, scenarios, per_timeout=180, batch=None):
    """Replays every scenario into the real code; list of results in the order of the scenarios."""
    items = list(enumerate(scenarios))
    if not items:
        return []
    ccache()
    nb = NPROC
    size = batch or max(1, (len(items) + nb - 1) // nb)
    # interleave, so that every batch has a similar mix
    nbatch = (len(items) + size - 1) // size
    batches = [items[k::nbatch] for k in range(nbatch)]
    res = {}
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for r in ex.map(lambda b: _run_batch(driver, func, b, per_timeout), batches):
            res.update(r)
    return [res[i] for i in range(len(items))]


# -------------------------------------------------------------------------------------------- checks
def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


class Check:
    def __init__(self, pid, level='model_checking'):
        self.pid, self.level = pid, level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if '--thorough' in sys.argv:
            self.tier = 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.distinct = set()
        self.samples, self.violations, self.known, self.notes, self.extra = [], [], [], [], {}
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def model(self, name, mc, must_take=()):
        """Registers an exhaustive run of the specification; its own properties must hold (else the machinery is broken)."""
        if not mc['ok']:
            raise MachineryError('the specification %s violates its own properties:\n%s' % (name, _errs(mc['output'])))
        for a in must_take:
            if mc['actions'].get(a, [0, 0])[1] == 0:
                raise MachineryError('vacuous model %s: action %s never taken' % (name, a))
        self.states += mc['states']
        self.transitions += mc['transitions']
        self.extra.setdefault('models', []).append(dict(name=name, states=mc['states'], transitions=mc['transitions'],
                                                        actions={k: v[1] for k, v in mc['actions'].items()}))

    def violate(self, scenario, detail, key=None):
        self.violations.append((scenario, detail, key))

    def compare(self, scenarios, results, judge, label=''):
        """judge(scenario, result) -> None (conforms) or text naming the failing clause."""
        for s, r in zip(scenarios, results):
            self.traces += 1
            self.distinct.add(hashlib.md5(json.dumps(s, sort_keys=True).encode()).hexdigest())
            if 'machinery' in r:
                raise MachineryError('driver failure: ' + r['machinery'])
            if 'crash' in r:
                self.violate(s, 'the code under test crashed or hung: ' + r['crash'])
                continue
            d = judge(s, r)
            if d:
                self.violate(s, label + d)
            elif len(self.samples) < 3:
                self.samples.append(json.loads(json.dumps(s))if len(json.dumps(s)) < 4000 else str(s)[:1500])

    def finish(self):
        kf = [k for k in known_findings() if k.get('property') == self.pid and k.get('status') == 'known']
        fresh = []
        for s, d, key in self.violations:
            hit = [k for k in kf if key is not None and k.get('key') == key]
            if hit:
                self.known.append(hit[0])
            else:
                fresh.append((s, d))
        for k in {json.dumps(k, sort_keys=True) for k in self.known}:
            k = json.loads(k)
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   distinct_scenarios=len(self.distinct), samples=self.samples, **self.extra)
        if self.level == 'exploration':
            cov.update(evaluations=self.traces, distinct_nontrivial=len(self.distinct))
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(fresh))
        out = os.environ.get('VERIF_EVID', VERIF)  # (scratch place for runs against scratch copies)
        os.makedirs(os.path.join(out, 'evidence'), exist_ok=True)
        with open(os.path.join(out, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        if fresh:
            os.makedirs(os.path.join(out, 'replays'), exist_ok=True)
            path = os.path.join(out, 'replays', self.pid + '.json')
            with open(path, 'w') as f:
                json.dump([dict(property=self.pid, detail=d, scenario=s) for s, d in fresh[:20]], f, indent=1)
            for s, d in fresh[:3]:
                print('  failing: %s\n    scenario: %s' % (d[:600], json.dumps(s)[:400]))
            print('  %d of %d replayed behaviours violate the specification' % (len(fresh), self.traces))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            sys.stdout.flush()
            sys.exit(1)
        print('OK property=%s tier=%s: %d states of the specification checked, %d behaviours conform (%.0f s)'
              % (self.pid, self.tier, self.states, self.traces, time.time() - self.t0))
        sys.exit(0)


def run_check(main, pid, level='model_checking'):
    c = Check(pid, level)
    try:
        main(c)
    except MachineryError as e:
        print('MACHINERY ERROR in the check of %s: %s' % (pid, e))
        sys.exit(2)
    c.finish()
