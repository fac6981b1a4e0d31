"""Runner shared by all checks.

A check is a module mc.props.<id> that defines

  PROPERTY            id
  TECHNIQUE, LEVEL    for the manifest
  jobs(tier)          -> list of JSON-able job descriptions, in a fixed order
  run_job(job, ctx)   explores everything the job describes

Every job runs in its own freshly forked process, so that the outcome of a job
depends on nothing but the job and the code under test, and can be replayed
alone.
"""
import hashlib
import importlib
import io
import json
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
from array import array

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GCS_REPO', '/repo')
HANG_CPU_S = 40.0       # CPU seconds spent within one case
MEM_LIMIT = 5 << 30
SAMPLES = 6


class Violation(Exception):
    pass


class Hang(BaseException):
    pass


def hash_of(key):
    try:
        return hash(key)
    except TypeError:       # of elements that have no hash
        return hash(repr(key))


class Ctx:
    """What a job reports to."""

    def __init__(self, prop, known=()):
        self.prop = prop
        self.known = known
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.samples = []
        self.extra = {}
        self.known_hit = {}
        self.current = None
        self.progress = 0
        self._limit = None

    # -- accounting
    def state(self, key):
        h = hash_of(key)
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def outcome(self, key):
        if len(self.outcomes) < 100000:
            self.outcomes.add(hash_of(key))

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def case(self, *desc):
        """Start of one case; desc says how to repeat it."""
        self.current = desc
        self.progress += 1
        if len(self.samples) < 2 and self.progress in (1, 57):
            self.samples.append(_text(desc))

    # -- verdicts
    def fail(self, msg, key=None):
        if key is not None and key in self.known:
            self.known_hit[key] = self.known_hit.get(key, 0) + 1
            return
        raise Violation(msg)

    def check(self, cond, msg, *args):
        if not cond:
            self.fail(msg % args if args else msg)

    def same(self, got, want, what, *args):
        if not same(got, want):
            self.fail('%s: got %s, expected %s' % (what % args if args else what, _short(got), _short(want)))


def same(a, b):
    """Equality that tells 0 from False and from 0.0, and never calls == of
    objects of the code under test."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict):
        return len(a) == len(b) and all(k in b and same(v, b[k]) for k, v in a.items())
    if isinstance(a, (int, float, str, bytes, slice, set, frozenset, range)):
        return a == b
    return False


def _short(x):
    s = repr(x)
    return s if len(s) < 600 else s[:400] + '...' + s[-150:]


def _text(desc):
    return ' ; '.join(x if isinstance(x, str) else _short(x) for x in desc)


# ---------------------------------------------------------------- known findings

def known_findings():
    """(property, key, text) of the findings and of the repaired defects"""
    found, fixed = [], []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: '):
                head, text = line[9:].split(' -- ', 1)
                f = dict(x.split('=', 1) for x in head.split())
                found.append((f['property'], f['key'], text))
            elif line.startswith('fixed: '):
                fixed.append(line)
    return found, fixed


# ---------------------------------------------------------------- code under test

def import_gcs():
    """Import the code under test from REPO's working tree."""
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    if 'gcs' not in sys.modules:
        from . import locks
        locks.install(REPO)
    import gcs
    import gcs.slice_tools
    import gcs.storage
    assert os.path.realpath(gcs.__file__).startswith(os.path.realpath(REPO) + os.sep), gcs.__file__
    return gcs


# ---------------------------------------------------------------- one job

def _child(mod, job, path, known):
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    # scratch files go where they disappear even if this process is killed
    tempfile.tempdir = os.environ['TMPDIR'] = path + '.d'
    os.mkdir(tempfile.tempdir)
    ctx = Ctx(mod.PROPERTY, known)
    real_stdout = sys.stdout
    sys.stdout = Sink()
    res = {'status': 'ok'}
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    last = [-1, 0.0]

    def on_timer(signum, frame):
        now = time.process_time()
        if ctx.progress != last[0]:
            last[0], last[1] = ctx.progress, now
        elif now - last[1] > HANG_CPU_S:
            last[1] = now
            raise Hang()

    signal.signal(signal.SIGALRM, on_timer)
    signal.setitimer(signal.ITIMER_REAL, 0.5, 0.5)
    try:
        if 'ph' in job:
            from . import impl
            impl.use_placeholder(job['ph'])
        mod.run_job(job, ctx)
    except Violation as e:
        res = {'status': 'violation', 'message': str(e)}
    except Hang:
        res = {'status': 'violation', 'message': 'does not terminate (%ss of CPU time on one case)' % HANG_CPU_S,
               'hang': True}
    except MemoryError:
        res = {'status': 'violation', 'message': 'memory exhausted'}
    except Exception as e:
        tb = traceback.format_exc().splitlines()
        res = {'status': 'violation', 'message': 'unexpected %s: %s' % (type(e).__name__, e),
               'traceback': tb[-16:]}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.stdout = real_stdout
    if res['status'] != 'ok':
        res['case'] = [x if isinstance(x, str) else repr(x) for x in (ctx.current or ())]
    res.update(states=array('q', ctx.states).tobytes(), transitions=ctx.transitions, traces=ctx.traces,
               outcomes=array('q', ctx.outcomes).tobytes(), samples=ctx.samples, extra=ctx.extra,
               known=ctx.known_hit, cases=ctx.progress, cpu=time.process_time())
    with open(path + '.tmp', 'wb') as f:
        pickle.dump(res, f)
    os.rename(path + '.tmp', path)


class Sink(io.TextIOBase):
    def write(self, s):
        return len(s)

    def flush(self):
        pass


def run_jobs(mod, jobs, nproc, known=(), stop=True):
    """Run jobs, return {index: result}. With stop, nothing that comes after
    the first violating job is waited for."""
    scratch = tempfile.mkdtemp(prefix='gcsmc-')
    results, running = {}, {}
    todo = list(enumerate(jobs))[::-1]
    first_bad = None
    try:
        while todo or running:
            while todo and len(running) < nproc and first_bad is None:
                i, job = todo.pop()
                path = os.path.join(scratch, str(i))
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        _child(mod, job, path, known)
                        code = 0
                    except BaseException:
                        traceback.print_exc()
                    finally:
                        sys.stderr.flush()
                        os._exit(code)
                running[pid] = i
            if not running:
                break
            pid, status = os.wait()
            if pid not in running:
                continue
            i = running.pop(pid)
            path = os.path.join(scratch, str(i))
            if os.path.exists(path):
                with open(path, 'rb') as f:
                    res = pickle.load(f)
                os.unlink(path)
                shutil.rmtree(path + '.d', ignore_errors=True)
            else:
                res = {'status': 'died', 'message': 'the process of the job ended with status %d' % status, 'case': []}
            results[i] = res
            if res['status'] != 'ok' and stop:
                if first_bad is None or i < first_bad:
                    first_bad = i
                for p, k in list(running.items()):
                    if k > first_bad:
                        os.kill(p, signal.SIGKILL)
                        os.waitpid(p, 0)
                        del running[p]
    finally:
        for p in running:
            try:
                os.kill(p, signal.SIGKILL)
                os.waitpid(p, 0)
            except OSError:
                pass
        for attempt in range(20):       # a git that a killed job has started may still write
            shutil.rmtree(scratch, ignore_errors=True)
            if not os.path.exists(scratch):
                break
            time.sleep(0.1)
    return results


# ---------------------------------------------------------------- a check

def load(prop):
    sys.path.insert(0, VERIF) if VERIF not in sys.path else None
    return importlib.import_module('mc.props.' + prop.lower())


def nprocs():
    try:
        n = len(os.sched_getaffinity(0))
    except AttributeError:
        n = os.cpu_count() or 2
    return max(2, min(n, 16))


def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = load(prop)
    findings, _ = known_findings()
    keys = {k: text for p, k, text in findings if p == prop}
    try:
        import_gcs()
    except Exception as e:
        return violation(mod, tier, None, {'message': 'the package cannot be imported: %r' % e, 'case': ['import gcs']}, t0, seed, {})
    jobs = list(mod.jobs(tier))
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(143))     # the jobs end with this process
    results = run_jobs(mod, jobs, nprocs(), tuple(keys))
    if os.environ.get('GCSMC_TIMES'):
        times = {}
        for i, r in results.items():
            times.setdefault(jobs[i].get('leg'), []).append(r.get('cpu', 0))
        for leg, t in times.items():
            print('  %s: %d jobs, %.1fs CPU, longest %.1fs' % (leg, len(t), sum(t), max(t)))
    bad = [i for i in sorted(results) if results[i]['status'] != 'ok']
    cov = coverage(mod, jobs, results)
    if bad:
        i = bad[0]
        res = results[i]
        again = run_jobs(mod, [jobs[i]], 1, tuple(keys))[0]
        res['reproduced'] = again['status'] != 'ok'
        if not res['reproduced'] and (res['status'] == 'died' or res.get('hang')):
            # killed from outside or starved: not a statement about the code; the job has now run to its end
            results[i] = again
            bad = bad[1:]
            rest = run_jobs(mod, [j for k, j in enumerate(jobs) if k not in results], nprocs(), tuple(keys))
            missing = [k for k in range(len(jobs)) if k not in results]
            for k, r in rest.items():
                results[missing[k]] = r
            bad = [i for i in sorted(results) if results[i]['status'] != 'ok']
            cov = coverage(mod, jobs, results)
            res = results[bad[0]] if bad else None
        if bad:
            return violation(mod, tier, jobs[bad[0]], res, t0, seed, cov)
    hit = {}
    for r in results.values():
        for k, n in r['known'].items():
            hit[k] = hit.get(k, 0) + n
    for k in sorted(hit):
        print('KNOWN-FINDING: property=%s %s' % (prop, keys[k]))
    write_evidence(mod, tier, seed, cov, t0, 0)
    print('%s %s: held on everything explored: %d states, %d transitions, %d traces, %d jobs, %.1fs' % (
        prop, tier, cov['states'], cov['transitions'], cov['traces_validated_against_impl'], len(jobs), time.time() - t0))
    return 0


def coverage(mod, jobs, results):
    states, outcomes, extra, samples = set(), set(), {}, []
    tr = traces = cases = 0
    for i in sorted(results):
        r = results[i]
        if 'states' not in r:
            continue
        a = array('q')
        a.frombytes(r['states'])
        states.update(a)
        a = array('q')
        a.frombytes(r['outcomes'])
        outcomes.update(a)
        tr += r['transitions']
        traces += r['traces']
        cases += r['cases']
        for k, v in r['extra'].items():
            extra[k] = max(extra.get(k, 0), v) if k.startswith('max_') else extra.get(k, 0) + v
        if len(samples) < SAMPLES and i % max(1, len(jobs) // SAMPLES) == 0:
            samples.extend(r['samples'][-1:])
    cov = {'states': len(states), 'transitions': tr, 'traces_validated_against_impl': traces,
           'cases': cases, 'distinct_outcomes': len(outcomes), 'jobs_run': len(results), 'jobs_total': len(jobs),
           'exhaustive': len(results) == len(jobs) and all(r['status'] == 'ok' for r in results.values()),
           'samples': samples or ['none'], 'bound': getattr(mod, 'BOUND', '')}
    cov.update(extra)
    return cov


def write_evidence(mod, tier, seed, cov, t0, nviol):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = {'property': mod.PROPERTY, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'model_checking'),
          'coverage': cov, 'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    path = os.path.join(VERIF, 'evidence', mod.PROPERTY + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    os.rename(path + '.tmp', path)


def violation(mod, tier, job, res, t0, seed, cov):
    out = os.path.join(VERIF, 'out')
    os.makedirs(out, exist_ok=True)
    rep = {'property': mod.PROPERTY, 'tier': tier, 'job': job, 'message': res['message'],
           'case': res.get('case'), 'traceback': res.get('traceback'), 'reproduced': res.get('reproduced'),
           'how': 'python3 %s/replay.py <this file>: runs the job again in a fresh process' % VERIF}
    text = json.dumps(rep, indent=1, default=repr)
    path = os.path.join(out, '%s-%s.json' % (mod.PROPERTY, hashlib.sha1(text.encode()).hexdigest()[:10]))
    with open(path, 'w') as f:
        f.write(text)
    cov = cov or {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': ['none']}
    write_evidence(mod, tier, seed, cov, t0, 1)
    print('VIOLATION property=%s replay=%s' % (mod.PROPERTY, path))
    print('  case: ' + '\n        '.join(map(str, res.get('case') or [])))
    print('  ' + res['message'])
    for line in res.get('traceback') or []:
        print('  | ' + line)
    return 1


def replay(path):
    rep = json.load(open(path))
    mod = load(rep['property'])
    import_gcs()
    if rep['job'] is None:
        print('imported')
        return 0
    keys = tuple(k for p, k, t in known_findings()[0] if p == rep['property'])
    res = run_jobs(mod, [rep['job']], 1, keys)[0]
    if res['status'] == 'ok':
        print('no violation')
        return 0
    print('VIOLATION property=%s replay=%s' % (rep['property'], path))
    print('  case: ' + '\n        '.join(map(str, res['case'])))
    print('  ' + res['message'])
    for line in res.get('traceback') or []:
        print('  | ' + line)
    if res['case'] != rep['case']:
        print('  (another case than the recorded one)')
    return 1


def reexec():
    """Fixed hash seed, no bytecode from or into the tree, the interpreter of the project."""
    py = '/opt/venv/bin/python'
    want = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'GCSMC': '1',
            'PYTHONPYCACHEPREFIX': os.path.join(tempfile.gettempdir(), 'gcsmc-no-bytecode-%d' % os.getpid())}
    if os.environ.get('GCSMC') == '1':
        return
    env = dict(os.environ, **want)
    env.pop('PYTHONPATH', None)
    exe = py if os.path.exists(py) else sys.executable
    os.execve(exe, [exe, '-B'] + sys.argv, env)
