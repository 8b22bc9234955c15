"""Core of the checking machinery.

A check is a python module mc.checks.<x> with a function run(ctx).  It
enumerates a bounded space of inputs / operation sequences / schedules /
random outcomes completely, drives the real code of /repo through each of
them and compares every observation with an independent reference model.
"""
import hashlib
import json
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')


class Deadline(BaseException):
    """The time budget of the run is used up."""


class CaseTimeout(BaseException):
    """One single case did not terminate."""


class Violation(BaseException):
    def __init__(self, what, case):
        BaseException.__init__(self, what)
        self.what = what
        self.case = case


class Skip(BaseException):
    """The machinery cannot drive this shape of code; case is not decided."""


def jsonable(x, depth=0):
    import numpy as np
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray):
        return x.tolist()
    if depth > 12:
        return repr(x)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted([str(v) for v in x])
    return repr(x)


class Ctx(object):

    MAX_SAMPLES = 6
    MAX_VIOLATIONS = 5

    def __init__(self, prop, tier, seed, budget, case_cpu=60.):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.budget = budget
        self.case_cpu = case_cpu
        self._states = set()
        self._n_anon_states = 0
        self.transitions = 0
        self.traces = 0
        self.cases = 0
        self.samples = []
        self.violations = []   # (what, case, key)
        self.known_seen = {}
        self.exhaustive = True
        self.notes = []
        self.assumptions = []
        self.extra = {}
        self.known = load_known(prop)
        self._cur = None
        self._sample_stride = 1

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- counting -----------------------------------------------------------
    def state(self, key):
        """Registers a distinct explored state (any hashable/repr-able)."""
        h = hash(key) if _hashable(key) else hash(repr(key))
        self._states.add(h)

    def states_n(self, n):
        """Distinct by construction (enumerated without repetition)."""
        self._n_anon_states += n

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def sample(self, x):
        # keep a spread: first ones, then exponentially rarer
        if self.cases >= self._sample_stride or len(self.samples) == 0:
            if len(self.samples) < self.MAX_SAMPLES:
                self.samples.append(jsonable(x))
            self._sample_stride = max(4, self.cases * 8)

    # -- violations -----------------------------------------------------------
    def fail(self, what, case, key=None):
        """Reports a violation. `key` identifies it for known findings."""
        raise _Fail(what, case, key)

    def ensure(self, cond, what, case, key=None):
        if not cond:
            raise _Fail(what, case, key)

    def eq(self, got, want, what, case, key=None):
        if not (got == want):
            raise _Fail('{}: got {!r}, expected {!r}'.format(
                what, got, want), case, key)

    def record(self, what, case, key=None):
        for k, text in self.known:
            if key is not None and k == key:
                self.known_seen[k] = text
                return
        self.violations.append((what, jsonable(case)))
        if len(self.violations) >= self.MAX_VIOLATIONS:
            raise Deadline('enough violations')

    def run_case(self, fn, case, *args):
        """Runs one case.  Any exception raised out of it is a violation."""
        if time.time() - self.t0 > self.budget:
            raise Deadline('time budget')
        self.cases += 1
        self._cur = case
        _arm(self.case_cpu)
        try:
            return fn(*args)
        except _Fail as e:
            _disarm()
            self.record(e.what, {'case': case, 'detail': e.case}, e.key)
        except CaseTimeout as e:
            _disarm()
            self.record('does not terminate (%s)' % (
                e.args[0] if e.args else '%.0f s of CPU' % self.case_cpu),
                {'case': case})
        except (Deadline, KeyboardInterrupt):
            raise
        except Skip as e:
            _disarm()
            self.exhaustive = False
            self.notes.append('skipped: %s' % e)
        except BaseException as e:
            _disarm()
            self.record('unexpected {}: {}'.format(type(e).__name__, e),
                        {'case': case, 'traceback': traceback.format_exc()})
        finally:
            _disarm()

    def run_cases(self, jobs, workers=None):
        """run_case for every (fn, case, *args) of jobs, spread over forked
        worker processes; args must not contain ctx (passed first)."""
        import pickle
        jobs = list(jobs)
        if workers is None:
            workers = min(8, len(os.sched_getaffinity(0)))
        workers = max(1, min(workers, len(jobs)))
        if workers == 1:
            for j in jobs:
                self.run_case(j[0], j[1], self, *j[2:])
            return
        n_tok = min(len(jobs), 8000)
        tok_r, tok_w = os.pipe()
        os.write(tok_w, b''.join(i.to_bytes(4, 'big') for i in range(n_tok)))
        os.close(tok_w)
        kids = []
        sys.stdout.flush()
        for _ in range(workers):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                res = None
                try:
                    res = self._worker(jobs, n_tok, tok_r)
                finally:
                    with os.fdopen(w, 'wb') as f:
                        f.write(pickle.dumps(res))
                    os._exit(0)
            os.close(w)
            kids.append((pid, r))
        os.close(tok_r)
        stop = False
        for pid, r in kids:
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            os.waitpid(pid, 0)
            res = pickle.loads(data) if data else None
            if res is None:
                self.violations.append(
                    ('a worker process died without result', {}))
                continue
            self._states |= res['states']
            self._n_anon_states += res['anon']
            self.transitions += res['trans']
            self.traces += res['traces']
            self.cases += res['cases']
            self.samples = (self.samples + res['samples'])[:self.MAX_SAMPLES]
            self.notes += res['notes']
            self.exhaustive = self.exhaustive and res['exhaustive']
            self.known_seen.update(res['known'])
            self.violations += res['violations']
            stop = stop or res['stopped']
        self.violations = self.violations[:self.MAX_VIOLATIONS]
        if stop or len(self.violations) >= self.MAX_VIOLATIONS:
            raise Deadline('worker')

    def _worker(self, jobs, n_tok, tok_r):
        self._states, self._n_anon_states = set(), 0
        self.transitions = self.traces = self.cases = 0
        self.samples, self.notes, self.violations = [], [], []
        self.known_seen = {}
        self._sample_stride = 1
        stopped = False
        try:
            while True:
                b = os.read(tok_r, 4)
                if not b:
                    break
                for k in range(int.from_bytes(b, 'big'), len(jobs), n_tok):
                    j = jobs[k]
                    self.run_case(j[0], j[1], self, *j[2:])
        except Deadline:
            stopped = True
            self.exhaustive = False
        except BaseException:
            self.violations.append(('worker failed: ' +
                                    traceback.format_exc(), {}))
        return {'states': self._states, 'anon': self._n_anon_states,
                'trans': self.transitions, 'traces': self.traces,
                'cases': self.cases, 'samples': self.samples,
                'notes': self.notes, 'exhaustive': self.exhaustive,
                'known': self.known_seen, 'violations': self.violations,
                'stopped': stopped}

    # -- results --------------------------------------------------------------
    def finish(self):
        cov = {
            'states': len(self._states) + self._n_anon_states,
            'transitions': self.transitions,
            'traces_validated_against_impl': self.traces,
            'cases': self.cases,
            'samples': self.samples or ['(none)'],
            'exhaustive': bool(self.exhaustive),
        }
        cov.update(self.extra)
        if self.notes:
            cov['notes'] = sorted(set(self.notes))[:20]
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed,
            'level': 'model_checking', 'coverage': cov,
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 3),
            'violations': len(self.violations),
        }
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write('\n')
        for k in sorted(self.known_seen):
            print('KNOWN-FINDING: property=%s %s' % (self.prop,
                                                     self.known_seen[k]))
        if self.violations:
            rd = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(rd, exist_ok=True)
            p = os.path.join(rd, self.prop + '.json')
            with open(p, 'w') as f:
                json.dump({'property': self.prop,
                           'violations': [{'what': w, 'case': c}
                                          for w, c in self.violations]},
                          f, indent=1, default=repr)
            for w, c in self.violations[:3]:
                print('# ' + w[:2000])
                print('#   case: ' + repr(c)[:1500])
            print('VIOLATION property=%s replay=%s' % (self.prop, p))
            return 1
        print('OK property=%s tier=%s states=%d transitions=%d traces=%d '
              'exhaustive=%s wall=%.1fs' % (
                  self.prop, self.tier, cov['states'], cov['transitions'],
                  cov['traces_validated_against_impl'], cov['exhaustive'],
                  ev['wall_s']))
        return 0


class _Fail(Exception):
    def __init__(self, what, case, key=None):
        Exception.__init__(self, what)
        self.what, self.case, self.key = what, case, key


def _hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


def load_known(prop):
    """known-findings.txt lines:  'open: property=<id> key=<key> <text>' or
    'fixed: property=<id> <commit> <text>' (the latter suppress nothing)."""
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('open: property=%s key=' % prop):
                rest = line.split('key=', 1)[1]
                key, text = rest.split(' ', 1)
                out.append((key, text))
    return out


def _on_alarm(signum, frame):
    raise CaseTimeout()


# A case that waits for something that never comes uses no CPU: after
# IDLE_TICKS periods without any, it is blocked for good.
IDLE_PERIOD, IDLE_TICKS = 15., 8
_idle = [0, 0.]


def _cpu():
    return sum(os.times()[:4])


def _on_tick(signum, frame):
    now = _cpu()
    if now - _idle[1] < .05:
        _idle[0] += 1
    else:
        _idle[0] = 0
    _idle[1] = now
    if _idle[0] >= IDLE_TICKS:
        raise CaseTimeout('blocked for %.0f s' % (IDLE_PERIOD * IDLE_TICKS))


def _arm(seconds):
    _idle[:] = [0, _cpu()]
    signal.setitimer(signal.ITIMER_PROF, seconds)
    signal.setitimer(signal.ITIMER_REAL, IDLE_PERIOD, IDLE_PERIOD)


def _disarm():
    signal.setitimer(signal.ITIMER_PROF, 0)
    signal.setitimer(signal.ITIMER_REAL, 0)


def setup_environment():
    """Environment of every run; called before the code under test is
    imported."""
    signal.signal(signal.SIGPROF, _on_alarm)
    signal.signal(signal.SIGALRM, _on_tick)
    import resource
    lim = 6 << 30
    try:
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(3000)
    sys.dont_write_bytecode = True
    os.environ['PATH'] = os.path.join(VERIF, 'stubs', 'bin') + os.pathsep + \
        os.environ.get('PATH', '')
    os.environ.setdefault('MPLBACKEND', 'Agg')
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    from . import randomness
    randomness.install()
    import numpy as np
    np.seterr(all='ignore')


def import_failed(prop, tier, seed, exc):
    ctx = Ctx(prop, tier, seed, 1)
    ctx.violations.append(('code under test cannot be imported: %r' % exc,
                           {'traceback': traceback.format_exc()}))
    return ctx.finish()
