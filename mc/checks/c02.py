"""C02: repeated runs in subprocesses, against a nondeterministic
environment of processes and pipe."""
import itertools
import sys
import time as _time
import types
import multiprocessing as _mp
import queue as _queue

import numpy as np

from ..randomness import Oracle, Bounded, next_prefix

PKG = 'task_models.utils.multiprocess'


class Hang(BaseException):
    pass


class Killed(BaseException):
    pass


class Env(object):
    """One execution: choices from an oracle."""

    variant = 0

    def __init__(self, prefix, cpus, faults, capacity, everywhere, put_only):
        self.o = Oracle(prefix)
        self.cpus, self.faults, self.capacity = cpus, faults, capacity
        self.everywhere = everywhere
        self.put_only = put_only
        self.procs = []
        self.pipe = []
        self.fresh = True      # an event happened since the last empty poll
        self.idle = 0
        self.max_running = 0
        self.current = None
        self.events = 0
        self.polls = 0

    def pick(self, n):
        return self.o.branch([1. / n] * n) if n > 1 else 0

    # events: (process, kind)
    def enabled(self):
        ev = []
        for p in self.procs:
            if p.state == 'running':
                ev.append((p, 'finish'))
                if self.faults > 0:
                    ev.append((p, 'raise'))
                    ev.append((p, 'kill'))
            elif p.state == 'put':
                if len(self.pipe) < self.capacity:
                    ev.append((p, 'deliver'))
                if self.faults > 0:
                    ev.append((p, 'kill'))
            elif p.state == 'delivered':
                ev.append((p, 'exit'))
                if self.faults > 0:
                    ev.append((p, 'kill'))
        return ev

    def fire(self, ev):
        p, kind = ev
        self.events += 1
        self.fresh, self.idle = True, 0
        if kind in ('raise', 'kill'):
            self.faults -= 1
        if kind == 'finish' or kind == 'raise':
            p.execute(kind == 'raise')
            if p.state == 'put' and not self.put_only and \
                    len(self.pipe) < self.capacity:
                self.deliver(p)
        elif kind == 'deliver':
            self.deliver(p)
        elif kind == 'exit':
            p.state, p.code = 'exited', 0
        else:
            p.state, p.outbox = 'exited', []
            p.code = KILLS[self.variant % len(KILLS)
                           if self.variant != 'silent' else 0]

    def deliver(self, p):
        self.pipe.extend(p.outbox)
        p.outbox, p.state = [], 'delivered'

    def poll(self, must=False, weak=False):
        """The environment may act; it has to when nothing happened since the
        last poll (`must`)."""
        if self.current is not None:
            return
        self.polls += 1
        if self.polls > 3000:
            raise Hang('polls forever')
        if weak and not self.everywhere:
            return
        while True:
            ev = self.enabled()
            if not ev:
                break
            if must and not self.fresh:
                self.fire(ev[self.pick(len(ev))])
                continue
            k = self.pick(1 + len(ev))
            if k == 0:
                break
            self.fire(ev[k - 1])
        if must:
            if not ev and not self.fresh:
                self.idle += 1
                if self.idle > 50:
                    raise Hang('waits although nothing can happen any more')
            self.fresh = False

    def wait_for(self, cond):
        while not cond():
            ev = self.enabled()
            if not ev:
                raise Hang('blocks forever')
            self.fire(ev[self.pick(len(ev))])


env = None
KILLS = [-9, -15, -11, -1, 3, -2]
ERRORS = [KeyError, ZeroDivisionError, MemoryError, KeyboardInterrupt,
          StopIteration, _queue.Empty, OSError, RuntimeError, AssertionError]


class Process(object):
    def __init__(self, group=None, target=None, name=None, args=(),
                 kwargs=None, daemon=None):
        self._target, self._args = target, tuple(args)
        self._kwargs = dict(kwargs or {})
        self.state, self.code, self.outbox = 'new', None, []
        self.name, self.daemon, self.ran = name, daemon, False
        self.seeded = None
        self.silent = False

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        assert self.state == 'new'
        self.state = 'running'
        self._rng = np.random.get_state()      # inherited at fork
        self.pid = len(env.procs) + 1000
        env.procs.append(self)
        env.max_running = max(env.max_running, sum(
            p.state not in ('new', 'exited') for p in env.procs))

    def execute(self, failing):
        mine = np.random.get_state()
        np.random.set_state(self._rng)
        env.current = self
        env.failing = failing
        try:
            self.run()
            self.silent = not self.outbox
            self.state = 'put' if self.outbox else 'delivered'
        except Killed:
            self.state, self.code, self.outbox = 'exited', 1, []
        except BaseException as e:
            self.state, self.code, self.outbox = 'exited', 1, []
            if not failing:
                env.unexpected = e
            elif isinstance(e, SystemExit) and not e.code:
                self.state, self.code, self.silent = 'delivered', None, True
        finally:
            env.current = None
            np.random.set_state(mine)

    def is_alive(self):
        env.poll(weak=True)
        return self.state not in ('new', 'exited')

    @property
    def exitcode(self):
        env.poll(weak=True)
        return self.code

    def join(self, timeout=None):
        if timeout is None:
            env.wait_for(lambda: self.state == 'exited')
        else:
            env.poll(must=True)

    def terminate(self):
        if self.state not in ('new', 'exited'):
            self.state, self.code, self.outbox = 'exited', -15, []
    kill = terminate

    def close(self):
        pass


class Queue(object):
    def __init__(self, maxsize=0, **kw):
        pass

    def put(self, x, block=True, timeout=None):
        if env.current is not None:
            env.current.outbox.append(x)
        else:
            env.pipe.append(x)
    put_nowait = put

    def get(self, block=True, timeout=None):
        if block and timeout is None:
            env.poll()
            env.wait_for(lambda: env.pipe)
        else:
            env.poll(must=not env.pipe)
        if not env.pipe:
            raise _queue.Empty()
        env.fresh = True
        return env.pipe.pop(0)

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        env.poll(must=not env.pipe)
        return not env.pipe

    def qsize(self):
        env.poll(must=not env.pipe)
        return len(env.pipe)

    def close(self):
        pass
    join_thread = cancel_join_thread = close


def fresh():
    fm = types.ModuleType('multiprocessing')
    fm.__dict__.update({k: v for k, v in _mp.__dict__.items()
                        if not k.startswith('__')})
    fm.Process, fm.Queue, fm.SimpleQueue = Process, Queue, Queue
    fm.cpu_count = lambda: env.cpus

    class Context(object):
        Process, Queue, SimpleQueue = Process, Queue, Queue
        cpu_count = staticmethod(lambda: env.cpus)
    fm.get_context = lambda *a: Context
    tm = types.ModuleType('time')
    tm.__dict__.update(_time.__dict__)
    tm.sleep = lambda t: env.poll(must=True)
    saved = {k: v for k, v in sys.modules.items() if k.startswith(
        'task_models.utils')}
    for k in saved:
        del sys.modules[k]
    real = sys.modules['multiprocessing']
    sys.modules['multiprocessing'], sys.modules['time'] = fm, tm
    try:
        import importlib
        return importlib.import_module(PKG)
    finally:
        sys.modules['multiprocessing'], sys.modules['time'] = real, _time
        for k in [k for k in sys.modules
                  if k.startswith('task_models.utils')]:
            del sys.modules[k]
        sys.modules.update(saved)


mod = fresh()


def one_run(ctx, prefix, n, cpus, faults, capacity, everywhere, put_only,
            use_class, variant=0):
    global env
    env = Env(prefix, cpus, faults, capacity, everywhere, put_only)
    env.variant = variant
    env.unexpected = None
    runs = []
    np.random.seed(12345)

    def target():
        k = len(runs)
        runs.append(k)
        if env.failing:
            if variant == 'silent':
                raise SystemExit(0)
            raise ERRORS[variant % len(ERRORS)]('failing run')
        return (k, int(np.random.randint(2 ** 31)))
    try:
        if use_class:
            res = mod.RepeatPool(target).run(n)
        else:
            res = mod.repeat(target, n)
        out = ('returned', list(res))
    except RuntimeError as e:
        out = ('RuntimeError', None)
    except Hang as e:
        out = ('hang', str(e))
    except Exception as e:
        out = ('raised', repr(e))
    failed = [p for p in env.procs if p.state == 'exited' and p.code != 0]
    info = {'n': n, 'cpus': cpus, 'capacity': capacity,
            'schedule': [c for c, _ in env.o.trace],
            'failed': [(env.procs.index(p), p.code) for p in failed]}
    ctx.ensure(env.unexpected is None, 'run raised %r in its process' % (
        env.unexpected,), info)
    if any(p.silent for p in env.procs):
        # ended without failing and without result: anything but an answer
        ctx.ensure(out[0] not in ('returned', 'hang'), 'repeat %s %s although'
                   ' a run gave no result' % out, info)
        ctx.trace()
        return env.o.trace
    ctx.ensure(out[0] in ('returned', 'RuntimeError'),
               'repeat %s: %s' % out, info)
    ctx.ensure(env.max_running <= cpus, '%d processes at once' %
               env.max_running, info)
    if out[0] == 'RuntimeError':
        ctx.ensure(failed, 'RuntimeError without failure', info)
    else:
        ctx.ensure(not failed, 'returned although a subprocess failed', info)
        ctx.eq(sorted(k for k, _ in out[1]), list(range(n)), 'results', info)
        ctx.eq(len(runs), n, 'number of runs', info)
        ctx.eq(len(set(x for _, x in out[1])), n,
               'different random numbers in the runs', info)
        ctx.state((n, cpus, capacity, tuple(k for k, _ in out[1])))
    ctx.state((n, cpus, capacity, out[0], tuple(
        (p.state, p.code) for p in env.procs)))
    ctx.trans(env.events)
    ctx.trace()
    return env.o.trace


def case_many(ctx, n, cpus, shift):
    """Many runs: one order of events each; two calls in a row."""
    global env
    saved = np.random.get_state()
    np.random.seed(shift)
    drawn = []
    try:
        for call in range(2):
            env = Env([], cpus, 0, 99, False, False)
            env.unexpected = None
            env.o = Bounded([], 0)
            env.o.n_later = shift * 5
            env.polls = -10 ** 6
            runs = []

            def target():
                runs.append(len(runs))
                return (runs[-1], tuple(np.random.random(8).tolist()))
            info = [n, cpus, shift, call]
            try:
                res = mod.repeat(target, n)
            except (Exception, Hang) as e:
                ctx.fail('repeat raised %r' % e, info)
            ctx.eq([k for k in sorted(k for k, _ in res)], list(range(n)),
                   'results', info)
            ctx.eq(len(runs), n, 'number of runs', info)
            ctx.ensure(env.max_running <= cpus, '%d processes at once' %
                       env.max_running, info)
            drawn += [x for _, x in res]
            ctx.trans(env.events)
        ctx.eq(len(set(drawn)), 2 * n, 'different random numbers in the runs',
               [n, cpus, shift])
        ctx.eq(len(set(u for x in drawn for u in x)), 16 * n,
               'random numbers found in only one of the runs',
               [n, cpus, shift])
        ctx.trace()
    finally:
        np.random.set_state(saved)


class Ordered(Env):
    """Of the processes running, the one of lowest rank goes on, an event per
    poll that has to wait; at most one of them fails."""

    def __init__(self, cpus, rank, fault):
        super(Ordered, self).__init__([], cpus, 0, 99, False, True)
        self.rank, self.fault = rank, fault
        self.unexpected = None

    def step(self):
        live = [p for p in self.procs if p.state not in ('new', 'exited')]
        if not live:
            return False
        p = min(live, key=lambda p: self.rank[self.procs.index(p)])
        kind = {'running': 'finish', 'put': 'deliver',
                'delivered': 'exit'}[p.state]
        if self.fault and self.fault[:2] == (self.procs.index(p), p.state):
            kind = self.fault[2]
        self.fire((p, kind))
        return True

    def poll(self, must=False, weak=False):
        self.polls += 1
        if self.polls > 3000:
            raise Hang('polls forever')
        if self.current is None and must and not self.step():
            self.idle += 1
            if self.idle > 50:
                raise Hang('waits although nothing can happen any more')

    def wait_for(self, cond):
        while not cond():
            if not self.step():
                raise Hang('blocks forever')


RESULTS = [None, 0, '', False, [], {}, (), 0., 'x', None, [None]]
FAULTS = [('running', 'raise'), ('running', 'kill'), ('put', 'kill'),
          ('delivered', 'kill')]


def case_order(ctx, n, cpus, rank, fault):
    global env
    saved = np.random.get_state()
    np.random.seed(7)
    env = Ordered(cpus, rank, fault)
    info = {'n': n, 'cpus': cpus, 'order': list(rank), 'fault': fault}
    runs = []

    def target():
        k = len(runs)
        runs.append(k)
        if env.failing:
            raise KeyError('failing run')
        return RESULTS[k % len(RESULTS)]
    try:
        out = ('returned', list(mod.repeat(target, n)))
    except RuntimeError:
        out = ('RuntimeError', None)
    except (Exception, Hang) as e:
        out = ('raised', repr(e))
    finally:
        np.random.set_state(saved)
    failed = any(p.state == 'exited' and p.code != 0 for p in env.procs)
    ctx.ensure(env.unexpected is None, 'run raised %r in its process' % (
        env.unexpected,), info)
    ctx.eq(out[0], 'RuntimeError' if failed else 'returned', 'outcome %r' % (
        out,), info)
    if not failed:
        key = lambda x: (type(x).__name__, repr(x))
        ctx.eq(sorted(out[1], key=key), sorted(
            (RESULTS[k % len(RESULTS)] for k in range(n)), key=key),
            'results', info)
        ctx.ensure(not fault, 'not all runs were made', info)
    ctx.ensure(env.max_running <= cpus, '%d processes at once' %
               env.max_running, info)
    ctx.trans(env.events)
    ctx.state((n, cpus, rank, fault))
    ctx.trace()


def cases_order(ctx, n, cpus):
    for rank in itertools.permutations(range(n)):
        case_order(ctx, n, cpus, rank, None)
        for i in range(n):
            for f in FAULTS:
                case_order(ctx, n, cpus, rank, (i,) + f)


def case(ctx, n, cpus, faults, capacity, everywhere, put_only, use_class,
         variant=0):
    prefix = []
    k = 0
    saved = np.random.get_state()
    try:
        while prefix is not None:
            t = one_run(ctx, prefix, n, cpus, faults, capacity, everywhere,
                        put_only, use_class, variant)
            prefix = next_prefix(t)
            k += 1
            if k % 500 == 0:
                from .. import core
                core._arm(ctx.case_cpu)
                if _time.time() - ctx.t0 > ctx.budget:
                    raise core.Deadline('time budget')
    finally:
        np.random.set_state(saved)
    import os
    if os.environ.get('MC_TIMES'):
        print(n, cpus, faults, capacity, everywhere, put_only, k, flush=True)
    ctx.sample([n, cpus, faults, capacity, {'schedules': k}])


def run(ctx):
    ctx.assumptions = [
        'processes: run, put, deliver, exit in this order, or fail before '
        'or between; an undelivered result keeps its process alive; polls '
        'without any event in between are equivalent to one']
    plain, pipe1 = (0, 99, False, False), (0, 1, False, True)
    fine, fault = (0, 99, True, False), (1, 99, False, False)
    fault1, faultf = (1, 1, False, True), (1, 99, True, False)
    quick = {
        (0, 1): [plain, fault], (0, 3): [plain],
        (1, 1): [plain, pipe1, fine, fault, fault1, faultf],
        (1, 2): [plain, pipe1, fine, fault, fault1, faultf],
        (2, 1): [plain, pipe1, fine, fault, fault1, faultf],
        (2, 2): [plain, pipe1, fine, fault, (1, 1, False, False)],
        (2, 5): [plain, fault],
        (3, 1): [plain, pipe1, fault], (3, 2): [plain],
        (4, 1): [plain]}
    deep = {
        (2, 2): [fault1, faultf, (2, 99, False, False)],
        (2, 1): [(0, 1, True, True), (1, 1, True, True)],
        (3, 1): [fine, fault1, faultf], (3, 2): [pipe1, fault],
        (3, 3): [plain, fault], (3, 5): [plain],
        (4, 1): [pipe1, fault], (4, 2): [plain], (5, 1): [plain]}
    jobs = []
    for table in (quick, deep) if ctx.thorough else (quick,):
        for n, cpus in table:
            for f, c, ev, po in table[n, cpus]:
                jobs.append((case, [n, cpus, f, c, ev, po], n, cpus, f, c, ev,
                             po, (n + cpus) % 2 == 0))
    for v in list(range(1, 9)) + ['silent']:
        for n, cpus in ((1, 1), (1, 2), (2, 1)):
            jobs.append((case, [n, cpus, 'variant', v], n, cpus, 1, 99, False,
                         False, v == 3, v))
    jobs.sort(key=lambda j: -j[2])
    for n, cpus in ((7, 3), (20, 8), (60, 4), (300, 8), (300, 1), (40, 64)):
        for shift in range(ctx.pick(3, 30)):
            jobs.append((case_many, ['many', n, cpus, shift], n, cpus,
                         shift))
    for n, cpus in ((3, 3), (4, 2), (4, 3), (4, 4), (5, 3), (5, 5)) + (
            ((6, 3), (6, 4), (6, 6)) if ctx.thorough else ()):
        jobs.append((cases_order, ['order', n, cpus], n, cpus))
    for n, cpus in ((9, 8), (12, 12)):
        for i in range(n):
            r = tuple((k - i) % n for k in range(n))
            for f in [None] + [(j,) + f for j in range(n) for f in FAULTS]:
                jobs.append((case_order, ['order', n, cpus, i, f], n, cpus, r,
                             f))
    ctx.run_cases(jobs)
