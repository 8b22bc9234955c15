"""Controlled scheduler: stateless exploration of thread interleavings of
real python code.

Real OS threads pass a baton: exactly one runs at any time.  Scheduling points
are every executed source line of the traced files and every operation on the
replaced primitives of `threading` and `time.sleep`.  At a point where the
running thread could continue, switching to another one is a preemption and
costs one unit of a budget; switches at yields (sleep, timed waits, explicit
`free()` points) and when the thread blocks or ends are free.
"""
import sys
import threading as _th
import time as _time
import types

REAL = {n: getattr(_th, n) for n in (
    'Thread', 'Lock', 'RLock', 'Event', 'Condition', 'Semaphore',
    'BoundedSemaphore')}
_alloc = _th._allocate_lock
_sleep = _time.sleep

current = None     # active Scheduler


class Abort(BaseException):
    pass


class Undecided(BaseException):
    """The schedule cannot be driven (uncontrolled blocking)."""


class Deadlock(Exception):
    pass


class TooLong(Exception):
    pass


class _T(object):
    def __init__(self, name):
        self.name = name
        self.baton = _alloc()
        self.baton.acquire()
        self.blocked = None      # predicate: can it go on?
        self.finished = False
        self.held = 0            # locks held
        self.exc = None

    def ready(self):
        return not self.finished and (self.blocked is None or self.blocked())


class Scheduler(object):

    MAX_POINTS = 50000

    def __init__(self, prefix, preemptions, stays, files):
        self.prefix, self.trace = list(prefix), []
        self.budget, self.stays = preemptions, stays
        self.files = files
        self.threads = []
        self.points = 0
        self.error = None
        self.by_ident = {}
        self.preempted = 0
        self.running = self._add('main')
        self.by_ident[_th.get_ident()] = self.running

    def _add(self, name):
        t = _T(name)
        self.threads.append(t)
        return t

    # -- choice -----------------------------------------------------------
    def _choose(self, n):
        if n == 1:
            return 0
        k = len(self.trace)
        c = self.prefix[k] if k < len(self.prefix) else 0
        if c >= n:
            raise Undecided('the schedule is not reproducible')
        self.trace.append((c, n))
        return c

    def me(self):
        return self.by_ident.get(_th.get_ident())

    def point(self, kind):
        """kind: 'line' (preemptible), 'free' (voluntary), 'block', 'end'."""
        me = self.me()
        if me is None:
            return
        if self.error is not None:
            if kind == 'end':
                return
            raise Abort()
        self.points += 1
        if self.points > self.MAX_POINTS:
            self._fail(TooLong('no end after %d steps' % self.points))
            if kind == 'end':
                return
            raise Abort()
        others = [t for t in self.threads if t is not me and t.ready()]
        if kind == 'line':
            if not others or self.budget <= 0:
                return
            c = self._choose(1 + len(others))
            if c == 0:
                return
            self.budget -= 1
            self.preempted += 1
            nxt = others[c - 1]
        elif kind == 'free':
            # default: give way; staying is bounded
            if not others:
                return
            if self.stays > 0:
                c = self._choose(1 + len(others))
                if c == len(others):
                    self.stays -= 1
                    return
                nxt = others[c]
            else:
                nxt = others[self._choose(len(others))]
        else:    # block or end
            if kind == 'block' and me.ready():
                return
            if not others:
                if kind == 'end' and all(t.finished for t in self.threads):
                    return
                self._fail(Deadlock('every thread is blocked: ' + ', '.join(
                    t.name for t in self.threads if not t.finished)))
                if kind == 'end':
                    return
                raise Abort()
            nxt = others[self._choose(len(others))]
        self._switch(me, nxt, kind)

    def _switch(self, me, nxt, kind):
        self.running = nxt
        nxt.baton.release()
        if kind == 'end':
            return
        self._wait(me)

    def _wait(self, me):
        if not me.baton.acquire(timeout=30):
            self._fail(Undecided('a thread blocks outside of the replaced '
                                 'primitives'))
        if self.error is not None:
            raise Abort()

    def _fail(self, exc):
        if self.error is None:
            self.error = exc
        for t in self.threads:   # everyone stops
            if t is not self.me():
                try:
                    t.baton.release()
                except RuntimeError:
                    pass

    def block_until(self, pred):
        me = self.me()
        if me is None:
            return
        while not pred():
            me.blocked = pred
            try:
                self.point('block')
            finally:
                me.blocked = None

    # -- tracing ----------------------------------------------------------
    def tracer(self, frame, event, arg):
        if frame.f_code.co_filename in self.files:
            me = self.me()
            if me is not None and me.held:
                self.point('line')     # function entry
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == 'line':
            me = self.me()
            if me is not None and not me.held:
                self.point('line')
        return self.local

    # -- run --------------------------------------------------------------
    def run(self, fn):
        """Runs fn as main thread; returns its result."""
        global current
        current = self
        sys.settrace(self.tracer)
        try:
            r = fn()
            sys.settrace(None)
            self.finish_main()
            return r
        except Abort:
            raise self.error if self.error else RuntimeError('aborted')
        finally:
            sys.settrace(None)
            if self.error is None and any(
                    not t.finished for t in self.threads[1:]):
                self._fail(Abort())
            for t in self.threads[1:]:
                for _ in range(2000):
                    if t.finished:
                        break
                    try:
                        t.baton.release()
                    except RuntimeError:
                        pass
                    _sleep(.001)
            current = None

    def finish_main(self):
        pass

    def others_running(self):
        return [t.name for t in self.threads[1:]
                if not t.finished or t.thread.is_alive()]


# ------------------------------------------------------- replaced primitives
def _active():
    s = current
    return s if s is not None and s.me() is not None else None


class Lock(object):
    reentrant = False

    def __init__(self):
        self.owner, self.count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        s = _active()
        if s is None:
            self.owner, self.count = 'none', self.count + 1
            return True
        me = s.me()
        s.point('line')
        if self.owner is not None and not (
                self.reentrant and self.owner is me):
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                s.point('free')
                if self.owner is not None:
                    return False
            else:
                s.block_until(lambda: self.owner is None)
        self.owner = me
        self.count += 1
        me.held += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        s = _active()
        if self.reentrant and s is not None and self.owner is not s.me():
            raise RuntimeError('cannot release un-acquired lock')
        if isinstance(self.owner, _T):
            self.owner.held -= 1
        self.count -= 1
        if self.count == 0:
            self.owner = None
        if s is not None and s.error is None:
            s.point('line')

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()
    _is_owned = lambda self: self.owner is not None


class RLock(Lock):
    reentrant = True


class Event(object):
    def __init__(self):
        self.flag = False

    def is_set(self):
        s = _active()
        if s is not None:
            s.point('line')
        return self.flag
    isSet = is_set

    def set(self):
        self.flag = True
        s = _active()
        if s is not None:
            s.point('line')

    def clear(self):
        self.flag = False

    def wait(self, timeout=None):
        s = _active()
        if s is None or self.flag:
            return self.flag
        if timeout is not None:
            s.point('free')
        else:
            s.block_until(lambda: self.flag)
        return self.flag


class Condition(object):
    def __init__(self, lock=None):
        self.lock = lock if lock is not None else RLock()
        self.acquire, self.release = self.lock.acquire, self.lock.release
        self.waiters = []

    def __enter__(self):
        self.lock.acquire()
        return self

    def __exit__(self, *a):
        self.lock.release()

    def wait(self, timeout=None):
        s = _active()
        if s is None:
            return True
        w = [False]
        self.waiters.append(w)
        me, n = self.lock.owner, self.lock.count
        self.lock.owner, self.lock.count = None, 0
        me.held -= n
        try:
            if timeout is not None:
                s.point('free')
            else:
                s.block_until(lambda: w[0])
        finally:
            if w in self.waiters:
                self.waiters.remove(w)
            if s.error is None:
                s.block_until(lambda: self.lock.owner is None)
                self.lock.owner, self.lock.count = me, n
                me.held += n
        return w[0]

    def wait_for(self, pred, timeout=None):
        while not pred():
            if not self.wait(timeout) and timeout is not None:
                return pred()
        return True

    def notify(self, n=1):
        for w in self.waiters[:n]:
            w[0] = True
        del self.waiters[:n]

    def notify_all(self):
        self.notify(len(self.waiters))
    notifyAll = notify_all


class Semaphore(object):
    def __init__(self, value=1):
        self.value = value

    def acquire(self, blocking=True, timeout=None):
        s = _active()
        if s is not None:
            s.point('line')
            if self.value <= 0:
                if not blocking:
                    return False
                if timeout is not None:
                    s.point('free')
                    if self.value <= 0:
                        return False
                else:
                    s.block_until(lambda: self.value > 0)
        self.value -= 1
        return True
    __enter__ = acquire

    def release(self, n=1):
        self.value += n
        s = _active()
        if s is not None and s.error is None:
            s.point('line')

    def __exit__(self, *a):
        self.release()


class Thread(REAL['Thread']):
    """Real thread under control of the scheduler that is active when it is
    started."""
    _mc = None

    def start(self):
        s = _active()
        if s is None:
            raise Undecided('thread started outside of a schedule')
        t = self._mc = s._add(type(self).__name__)
        t.thread = self
        body = self.run

        def run():
            s.by_ident[_th.get_ident()] = t
            try:
                s._wait(t)
                sys.settrace(s.tracer)
                body()
            except Abort:
                pass
            except BaseException as e:
                t.exc = e
            finally:
                sys.settrace(None)
                t.finished = True
                s.point('end')
        self.run = run
        self.daemon = True
        super(Thread, self).start()
        s.point('free')

    def _ended(self):
        """Waits (uncontrolled) for the end of an OS thread that is done."""
        for _ in range(10000):
            if self.ident not in _th._active:
                return
            _sleep(.0005)

    def join(self, timeout=None):
        s = _active()
        if s is not None and self._mc is not None:
            if s.me() is self._mc:
                raise RuntimeError('cannot join current thread')
            if timeout is None:
                s.block_until(lambda: self._mc.finished)
            else:
                s.point('free')
                if not self._mc.finished:
                    return
            self._ended()
            REAL['Thread'].join(self, 10)
        elif self._mc is None:
            super(Thread, self).join(timeout)

    def is_alive(self):
        s = _active()
        if s is not None and self._mc is not None:
            s.point('line')
            if not self._mc.finished:
                return True
            self._ended()
        elif self._mc is not None:
            return not self._mc.finished
        return super(Thread, self).is_alive()


def sleep(t):
    s = _active()
    if s is not None:
        s.point('free')


def free():
    sleep(0)


def fresh_import(names):
    """Imports the given task_models modules anew on replaced primitives."""
    ft = types.ModuleType('threading')
    ft.__dict__.update(_th.__dict__)
    for n in ('Thread', 'Lock', 'RLock', 'Event', 'Condition', 'Semaphore'):
        setattr(ft, n, globals()[n])
    ft.BoundedSemaphore = Semaphore
    tt = types.ModuleType('time')
    tt.__dict__.update(_time.__dict__)
    tt.sleep = sleep
    saved = {k: v for k, v in sys.modules.items()
             if k.split('.')[0] == 'task_models'}
    for k in saved:
        del sys.modules[k]
    sys.modules['threading'], sys.modules['time'] = ft, tt
    try:
        import importlib
        out = [importlib.import_module(n) for n in names]
    finally:
        sys.modules['threading'], sys.modules['time'] = _th, _time
        for k in [k for k in sys.modules if k.split('.')[0] == 'task_models']:
            del sys.modules[k]
        sys.modules.update(saved)
    return out


def explore(make, preemptions, stays, files, max_runs=None):
    """Yields (scheduler, outcome) for every schedule; outcome is ('ok', r)
    or ('error', exception).  make() returns the main function."""
    prefix = []
    n = 0
    while prefix is not None:
        s = Scheduler(prefix, preemptions, stays, files)
        try:
            out = ('ok', s.run(make(s)))
        except (Deadlock, TooLong) as e:
            out = ('error', e)
        yield s, out
        n += 1
        if max_runs is not None and n >= max_runs:
            return
        from .randomness import next_prefix
        prefix = next_prefix(s.trace)
