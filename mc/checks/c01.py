"""C01: background search against its owner, all schedules."""
import glob
import os

from .. import sched, core
from ..models import Model
from ..randomness import active, Oracle, explore as all_outcomes
from ..uct import snap_ref, snap_real, rnd_
from .p04 import Ref, RefPolicy, models as p04_models, H, Z, ONE, F

pomcp, pomdp = sched.fresh_import(['task_models.lib.pomcp',
                                   'task_models.lib.pomdp'])
FILES = {f for f in glob.glob(os.path.join(core.REPO, 'task_models', '**',
                                           '*.py'), recursive=True)
         if os.path.basename(f) not in ('belief.py', 'pomdp.py')}
FILES |= {os.path.realpath(f) for f in FILES}
BAD = 'no such observation'


class Sim(pomdp.POMDP):
    table = None

    def sample_transition(self, a, s):
        s2, o = self.table[int(a), int(s)]
        return s2, o, self.R[int(a), int(s), s2, o]


def models():
    det = lambda k: tuple(F(int(i == k)) for i in range(2))
    T = ((det(1), det(0)), (det(0), det(1)))
    O = ((det(0), det(1)), (det(0), det(1)))
    table = {(0, 0): (1, 1), (0, 1): (0, 0), (1, 0): (0, 0), (1, 1): (1, 1)}
    yield 'two', Model(T, O, det(0), discount=.5), table
    yield 'one', Model((det(1), det(0)) and ((det(1), det(0)),),
                       ((det(0), det(1)),), det(0), discount=.5), {
        (0, 0): (1, 1), (0, 1): (0, 0)}


def still():
    """A model where the first action changes nothing."""
    det = lambda k: tuple(F(int(i == k)) for i in range(2))
    T = ((det(0), det(1)), (det(1), det(0)))
    O = ((det(0), det(1)), (det(0), det(1)))
    return Model(T, O, det(0), discount=.5), {
        (0, 0): (0, 0), (0, 1): (1, 1), (1, 0): (1, 1), (1, 1): (0, 0)}


# ----------------------------------------------------- serial reference
def serial_outcomes(m, table, cfg, script, total):
    """All (results, tree) of serial orders with `total` background
    searches; ties broken as the first option."""
    it, h = cfg['iterations'], cfg['horizon']
    out = set()
    nslots = 1 + sum({'ask': 2, 'step': 2, 'stop': 2}.get(op[0], 1)
                     for op in script)

    def vectors(n, k):
        if n == 1:
            yield (k,)
            return
        for i in range(k + 1):
            for r in vectors(n - 1, k - i):
                yield (i,) + r
    for ks in vectors(nslots, total):
        out.add(serial(m, table, cfg, script, ks))
    out.discard(None)
    return out


def serial(m, table, cfg, script, ks):
    t = Ref(m, cfg['horizon'], cfg.get('exploration', 1.), shared=cfg.get('shared', False))
    t.table = table
    pol = RefPolicy(t, cfg['iterations'])
    bg = [t.root, None]
    ks = list(ks)
    res = []

    def slot():
        for _ in range(ks.pop(0)):
            t.search(bg[0], bg[1])
    slot()
    for op, x in script:
        if op == 'ask':
            res.append(pol.ask(x))
            slot()          # between answering and noting the action
            bg[1] = pol.last
        elif op == 'step':
            ok = pol.step(x, m.no)
            res.append(ok)
            slot()
            if ok:
                bg[:] = [pol.node, None]
        elif op == 'reset':
            pol.reset()
            bg[:] = [t.root, None]
            res.append(None)
        elif op == 'look':
            # the search goes on from what is seen here
            res.append(snap_ref(t.root, set() if cfg.get('shared') else None))
        elif op == 'stop':
            res.append(None)
            slot()
            if any(ks):        # nothing is searched afterwards
                return None
        slot()
    return tuple(res), snap_ref(t.root, set() if cfg.get('shared') else None)


# ------------------------------------------------------------ real schedules
def real_script(ctx, m, table, cfg, script):
    info = {'config': cfg, 'script': script}

    def make(s):
        p = m.real(cls=Sim)
        p.table = table

        def main():
            pol = pomcp.AsyncPOMCPPolicyRunner(
                p, iterations=cfg['iterations'], horizon=cfg['horizon'],
                exploration=cfg.get('exploration', 1.),
                belief_values=cfg.get('shared', False),
                logger=lambda *a: None)
            res = []
            stopped = False
            try:
                for op, x in script:
                    if op == 'ask':
                        a = pol.get_action() if x is None else \
                            pol.get_action(iterations=x)
                        res.append(m.actions.index(a))
                    elif op == 'step':
                        h, b = list(pol.history), list(pol.belief.array)
                        try:
                            pol.step(BAD if x >= m.no else m.observations[x])
                        except sched.Abort:
                            raise
                        except Exception as e:
                            ctx.eq((list(pol.history),
                                    list(pol.belief.array)), (h, b),
                                   'failed step changed the policy', info)
                            res.append(False)
                        else:
                            ctx.eq([int(q) for q in pol.history],
                                   [int(q) for q in h] +
                                   [last(res, script), x], 'history', info)
                            res.append(True)
                    elif op == 'reset':
                        pol.reset()
                        ctx.eq(pol.history, [], 'history after reset', info)
                        res.append(None)
                    elif op == 'look':
                        seen = []

                        def probe(y):
                            for _ in range(3):
                                seen.append(snap_real(
                                    pol.tree.root, None if not
                                    cfg.get('shared') else set()))
                                s.point('free')
                            seen.append(y)
                        pol.execute(probe, x)
                        ctx.eq(seen[-1:], [x], 'executed function', info)
                        ctx.ensure(len(set(seen[:-1])) == 1,
                                   'tree changed while executing', info)
                        res.append(seen[0])
                    else:
                        pol.stop()
                        stopped = True
                        ctx.eq(s.others_running(), [],
                               'threads running after stop', info)
                        res.append(None)
                    sched.free()
            except sched.Abort:
                raise
            except core._Fail:
                raise
            except Exception as e:
                return 'raised', e, None
            for t in s.threads[1:]:
                if t.exc is not None:
                    return 'raised', t.exc, None
            return 'done', tuple(res), snap_real(
                pol.tree.root, set() if cfg.get('shared') else None)
        return main
    return make


class Broken(Exception):
    pass


def case_broken(ctx, name, m, table, k, script, preemptions, stays):
    """The model fails in the k-th simulation: the owner may see the error,
    but is never blocked by a search that is not running any more."""
    info = ['broken', k, script]

    def make(s):
        p = m.real(cls=Sim)
        p.table = table
        count = [0]

        def simulate(a, x):
            count[0] += 1
            if count[0] == k:
                raise Broken()
            return Sim.sample_transition(p, a, x)
        p.sample_transition = simulate

        def main():
            pol = pomcp.AsyncPOMCPPolicyRunner(
                p, iterations=1, horizon=1, exploration=1.,
                logger=lambda *a: None)
            for op, x in script:
                try:
                    if op == 'ask':
                        pol.get_action()
                    elif op == 'reset':
                        pol.reset()
                    else:
                        pol.stop()
                except Broken:
                    pass
            return s.others_running()
        return main
    with active(Canonical()):
        for s, out in sched.explore(make, preemptions, stays, FILES):
            ctx.trace()
            ctx.transitions += s.points
            if out[0] == 'error':
                ctx.fail('%s: %s' % (type(out[1]).__name__, out[1]), info)
            ctx.eq(out[1], [], 'threads running after stop', info)
    ctx.states_n(1)


def last(res, script):
    """The last action answered before now."""
    return [r for r, (op, _) in zip(res, script) if op == 'ask'][-1]


class Canonical(Oracle):
    """Always the first option."""

    def branch(self, weights):
        live = [i for i, w in enumerate(weights) if w > 1e-12]
        return live[0]


def case(*args):
    try:
        return _case(*args)
    except sched.Undecided as e:
        raise core.Skip(str(e))


def _case(ctx, name, m, table, cfg, script, preemptions, stays):
    sets = {}
    total_known = 0
    runs = 0
    info = {'model': name, 'config': cfg, 'script': script,
            'preemptions': preemptions}
    pre = {}
    maxp = 0
    began = core.time.time()
    with active(Canonical()):
        for s, out in sched.explore(
                real_script(ctx, m, table, cfg, script), preemptions, stays,
                FILES):
            runs += 1
            ctx.transitions += s.points
            if ctx.cases and runs % 64 == 0:
                core._arm(ctx.case_cpu)
                import time
                if time.time() - ctx.t0 > ctx.budget:
                    raise core.Deadline('time budget')
            maxp = max(maxp, s.points)
            where = dict(info, schedule={i: c for i, (c, _) in
                                        enumerate(s.trace) if c})
            if out[0] == 'error':
                ctx.fail('%s: %s' % (type(out[1]).__name__, out[1]), where)
            kind, res, snap = out[1]
            if kind == 'raised':
                ctx.fail('a call or the search raised %r' % (res,), where)
            key = (res, snap)
            pre[key] = pre.get(key, 0) + 1
            if pre[key] > 1:
                continue
            found = None
            for k in range(0, 13):
                if k not in sets:
                    sets[k] = serial_outcomes(m, table, cfg, script, k)
                if key in sets[k]:
                    found = k
                    break
                # every search adds a visit somewhere
                if visits(snap) < min([visits(q[1]) for q in sets[k]] +
                                      [10 ** 9]):
                    break
            if found is None:
                ctx.fail('no serial order of whole searches and calls gives '
                         'results %r and tree %r' % (res, snap), where)
            total_known = max(total_known, found)
            ctx.state((name, repr(cfg), script, key))
    if os.environ.get('MC_TIMES'):
        print(name, cfg, script, runs, maxp, '%.1f' % (
            core.time.time() - began), flush=True)
    ctx.trace(runs)
    ctx.sample([name, cfg, script, {'schedules': runs, 'outcomes': len(pre),
                                    'points': maxp,
                                    'background searches': total_known}])
    return runs


def visits(snap):
    if not isinstance(snap, tuple) or (snap and snap[0] == 'shared'):
        return 0
    if isinstance(snap[0], tuple) or snap[0] is None:
        return snap[1] + sum(visits(k) for _, k in snap[3])
    return snap[0] + sum(visits(k) for _, k in snap[2])


A, A0, A1 = ('ask', None), ('ask', 0), ('ask', 1)
S0, S1, B = ('step', 0), ('step', 1), ('step', 5)
R, L, X = ('reset', None), ('look', 7), ('stop', None)

SHORT = [(X,), (A, X), (A0, X), (L, X), (R, X), (X, X), (A0, S1, X),
         (X, R, A, S1, A), (X, A0, X), (X, ('ask', 3), X)]
MEDIUM = [(A0, S0, X), (A, S1, X), (A, R, X), (A0, B, X), (A0, L, X),
          (X, A, S1, ('ask', 2), X)]
LONG = [(A0, S1, R, X), (A0, S1, A1, X), (A0, S1, L, X), (A0, B, S1, X),
        (A0, A1, S0, X), (A, S1, A, X)]
# the background search is free again: it tries the action less visited
RESETS = [(('ask', n), R, L, X) for n in (2, 3, 4, 5)] + [
    (('ask', 3), L, X), (('ask', 3), S1, L, X), (R, L, X)]
LONGEST = [(A0, S1, A0, S0, X), (A, S1, R, A, X), (A0, S0, R, A1, S0, X)]


def run(ctx):
    ctx.assumptions = [
        'scheduling points: every source line (while holding a lock: '
        'every function entry) of the package outside of belief.py and '
        'pomdp.py, and every lock, event, condition and sleep; '
        'preemption-bounded', 'tie-breaking and sampling fixed to the first '
        'outcome (they are explored in P01-P04)']
    ctx.case_cpu = 240.
    base = {'iterations': 1, 'horizon': 1}
    deep = {'iterations': 2, 'horizon': 2}
    shared = {'iterations': 1, 'horizon': 2, 'shared': True}
    curious = {'iterations': 4, 'horizon': 1, 'exploration': 1e5}
    jobs = []
    for name, m, table in models():
        def add(cfg, scs, preemptions, stays):
            for sc in scs:
                if name == 'one' and any(o == 'step' and x == 0
                                         for o, x in sc):
                    continue
                jobs.append((case, [name, cfg, sc, preemptions, stays], name,
                             m, table, cfg, sc, preemptions, stays))
        if not ctx.thorough:
            if name == 'two':
                add(base, SHORT + MEDIUM + LONG, 1, 1)
                add(deep, SHORT + [(A, S1, X)], 1, 1)
                add(shared, [(A, X), (A0, S1, X)], 1, 1)
                add(base, [(X,)], 2, 1)
                add(curious, RESETS, 1, 1)
            else:
                add(base, SHORT, 1, 1)
        else:
            for cfg in (base, deep, shared):
                add(cfg, SHORT + MEDIUM + LONG, 1, 2)
            add(base, LONGEST, 1, 1)
            add(curious, RESETS, 1, 2)
            if name == 'two':
                add(base, [(X,), (A0, X), (R, X)], 2, 1)
                add(base, [(A0, S1, X)], 2, 0)
    def broken(*args):
        try:
            case_broken(*args)
        except sched.Undecided as e:
            raise core.Skip(str(e))
    name, m, table = list(models())[0]
    for k in (1, 2, 3):
        for sc in ((X,), (A, X), (R, X), (A, A, X)):
            jobs.append((broken, ['broken', k, sc], name, m, table, k, sc, 1,
                         1))
    # a step that leads to the same belief frees the search as well
    m, table = still()
    same = dict(curious, shared=True)
    for n in (2, 3, 4):
        jobs.append((case, ['still', n], 'still', m, table, same,
                     (('ask', n), S0, L, X), 1, ctx.pick(1, 2)))
    jobs.sort(key=lambda j: (-j[7], -len(j[6])))
    ctx.run_cases(jobs)
