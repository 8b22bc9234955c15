"""P04: the search policy along histories of asking, stepping, resetting."""
import itertools
from fractions import Fraction as F

import numpy as np

from task_models.lib.pomdp import POMDP
from task_models.lib.belief import MaxSamplesReached
from task_models.lib.pomcp import POMCPPolicyRunner, NTransitionsHorizon

from ..models import Model, big, close, dists
from ..randomness import distribution, dist_diff, bounded, scripted
from .p01 import runner_cases, Logged
from ..uct import RefTree, ONode, Unsampled, snap_ref, snap_real, rnd_

Q, H, ONE, Z = F(1, 4), F(1, 2), F(1), F(0)


class Sim(POMDP):
    """Exact model whose simulator is one fixed possible outcome per state
    and action; listed successor beliefs cannot be sampled."""
    table = None
    blocked = ()
    rewards = None

    def sample_transition(self, a, s):
        s2, o = self.table[int(a), int(s)]
        return s2, o, self.R[int(a), int(s), s2, o]

    def belief_update(self, a, o, b):
        if (int(a), int(o)) in self.blocked:
            raise MaxSamplesReached(a, o, b)
        return POMDP.belief_update(self, a, o, b)


class Ref(RefTree):
    table = None

    def model_step(self, s, a):
        s2, o = self.table[a, s]
        return s2, o, self.m.R[a][s][s2][o]

    particle = False

    def successor(self, b, a, o):
        if self.particle:
            s = [i for i, p in enumerate(b) if p][0]
            s2, o2 = self.table[a, s]
            if o2 != o:
                raise Unsampled()
            return tuple(F(int(i == s2)) for i in range(len(b)))
        if self.blocked(a, o, b):
            raise Unsampled()
        memo = self.m.__dict__.setdefault('_memo', {})
        if (b, a, o) not in memo:
            memo[b, a, o] = self.m.step(b, a, o)
        p = memo[b, a, o]
        if p is None:
            raise Unsampled()
        return tuple(p)


class RefPolicy(object):
    def __init__(self, tree, iterations):
        self.t, self.it = tree, iterations
        self.reset()

    def reset(self):
        self.h, self.node, self.last = [], self.t.root, None

    def ask(self, n):
        for _ in range(self.it if n is None else n):
            self.t.search(self.node)
        self.last = self.t.choose(self.node, 0, False)
        return self.last

    def step(self, o, no):
        """False when refused."""
        if self.last is None or not 0 <= o < no:
            return False
        h = self.h + [self.last, o]
        try:
            self.node = self.t.node(h)
        except Unsampled:
            return False
        self.h = h
        return True


def models():
    # all posteriors non trivial; observation 2 impossible with action 0
    T = (((Q, 3 * Q), (H, H)), ((H, H), (Z, ONE)))
    O = (((H, H, Z), (3 * Q, Q, Z)), ((Q, Q, H), (H, H, Z)))
    table = {(0, 0): (1, 0), (0, 1): (0, 1), (1, 0): (0, 2), (1, 1): (1, 0)}
    yield 'certain', Model(T, O, (ONE, Z), discount=.5), table
    yield 'spread', Model(T, O, (Q, 3 * Q), discount=.5), table
    # loops: several histories with equal beliefs
    T = (((ONE, Z), (Z, ONE)), ((Z, ONE), (ONE, Z)))
    O = (((ONE, Z, Z), (Z, ONE, Z)), ((H, H, Z), (H, H, Z)))
    table = {(0, 0): (0, 0), (0, 1): (1, 1), (1, 0): (1, 0), (1, 1): (0, 1)}
    yield 'loops', Model(T, O, (ONE, Z), discount=.75), table


BAD = 'no such observation'


def check_script(ctx, name, m, table, cfg, script):
    p = m.real(cls=Sim)
    p.table = table
    p.blocked = cfg.get('blocked', ())
    belief = cfg.get('belief', 'array')
    shared = cfg.get('shared', False)
    it, h = cfg.get('iterations', 1), cfg.get('horizon', 1)
    info = {'model': name, 'config': cfg, 'script': script}
    null = lambda *a, **k: None

    def real():
        kw = {'belief_params': {'n_particles': 1}} if belief != 'array' \
            else {}
        hz = h if not cfg.get('generator') else \
            NTransitionsHorizon.generator(p, n=h)
        pol = POMCPPolicyRunner(p, iterations=it, horizon=hz, exploration=1.,
                                belief_values=shared, belief=belief,
                                logger=null, **kw)
        res = []
        nodes = {}

        def look():
            b = tuple(rnd_(x) for x in pol.belief.array)
            res.append((tuple(int(x) for x in pol.history), b))
        look()
        for op, x in script:
            if op == 'ask':
                a = pol.get_action() if x is None else pol.get_action(
                    iterations=x)
                res.append(m.actions.index(a))
            elif op == 'reset':
                pol.reset()
                res.append('reset')
            elif op == 'step':
                ob = BAD if x == 3 else m.observations[x]
                try:
                    pol.step(ob)
                except Exception as e:
                    if pol.history == [] and not any(
                            o == 'ask' for o, _ in script):
                        ctx.ensure(isinstance(e, ValueError),
                                   'step without action raised %r' % e, info)
                    res.append(False)
                else:
                    res.append(True)
            look()
            # the node of a history stays the same one
            hist = list(pol.history)
            n1 = pol.tree.get_node(hist)
            ctx.ensure(n1 is pol.tree.get_node(hist),
                       'two nodes for one history', info)
            k = tuple(hist)
            ctx.ensure(nodes.setdefault(k, n1) is n1,
                       'node of history replaced', info)
            ctx.ensure(np.allclose(n1.belief.array, pol.belief.array),
                       'belief differs from the one of its history', info)
        return tuple(res), snap_real(pol.tree.root,
                                     set() if shared else None)

    def ref():
        t = Ref(m, h, 1., shared=shared,
                blocked=lambda a, o, b: (a, o) in p.blocked)
        t.table = table
        t.particle = belief != 'array'
        if t.particle:
            s = t.draw(m.start)
            t.root = t.new(tuple(F(int(i == s)) for i in range(m.ns)))
        pol = RefPolicy(t, it)
        res = []

        def look():
            b = tuple(rnd_(x) for x in pol.node.belief)
            res.append((tuple(pol.h), b))
        look()
        for op, x in script:
            if op == 'ask':
                res.append(pol.ask(x))
            elif op == 'reset':
                pol.reset()
                res.append('reset')
            else:
                res.append(pol.step(x, 3))
            look()
        return tuple(res), snap_ref(t.root, set() if shared else None)
    got = distribution(real, max_runs=10 ** 6, stats=ctx)
    want = distribution(ref, max_runs=10 ** 6)
    ctx.trace(len(got))
    for k in got:
        ctx.state((name, belief, shared, k))
    d = dist_diff(got, want)
    if d is not None:
        bad = [k for k in got if k not in want][:1]
        good = [k for k in want if k not in got][:1]
        ctx.fail('policy runner: %s; impossible run %r; missing run %r' % (
            d, bad, good), info)
    ctx.sample([name, cfg, script, len(got)])


def scripts(depth, counts):
    """Operation sequences; no two steps accepted without asking."""
    ops = [('ask', n) for n in counts] + [('reset', None)] + \
        [('step', o) for o in range(4)]

    def rec(pre, asked):
        yield pre
        if len(pre) == depth:
            return
        for op in ops:
            if op[0] == 'step' and pre and not asked and any(
                    o == 'step' and x != 3 for o, x in pre):
                # a step was taken since the last question
                continue
            if op == ('reset', None) and pre[-1:] == (op,):
                continue
            if op[0] == 'ask':
                nxt = True
            elif op[0] == 'step':
                # an accepted or refused step: ask again unless unknown
                nxt = asked
            else:
                nxt = False
            for q in rec(pre + (op,), nxt):
                yield q
    return rec((), False)


def valid(script):
    """Drops sequences with two steps on known observations since one
    question (the second would repeat an action never proposed)."""
    steps = None
    for op, x in script:
        if op == 'ask':
            steps = 0
        elif op == 'reset':
            steps = None
        elif steps is not None:
            if steps == 1:
                return False
            if x != 3:
                steps += 1
    return True


def run(ctx):
    ctx.assumptions = ['at most one step on a known observation per question, '
                       'refused or not, except for retries after a refusal '
                       'in dedicated scripts']
    ms = list(models())
    T = ctx.thorough

    def go(name, m, table, cfg, depth, counts):
        for s in scripts(depth, counts):
            # only complete sequences: prefixes are observed on the way
            if len(s) == depth and valid(s):
                ctx.run_case(check_script, [name, cfg, s], ctx, name, m,
                             table, cfg, s)
    for name, m, table in ms:
        deep = 5 if T and name != 'spread' else 4
        for shared in (False, True):
            go(name, m, table, {'shared': shared}, deep, (None, 0))
        go(name, m, table, {'belief': 'particle'}, deep, (None, 0))
        for blocked in (((0, 0),), ((0, 1), (1, 0))):
            go(name, m, table, {'blocked': blocked}, ctx.pick(3, 4), (None,))
        go(name, m, table, {'horizon': 2, 'iterations': 2, 'generator': 1},
           2, (None,))
        if name != 'spread':
            go(name, m, table, {'horizon': 2, 'generator': 1}, 3, (None,))
            go(name, m, table, {'horizon': 3}, 2, (None, 2))
    # long histories
    for name, m in [(n, m) for n, m, _ in ms] + [
            ('big%d' % k, big(*(d + (k,)))) for k, d in enumerate(
                [(3, 2, 3), (6, 4, 3), (12, 3, 12), (4, 12, 2)])]:
        for cfg in ({'horizon': 1}, {'horizon': 3, 'iterations': 30},
                    {'horizon': 2, 'turns': 3}, {'horizon': 4, 'shared': 1}):
            for steps in (6, 20) + ((55,) if cfg == {'horizon': 1} else ()):
                ctx.run_case(long_walk, ['deep', name, cfg, steps], ctx, name, m,
                             steps, cfg)
    # retries after refused steps
    for name, m, table in ms:
        for x, y in itertools.product(range(4), repeat=2):
            for cfg in ({}, {'belief': 'particle'}, {'blocked': ((0, 0),)},
                        {'shared': True}):
                ctx.run_case(retry, ['retry', name, cfg, x, y], ctx, name, m,
                             table, cfg, x, y)
    for name, m, _ in ms:
        for shared in (False, True):
            for k in range(ctx.pick(4, 5)):
                ctx.run_case(lookup, ['lookup', name, shared, k], ctx, name,
                             m, shared, k)
    for n in (0, 1, 2, 5):
        ctx.run_case(visits, ['visits', n], ctx, ms[1][1], ms[1][2], n)
    runner_cases(ctx, [(n, m) for n, m, _ in ms])
    for b in dists(2, 4):
        ctx.run_case(reset_to, ['reset to', [str(x) for x in b]], ctx,
                     ms[1][1], ms[1][2], b)
    ctx.run_case(bad_horizon, ['bad horizon'], ctx, ms[0][1], ms[0][2])


class Cycle(POMDP):
    """Exact model; the simulator goes through the possible outcomes."""
    k = 0

    def sample_transition(self, a, s):
        self.k += 1
        live = np.flatnonzero(self.T[a, s])
        s2 = int(live[self.k * 5 // 3 % len(live)])
        live = np.flatnonzero(self.O[a, s2])
        o = int(live[self.k * 7 // 4 % len(live)])
        return s2, o, self.R[a, s, s2, o]


def long_walk(ctx, name, m, steps, cfg):
    """Long histories: at each step the action proposed, then the first, a
    middle or the last possible observation (all combinations)."""
    T, O = m.arrays()[:2]
    info = {'model': name, 'steps': steps, 'config': cfg}
    it = cfg.get('iterations', m.na)

    def walk():
        p = m.real(cls=Cycle)
        pol = POMCPPolicyRunner(p, iterations=it, horizon=cfg['horizon'],
                                exploration=1., logger=lambda *a: None,
                                belief_values=cfg.get('shared', False))
        for turn in range(cfg.get('turns', 1)):
            if turn:
                pol.reset()
            hist, b = [], np.array([float(x) for x in m.start])
            for k in range(steps):
                at = pol.tree.get_node(list(hist))
                above = [pol.tree.get_node(hist[:2 * i]).n_simulations
                         for i in range(k)]
                n = at.n_simulations
                a = list(p.actions).index(pol.get_action())
                ctx.trans()
                if not cfg.get('shared'):
                    ctx.eq(at.n_simulations, n + it, 'searches from the '
                           'current history at step %d' % k, info)
                    ctx.eq([pol.tree.get_node(hist[:2 * i]).n_simulations
                            for i in range(k)], above, 'searches from '
                           'earlier histories at step %d' % k, info)
                w = b.dot(T[a])[:, None] * O[a]
                pos = [o for o in range(m.no) if w[:, o].sum() > 1e-12]
                pos = sorted(set(pos[i] for i in (0, len(pos) // 2, -1)))
                o = pos[int(np.random.choice(len(pos)))]
                pol.step(p.observations[o])
                hist += [a, o]
                b = w[:, o] / w[:, o].sum()
                ctx.eq([int(x) for x in pol.history], hist, 'history', info)
                ctx.ensure(np.allclose(pol.belief.array, b, atol=1e-9),
                           'belief %r instead of %r after %r' % (
                               pol.belief.array, b, hist), info)
                ctx.ensure(np.allclose(pol.tree.get_node(
                    list(hist)).belief.array, b, atol=1e-9),
                    'node of history %r' % hist, info)
            ctx.state((name, str(cfg), tuple(hist)))
            pol.reset()
            ctx.eq(list(pol.history), [], 'history after reset', info)
            ctx.ensure(close(pol.belief.array, m.start),
                       'belief after reset', info)
    for _ in bounded(walk, 99, ctx.pick(80, 400) if steps < 50 else 9):
        ctx.trace()


def retry(ctx, name, m, table, cfg, x, y):
    """After a refused step, the right observation is still accepted."""
    from ..randomness import explore

    def real():
        p = m.real(cls=Sim)
        p.table = table
        p.blocked = cfg.get('blocked', ())
        kw = {'belief_params': {'n_particles': 1}} \
            if cfg.get('belief') else {}
        pol = POMCPPolicyRunner(p, iterations=1, horizon=1, exploration=1.,
                                belief=cfg.get('belief', 'array'),
                                belief_values=cfg.get('shared', False),
                                logger=lambda *a: None, **kw)
        a = m.actions.index(pol.get_action())
        out = []
        for o in (x, y):
            before = (list(pol.history), list(pol.belief.array))
            try:
                pol.step(BAD if o == 3 else m.observations[o])
            except Exception:
                ctx.eq((list(pol.history), list(pol.belief.array)), before,
                       'refused step changed the policy', [name, cfg, x, y])
                out.append(False)
            else:
                return a, o, tuple(pol.history), tuple(pol.belief.array)
        return a, None, tuple(pol.history), tuple(pol.belief.array)
    for (a, o, hist, b), pr, _ in explore(real):
        ctx.trans()
        if cfg.get('belief'):
            continue
        ok = [q for q in (x, y) if q != 3 and
              (a, q) not in cfg.get('blocked', ()) and
              m.step(m.start, a, q) is not None]
        info = {'model': name, 'config': cfg, 'observations': [x, y],
                'action': a}
        if ok:
            ctx.eq(o, ok[0], 'observation accepted', info)
            ctx.eq(hist, (a, ok[0]), 'history', info)
            ctx.ensure(close(b, m.step(m.start, a, ok[0])), 'belief', info)
        else:
            ctx.eq(o, None, 'observation accepted', info)
            ctx.eq(hist, (), 'history', info)
            ctx.ensure(close(b, m.start), 'belief', info)
    ctx.trace()


def lookup(ctx, name, m, shared, steps):
    """Looking up a history in a fresh tree: the node and all nodes on the
    way have the beliefs of their histories."""
    for hist in itertools.product(*([range(m.na), range(3)] * steps)):
        for tail in ((),) + tuple((a,) for a in range(m.na)):
            p = m.real()
            tree = POMCPPolicyRunner(p, iterations=2, horizon=2,
                                     belief_values=shared,
                                     logger=lambda *a: None).tree
            pairs = [(hist[i], hist[i + 1]) for i in range(0, 2 * steps, 2)]
            bel = [tuple(m.start)]
            for a, o in pairs:
                b = bel[-1] and m.step(bel[-1], a, o)
                bel.append(b and tuple(b))
            info = [name, shared, hist + tail]
            ctx.trans()
            ctx.states_n(1)
            try:
                node = tree.get_node(list(hist + tail))
            except Exception:
                ctx.ensure(bel[-1] is None, 'possible history refused', info)
                continue
            ctx.ensure(bel[-1] is not None, 'impossible history accepted',
                       info)
            ctx.ensure(node is tree.get_node(hist + tail),
                       'two nodes for one history', info)
            if tail:
                ctx.ensure(node is tree.get_node(hist).safe_get_child(tail[0]),
                           'action node of another history', info)
            for k in range(steps + 1):
                n = tree.get_node(list(hist[:2 * k]))
                ctx.ensure(close(n.belief.array, bel[k]), 'belief %r after %r '
                           'instead of %s' % (n.belief.array, hist[:2 * k],
                                              [str(x) for x in bel[k]]), info)
                ctx.eq(n.n_simulations, 0, 'visits of a node only looked up',
                       info)
                for j in range(k):
                    o = tree.get_node(list(hist[:2 * j]))
                    if not shared:
                        ctx.ensure(o is not n, 'one node for two histories',
                                   info)
                    elif o is n:
                        ctx.ensure(close(o.belief.array, bel[k]), 'shared',
                                   info)
    ctx.trace()


def visits(ctx, m, table, n):
    """Larger numbers of searches: counted exactly."""
    for how in ('default', 'asked'):
        p = m.real(cls=Sim)
        p.table = table
        pol = POMCPPolicyRunner(p, iterations=n if how == 'default' else 3,
                                horizon=2, exploration=1.,
                                logger=lambda *a: None)
        for k in (1, 2):
            scripted(lambda: pol.get_action(
                **({} if how == 'default' else {'iterations': n})), ())
            ctx.trans(n)
            ctx.eq(pol.tree.root.n_simulations, k * n,
                   'searches after asking %d times' % k, [how, n])
    ctx.states_n(2)


def bad_horizon(ctx, m, table):
    p = m.real(cls=Sim)
    for h in (1.5, 'x', None):
        try:
            POMCPPolicyRunner(p, horizon=h, logger=lambda *a: None)
        except ValueError:
            continue
        ctx.fail('invalid horizon %r accepted' % (h,), h)
    # any integer is one
    for h in (1, 2, 5):
        for t in (int, np.int64, np.int32, np.uint8):
            q = m.real(cls=Logged)
            q.log = []
            pol = POMCPPolicyRunner(q, horizon=t(h), logger=lambda *a: None)
            scripted(lambda: pol.get_action(iterations=1), ())
            ctx.trans()
            ctx.eq(len(q.log), h, 'transitions of one simulation',
                   [h, t.__name__])


def reset_to(ctx, m, table, b):
    """Resetting to a given belief is refused or done."""
    p = m.real(cls=Sim)
    p.table = table
    arr = np.array([float(x) for x in b])
    for asked in (0, 1):
        pol = POMCPPolicyRunner(p, iterations=2, horizon=2, exploration=1.,
                                logger=lambda *a: None)
        for _ in range(asked):
            scripted(pol.get_action, ())
        ctx.trans()
        try:
            pol.reset(belief=arr.copy())
        except Exception:
            continue
        ctx.ensure(close(pol.belief.array, b), 'belief after reset to %r: %r'
                   % (arr, pol.belief.array), None)
