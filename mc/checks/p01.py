"""P01: search-tree statistics."""
import itertools
from fractions import Fraction as F

import numpy as np

from task_models.lib.pomdp import POMDP
from task_models.lib.belief import MaxSamplesReached
from task_models.lib.pomcp import (POMCPPolicyRunner, _SearchTree, _ValueAverage,
                                   NTransitionsHorizon,
                                   _ObservationLookupSearchTree)

from ..models import Model, big
from ..randomness import distribution, dist_diff, bounded, scripted
from ..uct import RefTree, Replay, Mismatch, snap_ref, snap_real, Avg, same

H, Z = F(1, 2), F(0)
ONE = F(1)


class Sim(POMDP):
    """Real model counting simulations; belief updates listed in `blocked`
    fail as if particles could not be sampled."""
    calls = 0
    blocked = ()

    def sample_transition(self, a, s):
        self.calls += 1
        return POMDP.sample_transition(self, a, s)

    def belief_update(self, a, o, b):
        if (int(a), int(o)) in self.blocked:
            raise MaxSamplesReached(a, o, b)
        return POMDP.belief_update(self, a, o, b)


def det(k):
    """A distribution certain of k, over 2."""
    return (ONE, Z) if k == 0 else (Z, ONE)


def models():
    u = (H, H)
    out = []
    # deterministic
    out.append(('det', Model(((det(1), det(0)), (det(0), det(1))),
                             ((det(0), det(1)), (det(1), det(1))),
                             det(0), discount=.5)))
    # deterministic, one observation
    out.append(('blind', Model(((det(1), det(0)), (det(0), det(0))),
                               (((ONE,), (ONE,)), ((ONE,), (ONE,))),
                               det(1), discount=1.)))
    # random observations
    out.append(('noisy', Model(((det(1), det(0)), (det(0), det(1))),
                               ((u, det(1)), (u, u)), det(0), discount=.5)))
    # random transitions and start, observed
    out.append(('random', Model(((u, det(0)), (det(1), u)),
                                ((det(0), det(1)), (det(0), det(0))),
                                u, discount=.75)))
    # one action
    out.append(('single', Model((((F(1, 4), F(3, 4)), u),),
                                (((F(1, 4), F(3, 4)), det(1)),), det(0),
                                discount=.9)))
    # one action, an uncertain state that never changes nor shows
    out.append(('hidden', Model(((det(0), det(1)),), (((ONE,), (ONE,)),), u,
                                discount=1., R=[[[[float(s)]] * 2
                                                 for s in range(2)]])))
    # three actions, equal rewards for two of them
    R = [[[[float(3 * (a > 0) - s)] for _ in range(2)] for s in range(2)]
         for a in range(3)]
    out.append(('three', Model(tuple((det(a % 2), det(1)) for a in range(3)),
                               tuple(((ONE,), (ONE,)) for _ in range(3)),
                               det(0), discount=.5, R=R)))
    return out


def scripts(n, deeper):
    """Series of searches: list of (history, action or None)."""
    return [((), None)] * n


def case(ctx, name, m, horizon, series, cfg, blocked=()):
    p = m.real(cls=Sim)
    p.blocked = blocked
    alpha = cfg.get('alpha')
    shared = cfg.get('shared', False)

    def real():
        p.calls = 0
        gen = NTransitionsHorizon.generator(p, n=horizon)
        kw = {} if alpha is None else {'node_params': {'alpha': alpha}}
        cls = _ObservationLookupSearchTree if shared else _SearchTree
        t = cls(p, gen, cfg['c'], relative_exploration=cfg['rel'],
                rollout_it=cfg['rollouts'], **kw)
        for hist, a in series:
            node = t.get_node(list(hist))
            if a is None:
                t.simulate_from_node(node)
            else:
                t.simulate_from_node(node, action=a)
        return snap_real(t.root, set() if shared else None), p.calls

    def ref():
        t = RefTree(m, horizon, cfg['c'], cfg['rel'], cfg['rollouts'],
                    .001 if alpha is None else alpha, shared,
                    lambda a, o, b: (a, o) in blocked)
        for hist, a in series:
            t.search(t.node(hist), a)
        return snap_ref(t.root, set() if shared else None), t.calls
    got = distribution(real, max_runs=10 ** 6, stats=ctx)
    want = distribution(ref, max_runs=10 ** 6)
    for k in got:
        ctx.state((name, k))
    ctx.trace(len(got))
    d = dist_diff(got, want)
    if d is not None:
        # give the closest description
        bad = [k for k in got if k not in want][:1]
        ctx.fail('search statistics: %s; possible ones e.g. %r, impossible '
                 'one: %r' % (d, list(want)[:1], bad),
                 {'model': repr(m), 'horizon': horizon, 'series': series,
                  'config': cfg, 'blocked': blocked})
    ctx.sample([name, horizon, len(series), len(got)])


def case_hidden(ctx, m, belief, params, h, n):
    """A simulation keeps the state it started from: in a model where the
    state never changes and is worth its number, the k-th search is k times
    the same state, followed by a rollout of the rest from any other."""
    info = ['hidden', belief, params, h, n]

    def real():
        p = m.real(cls=Sim)
        t = _SearchTree(p, NTransitionsHorizon.generator(p, n=h), 1.,
                        belief=belief, belief_params=params,
                        node_params={'alpha': 0})
        total = 0.
        for k in range(1, n + 1):
            t.simulate_from_node(t.root)
            ctx.eq(t.root.n_simulations, k, 'visits', info)
            new = t.root.value * k
            ok = {k * s + (h - k) * s2 if k < h else h * s
                  for s in (0, 1) for s2 in (0, 1)}
            ctx.ensure(any(abs(new - total - x) < 1e-9 for x in ok),
                       'search %d: return %r, possible ones %s' % (
                           k, new - total, sorted(ok)), info)
            total = new
            ctx.trans()
    for _ in bounded(real, ctx.pick(7, 12), ctx.pick(300, 5000)):
        pass
    ctx.trace()


class Logged(Sim):
    log = ()

    def sample_transition(self, a, s):
        r = Sim.sample_transition(self, a, s)
        self.log.append((int(a), int(s), int(r[0]), int(r[1]), float(r[2])))
        return r


def case_long(ctx, name, m, horizon, series, cfg, blocked, depth, every=3,
              runs=None):
    """Longer searches: all outcomes of the first draws; each search is
    followed by the reference, simulation by simulation."""
    info = {'model': name, 'horizon': horizon, 'searches': len(series),
            'config': cfg, 'blocked': blocked}
    shared = cfg.get('shared', False)
    alpha = cfg.get('alpha')

    def real():
        p = m.real(cls=Logged)
        p.blocked, p.log = blocked, []
        gen = NTransitionsHorizon.generator(p, n=horizon)
        kw = {} if alpha is None else {'node_params': {'alpha': alpha}}
        cls = _ObservationLookupSearchTree if shared else _SearchTree
        t = cls(p, gen, cfg['c'], relative_exploration=cfg['rel'],
                rollout_it=cfg['rollouts'], **kw)
        ref = Replay(m, horizon, cfg['c'], cfg['rel'], cfg['rollouts'],
                     .001 if alpha is None else alpha, shared,
                     lambda a, o, b: (a, o) in blocked)
        for i, (hist, a) in enumerate(series):
            node = t.get_node(list(hist))
            if a is None:
                t.simulate_from_node(node)
            else:
                t.simulate_from_node(node, action=a)
            ref.log = p.log
            try:
                ref.search(ref.node(hist), a)
            except Mismatch as e:
                ctx.fail('search %d: %s' % (i, e), info)
            ctx.eq(ref.at, len(p.log), 'simulations in search %d' % i, info)
            ctx.trans()
            if i % every == every - 1 or i == len(series) - 1:
                x = snap_real(t.root, set() if shared else None)
                ctx.state((name, x))
                ctx.ensure(same(x, snap_ref(
                    ref.root, set() if shared else None)),
                           'statistics after search %d' % i, info)
    for _ in bounded(real, depth, runs or ctx.pick(12, 150)):
        pass
    ctx.trace()


def case_runner(ctx, name, m, kw, asks, depth=5, runs=None):
    """The searches of a policy runner are those of its parameters: horizon,
    exploration, rollouts, sharing of values, number of searches."""
    info = ['runner', name, sorted(kw), asks]
    shared = kw.get('belief_values', False)

    def real():
        p = m.real(cls=Logged)
        p.log = []
        pol = POMCPPolicyRunner(p, logger=lambda *a: None, **kw)
        ref = Replay(m, kw['horizon'], kw['exploration'],
                     kw.get('relative_exploration', False),
                     kw.get('rollout_it', 1), .001, shared)
        hist = []
        for k, n in enumerate(asks):
            a = pol.get_action() if n is None else pol.get_action(
                iterations=n)
            a = list(pol.actions).index(a)
            ref.log = p.log
            node = ref.node(hist)
            try:
                for _ in range(kw['iterations'] if n is None else n):
                    ref.search(node)
            except Mismatch as e:
                ctx.fail('question %d: %s' % (k, e), info)
            ctx.eq(ref.at, len(p.log), 'simulations for question %d' % k,
                   info)
            ctx.trans()
            x = snap_real(pol.tree.root, set() if shared else None)
            ctx.state((name, x))
            ctx.ensure(same(x, snap_ref(ref.root, set() if shared else None)),
                       'statistics after question %d' % k, info)
            o = [o for o in range(m.no) if m.step(node.belief, a, o)][-1]
            pol.step(pol.observations[o])
            hist += [a, o]
    for _ in bounded(real, depth, runs or ctx.pick(10, 100)):
        pass
    ctx.trace()


def runner_cases(ctx, ms):
    """All combinations of the parameters of the runner."""
    for h, it, rel, rolls, shared, c in itertools.product(
            (1, 3), (1, 7), (False, True), (1, 2, 4), (False, True),
            (.5, 40.)):
        for k, (name, m) in enumerate(ms):
            if (h + it + rel + rolls + shared + k) % ctx.pick(2, 1):
                continue
            if shared and name not in ('det', 'blind', 'noisy', 'loops'):
                continue   # equal beliefs may differ by rounding
            kw = {'horizon': h, 'iterations': it, 'exploration': c,
                  'relative_exploration': rel, 'rollout_it': rolls,
                  'belief_values': shared}
            ctx.run_case(case_runner, ['runner', name, kw], ctx, name, m, kw,
                         (None, 4, None))


def case_counts(ctx, m, belief, params, h, it):
    """Simulated transitions of a runner grow by the length of a rollout for
    each one asked, whatever the beliefs."""
    info = ['counts', belief, h, it]
    p = m.real(cls=Logged)
    calls = []
    rolls = (1, 2, 3, 4, 8, 16)
    for k in rolls:
        p.log = []
        pol = POMCPPolicyRunner(p, iterations=it, horizon=h, exploration=1.,
                                rollout_it=k, belief=belief,
                                belief_params=params, logger=lambda *a: None)
        scripted(pol.get_action, ())
        calls.append(len(p.log))
        ctx.trans()
    # in a model of one outcome each search creates one node
    new = sum(h - d for d in range(1, it + 1) if d < h)
    ctx.eq([c - calls[0] for c in calls], [(k - 1) * new for k in rolls],
           'more simulations for %r rollouts' % (rolls,), info)
    ctx.states_n(1)
    ctx.trace()


def case_average(ctx, alpha, values):
    a, r = _ValueAverage(alpha=alpha), Avg(alpha)
    for v in values:
        a.update(v)
        r.add(v)
        ctx.trans()
        ctx.eq(a.n_simulations, r.n, 'count', [alpha, values[:99]])
        ctx.ensure(abs(a.value - r.v) < 1e-9 * (1 + abs(r.v)),
                   'average %r instead of %r' % (a.value, r.v),
                   [alpha, values[:99]])
    if alpha == 0:
        ctx.ensure(abs(a.value - sum(values) / max(1, len(values))) < 1e-9,
                   'plain average', [alpha, values])
    ctx.states_n(1)


def run(ctx):
    ctx.assumptions = ['at most 2-3 branches per draw; values compared to 9 '
                       'decimals; rollouts of a new node start from its '
                       'belief']
    for alpha in (0, 0., .001, .25, 1.):
        for n in range(0, 5):
            for vs in itertools.product((0., 1., -2.5), repeat=n):
                ctx.run_case(case_average, ['average', alpha, vs], ctx, alpha,
                             vs)
    for alpha in (0, .001):
        ctx.run_case(case_average, ['average', alpha, 'long'], ctx, alpha,
                     [float(k % 7 - 2) for k in range(22000)])
    ms = dict(models())
    base = {'c': 1., 'rel': False, 'rollouts': 1}

    def cfg(**kw):
        return dict(base, **kw)
    T = ctx.thorough
    jobs = []
    one = ((), None)
    for name in ms:
        for h in (0, 1):
            jobs.append((name, h, [one] * 2, cfg()))
        jobs.append((name, 1, [one] * (3 if name != 'random' or T else 2),
                     cfg(alpha=0)))
    for c, rel, al in itertools.product((0, 1., 100), (False, True),
                                        (0, .25)):
        k = cfg(c=c, rel=rel, alpha=al)
        jobs.append(('det', 3, [one] * (5 if T else 4), k))
        jobs.append(('blind', 2, [one] * (6 if T else 5), k))
        jobs.append(('three', 2, [one] * 4, k))
        jobs.append(('noisy', 2, [one] * (3 if T else 2), k))
    jobs.append(('det', 2, [one] * 4, cfg()))
    jobs.append(('blind', 4, [one] * 3, cfg()))
    jobs.append(('single', 2, [one] * (3 if T else 2), cfg()))
    jobs.append(('single', 3, [one] * 2, cfg()))
    jobs.append(('random', 2, [one] * (2 if T else 1), cfg()))
    jobs.append(('noisy', 3, [one], cfg()))
    for r in (2, 3):
        jobs.append(('det', 2, [one] * 2, cfg(rollouts=r)))
        jobs.append(('blind', 2, [one] * 3, cfg(rollouts=r)))
        jobs.append(('noisy', 2, [one], cfg(rollouts=r)))
        # uncertain beliefs: every rollout draws its start
        jobs.append(('random', 2, [one], cfg(rollouts=r, alpha=0)))
    for r in (2, 4, 6, ctx.pick(9, 13)):
        jobs.append(('hidden', 2, [one], cfg(rollouts=r, alpha=0)))
    jobs.append(('hidden', 3, [one] * 3, cfg(rollouts=3, alpha=0)))
    # forced actions
    for acts in itertools.product((None, 0, 1), repeat=3):
        jobs.append(('det', 2, [((), a) for a in acts], cfg()))
        jobs.append(('noisy', 1, [((), a) for a in acts], cfg(alpha=0)))
    # searches from deeper histories and back
    for s in ([one, ((0, 1), None), one], [((1, 1), None), one, one],
              [((0, 1, 1, 1), None), ((0, 1), None), one, one],
              [((0, 1), 1), ((0, 1), 0), one, ((0, 1), None), one]):
        for h in (1, 2):
            jobs.append(('det', h, s, cfg(alpha=.25)))
            jobs.append(('det', h, s, cfg(shared=True)))
    # shared beliefs
    for n in (2, 3, 4):
        jobs.append(('det', 3, [one] * n, cfg(shared=True, alpha=0)))
        jobs.append(('blind', 3, [one] * n, cfg(shared=True)))
    jobs.append(('noisy', 2, [one] * 2, cfg(shared=True)))
    for j in jobs:
        ctx.run_case(case, list(j), ctx, j[0], ms[j[0]], *j[1:])
    runner_cases(ctx, [(k, ms[k]) for k in ('det', 'blind', 'noisy')])
    one_way = Model((((ONE,),),), (((ONE,),),), (ONE,), discount=.5)
    for h in range(1, 6):
        for it in range(1, 5):
            for belief, params in (('array', {}),
                                   ('particle', {'n_particles': 3}),
                                   ('particle', {})):
                ctx.run_case(case_counts, ['counts', belief, params, h, it],
                             ctx, one_way, belief, params, h, it)
    # longer searches
    d = ctx.pick(3, 6)
    ms.update(('big%d' % k, big(*(dims + (k,)))) for k, dims in enumerate(
        [(3, 2, 3), (6, 4, 3), (12, 3, 12), (4, 12, 2)]))
    for name in ms:
        for h, n, kw in ((6, 40, {}), (3, 30, {'rollouts': 4}),
                         (4, 60, {'alpha': 0, 'rollouts': 2}),
                         (12, 20, {'rel': True, 'c': .5, 'rollouts': 5}),
                         (3, 12, {'rollouts': 25}), (2, 8, {'rollouts': 80}),
                         (5, 40, {'shared': True}),
                         (4, 40, {'c': 0, 'rel': True}),
                         (2, ctx.pick(150, 400), {'c': 100}),
                         (40, 12, {})):
            if kw.get('shared') and name not in ('det', 'blind', 'noisy',
                                                 'three'):
                continue   # equal beliefs may differ by rounding
            ctx.run_case(case_long, ['long', name, h, n, kw], ctx, name,
                         ms[name], h, [one] * n, cfg(**kw), (), d)
        # searches from several histories
        m = ms[name]
        a, o = m.na - 1, next(o for o in range(m.no)
                              if m.step(m.start, m.na - 1, o))
        for h in (2, 5):
            ctx.run_case(case_long, ['histories', name, h], ctx, name, m, h,
                         [one, ((a, o), None), ((), 0), ((a, o), a)] * 6,
                         cfg(rollouts=3), (), d)
            ctx.run_case(case_long, ['blocked', name, h], ctx, name, m, h,
                         [one] * 25, cfg(), ((0, 0), (m.na - 1, m.no - 1)),
                         d)
    # very long searches: few orders, many visits
    for name in ('blind', 'three', 'noisy', 'single', 'big0'):
        for h, kw in ((1, {}), (2, {'alpha': .25, 'c': 1.}),
                      (2, {'alpha': 0, 'c': 1000.}),
                      (2, {'alpha': .01, 'rel': True, 'rollouts': 2})):
            ctx.run_case(case_long, ['many', name, h, kw], ctx, name,
                         ms[name], h, [one] * ctx.pick(2500, 12000),
                         cfg(**kw), (), 0, 250, 1)
    for h in range(1, 6):
        for n in (h, h + 2):
            for belief, params in (('array', {}),
                                   ('particle', {'n_particles': 2}),
                                   ('particle', {'n_particles': 5})):
                ctx.run_case(case_hidden, ['hidden', belief, params, h, n],
                             ctx, ms['hidden'], belief, params, h, n)
    # unsamplable successors
    for b in itertools.chain.from_iterable(itertools.combinations(
            [(0, 0), (0, 1), (1, 0), (1, 1)], r) for r in (1, 2)):
        for h in (1, 2):
            ctx.run_case(case, ['blocked', b, h], ctx, 'det', ms['det'], h,
                         [one] * 3, cfg(alpha=0), b)
            ctx.run_case(case, ['blocked noisy', b, h], ctx, 'noisy',
                         ms['noisy'], h, [one] * (3 - h), cfg(), b)
