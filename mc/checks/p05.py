"""P05: exported search trees."""
import itertools
import json
import math
import os
import shutil
import sys
import tempfile

import numpy as np

from task_models.lib.pomcp import POMCPPolicyRunner, export_pomcp
from task_models.lib.pomdp import Impossible

from ..models import big
from ..randomness import distribution, dist_diff, scripted, bounded
from ..uct import RefTree, ONode, Replay, snap_real, rnd_, same
from .p01 import Sim, Logged, models

QUOTIENT = {2: ((0, 1), (1, 0)), 3: ((1, 0, 1), (0, 1, 0))}


class Grouped(Sim):
    """Adds what grouped exports need."""
    htm_names = ['group A', 'group B']

    def _int_to_state(self, s=0):
        n = self.n_states

        class S(object):
            @staticmethod
            def belief_quotient(array):
                return np.array(QUOTIENT[n]).dot(array)
        return S()


def none_or(x):
    return None if x is None else rnd_(x)


# ---------------------------------------------------- canonical real exports
def canon(d, policy, seen, flat, ctx, info):
    """Canonical form of an exported node; with `seen`, nodes are collected
    in flat instead of nested."""
    ctx.ensure('node' in d and d['node'] is None, 'node field', info)
    b = tuple(rnd_(x) for x in d['belief'])
    head = (b, d['visits'], rnd_(d['value']))
    if seen is not None and b in seen:
        ctx.ensure(not d.get('children') and not d.get('observations') and
                   not d.get('actions'), 'belief expanded twice', info)
        return ('again',) + head
    if seen is not None:
        seen.add(b)
    if policy:
        obs, kids = d['observations'], d['children']
        ctx.eq(len(obs), len(kids), 'children per observation', info)
        ctx.eq(len(set(obs)), len(obs), 'repeated observation', info)
        for i, k in enumerate(kids):
            ctx.eq(k['observed'], i, 'position of observation', info)
        mine = head + (d['action'],
                       tuple(none_or(x) for x in d['values']),
                       tuple(none_or(x) for x in d['exploration_terms']),
                       tuple(d['child_visits']))
        sub = {o: canon(k, policy, seen, flat, ctx, info)
               for o, k in zip(obs, kids)}
        sub = tuple(sorted(sub.items()))
    else:
        ctx.eq(len(d['actions']), len(d['children']), 'children per action',
               info)
        ctx.eq(len(set(d['actions'])), len(d['actions']), 'repeated action',
               info)
        mine = head
        sub = []
        for a, k in zip(d['actions'], d['children']):
            obs, kids = k['observations'], k['children']
            ctx.eq(len(obs), len(kids), 'children per observation', info)
            ctx.eq(len(set(obs)), len(obs), 'repeated observation', info)
            if k['visits'] == 0 and not kids:
                continue
            sub.append((a, k['visits'], rnd_(k['value']), tuple(sorted(
                (o, canon(q, policy, seen, flat, ctx, info))
                for o, q in zip(obs, kids)))))
        sub = tuple(sorted(sub))
    if seen is None:
        return mine + (sub,)
    flat.append(mine + (strip(sub),))
    return ('again',) + head


def strip(sub):
    return sub


def whole(d, policy, shared, ctx, info):
    seen, flat = (set(), []) if shared else (None, None)
    r = canon(d, policy, seen, flat, ctx, info)
    if policy:
        ctx.eq(d['observed'], None, 'observation of root', info)
    return (r, tuple(sorted(flat))) if shared else r


# ------------------------------------------------------------ reference
def ref_export(t, m, policy, shared, grouped):
    seen, flat = (set(), []) if shared else (None, None)

    def bel(b):
        if grouped:
            b = np.array(QUOTIENT[len(b)]).dot(np.array(
                [float(x) for x in b]))
        return tuple(rnd_(x) for x in b)

    def term(n, k):
        if k is None or k.n == 0:
            return None
        return rnd_(math.sqrt(math.log(n) / k.n))

    def go(n):
        head = (bel(n.belief), n.n, rnd_(n.v))
        if seen is not None:
            if n.belief in seen:
                return ('again',) + head
            seen.add(n.belief)
        if policy:
            a = t.choose(n, 0, False)
            mine = head + (
                m.actions[a],
                tuple(None if k is None or not k.n else rnd_(k.v)
                      for k in n.kids),
                tuple(term(n.n, k) for k in n.kids),
                tuple(0 if k is None else k.n for k in n.kids))
            kids = {} if n.kids[a] is None else n.kids[a].kids
            sub = tuple(sorted((m.observations[o], go(k))
                               for o, k in kids.items()))
        else:
            mine = head
            sub = tuple(sorted(
                (m.actions[a], k.n, rnd_(k.v), tuple(sorted(
                    (m.observations[o], go(q)) for o, q in k.kids.items())))
                for a, k in enumerate(n.kids)
                if k is not None and (k.n or k.kids)))
        if seen is None:
            return mine + (sub,)
        flat.append(mine + (sub,))
        return ('again',) + head
    r = go(t.root)
    return (r, tuple(sorted(flat))) if shared else r


def strict(path):
    def bad(x):
        raise ValueError('not JSON: ' + x)
    with open(path) as f:
        return json.load(f, parse_constant=bad)


def case(ctx, tmp, name, m, horizon, series, cfg, kind):
    shared = cfg.get('shared', False)
    policy = kind != 'values'
    info = {'model': name, 'horizon': horizon, 'series': series,
            'config': cfg, 'export': kind}
    p = m.real(cls=Grouped)
    path = os.path.join(tmp, 'out.json')

    def real():
        pol = POMCPPolicyRunner(p, iterations=1, horizon=horizon,
                                exploration=cfg.get('c', 1.),
                                relative_exploration=cfg.get('rel', False),
                                belief_values=shared, logger=lambda *a: None)
        t = pol.tree
        for hist, a in series:
            node = t.get_node(list(hist))
            if a != 'look':
                t.simulate_from_node(node, action=a)
        before = snap_real(t.root, set() if shared else None)
        if kind == 'values':
            d = t.to_dict()
        elif kind == 'policy':
            d = t.to_dict(as_policy=True)
        elif kind == 'trees':
            g = pol.trajectory_trees_from_starts()
            ctx.eq(list(g), ['graphs'], 'trees', info)
            ctx.eq(len(g['graphs']), 1, 'one tree', info)
            d = g['graphs'][0]
        else:
            if kind == 'file':
                export_pomcp(pol, path)
            else:
                export_pomcp(pol, path, belief_as_quotient=True)
            f = strict(path)
            ctx.eq(f['actions'], m.actions, 'actions of file', info)
            ctx.eq(f['states'], p.htm_names if kind == 'grouped'
                   else m.states, 'states of file', info)
            ctx.eq(f['exploration'], cfg.get('c', 1.), 'exploration', info)
            ctx.eq(f['relative_exploration'], cfg.get('rel', False),
                   'relative exploration', info)
            ctx.eq(len(f['graphs']), 1, 'one graph', info)
            d = f['graphs'][0]
        ctx.eq(snap_real(t.root, set() if shared else None), before,
               'tree after export', info)
        json.dumps(d, allow_nan=False)
        return whole(d, policy, shared, ctx, info)

    def ref():
        t = RefTree(m, horizon, cfg.get('c', 1.), cfg.get('rel', False),
                    shared=shared)
        for hist, a in series:
            n = t.node(hist)
            if a != 'look':
                t.search(n, a)
        return ref_export(t, m, policy, shared, kind == 'grouped')
    got = distribution(real, max_runs=10 ** 6, stats=ctx)
    want = distribution(ref, max_runs=10 ** 6)
    ctx.trace(len(got))
    for k in got:
        ctx.state((name, kind, k))
    d = dist_diff(got, want)
    if d is not None:
        bad = [k for k in got if k not in want][:1]
        good = [k for k in want if k not in got][:1]
        ctx.fail('export: %s; impossible %r; missing %r' % (d, bad, good),
                 info)
    ctx.sample([name, kind, horizon, len(series), len(got)])


def near(x, y):
    if x is None or y is None:
        return x is None and y is None
    return abs(x - y) <= 1e-6 * (1 + abs(y))


def matches(d, n, p, t, policy, ctx, info):
    """Exported node d is exactly the reference node n."""
    ctx.trans()
    ctx.eq(d['visits'], n.n, 'visits', info)
    ctx.ensure(near(d['value'], n.v), 'value %r instead of %r' % (
        d['value'], n.v), info)
    ctx.ensure(len(d['belief']) == len(n.belief) and all(
        near(x, float(y)) for x, y in zip(d['belief'], n.belief)),
        'belief', info)
    acts, obs = list(p.actions), list(p.observations)
    if policy:
        a = acts.index(d['action'])
        untried = [i for i, k in enumerate(n.kids) if k is None or not k.n]
        best = untried or [i for i, k in enumerate(n.kids) if near(
            k.v, max(q.v for q in n.kids))]
        ctx.ensure(a in best, 'action %r of %r' % (a, best), info)
        ctx.ensure(len(d['values']) == len(n.kids) and all(near(
            x, k.v if k is not None and k.n else None)
            for x, k in zip(d['values'], n.kids)), 'values', info)
        ctx.eq(d['child_visits'], [0 if k is None else k.n for k in n.kids],
               'visits per action', info)
        ctx.ensure(len(d['exploration_terms']) == len(n.kids) and all(near(
            x, math.sqrt(math.log(n.n) / k.n)
            if k is not None and k.n else None)
            for x, k in zip(d['exploration_terms'], n.kids)),
            'exploration terms', info)
        kids = {} if n.kids[a] is None else n.kids[a].kids
        ctx.eq(len(d['children']), len(d['observations']), 'children', info)
        ctx.eq(sorted(obs.index(o) for o in d['observations']), sorted(kids),
               'observations', info)
        for i, (o, k) in enumerate(zip(d['observations'], d['children'])):
            ctx.eq(k['observed'], i, 'position of observation', info)
            matches(k, kids[obs.index(o)], p, t, policy, ctx, info)
        return
    ctx.eq(len(d['children']), len(d['actions']), 'children', info)
    listed = {acts.index(a): k for a, k in zip(d['actions'], d['children'])}
    ctx.eq(len(listed), len(d['actions']), 'repeated action', info)
    for a, k in enumerate(n.kids):
        if k is None or not (k.n or k.kids):
            continue
        ctx.ensure(a in listed, 'action missing', info)
        q = listed[a]
        ctx.eq(q['visits'], k.n, 'visits of action', info)
        ctx.ensure(near(q['value'], k.v), 'value of action', info)
        ctx.eq(len(q['children']), len(q['observations']), 'children', info)
        ctx.eq(sorted(obs.index(o) for o in q['observations']),
               sorted(k.kids), 'observations', info)
        for o, x in zip(q['observations'], q['children']):
            matches(x, k.kids[obs.index(o)], p, t, policy, ctx, info)
    ctx.ensure(all(n.kids[a] is not None or not q['visits']
                   for a, q in listed.items()), 'action not tried', info)


class LongGrouped(Logged):
    htm_names = ['even', 'odd']

    def _int_to_state(self, s=0):
        class S(object):
            @staticmethod
            def belief_quotient(array):
                return np.array([array[::2].sum(), array[1::2].sum()])
        return S()


def regrouped(g, d, ctx, info):
    """The grouped export is the other one, with other beliefs."""
    b = d['belief']
    ctx.ensure(np.allclose(g['belief'], [sum(b[::2]), sum(b[1::2])]),
               'grouped belief', info)
    rest = ('belief', 'children', 'observations', 'observed', 'action')
    ctx.eq({k: v for k, v in g.items() if k not in rest},
           {k: v for k, v in d.items() if k not in rest},
           'grouped node', info)
    if g['action'] != d['action']:      # drawn among untried actions
        ctx.ensure(0 in d['child_visits'], 'other action', info)
        return
    ctx.eq(sorted(g['observations']), sorted(d['observations']),
           'observations of a grouped node', info)
    ctx.eq(len(g['children']), len(d['children']), 'children', info)
    ctx.trans()
    by = dict(zip(d['observations'], d['children']))
    for i, (o, k) in enumerate(zip(g['observations'], g['children'])):
        ctx.eq(k['observed'], i, 'position of observation', info)
        regrouped(k, by[o], ctx, info)


def case_long(ctx, tmp, name, m, horizon, n, width):
    """Larger trees: every export and map() against the followed search."""
    info = {'model': name, 'horizon': horizon, 'searches': n}
    path = os.path.join(tmp, 'long.json')

    def real():
        p = m.real(cls=LongGrouped)
        p.log = []
        pol = POMCPPolicyRunner(p, iterations=n, horizon=horizon,
                                exploration=1., logger=lambda *a: None)
        t = Replay(m, horizon, 1.)
        for _ in range(n):
            pol.tree.simulate_from_node(pol.tree.root)
            t.log = p.log
            t.search(t.root)
        before = snap_real(pol.tree.root)
        matches(pol.tree.to_dict(), t.root, p, t, False, ctx, info)
        matches(pol.tree.to_dict(as_policy=True), t.root, p, t, True, ctx,
                info)
        export_pomcp(pol, path)
        whole = strict(path)['graphs'][0]
        matches(whole, t.root, p, t, True, ctx, info)
        export_pomcp(pol, path, belief_as_quotient=True)
        regrouped(strict(path)['graphs'][0], whole, ctx, info)
        ctx.ensure(same(snap_real(pol.tree.root), before),
                   'tree after export', info)

        def fun(node):
            return {'n': node.n_simulations, 'v': rnd_(node.value)}

        def flat(d):
            kids = sorted(flat(k) for k in d['children'])
            return (d['n'], d['v'], tuple(
                k for k in kids if k[0] or k[2]))

        def flat_ref(k):
            kids = k.kids.values() if isinstance(k.kids, dict) else \
                [q for q in k.kids if q is not None]
            return (k.n, rnd_(k.v), tuple(q for q in sorted(
                flat_ref(q) for q in kids) if q[0] or q[2]))
        got = flat(pol.tree.map(fun))
        want = flat_ref(t.root)
        ctx.ensure(same(got, want), 'map over the tree', info)
        ctx.state((name, got))
    for _ in bounded(real, 99, width):
        ctx.trace()


def case_sharing(ctx, name, m, horizon, n):
    """Equal beliefs are one node, different ones are distinct."""
    p = m.real(cls=Sim)

    def real():
        pol = POMCPPolicyRunner(p, iterations=n, horizon=horizon,
                                exploration=1., belief_values=True,
                                logger=lambda *a: None)
        pol.get_action()
        by = {}
        beliefs = {}
        for length in range(0, 2 * horizon + 1, 2):
            for h in itertools.product(*([range(m.na), range(m.no)] *
                                         (length // 2))):
                b = m.posterior(m.start, list(zip(h[::2], h[1::2])))
                if b is None:
                    continue
                node = pol.tree.get_node(list(h))
                ctx.ensure(by.setdefault(tuple(b), node) is node,
                           'equal beliefs, different nodes',
                           [name, horizon, n, h])
                ctx.ensure(beliefs.setdefault(id(node), tuple(b)) == tuple(b),
                           'different beliefs, same node',
                           [name, horizon, n, h])
        return len(by)
    ctx.trans(len(distribution(real, max_runs=10 ** 6, stats=ctx)))
    ctx.states_n(1)


class Ring(object):
    """Fully observed ring; actions move by one, two or minus one."""
    moves = (1, 2, -1)
    actions = ['one', 'two', 'back']
    discount = .9

    def __init__(self, n):
        self.n_states = self.n_observations = n
        self.n_actions = len(self.moves)
        self.states = self.observations = list(range(n))
        self.start = np.eye(n)[0]

    def belief_update(self, a, o, b):
        new = np.roll(b, self.moves[a])
        if new[o] == 0:
            raise Impossible('impossible')
        return np.eye(self.n_states)[o]

    def sample_transition(self, a, s):
        s = (s + self.moves[a]) % self.n_states
        return s, s, float(s % 7)

    def sample_start(self):
        return 0


def case_ring(ctx, n, searches):
    """Many beliefs: each is still one node, however it was reached and
    whatever was visited in between."""
    m = Ring(n)
    info = [n, searches]

    def go():
        pol = POMCPPolicyRunner(m, iterations=1, horizon=6, exploration=1.,
                                belief_values=True, logger=lambda *a: None)
        by = {}

        def visit(hist, s):
            node = pol.tree.get_node(hist)
            ctx.eq(node.belief.to_list(), m.start.tolist() if s == 0 else
                   np.eye(n)[s].tolist(), 'belief', info + [s])
            ctx.ensure(by.setdefault(s, node) is node,
                       'equal beliefs, different nodes', info + [s])
            ctx.trans()
            if searches:
                for _ in range(searches):
                    pol.tree.simulate_from_node(node)
        for step, a in ((1, 0), (2, 1), (-1, 2)):
            for k in list(range(0, n, 9)) + [n - 1, n]:
                visit([x for i in range(k)
                       for x in (a, (i + 1) * step % n)], k * step % n)
        # every node below the root is the one of its belief
        seen, todo = set(), [pol.tree.root]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            s = int(np.argmax(x.belief.array))
            ctx.ensure(by.setdefault(s, x) is x,
                       'equal beliefs, different nodes', info + [s])
            for k in x.children:
                if k is not None:
                    for o in k.children:
                        todo.append(k.children[o])
        ctx.states_n(len(seen))
        before = snap_real(pol.tree.root, set())
        d = pol.trajectory_trees_from_starts(qvalue=True)['graphs'][0]
        done, todo = {}, [d]
        while todo:
            x = todo.pop()
            s = int(np.argmax(x['belief']))
            done[s] = done.get(s, 0) + (1 if x['actions'] else 0)
            for k in x['children']:
                todo.extend(k['children'])
        ctx.ensure(max(done.values()) <= 1, 'belief expanded twice', info)
        ctx.eq(sorted(done), sorted(set(by)), 'beliefs exported', info)
        ctx.eq(snap_real(pol.tree.root, set()), before,
               'tree after export', info)
    limit = sys.getrecursionlimit()
    sys.setrecursionlimit(20 * n + 5000)
    try:
        scripted(go, ())
    finally:
        sys.setrecursionlimit(limit)
    ctx.trace()


def case_supportive(ctx, tmp, n, prefix):
    """Files of the bundled grouped model."""
    from task_models.supportive import (SupportivePOMDP, AssembleLeg,
                                        AssembleLegToTop, NHTMHorizon)
    from task_models.task import (HierarchicalTask, SequentialCombination,
                                  LeafCombination)
    htm = HierarchicalTask(root=SequentialCombination(
        [LeafCombination(AssembleLeg('leg-1')),
         LeafCombination(AssembleLegToTop('leg-1'))], name='t'))
    model = SupportivePOMDP(htm.root)
    path = os.path.join(tmp, 'sup.json')
    info = {'searches': n, 'choices': prefix}

    def go():
        pol = POMCPPolicyRunner(
            model, iterations=n, horizon=NHTMHorizon.generator(model, n=1),
            exploration=10, belief='particle',
            belief_params={'n_particles': 2}, logger=lambda *a: None)
        pol.get_action()
        before = snap_real(pol.tree.root)
        export_pomcp(pol, path, belief_as_quotient=True)
        ctx.eq(snap_real(pol.tree.root), before, 'tree after export', info)
        return pol
    pol, _ = scripted(go, prefix)
    f = strict(path)
    ctx.eq(f['states'], [x.name for x in model.htm_nodes] +
           ['clean', 'final'], 'states', info)
    ctx.eq(f['actions'], model.actions, 'actions', info)
    shift = 1 + len(model.preferences) + len(model.objects)

    def walk(d, node, depth):
        ctx.trans()
        b = [0.] * model.n_htm_states
        for i, x in enumerate(node.belief.array):
            b[i >> shift] += x
        ctx.ensure(np.allclose(d['belief'], b), 'grouped belief', info)
        ctx.eq(d['visits'], node.n_simulations, 'visits', info)
        ctx.ensure(abs(d['value'] - node.value) < 1e-9, 'value', info)
        a = model.actions.index(d['action'])
        kids = node.children[a].children
        ctx.eq(sorted(d['observations']),
               sorted(model.observations[o] for o in kids), 'observations',
               info)
        for i, (o, k) in enumerate(zip(d['observations'], d['children'])):
            ctx.eq(k['observed'], i, 'position of observation', info)
            walk(k, kids[model.observations.index(o)], depth + 1)
    walk(f['graphs'][0], pol.tree.root, 0)
    ctx.trace()
    ctx.states_n(1)


def run(ctx):
    ctx.assumptions = ['order of listed observations and actions is free; '
                       'action nodes never simulated and leading nowhere may '
                       'or may not be listed in the value form']
    tmp = tempfile.mkdtemp(prefix='p05-')
    try:
        _run(ctx, tmp)
    finally:
        shutil.rmtree(tmp)


def _run(ctx, tmp):
    ms = dict(models())
    one = ((), None)
    T = ctx.thorough
    kinds = ('values', 'policy', 'trees', 'file', 'grouped')
    jobs = []
    for kind in kinds:
        for shared in (False, True):
            k = {'shared': shared}
            for n in range(0, 4 if T else 3):
                for name in ms:
                    if name == 'single' or n < 3:
                        for h in (1, 2) if n < 2 or T or name == 'det' \
                                else (1,):
                            if name == 'random' and n * h > 2:
                                continue
                            jobs.append((name, h, [one] * n, k))
            for n in (3, 4):
                jobs.append(('det', 1, [one] * n, k))
                jobs.append(('blind', 2, [one] * (n if T else 3), k))
            jobs.append(('single', 2, [one] * 3, k))
            jobs.append(('single', 4, [one], k))
            jobs.append(('det', 2, [((), 0), ((), 0), ((), 0)], k))
            jobs.append(('det', 3, [((), 1), ((), 1)], k))
            jobs.append(('noisy', 2, [((), 0), ((), 1)], k))
            jobs.append(('noisy', 1, [one] * 3, k))
            # looked-up nodes without searches
            jobs.append(('det', 2, [((0, 1), 'look'), one], k))
            jobs.append(('det', 1, [((0, 1, 1, 1), 'look'), one], k))
            jobs.append(('det', 2, [((0, 1), None), one], k))
            jobs.append(('noisy', 1, [((1, 0), None), ((1, 1), 'look'), one],
                         k))
        jobs.append(('det', 1, [one] * 3, {'c': 7.5, 'rel': True}))
        for j in jobs:
            ctx.run_case(case, [kind] + list(j), ctx, tmp, j[0], ms[j[0]],
                         j[1], j[2], j[3], kind)
        jobs = []
    for name in ('det', 'blind', 'noisy', 'single', 'three'):
        for h in (1, 2):
            for n in (0, 1, 2):
                if name in ('noisy', 'single', 'three') and n * h > 2 \
                        and not T:
                    continue
                ctx.run_case(case_sharing, ['sharing', name, h, n], ctx,
                             name, ms[name], h, n)
    for n in ctx.pick((12, 280), (12, 280, 700)):
        for k in (0, 3):
            ctx.run_case(case_ring, ['ring', n, k], ctx, n, k)
    for name in ('det', 'noisy', 'single'):
        for n in range(0, 4):
            ctx.run_case(case_map, ['map', name, n], ctx, name, ms[name],
                         2 if n < 3 and name != 'noisy' else 1, n)
    for name in ('det', 'blind'):
        # nodes looked up and not searched
        for h in itertools.product(range(2), range(2), range(2), range(2)):
            m = ms[name]
            if max(h[1::2]) < m.no and m.posterior(
                    m.start, [h[:2], h[2:]]) is not None:
                for n in (0, 1, 3):
                    ctx.run_case(case_map, ['map', name, h, n], ctx, name, m,
                                 1, n, (h[:2], h))
    ms.update(('big%d' % k, big(*(dims + (k,)))) for k, dims in enumerate(
        [(3, 2, 3), (6, 4, 3), (12, 3, 14), (4, 12, 2)]))
    for name in ms:
        for h, n in ((2, 60), (5, 30), (1, 200)):
            ctx.run_case(case_long, ['long', name, h, n], ctx, tmp, name,
                         ms[name], h, n, ctx.pick(8, 80))
    for n in (1, 3, 10, 30):
        for pre in itertools.product(range(2), repeat=ctx.pick(3, 6)):
            ctx.run_case(case_supportive, ['supportive', n, pre], ctx, tmp,
                         n, pre)


def case_map(ctx, name, m, horizon, n, looks=()):
    """map() applies the function to each node once, children joined."""
    p = m.real(cls=Sim)

    def fun(node):
        b = getattr(node, 'belief', None)
        return (None if b is None else tuple(rnd_(x) for x in b.array),
                node.n_simulations, rnd_(node.value))

    def join(r, kids):
        kids = tuple(sorted(kids, key=repr))
        return r + (tuple(k for k in kids
                          if k[0] is not None or k[1] or k[3]),)

    def real():
        pol = POMCPPolicyRunner(p, iterations=n, horizon=horizon,
                                exploration=1., logger=lambda *a: None)
        for h in looks:
            pol.tree.get_node(list(h))
        for _ in range(n):
            pol.tree.simulate_from_node(pol.tree.root)
        return pol.tree.map(fun, join)

    def ref():
        t = RefTree(m, horizon, 1.)
        for h in looks:
            t.node(h)
        for _ in range(n):
            t.search(t.root)

        def go(x):
            if isinstance(x, ONode):
                return join((tuple(rnd_(q) for q in x.belief), x.n,
                             rnd_(x.v)), [go(k) for k in x.kids
                                          if k is not None])
            return join((None, x.n, rnd_(x.v)),
                        [go(k) for k in x.kids.values()])
        return go(t.root)
    got = distribution(real, stats=ctx)
    d = dist_diff(got, distribution(ref))
    ctx.states_n(len(got))
    ctx.ensure(d is None, 'map: %s' % d, [name, horizon, n, looks])
