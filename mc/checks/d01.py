"""D01: translation of hierarchical tasks to communication models."""
import itertools
import math

import numpy as np

from task_models.task import (HierarchicalTask, LeafCombination,
                              SequentialCombination, AlternativeCombination,
                              ParallelCombination)
from task_models.task_to_pomdp import HTMToPOMDP, CollaborativeAction

from ..trees import shapes, build, show, linearisations, n_leaves
from ..trees import expanded_leaves, skew, LARGE, LARGER

OBS = ['none', 'yes', 'no', 'error']


class Flat(object):
    """Reference step automaton of a (real) hierarchy: leaves in depth-first
    order, with distribution over successors, entry distribution, and the
    leaves that come later in every execution through a leaf."""

    def __init__(self, root):
        self.leaves = []
        self.succ = []      # {leaf or None: proba}
        self.after = []     # set of leaves (None = end)
        self.entry = self._add(root, {None: 1.}, frozenset([None]))

    def _add(self, node, succ, after):
        if isinstance(node, LeafCombination):
            k = len(self.leaves)
            self.leaves.append(node)
            self.succ.append(succ)
            self.after.append(after)
            return {k: 1.}
        if isinstance(node, ParallelCombination):
            node = node.to_alternative()
        if isinstance(node, AlternativeCombination):
            out = {}
            for c in node.children:
                for k, p in self._add(c, succ, after).items():
                    out[k] = out.get(k, 0.) + p / len(node.children)
            return out
        assert isinstance(node, SequentialCombination)
        first = len(self.leaves)
        # depth-first numbering: numbers of leaves are known before hand
        starts = []
        k = first
        for c in node.children:
            starts.append(k)
            k += expanded_leaves(c)
        starts.append(k)
        entries = [entry(c, s) for c, s in zip(node.children, starts)]
        for i, c in enumerate(node.children):
            nxt = entries[i + 1] if i + 1 < len(entries) else succ
            aft = after | frozenset(range(starts[i + 1], starts[-1]))
            got = self._add(c, nxt, aft)
            assert got == entries[i] and len(self.leaves) == starts[i + 1]
        return entries[0]

    def words(self):
        """All executions as sequences of leaf numbers."""
        out = set()
        todo = [((k,), k) for k in self.entry]
        while todo:
            w, k = todo.pop()
            for n in self.succ[k]:
                if n is None:
                    out.add(w)
                else:
                    todo.append((w + (n,), n))
        return out


def entry(node, first):
    """Entry distribution of a node whose first leaf has number first."""
    if isinstance(node, LeafCombination):
        return {first: 1.}
    if isinstance(node, ParallelCombination):
        node = node.to_alternative()
    if isinstance(node, SequentialCombination):
        return entry(node.children[0], first)
    out = {}
    n = len(node.children)
    for c in node.children:
        for k, p in entry(c, first).items():
            out[k] = out.get(k, 0.) + p / n
        first += expanded_leaves(c)
    return out


def radix(leaf):
    return leaf.action.name.lower().replace(' ', '-')


def data(leaf, make):
    """Action of the task that a (possibly copied) leaf stands for."""
    return make(LETTERS.index(leaf.action.name[3]))


LETTERS = ('abcdefghijklmnopqrstuvwxyz0123456789'
           'αβγδεζηθικλμνξοπρστυφχψω')


def make_leaf(i):
    return CollaborativeAction(
        'Do ' + LETTERS[i], (3. + i, 2. - .25 * i, 5. + 2 * i),
        fail_probability=[.1, .25, 0., .5][i % 4],
        no_probability=[.2, 0., .5, .125][i % 4])


def usual_leaf(i):
    """One of the probabilities is the usual one."""
    return CollaborativeAction(
        'Do ' + LETTERS[i], (4. + i, 1.5, 6.),
        fail_probability=[.1, .3, .05, .1][i % 4],
        no_probability=[.35, .1, .1, .9][i % 4])


def odd_leaf(i):
    """Extreme durations and probabilities."""
    return CollaborativeAction(
        'Do ' + LETTERS[i] + ' The_part.%d' % i, [(.05, 40., 3.), (5000., .5, 250.), (.4, 9., 2.),
                             (100., 1e-3, 0.)][i % 4],
        fail_probability=[.9995, 1., .0004, .5][i % 4],
        no_probability=[.0004, 1., .9996, 0.][i // 2 % 4])


def expected(flat, make, tm, deterministic, structured, loop, rstate, sub):
    """make(i): action number i; or None (then taken from the leaves)."""
    t_wait, t_ask, t_tell, intr, end_r = tm
    n = len(flat.leaves)
    rad = [radix(x) for x in flat.leaves]
    states = [p + r for r in rad for p in ('init-', 'H-', 'R-')]
    if rstate:
        states.append('end-reward')
    states.append('end')
    actions = ['wait'] + [p + r for r in rad for p in (
        'phy-', 'com-ask-intention-', 'com-tell-intention-',
        'com-ask-finished-')]
    obs = OBS + (['done'] if loop or rstate else [])
    ns, na, no = len(states), len(actions), len(obs)
    END = ns - 1
    FIN = ns - 2 if rstate else ns - 1     # reached at the end of the task
    dur = [t_wait]
    origs = [data(x, make) if make else x.action for x in flat.leaves]
    for x in origs:
        dur += [x.durations[2], t_ask, t_tell, t_ask]

    def dist(succ):
        v = np.zeros(ns)
        for k, p in succ.items():
            v[FIN if k is None else 3 * k] += p
        return v

    start = dist(flat.entry)
    T = np.zeros((na, ns, ns))
    O = np.zeros((na, ns, no))
    C = np.zeros((na, ns, ns))
    free = np.zeros((na, ns, ns), dtype=bool)   # not specified
    for k, x in enumerate(origs):
        i, h, r = 3 * k, 3 * k + 1, 3 * k + 2
        nxt = dist(flat.succ[k])
        phy, ai, ti, af = range(1 + 4 * k, 5 + 4 * k)
        no_p, fail_p = x.no_proba, x.fail_proba
        own = np.zeros(ns, dtype=bool)
        own[i:i + 3] = True
        for a in range(na):
            if a == ai:
                T[a, i, r] += no_p
                T[a, i, h] += 1 - no_p
            elif a == ti:
                T[a, i, r] = 1
            else:
                T[a, i, i] = 1
            if deterministic:
                stay = 0. if a == af else 1.
            else:
                stay = math.exp(-dur[a] / x.durations[0])
            T[a, h] += (1 - stay) * nxt
            T[a, h, h] += stay
            stay = fail_p if a == phy else 1.
            T[a, r] += (1 - stay) * nxt
            T[a, r, r] += stay
            for s in (i, h, r):
                c = dur[a] + (intr if a else 0)
                if a == phy and s == r:
                    c = x.durations[1] + intr
                if structured and a == ti and s != i:
                    c = 100.
                C[a, s, own] = c
                C[a, s, ~own] = c - (sub if sub is not None else 0)
                if structured and a > 0 and (a - 1) % 4 == 2 and a != ti:
                    free[a, s] = True   # telling about another step
        # observations of the actions of this leaf
        for s in range(ns):
            in_next = nxt[s] > 0
            O[phy, s, 0 if in_next else 3] = 1
            if s == h:
                O[ai, s, 1] = 1
            elif s == r:
                O[ai, s, 2] = 1
            else:
                O[ai, s, 3 if structured else 0] = 1
            O[ti, s, 3 if structured and s != r else 0] = 1
            if deterministic:
                O[af, s, 2 if s == h else 1 if in_next else 3] = 1
            else:
                later = s == FIN if s >= 3 * n else s // 3 in flat.after[k]
                O[af, s, 1 if later else 2] = 1
    O[0, :, 0] = 1
    for a in range(na):
        if rstate:
            T[a, FIN, END] = 1
            O[a, END, :] = 0
            O[a, END, 0] = 1
        if loop:
            T[a, END] = start
        else:
            T[a, END, END] = 1
        if loop or rstate:
            O[a, FIN, :] = 0
            O[a, FIN, 4] = 1
        C[a, END] = intr
        C[a, FIN] = intr
    C[0, END] = 0
    C[0, FIN] = -end_r
    return states, actions, obs, start, T, O, C, free


def case(ctx, shape, opts, tm, leaf=make_leaf, proba=None):
    deterministic, structured, loop, rstate, sub = opts
    root = build(shape, leaf, proba)
    h2p = HTMToPOMDP(tm[0], tm[1], tm[2], intr_cost=tm[3], end_reward=tm[4],
                     deterministic=deterministic, structured=structured,
                     loop=loop, reward_state=rstate, subtask_reward=sub)
    p = h2p.task_to_pomdp(HierarchicalTask(root=root))
    flat = Flat(root)
    states, actions, obs, start, T, O, C, free = expected(flat, leaf, tm,
                                                             *opts)
    what = [show(shape), opts, tm]
    ctx.trace()
    ctx.states_n(len(states))
    for got, want, name in ((p.states, states, 'states'),
                            (p.actions, actions, 'actions'),
                            (p.observations, obs, 'observations')):
        ctx.eq(sorted(map(str, got)), sorted(want), name, what)
    si = [p.states.index(s) for s in states]
    ai = [p.actions.index(a) for a in actions]
    oi = [p.observations.index(o) for o in obs]
    gT = np.asarray(p.T)[np.ix_(ai, si, si)]
    gO = np.asarray(p.O)[np.ix_(ai, si, oi)]
    gR = np.asarray(p.R)[np.ix_(ai, si, si, oi)]
    gs = np.asarray(p.start)[si]
    ctx.trans(int((gT > 0).sum()))

    def cmp(got, want, name, mask=None):
        bad = np.abs(got - want) > 1e-9
        if mask is not None:
            bad &= mask
        if bad.any():
            ix = tuple(int(x) for x in np.argwhere(bad)[0])
            if name == 'start':
                at = states[ix[0]]
            else:
                names = [actions[ix[0]], states[ix[1]]]
                if len(ix) > 2:
                    names.append((obs if name == 'O' else states)[ix[2]])
                if len(ix) > 3:
                    names.append(obs[ix[3]])
                at = ' '.join(names)
            ctx.fail('%s at %s: %r, expected %r' % (
                name, at, float(got[ix]), float(want[ix])), what)

    ctx.ensure(abs(float(p.discount) - 1.) < 1e-12, 'discount', what)
    cmp(gs, start, 'start')
    cmp(gT, T, 'T')
    cmp(gO, O, 'O')
    possible = (T > 0) & ~free
    cmp(gR, np.broadcast_to(-C[..., None], gR.shape).copy(), 'R',
        np.broadcast_to(possible[..., None], gR.shape))
    # language of the real model, read through the names of its states
    labels = {}
    for j, s in enumerate(p.states):
        if s not in ('end', 'end-reward'):
            x = s.split('-', 1)[1]
            labels[j] = x
    pos = (np.asarray(p.T) > 0).any(axis=0)
    step_succ = {}
    for j, x in labels.items():
        for k in np.nonzero(pos[j])[0]:
            y = labels.get(int(k))
            if y != x:
                ctx.ensure(y is None or p.states[int(k)].startswith('init-'),
                           'step entered in %s' % p.states[int(k)], what)
                step_succ.setdefault(x, set()).add(y)
    todo = [(labels[int(j)],) for j in np.nonzero(np.asarray(p.start) > 0)[0]]
    words = set()
    while todo:
        w = todo.pop()
        ctx.ensure(len(w) <= n_leaves(shape), 'execution %r too long' % (w,),
                   what)
        nx = step_succ.get(w[-1], ())
        ctx.ensure(nx, 'step %s never finishes' % w[-1], what)
        for y in nx:
            if y is None:
                words.add(tuple(LETTERS.index(x[len('do-')]) for x in w))
            else:
                todo.append(w + (y,))
    ctx.eq(sorted(words), sorted(linearisations(shape)), 'executions', what)


def case_defaults(ctx, shape, given):
    """Options left out mean: no interruption cost, a final reward of 10, no
    variant of the translation, probabilities of .1."""
    root = build(shape, make_leaf)
    what = ['defaults', show(shape), given]
    full = dict(dict(intr_cost=0, end_reward=10., deterministic=False,
                     structured=False, loop=False, reward_state=False,
                     subtask_reward=None), **given)
    bare = build(shape, lambda i: CollaborativeAction(
        'Do ' + LETTERS[i], (3. + i, 2., 1.)))
    explicit = build(shape, lambda i: CollaborativeAction(
        'Do ' + LETTERS[i], (3. + i, 2., 1.), human_probability=None,
        fail_probability=.1, no_probability=.1))
    for r1, r2 in ((root, root), (bare, explicit)):
        p = HTMToPOMDP(1., 2., 1.5, **given).task_to_pomdp(
            HierarchicalTask(root=r1))
        q = HTMToPOMDP(1., 2., 1.5, **full).task_to_pomdp(
            HierarchicalTask(root=r2))
        for k in ('states', 'actions', 'observations'):
            ctx.eq(list(getattr(p, k)), list(getattr(q, k)), k, what)
        for k in ('start', 'T', 'O', 'R', 'discount'):
            ctx.ensure(np.allclose(getattr(p, k), getattr(q, k)), k +
                       ' differ from those of explicit options', what)
        ctx.trans(p.T.size)
        ctx.trace()
    ctx.state(('defaults', show(shape), sorted(given)))


ODD_TIMES = [(0., 300., .001, .25, 10.), (700., .01, 0., 0, -3.),
             (.005, 12., 260., -.5, 1.)]
TIMES = [(1., 2., 1.5, 0, 10.), (1., 2., .5, 1.25, 0.), (4., .5, 3., .5, 50.)]


def run(ctx):
    ctx.assumptions = [
        'branches of an alternative are equally likely (the translation '
        'documents ignoring the probabilities of alternatives)',
        'with structured communication the cost of telling about another '
        'step than the current one is not compared',
        'rewards are compared on possible transitions only']
    opts = [o + (s,) for o in itertools.product((False, True), repeat=4)
            for s in (None, 2.5)]
    jobs = []

    def add(shape, os, tms, *more):
        if expanded_leaves(build(shape, make_leaf)) > 36:
            return
        for o in os:
            for tm in tms:
                jobs.append((case, [show(shape), o, tm], shape, o, tm) + more)
        ctx.sample([show(shape), o])

    for n, depth, unary in ((1, 2, True), (2, 2, True), (3, 2, False)):
        for k, shape in enumerate(shapes(n, depth, unary)):
            add(shape, opts, TIMES if n < 3 or ctx.thorough
                else [TIMES[k % 3]])
    for k, shape in enumerate(shapes(3, 2, True)):
        add(shape, opts if ctx.thorough else opts[k % 8::8], [TIMES[k % 3]])
    for k, shape in enumerate(shapes(4, 3)):
        add(shape, opts if ctx.thorough else [opts[k % 32]], [TIMES[k % 3]])
    if ctx.thorough:
        for k, shape in enumerate(shapes(4, 2, True)):
            add(shape, [opts[k % 32]], [TIMES[k % 3]])
    # options left out
    names = [('intr_cost', 1.25), ('end_reward', 3.), ('deterministic', True),
             ('structured', True), ('loop', True), ('reward_state', True),
             ('subtask_reward', 2.5)]
    for k in range(ctx.pick(3, 8)):
        for given in itertools.combinations(names, k):
            for shape in ('L', ('S', ('L', 'L')), ('A', ('L', 'L'))):
                jobs.append((case_defaults, ['defaults', given, show(shape)],
                             shape, dict(given)))
    # extreme parameters
    odd = [o + (s,) for o in itertools.product((False, True), repeat=4)
           for s in (0., -1.5, None)]
    for k, shape in enumerate(['L'] + list(shapes(2, 1)) + [
            ('S', ('L', ('A', ('L', 'L')))), ('A', (('S', ('L', 'L')), 'L'))]):
        for j, o in enumerate(odd):
            add(shape, [o], ODD_TIMES if ctx.thorough else
                ODD_TIMES[(k + j) % 3:][:1], odd_leaf)
    for k, shape in enumerate(['L'] + list(shapes(2, 1)) +
                              list(shapes(4, 2))[::3]):
        for j in range(4):
            add(shape, [opts[(7 * k + 9 * j) % 32]], [TIMES[(k + j) % 3]],
                usual_leaf)
    # unequal alternatives
    for k, shape in enumerate(list(shapes(3, 2)) + [
            ('A', ('L',) * 4), ('S', (('A', ('L', 'L')), ('A', ('L', 'L'))))]):
        add(shape, [opts[(7 * k) % 32], opts[(7 * k + 5) % 32]],
            [TIMES[k % 3]], odd_leaf if k % 2 else make_leaf, skew)
    # large tasks
    for k, shape in enumerate(LARGE):
        for j in range(ctx.pick(4, 16)):
            add(shape, [opts[(9 * k + 7 * j) % 32]], [TIMES[k % 3]])
    if ctx.thorough:
        for k, shape in enumerate(LARGER):
            if expanded_leaves(build(shape, make_leaf)) < 60:
                for j in range(4):
                    jobs.append((case, ['larger', show(shape), j], shape,
                                 opts[(9 * k + 7 * j) % 32], TIMES[k % 3]))
    big = ('S', ('L',) * 45)    # more than 127 states
    jobs.append((case, ['larger', show(big)], big, opts[5], TIMES[0]))
    ctx.run_cases(jobs)
