"""D02: translation of delivery tasks to bring-next models."""
import itertools

import numpy as np

from task_models.task import HierarchicalTask
from task_models.bring_next_to_pomdp import HTMToPOMDP, CollaborativeAction

from ..trees import shapes, build, show, linearisations, n_leaves
from ..trees import expanded_leaves, skew, LARGE, LARGER
from .d01 import Flat, radix, LETTERS

OBS = ['none', 'yes', 'no', 'error']


def expected(flat, objects, tm, loop, no_answer):
    t_com, t_get, t_err, end_r = tm
    n = len(flat.leaves)
    states = ['before-' + radix(x) for x in flat.leaves] + ['end']
    actions = ['get-' + o for o in objects] + ['ask-' + o for o in objects]
    ns, na = n + 1, len(actions)

    def dist(succ):
        v = np.zeros(ns)
        for k, p in succ.items():
            v[n if k is None else k] += p
        return v

    start = dist(flat.entry)
    T = np.zeros((na, ns, ns))
    O = np.zeros((na, ns, 4))
    C = np.zeros((na, ns, ns))
    for i, obj in enumerate(objects):
        get, ask = i, len(objects) + i
        mine = [k for k in range(n) if flat.leaves[k].action.obj == obj]
        entered = set()
        for k in mine:
            entered |= set(np.nonzero(dist(flat.succ[k]))[0])
        for s in range(ns):
            O[get, s] = [.9, 0, 0, .1] if s in entered else [0, 0, 0, 1]
            yes = s in mine
            if no_answer:
                O[ask, s] = [.1, .9 * yes, .9 * (not yes), 0]
            else:
                O[ask, s] = [0, yes, not yes, 0]
        C[get] = t_err
        C[ask] = t_com
        for s in range(n):
            T[ask, s, s] = 1
            if s in mine:
                T[get, s] = dist(flat.succ[s])
                C[get, s] = t_get
            else:
                T[get, s, s] = 1
    for a in range(na):
        if loop:
            T[a, n] = start
            C[a, n] = -end_r
        else:
            T[a, n, n] = 1
            C[a, :, n] -= end_r
            C[a, n, n] = 0
    return states, actions, start, T, O, C


def case(ctx, shape, objs, listed, tm, loop, no_answer, discount,
         proba=None):
    root = build(shape, lambda i: CollaborativeAction(
        'Leg ' + LETTERS[i], objs[i]), proba)
    kw = {} if discount is None else {'discount': discount}
    # default values may be left out
    for k, v, default in (('end_reward', tm[3], 10.), ('loop', loop, True),
                          ('no_answer', no_answer, False)):
        if v != default or len(listed) % 2:
            kw[k] = v
    h2p = HTMToPOMDP(tm[0], tm[1], tm[2], list(listed), **kw)
    what = [show(shape), objs, listed, tm, loop, no_answer, discount]
    flat = Flat(root)
    states, actions, start, T, O, C = expected(flat, listed, tm, loop,
                                               no_answer)
    for rep in range(2):    # the translator is reusable
        p = h2p.task_to_pomdp(HierarchicalTask(root=root))
        ctx.trace()
        ctx.states_n(len(states))
        for got, want, name in ((p.states, states, 'states'),
                                (p.actions, actions, 'actions'),
                                (p.observations, OBS, 'observations')):
            ctx.eq(sorted(map(str, got)), sorted(want), name, what)
        si = [p.states.index(s) for s in states]
        ai = [p.actions.index(a) for a in actions]
        oi = [p.observations.index(o) for o in OBS]
        gT = np.asarray(p.T)[np.ix_(ai, si, si)]
        gO = np.asarray(p.O)[np.ix_(ai, si, oi)]
        gR = np.asarray(p.R)[np.ix_(ai, si, si, oi)]
        ctx.trans(int((gT > 0).sum()))
        want_d = discount if discount is not None else .9 if loop else 1.
        ctx.ensure(abs(float(p.discount) - want_d) < 1e-12, 'discount %r, '
                   'expected %r' % (p.discount, want_d), what)
        for got, want, name in (
                (np.asarray(p.start)[si], start, 'start'), (gT, T, 'T'),
                (gO, O, 'O'),
                (gR * (T > 0)[..., None],
                 np.broadcast_to((-C * (T > 0))[..., None], gR.shape), 'R')):
            bad = np.argwhere(np.abs(got - want) > 1e-9)
            if len(bad):
                ix = tuple(int(x) for x in bad[0])
                ctx.fail('%s%r is %r, expected %r (states %r, actions %r)' % (
                    name, ix, float(got[ix]), float(want[ix]), states,
                    actions), what)
    # executions of the real model
    lab = [s[len('before-leg-'):] if s != 'end' else None for s in p.states]
    todo = [((), int(j)) for j in np.nonzero(np.asarray(p.start) > 0)[0]]
    words = set()
    while todo:
        w, j = todo.pop()
        if lab[j] is None:
            words.add(w)
            continue
        ctx.ensure(len(w) < n_leaves(shape), 'execution %r too long' % (w,),
                   what)
        num = LETTERS.index(lab[j][0])
        nxt = set()
        for a, name in enumerate(p.actions):
            to = [int(k) for k in np.nonzero(p.T[a, j] > 0)[0]]
            if to != [j]:
                ctx.eq(name, 'get-' + objs[num], 'action ending step %s' %
                       p.states[j], what)
                nxt |= set(to)
        ctx.ensure(nxt and j not in nxt, 'step %s does not end' % p.states[j],
                   what)
        todo += [(w + (num,), k) for k in nxt]
    ctx.eq(sorted(words), sorted(linearisations(shape)), 'executions', what)


TM = [(2., 8., 5., 50.), (0., 1., 3.5, 10.), (1., 0., 2., 0.)]


def patterns(n, k=3):
    """Assignments of objects to leaves, up to renaming."""
    def rec(pre, used):
        if len(pre) == n:
            yield tuple(pre)
            return
        for o in range(min(used + 1, k)):
            for x in rec(pre + [o], max(used, o + 1)):
                yield x
    return rec([], 0)


def run(ctx):
    ctx.assumptions = [
        'branches of an alternative are equally likely (the translation '
        'documents ignoring the probabilities of alternatives)',
        'rewards are compared on possible transitions only']
    jobs = []
    names = ['A1', 'b-2', 'C']
    c = 0
    sets = [(1, 2, True), (2, 2, True), (3, 2, True), (4, 3, False)]
    if ctx.thorough:
        sets.append((4, 2, True))
    for n, depth, unary in sets:
        for shape in shapes(n, depth, unary):
            if expanded_leaves(build(shape, lambda i: CollaborativeAction(
                    'x%d' % i, 'A'))) > 100:
                continue
            for pat in patterns(n):
                objs = [names[o] for o in pat]
                used = sorted(set(objs))
                lists = [used, used[::-1], names]
                c += 1
                for k, (loop, na, d) in enumerate(itertools.product(
                        (True, False), (True, False), (None, .5, 1.))):
                    if not ctx.thorough and n > 2 and (k + c) % 6:
                        continue
                    if not ctx.thorough and n > 3 and (c // 3) % 3:
                        continue
                    args = (shape, objs, lists[(c + k) % 3], TM[(c // 3) % 3],
                            loop, na, d)
                    jobs.append((case, [show(shape)] + list(args[1:])) + args)
            ctx.sample(show(shape))
    # no discount beyond one step, objects of similar names
    for shape in ('L', ('S', ('L', 'L')), ('P', ('L', 'L')),
                  ('A', ('L', ('S', ('L', 'L'))))):
        n = n_leaves(shape)
        for loop, na, d in itertools.product(
                (True, False), (True, False), (0., .125, None)):
            for objs, listed in (
                    (['A', 'a', 'A'], ['A', 'a']), (['a', 'A', 'x'],
                                                    ['x', 'A', 'a']),
                    (['get-a', 'a', 'ask-a'], ['a', 'get-a', 'ask-a']),
                    (['', ' ', 'b c'], ['', ' ', 'b c'])):
                args = (shape, objs[:n], listed, (.5, 7., .25, -2.), loop, na,
                        d)
                jobs.append((case, ['names', show(shape)] + list(args[1:])) +
                            args)
    # unequal alternatives
    for k, shape in enumerate(list(shapes(3, 2)) + [
            ('A', ('L',) * 4), ('S', (('A', ('L', 'L')), ('A', ('L', 'L'))))]):
        for loop in (True, False):
            args = (shape, [names[i % (2 + k % 2)] for i in range(4)], names,
                    TM[k % 3], loop, bool(k % 2), None)
            jobs.append((case, ['unequal', show(shape)] + list(args[1:])) +
                        args + (skew,))
    many = ['o%d' % i for i in range(40)]
    for k, shape in enumerate(LARGE + (LARGER if ctx.thorough else [])):
        n = n_leaves(shape)
        for step, m in ((1, 40), (3, 11), (0, 1)):
            objs = [many[i * step % m] for i in range(n)]
            for loop, na, d in ((True, True, None), (False, False, .5),
                                (False, True, None)):
                args = (shape, objs, many[:m], TM[k % 3], loop, na, d)
                jobs.append((case, ['large', show(shape), step, loop]) + args)
    ctx.run_cases(jobs)
