import itertools

import numpy as np

from task_models.state import NDimensionalState
from task_models.action import (Action, Condition, MatchAllCondition,
                                PrePostConditionAction)
from task_models.task import AbstractAction, MetaAction
from task_models import task_to_pomdp, bring_next_to_pomdp, supportive
from task_models.snap_circuit import (SnapCircuitPart, SnapCircuitState,
                                      PlaceAction, PartPresenceCondition)
from task_models.lib.belief import ArrayBelief


def arrays(v):
    """The same vector in several representations."""
    v = list(v)
    yield np.array(v, dtype=float)
    if all(float(x).is_integer() for x in v):
        yield np.array(v, dtype=int)
        yield np.array(v, dtype=np.int32)
        if all(x in (0, 1) for x in v):
            yield np.array(v, dtype=bool)
    yield np.array([v, v], dtype=float).T[:, 0] if v else np.array([], float)


def universe(ctx):
    U = []   # (content key or None for identity semantics, value, text)

    def put(key, val, text):
        U.append((key, val, text))
    vecs = [v for k in range(0, 3) for v in itertools.product([0, 1, 2],
                                                              repeat=k)]
    # -1 and -2 have the same hash in CPython
    vecs += [(.5, .5), (0, .5), (1, 0, 0), (-1, 0), (-2, 0), (-1,), (-2,)]
    for v in vecs:
        for a in arrays(v):
            put(('nd', v), NDimensionalState(a), 'state %s %s' % (v, a.dtype))
    conds = []
    for m in itertools.product([0, 1], repeat=2):
        for v in itertools.product([0, 1, 2], repeat=2):
            if any(x and not y for x, y in zip(v, m)):
                continue
            for ma in list(arrays(m))[:3]:
                for va in list(arrays(v))[:2]:
                    c = Condition(ma, va)
                    put(('cond', m, v), c, 'condition %s %s %s %s' % (
                        m, v, ma.dtype, va.dtype))
                    conds.append((('cond', m, v), c))
    for v in ((-1, 0), (-2, 0), (-1, -2), (-2, -1)):
        m = tuple(int(bool(x)) for x in v)
        c = Condition(np.array(m), np.array(v))
        put(('cond', m, v), c, 'condition %s' % (v,))
        conds.append((('cond', m, v), c))
    for _ in range(2):
        c = MatchAllCondition()
        put(('all',), c, 'match-all')
        conds.append((('all',), c))
    board = (1, 2)
    parts = [SnapCircuitPart(i, l) for i in (0, 1, 8, 16, 19, 64, 256, -1,
                                          -2) for l in ('r', 'b')]
    parts += [SnapCircuitPart(0, 'r')]
    for p in parts:
        put(('part', p.id, p.label), p, 'part %r' % p)
    for i in (0, 1):
        for loc in ((0, 0, 0), (0, 1, 3)):
            for there in (True, False):
                for lab in ('r', 'b'):
                    m = np.zeros(SnapCircuitState.feature_shape(board))
                    v = m.copy()
                    m[(i,) + loc] = 1
                    v[(i,) + loc] = int(there)
                    put(('cond', tuple(m.flatten()), tuple(v.flatten())),
                        PartPresenceCondition(board, SnapCircuitPart(i, lab),
                                              loc, is_there=there),
                        'presence %s %s %s' % (i, loc, there))
                    put(('cond', tuple(m.flatten()), tuple(v.flatten())),
                        Condition(m.flatten(), v.flatten().astype(int)),
                        'condition like presence')
    some = conds[:-6:5] + conds[-6:]
    for (k1, c1), (k2, c2) in itertools.product(some, repeat=2):
        put(('pp', k1, k2), PrePostConditionAction(c1, c2, name='n'),
            'pre/post %s %s' % (k1, k2))
    put(('pp', some[0][0], some[0][0]),
        PrePostConditionAction(some[0][1], some[0][1], name='other name'),
        'pre/post with another name')
    for i in (0, 1):
        for loc in ((0, 0, 0), (0, 1, 3)):
            for lab in ('r', 'b'):
                put(('place', i, loc),
                    PlaceAction(board, SnapCircuitPart(i, lab), loc),
                    'place %s %s' % (i, loc))
    names = ['a', 'b', 'wait', 'a b', '(a→b)', '']
    acts = []
    for n in names:
        for a in (AbstractAction(n), AbstractAction(n, agent='human'),
                  task_to_pomdp.CollaborativeAction(n, (1, 2, 3)),
                  bring_next_to_pomdp.CollaborativeAction(n, 'o'),
                  supportive.SupportedAction(n)):
            put(('named', n), a, 'named %r %s' % (n, type(a).__name__))
    put(('named', 'Bring Top'), supportive.BringTop(), 'BringTop')
    put(('named', 'Bring Top'), AbstractAction('Bring Top'), 'Bring Top')
    for n in ('a', 'b'):
        put(None, Action(n), 'plain action')
        put(None, Action(n), 'plain action')
    acts = [AbstractAction(n) for n in 'abcdefgh']
    for k in (1, 2, 3):
        for sub in itertools.permutations(acts[:4], k):
            nm = tuple(a.name for a in sub)
            for kind in ('sequence', 'parallel', 'alternative'):
                put(('meta', kind, nm), MetaAction(kind, list(sub)),
                    'meta %s %s' % (kind, nm))
                put(('meta', kind, nm),
                    MetaAction(kind, [AbstractAction(x) for x in nm]),
                    'meta %s %s' % (kind, nm))
    for k in (2, 3, 4):
        for sub in itertools.combinations(acts, k):
            for o in (sub, sub[::-1], sub[1:] + sub[:1]):
                s = set()
                for a in o:
                    s.add(a)
                put(('metaset', frozenset(x.name for x in sub)),
                    MetaAction('parallel', s), 'meta set %s' % (
                        [x.name for x in o],))
    m1 = MetaAction('sequence', acts[:2])
    for kind in ('sequence', 'parallel'):
        put(('meta2', kind, 0), MetaAction(kind, [m1, acts[2]]), 'nested')
        put(('meta2', kind, 0), MetaAction(
            kind, [MetaAction('sequence', acts[:2]), acts[2]]), 'nested')
        put(('meta2', kind, 1), MetaAction(
            kind, [MetaAction('parallel', acts[:2]), acts[2]]), 'nested')
    put(('named', 'meta-name'), AbstractAction('meta-name'), 'named')
    put(('named', m1.name + '!'), AbstractAction(m1.name + '!'), 'named')
    # board states: all insertion orders
    locs = [((r, c, o), SnapCircuitPart(i, 'x%d' % i))
            for i, (r, c, o) in enumerate([(0, 0, 0), (0, 1, 2), (0, 0, 3),
                                           (0, 1, 1)])]
    for k in range(0, 5):
        for sub in itertools.combinations(locs, k):
            for o in itertools.permutations(sub):
                if k == 4 and not ctx.thorough and o[0] is not sub[0]:
                    continue
                put(('board', board, frozenset((l, p.id) for l, p in sub)),
                    SnapCircuitState(board, list(o)), 'board %s' % (o,))
    put(('board', (2, 1), frozenset()), SnapCircuitState((2, 1), []),
        'other board')
    put(('board', board, 'otherlabel'), SnapCircuitState(
        board, [((0, 0, 0), SnapCircuitPart(0, 'zz'))]), 'board label')
    # beliefs
    for v in [(1,), (1, 0), (0, 1), (.5, .5), (.25, .75), (1, 0, 0),
              (0, 0, 1), (.5, .5, 0), (.5, .25, .25)]:
        for a in arrays(v):
            put(('belief', v), ArrayBelief(a), 'belief %s' % (v,))
        put(('belief', v), ArrayBelief(list(v)), 'belief list %s' % (v,))
    # long vectors that differ in one place, close values
    for n in (9, 33, 120):
        for j in (None, 0, n // 2, n - 1):
            for d in (1, 1e-9):
                v = [i % 3 for i in range(n)]
                if j is not None:
                    v[j] += d
                elif d != 1:
                    continue
                v = tuple(v)
                for a in list(arrays(v))[:2]:
                    put(('nd', v), NDimensionalState(a), 'long state')
                put(('cond', (1,) * n, v), Condition(np.ones(n), np.array(v)),
                    'long condition')
                if d != 1:
                    b = np.full(n, 1. / n)
                    b[j] += d
                    b[(j + 1) % n] -= d
                    put(('belief', tuple(b)), ArrayBelief(b), 'long belief')
    for n in (5, 8):
        put(('meta', 'sequence', tuple('abcdefgh'[:n])), MetaAction(
            'sequence', acts[:n]), 'long meta')
        put(('meta', 'sequence', tuple('abcdefgh'[:n])), MetaAction(
            'sequence', [AbstractAction(x) for x in 'abcdefgh'[:n]]),
            'long meta')
        s = tuple('abcdefgh'[:n - 2] + 'hg')
        put(('meta', 'sequence', s), MetaAction('sequence', [
            AbstractAction(x) for x in s]), 'long meta')
    big = [((r, c, o), SnapCircuitPart(r * 4 + c, 'P'))
           for r in range(3) for c in range(4) for o in (0, 3)]
    for k in (6, 12, 24):
        for o in (big[:k], big[:k][::-1], big[k // 2:k] + big[:k // 2]):
            put(('board', (3, 4), frozenset((l, p.id) for l, p in o)),
                SnapCircuitState((3, 4), o), 'full board')
            o = o[:-1] + [((2, 3, 1), o[-1][1])]
            put(('board', (3, 4), frozenset((l, p.id) for l, p in o)),
                SnapCircuitState((3, 4), o), 'full board')
    for x in (None, 0, 1, 'a', 'Bring Top', (1,), frozenset(), object()):
        put(('raw', repr(x)), x, 'raw %r' % (x,))
    return U


def run(ctx):
    U = universe(ctx)
    ctx.states_n(len(U))
    for _, _, t in U[::97]:
        ctx.sample(t)

    def row(i):
        k1, x, t1 = U[i]
        h = hash(x)
        ctx.ensure(h == hash(x), 'hash not stable', t1)
        ctx.ensure(x == x and not (x != x), 'not reflexive', t1)
        ctx.eq(len({x, x}), 1, 'twice in a set', t1)
        for j in range(i + 1, len(U)):
            k2, y, t2 = U[j]
            same = k1 is not None and k1 == k2
            a, b = (x == y), (y == x)
            ctx.ensure(a is NotImplemented or isinstance(
                a, (bool, np.bool_)), 'comparison gives %r' % (a,), [t1, t2])
            if bool(a) != same or bool(b) != same:
                ctx.fail('comparison %s == %s is %s, reverse %s; same '
                         'content: %s' % (t1, t2, a, b, same), [t1, t2])
            if bool(x != y) == same or bool(y != x) == same:
                ctx.fail('!= inconsistent with ==', [t1, t2])
            if same and hash(y) != h:
                ctx.fail('equal but hashes differ', [t1, t2])
        ctx.trans(4 * (len(U) - i - 1))
        ctx.trace()
    for i in range(len(U)):
        ctx.run_case(row, U[i][2], i)

    def as_set():
        keys = {k for k, _, _ in U if k is not None}
        n = len([1 for k, _, _ in U if k is None])
        ctx.eq(len({v for _, v, _ in U}), len(keys) + n,
               'distinct values in one set', 'all values')
        d = {}
        for k, v, t in U:
            if k is not None:
                d.setdefault(v, k)
                ctx.eq(d[v], k, 'dictionary lookup', t)
        ctx.trans(2 * len(U))
    ctx.run_case(as_set, 'all values in one set')
