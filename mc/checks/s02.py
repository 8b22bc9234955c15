import itertools

import numpy as np

from task_models.snap_circuit import (SnapCircuitPart, SnapCircuitState,
                                      PlaceAction, PartPresenceCondition,
                                      ORIENTATION_NAMES)
from task_models.task import TaskGraph, check_path


def run(ctx):
    N, O = SnapCircuitState.N_PARTS, 4

    def features(board, content):
        f = np.zeros((N, board[0], board[1], O))
        for (r, c, o), i in content:
            f[i, r, c, o] = 1
        return f.flatten()

    def sweep(board, ids, maxparts, step, where=None):
        parts = {i: SnapCircuitPart(i, 'P%d' % i) for i in ids}
        locs = list(itertools.product(range(board[0]), range(board[1]),
                                      range(O)))
        if where is not None:
            locs = [x for x in locs if x[0] in where and x[1] in where]
        slots = [(l, i) for i in ids for l in locs]
        acts = [(l, i, PlaceAction(board, parts[i], l)) for l, i in slots]
        conds = [(l, i, b, PartPresenceCondition(board, parts[i], l,
                                                 is_there=b))
                 for l, i in slots for b in (True, False)]
        contents = [c for k in range(maxparts + 1)
                    for c in itertools.combinations(slots, k)]

        def mk(content):
            return SnapCircuitState(board, [(l, parts[i])
                                            for l, i in content])

        def one(content):
            case = [board, content]
            st = mk(content)
            want = features(board, content)
            got = st.get_features()
            ctx.ensure(np.array_equal(got, want), 'feature vector', case)
            ctx.eq(int(st.n_dim), len(want), 'dimension', case)
            ps = st.parts
            ctx.eq({(l, p.id) for l, p in ps}, set(content), 'parts', case)
            ps.add(((0, 0, 0), SnapCircuitPart(19, 'intruder')))
            ps.discard(next(iter(ps)))
            ps.clear()
            ctx.ensure(np.array_equal(st.get_features(), want) and
                       len(st.parts) == len(content),
                       'state altered through its parts', case)
            txt = str(st)
            for (r, c, o), i in content:
                ctx.ensure('P%d' % i in txt and ORIENTATION_NAMES[o] in txt
                           and '(%d, %d)' % (r, c) in txt, 'printed form',
                           case)
            for l, i, b, c in conds:
                ctx.eq(bool(c.check(st)), ((l, i) in content) == b,
                       'presence of part %d at %s' % (i, l), case)
            ctx.trans(3 + len(conds))
            ctx.trace()
        for c in contents:
            ctx.states_n(1)
            ctx.sample([board, c])
            ctx.run_case(one, [board, c], c)
        # placements over pairs of states
        sts = [(frozenset(c), mk(c)) for c in contents[::step]]

        def place(l, i, a):
            case = [board, l, i]
            ctx.eq(tuple(a.position), l[:2], 'position', case)
            ctx.eq(a.orientation, l[2], 'orientation', case)
            ctx.eq(a.location, l, 'location', case)
            ctx.ensure(a.part == parts[i], 'part', case)
            for c1, s1 in sts:
                for c2, s2 in sts:
                    want = (l, i) not in c1 and (l, i) in c2
                    ctx.eq(bool(a.check(s1, s2)), want, 'placement on '
                           '%s -> %s' % (sorted(c1), sorted(c2)), case)
            ctx.trans(len(sts) ** 2)
            ctx.trace()
        for l, i, a in acts:
            ctx.states_n(1)
            ctx.run_case(place, [board, l, i], l, i, a)
        return parts, mk, acts
    sweep((1, 1), [0, 1, 19], 2, 1)
    sweep((1, 2), [0, 3], 2, ctx.pick(2, 1))
    sweep((2, 1), [5, 19], 2, ctx.pick(3, 1))
    sweep((2, 2), [0, 1], ctx.pick(1, 2), ctx.pick(1, 4))
    sweep((3, 2), [7], 1, 1)
    # large boards, many parts on one board
    sweep((12, 11), [10, 19], 1, 5, (0, 1, 10))
    sweep((3, 22), [1], 1, 5, (0, 2, 11, 19, 21))

    def many(board, k, turn):
        locs = list(itertools.product(range(board[0]), range(board[1]),
                                      range(O)))
        content = [(locs[(7 * i + turn) % len(locs)], i % N)
                   for i in range(k)]
        content = sorted(set(content))
        parts = [SnapCircuitPart(i, 'P%d' % i) for i in range(N)]
        st = SnapCircuitState(board, [(l, parts[i]) for l, i in content])
        case = [board, k, turn]
        ctx.ensure(np.array_equal(st.get_features(),
                                  features(board, content)), 'features', case)
        ctx.eq({(l, p.id) for l, p in st.parts}, set(content), 'parts', case)
        ps = st.parts
        ps.add(((0, 0, 0), SnapCircuitPart(19, 'intruder')))
        ps.discard(next(iter(ps)))
        ps.clear()
        ctx.eq(({(l, p.id) for l, p in st.parts},
                st.get_features().sum()), (set(content), len(content)),
               'state altered through its parts', case)
        txt = str(st)
        for (r, c, o), i in content:
            ctx.ensure('%s at (%d, %d) oriented %s' % (
                parts[i], r, c, ORIENTATION_NAMES[o]) in txt, 'printed form',
                case)
        for l, i in content:
            rest = [x for x in content if x != (l, i)]
            before = SnapCircuitState(board, [(l2, parts[j])
                                              for l2, j in rest])
            a = PlaceAction(board, parts[i], l)
            ctx.ensure(bool(a.check(before, st)), 'placement of part %d at %s'
                       % (i, l), case)
            ctx.ensure(not a.check(st, before) and not a.check(st, st) and
                       not a.check(before, before), 'no placement of part %d '
                       'at %s' % (i, l), case)
            ctx.trans(4)
        ctx.states_n(1)
        ctx.trace()
    for board in ((5, 5), (2, 12), (12, 3)):
        for k in (8, 20, 33, 60):
            for turn in range(ctx.pick(2, 6)):
                ctx.run_case(many, ['many', board, k, turn], board, k, turn)
    # demonstrations: announced placement vs added placement
    board = (1, 2)
    parts = {i: SnapCircuitPart(i, 'P%d' % i) for i in (0, 1)}
    slots = [((0, c, o), i) for c in (0, 1) for o in (0, 3) for i in (0, 1)]

    def mk(c):
        return SnapCircuitState(board, [(l, parts[i]) for l, i in c])

    def demo(steps):
        """steps: list of (announced slot, added slots)"""
        cur = frozenset()
        path, ok = [mk(cur)], True
        for ann, added in steps:
            nxt = cur | set(added)
            ok = ok and ann not in cur and ann in nxt
            path += [PlaceAction(board, parts[ann[1]], ann[0]), mk(nxt)]
            cur = nxt
        case = steps
        ctx.eq(bool(check_path(path)), ok, 'validity of demonstration', case)
        tg = TaskGraph()
        try:
            tg.add_path(path)
            ctx.ensure(ok, 'invalid demonstration accepted', case)
            # the same demonstration with states rebuilt in other orders
            again = [x if j % 2 else SnapCircuitState(
                board, sorted(x.parts, key=str)[::-1])
                for j, x in enumerate(path)]
            ctx.ensure(tg.has_path(again), 'same demonstration not found',
                       case)
        except ValueError:
            ctx.ensure(not ok, 'valid demonstration refused', case)
        ctx.trans(2)
        ctx.trace()
    single = [(a, (b,)) for a in slots for b in slots]
    both = [(a, (a, b)) for a in slots for b in slots if a < b]
    for st in single:
        ctx.states_n(1)
        ctx.run_case(demo, st, [st])
    for s1 in [(a, (a,)) for a in slots] + both[::3]:
        for s2 in single[::ctx.pick(3, 1)] + [(a, (a,)) for a in slots]:
            ctx.states_n(1)
            ctx.run_case(demo, [s1, s2], [s1, s2])
    for trip in itertools.permutations(slots, 3):
        ctx.states_n(1)
        ctx.run_case(demo, trip, [(a, (a,)) for a in trip])
