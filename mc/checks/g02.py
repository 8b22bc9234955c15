import itertools

from task_models.task import TaskGraph, ConjugateTaskGraph
from ..graphs import S, Rel, show

INIT, TERM = ConjugateTaskGraph.initial, ConjugateTaskGraph.terminal


def all_paths(states, acts, maxlen):
    for k in range(maxlen + 1):
        for st in itertools.product(states, repeat=k + 1):
            for ac in itertools.product(acts, repeat=k):
                p = [st[0]]
                for x, y in zip(ac, st[1:]):
                    p += [x, y]
                yield p


def reference(trans, initial, terminal):
    """None when non deterministic."""
    seen = {}
    for s, a, d in trans:
        if seen.setdefault((s, a), d) != d:
            return None
    out = set()
    for s in initial:
        for s1, a, _ in trans:
            if s1 == s:
                out.add((INIT, s, a))
    for _, a, d in trans:
        if d in terminal:
            out.add((a, d, TERM))
        else:
            for s1, b, _ in trans:
                if s1 == d:
                    out.add((a, d, b))
    return out


def check(ctx, paths, extra=()):
    case = {'paths': [show(p) for p in paths],
            'transitions': [show(t) for t in extra]}

    def go():
        tg = TaskGraph()
        trans, ini, ter = set(), set(), set()
        for p in paths:
            tg.add_path(p)
            if p:
                ini.add(p[0])
                ter.add(p[-1])
            trans |= {(p[i], p[i + 1], p[i + 2])
                      for i in range(0, len(p) - 2, 2)}
        for t in extra:
            tg.add_transition(*t)
            trans.add(t)
        want = reference(trans, ini, ter)
        before = (set(tg.all_transitions()), set(tg.initial),
                  set(tg.terminal))
        ctx.trans(len(trans) + 1)
        try:
            ctg = tg.conjugate()
        except ValueError:
            ctx.ensure(want is None, 'deterministic graph refused', case)
            ctx.trace()
            return
        finally:
            after = (set(tg.all_transitions()), set(tg.initial),
                     set(tg.terminal))
            ctx.eq(after, before, 'conjugation changed the task graph', case)
        ctx.ensure(want is not None, 'non-deterministic graph accepted', case)
        got = list(ctg.all_transitions())
        ctx.ensure(len(got) == len(set(got)), 'transition twice', case)
        ctx.eq({(str(x), str(y), str(z)) for x, y, z in got},
               {(str(x), str(y), str(z)) for x, y, z in want},
               'conjugate transitions', case)
        ctx.eq(set(got), want, 'conjugate transitions', case)
        ctx.ensure(ctg.initial == INIT and ctg.terminal == TERM,
                   'markers of the conjugate', case)
        ctx.trace()
    ctx.run_case(go, case)
    ctx.states_n(1)
    ctx.sample(case)


def run(ctx):
    full = {(x, y) for x in range(4) for y in range(4)}
    s = [S(i) for i in range(4)]
    u, w = Rel('u', full), Rel('w', full)
    # A: 3 states, 2 actions, up to 2 paths of up to 2 transitions
    pa = list(all_paths(s[:3], [u, w], 2))
    for k in (0, 1, 2):
        for ps in itertools.combinations(pa, k):
            check(ctx, ps)
    # B: 2 states, up to 3 paths of up to 2 transitions
    pb = list(all_paths(s[:2], [u, w], 2))
    for ps in itertools.combinations(pb, 3):
        check(ctx, ps)
    # C: single paths of up to 4 transitions (repeated actions, cycles)
    for p in all_paths(s[:3], [u, w], 4):
        if len(p) >= 7:
            check(ctx, [p])
    # D: two paths plus directly added transitions (dead ends)
    pd = list(all_paths(s[:2], [u], 1))
    ts = [(x, a, y) for x in s[:3] for a in (u, w) for y in s[:3]]
    for p in pd:
        for t in itertools.combinations(ts, 2):
            check(ctx, [p], t)
    # E: larger graphs: many demonstrations, long ones, many successors
    s = [S(i) for i in range(40)]
    acts = [Rel('a%d' % i, {(x, y) for x in range(40) for y in range(40)})
            for i in range(12)]
    for n in (4, 5, 8, 12):
        # every action from each state: i -> i * k
        trans = [(s[i], acts[k], s[(i * (k + 2) + k) % n])
                 for i in range(n) for k in range(n)]
        for ends in ((0,), (n - 1,), tuple(range(n)), (1, 2)):
            paths = [[s[0], acts[0], s[0 * 2]]] + [[s[e]] for e in ends]
            check(ctx, paths, trans)
            check(ctx, [[s[e]] for e in ends], trans[::2])
            check(ctx, [[s[e]] for e in ends], trans[::3] + [
                (s[1], acts[0], s[2]), (s[1], acts[0], s[3])])
    for n in (10, 30):
        for m in (1, 3, 10):
            long = [s[0]]
            for i in range(n):
                long += [acts[i % m], s[i + 1]]
            check(ctx, [long])
            check(ctx, [long, long[:7], long[10:]])
            check(ctx, [long, [s[5], acts[11], s[0]], [s[9], acts[2], s[9]]])
    for w in (3, 6, 12):
        # one state with w actions in and out
        check(ctx, [[s[i + 1], acts[i], s[0], acts[j], s[20 + j]]
                    for i in range(w) for j in range(w)])
        check(ctx, [[s[0], acts[i], s[i + 1], acts[(i + j) % w], s[20]]
                    for i in range(w) for j in range(2)])
    if ctx.thorough:
        for ps in itertools.combinations(list(all_paths(s[:3], [u, w], 1)), 4):
            check(ctx, ps)
        for ps in itertools.combinations(list(all_paths(s[:2], [u, w], 3)), 3):
            check(ctx, ps)
