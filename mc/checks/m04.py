"""M04: solving turns solver output into exactly the policy it describes."""
import itertools
import json
import os
import shutil
import tempfile
from fractions import Fraction as F

import numpy as np

from task_models.lib.pomdp import (POMDP, parse_value_function,
                                   parse_policy_graph)

from ..models import Model
from .m03 import compare

NS, NA, NO = 3, 3, 2


def make(start, no=NO, names=True, cls=POMDP):
    u = (F(1, 3),) * 3
    T = tuple((u, u, u) for _ in range(NA))
    e = tuple(F(int(i == 0)) for i in range(no))
    O = tuple((e, e, tuple(F(1, no) for _ in range(no))) for _ in range(NA))
    m = Model(T, O, start, names=names)
    return m, m.real(cls=cls)


def alpha_text(actions, vectors, style=0):
    fmt = ['{:.20f}', '{!r}', '{:+.6e}'][style % 3]
    sep = ['\n\n', '\n', ' \n\n\n'][style % 3]
    return ''.join('%d\n%s%s' % (a, ' '.join(fmt.format(x) for x in v) +
                                 (' ' if style % 2 == 0 else ''), sep)
                   for a, v in zip(actions, vectors))


def pg_text(actions, trans, style=0, numbers=None):
    out = []
    for i, (a, t) in enumerate(zip(actions, trans)):
        n = i if numbers is None else numbers[i]
        out.append('%d %d  %s%s\n' % (
            n, a, ' '.join('-' if x is None else str(x) for x in t),
            ['', ' ', '  '][style % 3]))
    s = ''.join(out)
    if style == 3:
        s = s.rstrip('\n')
    if style == 4:
        s += '\n'
    if style == 5:
        s = '\n'.join(out) + ' \n'
    return s


def check_policy(ctx, gp, m, start, actions, trans, vectors):
    ctx.eq(list(gp.actions), [m.actions[a] if m.names else a
                              for a in actions], 'actions', None)
    ctx.eq(list(gp.observations), m.observations if m.names else
           list(range(m.no)), 'observations', None)
    ctx.eq(np.asarray(gp.transitions).tolist(), [list(t) for t in trans],
           'transitions', None)
    v = np.asarray(gp.values, dtype=float)
    ctx.ensure(v.shape == (len(actions), len(start)) and
               np.allclose(v, vectors, rtol=1e-12, atol=1e-18),
               'values: %r' % v.tolist(), None)
    sc = [sum(F(s) * F(x) for s, x in zip(start, vec)) for vec in vectors]
    ctx.ensure(sc[int(gp.init)] == max(sc), 'starts at node %r of values %s' %
               (gp.init, [str(x) for x in sc]), None)
    ctx.eq(gp.n_nodes, len(actions), 'number of nodes', None)


def write(tmp, alpha, pg):
    for ext, t in (('alpha', alpha), ('pg', pg)):
        with open(os.path.join(tmp, 'x.' + ext), 'w') as f:
            f.write(t)


def case_load(ctx, tmp, start, actions, trans, vectors, style, names=True):
    m, p = make(start, len(trans[0]), names)
    write(tmp, alpha_text(actions, vectors, style),
          pg_text(actions, trans, style))
    ctx.trans()
    ctx.states_n(1)
    gp = p.load_policy_from(tmp, 'x')
    check_policy(ctx, gp, m, start, actions, trans, vectors)
    ctx.trace()


def case_refused(ctx, tmp, what, p, alpha, pg):
    write(tmp, alpha, pg)
    ctx.trans()
    try:
        gp = p.load_policy_from(tmp, 'x')
    except Exception:
        return
    ctx.fail('%s not refused; got actions %r, transitions %r' % (
        what, gp.actions, np.asarray(gp.transitions).tolist()), [alpha, pg])


def defects(actions, trans, vectors):
    n = len(actions)
    acts, tr, ve = list(actions), [list(t) for t in trans], vectors

    def out(what, a=None, t=None, v=None, a2=None, numbers=None, style=0):
        return (what, alpha_text(acts if a is None else a,
                                 ve if v is None else v),
                pg_text((acts if a is None else a) if a2 is None else a2,
                        tr if t is None else t, style, numbers))
    for b in sorted(set(itertools.permutations(acts))):
        if list(b) != acts:
            yield out('actions in another order', a2=list(b))
    for i in range(n):
        for x in (NA, NA + 7, -1, -NA):
            b = acts[:i] + [x] + acts[i + 1:]
            yield out('unknown action %d in both files' % x, a=b)
        for x in range(NA):
            if x != acts[i]:
                b = acts[:i] + [x] + acts[i + 1:]
                yield out('node %d: actions differ' % i, a2=b)
        for x in range(-1, n + 2):
            if x != i:
                num = list(range(n))
                num[i] = x
                yield out('node %d numbered %d' % (i, x), numbers=num)
        for j in range(len(tr[i])):
            for x in (n, n + 1, n + 10, -1, -n, -n - 1):
                t = [list(r) for r in tr]
                t[i][j] = x
                yield out('transition to %d of %d nodes' % (x, n), t=t)
        t = [list(r) for r in tr]
        t[i] = t[i][:-1]
        yield out('missing transition of node %d' % i, t=t)
        t = [list(r) for r in tr]
        t[i] = t[i] + [0]
        yield out('extra transition of node %d' % i, t=t)
        v = [list(r) for r in ve]
        v[i] = v[i][:-1]
        yield out('short vector of node %d' % i, v=v)
        v = [list(r) for r in ve]
        v[i] = v[i] + [0.]
        yield out('long vector of node %d' % i, v=v)
    yield out('all transitions missing one', t=[r[:-1] for r in tr])
    yield out('all transitions with one more', t=[r + [0] for r in tr])
    yield out('all vectors short', v=[list(r)[:-1] for r in ve])
    yield out('one node less in the graph', t=tr[:-1], a2=acts[:-1])
    yield out('one node more in the graph', t=tr + [tr[0]],
              a2=acts + [acts[0]])
    a, g = alpha_text(acts, ve), pg_text(acts, tr)
    yield 'action without vector', a + '0\n', g
    yield 'action without vector (both)', a + '0\n', pg_text(
        acts + [0], tr + [tr[0]])
    yield 'empty value function', '', g
    yield 'empty policy graph', a, ''
    yield 'both empty', '', ''


def case_long(ctx, tmp, n, na, no, style, k):
    """Long files of a model of many actions."""
    ns = 4
    u = tuple(F(1, ns) for _ in range(ns))
    e = tuple(F(int(i == 0)) for i in range(no))
    m = Model(tuple((u,) * ns for _ in range(na)),
              tuple((tuple(F(1, no) for _ in range(no)),) + (e,) * (ns - 1)
                    for _ in range(na)), (F(1, 8), F(1, 4), F(1, 2), F(1, 8)),
              R=np.zeros((na, ns, ns, no), dtype=np.float32))
    p = m.real()
    acts = [(i * 7 + k) % na for i in range(n)]
    tr = [[None if (i + z + k) % 5 == 0 else (i * 3 + z + k) % n
           for z in range(no)] for i in range(n)]
    vec = [[float((i * (s + 3) + k) % 17) / 8 for s in range(ns)]
           for i in range(n)]
    write(tmp, alpha_text(acts, vec, style), pg_text(acts, tr, style))
    ctx.trans()
    ctx.states_n(n)
    check_policy(ctx, p.load_policy_from(tmp, 'x'), m, m.start, acts, tr, vec)
    ctx.trace()


class NoSolver(Exception):
    pass


def solve(script_path, script, p, **kw):
    with open(script_path, 'w') as f:
        json.dump(script, f)
    rec = script_path + '.record'
    if os.path.exists(rec):
        os.remove(rec)
    os.environ['MC_SOLVER_SCRIPT'] = script_path
    err = gp = None
    try:
        gp = p.solve(**kw)
    except Exception as e:
        err = e
    finally:
        del os.environ['MC_SOLVER_SCRIPT']
    if not os.path.exists(rec):
        return gp, err, None
    with open(rec) as f:
        return gp, err, json.load(f)


def options(args):
    d = {}
    i = 0
    while i < len(args):
        if args[i].startswith('-') and i + 1 < len(args):
            d[args[i]] = args[i + 1]
            i += 2
        else:
            raise ValueError(args)
    return d


def case_solve(ctx, tmp, start, kw, actions, trans, vectors, status=0,
               drop=None, names=True):
    m, p = make(start, len(trans[0]), names)
    tdir = os.path.join(tmp, 'tmpdirs')
    os.makedirs(tdir, exist_ok=True)
    old = tempfile.tempdir
    cwd = os.getcwd()
    script = {'alpha': alpha_text(actions, vectors),
              'pg': pg_text(actions, trans), 'exit': status}
    if drop:
        script[drop] = None
    tempfile.tempdir = tdir
    try:
        gp, err, rec = solve(os.path.join(tmp, 'script.json'), script, p, **kw)
    finally:
        tempfile.tempdir = old
    ctx.trans()
    ctx.states_n(1)
    case = {'options': kw, 'exit': status, 'missing': drop}
    ctx.ensure(rec is not None, 'solver was not run (%r)' % err, case)
    ctx.eq(os.getcwd(), cwd, 'working directory changed', case)
    ctx.ensure(not os.path.exists(rec['cwd']) and
               rec['cwd'] != cwd and os.listdir(tdir) == [],
               'temporary directory %s left behind' % rec['cwd'], case)
    names_ = {k: getattr(m, k) if names else None
              for k in ('states', 'actions', 'observations')}
    compare(ctx, p, names_, rec['pomdp'])
    try:
        opts = options(rec['args'])
    except ValueError:
        ctx.fail('odd solver arguments %r' % rec['args'], case)
    for o, k in (('-time_limit', 'timeout'), ('-horizon', 'n_iterations'),
                 ('-rand_seed', 'seed')):
        if kw.get(k) is not None:
            ctx.eq(opts.get(o), str(kw[k]), 'solver option ' + o, case)
        elif o != '-rand_seed':
            ctx.ensure(o not in opts, 'option %s not requested' % o, case)
    if kw.get('method') == 'grid':
        ctx.eq(opts.get('-method'), 'grid', 'method', case)
        ctx.eq(opts.get('-fg_type'), kw.get('grid_type') or 'simplex',
               'grid type', case)
    else:
        ctx.ensure(opts.get('-method', 'incprune') == 'incprune', 'method',
                   case)
    if status != 0 or drop:
        ctx.ensure(err is not None, 'solver failure ignored', case)
        return
    if err is not None:
        raise err
    check_policy(ctx, gp, m, start, actions, trans, vectors)
    ctx.trace()


def case_parse(ctx, actions, trans, vectors, style):
    """The parsers themselves, from any iterable of lines."""
    a = alpha_text(actions, vectors, style)
    g = pg_text(actions, trans, style)
    for lines in (lambda t: t.splitlines(True), lambda t: iter(
            t.splitlines(True))):
        acts, v = parse_value_function(lines(a))
        ctx.eq(list(acts), list(actions), 'parsed actions', a)
        ctx.ensure(np.shape(v) == np.shape(vectors) and
                   np.allclose(v, vectors, rtol=1e-12, atol=1e-12),
                   'parsed vectors', a)
        acts, t = parse_policy_graph(lines(g))
        ctx.eq(list(acts), list(actions), 'parsed graph actions', g)
        ctx.eq([list(r) for r in t], [list(r) for r in trans],
               'parsed transitions', g)
        ctx.trans(2)


VECS = [[1., -2.5, .1], [0.5, 3., 1e-7], [0., 0., -1e4], [.375, 2., 7.]]


def run(ctx):
    ctx.assumptions = ['output in the layout of the solver documentation; '
                       'the solver itself is replaced by a stand-in '
                       'executable that records its call']
    tmp = tempfile.mkdtemp()
    starts = [(F(1), F(0), F(0)), (F(0), F(1, 2), F(1, 2)),
              (F(1, 4), F(1, 4), F(1, 2))]
    try:
        for n, no in ((1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 1)) + \
                ctx.pick((), ((3, 2), (2, 3))):
            cells = [None] + list(range(n))
            k = 0
            for flat in itertools.product(cells, repeat=n * no):
                tr = [list(flat[i * no:(i + 1) * no]) for i in range(n)]
                for acts in itertools.product(range(NA), repeat=n):
                    k += 1
                    vec = [VECS[(k + i * (1 + k % 3)) % 4] for i in range(n)]
                    ctx.run_case(case_load, ['load', tr, acts, vec, k % 6],
                                 ctx, tmp, starts[k % 3], acts, tr, vec,
                                 k % 6, bool(k % 5))
                ctx.sample([tr, acts])
        # every choice of vectors and start
        for n in (2, 3):
            for vec in itertools.product(VECS, repeat=n):
                for st in starts:
                    ctx.run_case(case_load, ['values', vec, str(st)], ctx, tmp,
                                 st, [0, 2, 1][:n], [[0, None]] * n, vec, 0)
        # start distributions and values that differ by little
        for d in (10, 10 ** 3, 10 ** 6, 10 ** 9):
            x = F(1, 2) + F(1, d)
            for st in ((x, 1 - x, F(0)), (1 - x, F(0), x),
                       (F(1, d), F(2, d), 1 - F(3, d))):
                for vec in itertools.product(
                        [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]], repeat=3):
                    for c in (1., 1.23456789e-7, 1e6):
                        ctx.run_case(
                            case_load, ['fine', d, str(st), vec, c], ctx, tmp,
                            st, [0, 2, 1], [[0, None]] * 3,
                            [[c * y for y in v] for v in vec], 1)
        for k, (n, na, no) in enumerate([(12, 12, 2), (30, 130, 3),
                                         (130, 11, 2), (240, 240, 1),
                                         (25, 3, 24), (1100, 150, 2)]):
            for style in range(6):
                ctx.run_case(case_long, ['long', n, na, no, style], ctx, tmp,
                             n, na, no, style, k)
        m3 = [[0., 1., 2.], [1., 0., 2.], [1., 1., 0.]]
        for n, no in ((1, 2), (2, 2), (3, 2), (3, 1), (2, 3)):
            for acts in itertools.product(range(NA), repeat=n):
                tr = [[(i + j) % n for j in range(no)] for i in range(n)]
                _, p = make(starts[2], no)
                for style in range(6):
                    ctx.run_case(case_parse, ['parse', acts, style], ctx,
                                 acts, tr, m3[:n], style)
                for what, a, g in defects(acts, tr, m3[:n]):
                    ctx.states_n(1)
                    ctx.run_case(case_refused, [what, acts], ctx, tmp, what,
                                 p, a, g)
        # running the solver
        outs = [([1], [[None, None]], [[1., 2., 3.]]),
                ([1, 0], [[1, 0], [None, 1]], [[1., 2., 3.], [2., 2., 2.]])]
        kws = []
        for t in (None, 0, 7):
            for h in (None, 0, 30):
                for s in (None, 0, 123):
                    for me, g in ((None, None), ('incprune', None),
                                  ('grid', None), ('grid', 'simplex'),
                                  ('grid', 'pairwise'), ('grid', 'search'),
                                  ('grid', 'initial')):
                        kw = {'timeout': t, 'n_iterations': h, 'seed': s}
                        if me:
                            kw['method'] = me
                        if g:
                            kw['grid_type'] = g
                        kw = {k: v for k, v in kw.items() if v is not None}
                        kws.append(kw)
                        if s == 123:
                            kws.append(dict(kw, verbose=True))
        for k in ('timeout', 'n_iterations', 'seed'):
            for x in (1, 99, 100, 1000, 5000, 123456, 10 ** 9):
                kws += [{k: x}, {k: x, 'method': 'grid'}]
        for i, kw in enumerate(kws):
            o = outs[i % 2]
            ctx.run_case(case_solve, ['solve', kw], ctx, tmp, starts[i % 3],
                         kw, *o)
        for i, (st, drop) in enumerate([(1, None), (2, 'alpha'), (0, 'alpha'),
                                        (0, 'pg'), (255, None), (1, 'pg'),
                                        (126, None), (-9, None),
                                        (-15, 'pg')]):
            for o in outs:
                for kw in ({}, {'method': 'grid'}, {'timeout': 1},
                           {'verbose': True},
                           {'verbose': True, 'method': 'grid'}):
                    ctx.run_case(case_solve, ['fail', st, drop, kw], ctx, tmp,
                                 starts[0], kw, *o, st, drop)
    finally:
        shutil.rmtree(tmp)
