"""M01: construction of models."""
import itertools
import os
import shutil
import tempfile

import numpy as np

from task_models.lib.pomdp import POMDP


def base(a, s, o, naming, k=0):
    """A valid description."""
    def rows(shape, n):
        x = np.zeros(shape + (n,))
        for j, idx in enumerate(np.ndindex(*shape)):
            w = np.arange(1, n + 1, dtype=float)
            w = np.roll(w, j + k)
            if (j + k) % 3 == 0:
                w = (w == w.max()).astype(float)
            x[idx] = w / w.sum()
        return x
    d = {'T': rows((a, s), s), 'O': rows((a, s), o), 'start': rows((), s),
         'R': (np.arange(a * s * s * o, dtype=float) - 3.).reshape(
             a, s, s, o),
         'discount': .9, 'values': 'reward',
         'states': None, 'actions': None, 'observations': None}
    if naming == 'str':
        d.update(states=['s%d' % i for i in range(s)],
                 actions=['a%d' % i for i in range(a)],
                 observations=['o%d' % i for i in range(o)])
    elif naming == 'mixed':
        d.update(states=tuple(['x', 1, (2, 'b')][:s]), actions=None,
                 observations=['y', None, 3][:o])
    elif naming == 'num':
        d.update(states=list(range(10, 10 + s)),
                 actions=list(range(a))[::-1],
                 observations=list(range(1, 1 + o)))
    return d


def setk(k, v):
    def f(d):
        d[k] = v
    return f


def shape(k, ax, delta):
    def f(d):
        x = d[k]
        if delta < 0:
            d[k] = np.take(x, range(x.shape[ax] - 1), axis=ax)
        else:
            d[k] = np.concatenate([x, np.take(x, [0], axis=ax)], axis=ax)
    return f


def ndim(k, how):
    def f(d):
        d[k] = d[k][0] if how < 0 else d[k][None]
    return f


def bump(k, idx, e):
    def f(d):
        d[k] = np.array(d[k])
        try:
            d[k][idx] += e
        except IndexError:
            pass
    return f


def dup(k, i, j):
    def f(d):
        if d[k] is not None:
            v = list(d[k])
            v[i] = v[j]
            d[k] = v
    return f


def longer(k, delta):
    def f(d):
        if d[k] is not None:
            v = list(d[k])
            d[k] = v[:-1] if delta < 0 else v + ['extra']
    return f


def defects(a, s, o, named):
    out = []
    for v in (1.01, -.01, 2., -1., 1 + 1e-6, -1e-6, float(np.nextafter(1, 2)),
              -5e-324):
        out.append(('discount %s' % v, setk('discount', v)))
    for v in (0, 1, 0., 1., 1e-9, 1 - 1e-9):
        out.append(('discount %s' % v, setk('discount', v)))
    for v in ('costs', '', None, 'Reward'):
        out.append(('values %r' % v, setk('values', v)))
    for k, n in (('start', 1), ('T', 3), ('O', 3), ('R', 4)):
        for ax in range(n):
            for d in (-1, 1):
                out.append(('%s shape %d %d' % (k, ax, d), shape(k, ax, d)))
        for how in (-1, 1):
            out.append(('%s ndim %d' % (k, how), ndim(k, how)))
    for k, dims in (('start', (s,)), ('T', (a, s, s)), ('O', (a, s, o))):
        for idx in np.ndindex(*dims):
            for e in (.01, -.01, float('nan')):
                out.append(('%s%s %s' % (k, idx, e), bump(k, idx, e)))
    for k, n in (('states', s), ('actions', a), ('observations', o)):
        if named:
            for i, j in itertools.combinations(range(n), 2):
                out.append(('dup %s %d %d' % (k, i, j), dup(k, i, j)))
            for d in (-1, 1):
                out.append(('number of %s %d' % (k, d), longer(k, d)))
    return out


def valid(d):
    """The validity predicate of the property."""
    if d['O'].ndim != 3:
        return False
    a, s, o = d['O'].shape
    for k, n in (('states', s), ('actions', a), ('observations', o)):
        if d[k] is not None:
            if len(d[k]) != n or len(set(d[k])) != len(d[k]):
                return False
    if (d['T'].shape != (a, s, s) or d['R'].shape != (a, s, s, o) or
            d['start'].shape != (s,)):
        return False
    for k in ('T', 'O', 'start'):
        sums = d[k].sum(-1)
        if not np.all(np.abs(sums - 1) < 1e-4):
            return False
    return d['values'] in ('reward', 'cost') and 0 <= d['discount'] <= 1


def case(ctx, d, as_iter=False):
    ok = valid(d)
    arrays = {k: d[k].copy() for k in ('T', 'O', 'R', 'start')}
    kw = {k: d[k] for k in ('states', 'actions', 'observations', 'values')}
    if as_iter:
        kw.update({k: iter(v) for k, v in kw.items()
                   if k != 'values' and v is not None})
    ctx.trans()
    try:
        p = POMDP(d['T'], d['O'], d['R'], d['start'], d['discount'], **kw)
    except ValueError as e:
        ctx.ensure(not ok, 'valid model refused: %s' % e, None)
        return
    ctx.ensure(ok, 'malformed model accepted', None)
    ctx.trace()
    for k in arrays:
        ctx.ensure(np.array_equal(arrays[k], d[k]), 'input %s changed' % k,
                   None)
    sign = -1 if d['values'] == 'cost' else 1
    a, s, o = d['O'].shape
    for k, want in (('T', d['T']), ('O', d['O']), ('R', sign * d['R']),
                    ('start', d['start'])):
        ctx.ensure(np.array_equal(getattr(p, k), want), k + ' differs', None)
    ctx.eq(p.discount, d['discount'], 'discount', None)
    for k, n in (('states', s), ('actions', a), ('observations', o)):
        ctx.eq(list(getattr(p, k)), list(range(n)) if d[k] is None else
               list(d[k]), k, None)
        ctx.eq(getattr(p, 'n_' + k), n, 'number of ' + k, None)


def case_randomize(ctx, d, e):
    T, O, st, R = (d[k].copy() for k in ('T', 'O', 'start', 'R'))
    p = POMDP(d['T'].copy(), d['O'].copy(), d['R'].copy(), d['start'].copy(),
              .9, states=d['states'], actions=d['actions'],
              observations=d['observations'])
    if e is None:
        p.randomize()
        e = 1e-3
    else:
        p.randomize(e)
    ctx.trans()
    for k, x in (('T', T), ('O', O)):
        n = x.shape[-1]
        want = (x + e) / (1. + n * e)
        got = getattr(p, k)
        ctx.ensure(got.shape == x.shape and np.allclose(
            got, want, rtol=0, atol=1e-12), 'randomised %s: %r, expected %r' %
            (k, got.tolist(), want.tolist()), None)
        ctx.ensure(np.allclose(got.sum(-1), 1., rtol=0, atol=1e-12),
                   'randomised %s not normalised' % k, None)
    ctx.ensure(np.array_equal(p.start, st) and np.array_equal(p.R, R),
               'start or rewards changed', None)


def case_solver(ctx):
    """Missing or misplaced solver executables."""
    d = base(2, 2, 2, 'str')

    def make(**kw):
        return POMDP(d['T'], d['O'], d['R'], d['start'], .9, **kw)
    old = os.environ['PATH']
    cwd = os.getcwd()
    tmp = tempfile.mkdtemp()
    try:
        os.chdir(tmp)
        empty = os.path.join(tmp, 'empty')
        full = os.path.join(tmp, 'full')
        os.mkdir(empty)
        os.mkdir(full)
        exe = os.path.join(full, 'pomdp-solve')
        with open(exe, 'w') as f:
            f.write('#!/bin/sh\n')
        os.chmod(exe, 0o755)
        for path in (empty, full, empty + os.pathsep + full):
            for sp in (None, empty, full, full + os.pathsep + empty):
                os.environ['PATH'] = path
                there = full in (path if sp is None else sp)
                ctx.trans()
                try:
                    make(solver_path=sp)
                    ok = True
                except ImportError:
                    ok = False
                ctx.eq(ok, there, 'construction with PATH=%s solver_path=%s' %
                       (path, sp), None)
    finally:
        os.environ['PATH'] = old
        os.chdir(cwd)
        shutil.rmtree(tmp)


def run(ctx):
    ctx.assumptions = ['arrays are numpy arrays; sums are off by at least '
                       '0.01 or exact within rounding']
    ctx.run_case(case_solver, 'solver', ctx)
    for a, s, o in itertools.product((1, 2, 3), repeat=3):
        for naming in ('none', 'str', 'mixed', 'num'):
            ds = defects(a, s, o, naming != 'none')
            for k in range(4):
                for values in ('reward', 'cost'):
                    d = base(a, s, o, naming, k)
                    d['values'] = values
                    ctx.states_n(1)
                    ctx.run_case(case, [a, s, o, naming, k, values], ctx, d)
                    ctx.run_case(case, [a, s, o, naming, k, values, 'iter'],
                                 ctx, d, True)
                for e in (None, 0., .5, 1e-6, 3.):
                    ctx.run_case(case_randomize, [a, s, o, naming, k, e], ctx,
                                 base(a, s, o, naming, k), e)
            # integer-typed arrays are fine
            d = base(a, s, o, naming)
            for x in ('T', 'O'):
                z = np.zeros(d[x].shape, dtype=int)
                z[..., 0] = 1
                d[x] = z
            d['start'] = np.array([1] + [0] * (s - 1))
            ctx.run_case(case, [a, s, o, naming, 'int'], ctx, d)
            for n, f in ds:
                for values in ('reward', 'cost'):
                    d = base(a, s, o, naming)
                    d['values'] = values
                    f(d)
                    ctx.states_n(1)
                    ctx.run_case(case, [a, s, o, naming, n], ctx, d)
            if ctx.thorough or (a, s, o) in ((1, 2, 1), (2, 2, 1)) or (
                    (a, s, o, naming) in ((2, 2, 2, 'str'),
                                          (1, 1, 1, 'none'))):
                for (n1, f1), (n2, f2) in itertools.combinations(ds, 2):
                    d = base(a, s, o, naming)
                    try:
                        f1(d)
                        f2(d)
                    except (IndexError, ValueError):
                        continue  # first defect removed the second's place
                    ctx.states_n(1)
                    ctx.run_case(case, [a, s, o, naming, n1, n2], ctx, d)
            ctx.sample([a, s, o, naming, [n for n, _ in ds][:5]])
