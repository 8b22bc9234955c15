"""M03: the solver input file."""
import itertools
import os
import shutil
import tempfile
from decimal import Decimal as D

import numpy as np

from task_models.lib.pomdp import POMDP

from .m01 import base


class BadFile(Exception):
    pass


def parse(text):
    """Independent parser of the published .pomdp format (subset with full
    matrices; numbers kept as exact decimals)."""
    toks = []
    for line in text.split('\n'):
        line = line.split('#')[0]
        toks.append(line.replace(':', ' : ').split())
    flat = [t for l in toks for t in l]
    pos = [0]
    res = {'T': {}, 'O': {}, 'R': {}}
    HEAD = ('discount', 'values', 'states', 'actions', 'observations',
            'start', 'T', 'O', 'R')

    def is_head(i):
        return (i + 1 < len(flat) and flat[i] in HEAD and flat[i + 1] == ':')

    def until_head():
        out = []
        while pos[0] < len(flat) and not is_head(pos[0]):
            out.append(flat[pos[0]])
            pos[0] += 1
        return out

    def idx(kind, tok):
        names = res[kind]
        if tok in names:
            return names.index(tok)
        if tok.isdigit() and int(tok) < len(names):
            return int(tok)
        raise BadFile('unknown %s %r' % (kind, tok))

    while pos[0] < len(flat):
        if not is_head(pos[0]):
            raise BadFile('unexpected %r' % flat[pos[0]])
        key = flat[pos[0]]
        pos[0] += 2
        body = until_head()
        if key in ('discount', 'values'):
            if len(body) != 1 or key in res:
                raise BadFile('bad ' + key)
            res[key] = D(body[0]) if key == 'discount' else body[0]
        elif key in ('states', 'actions', 'observations'):
            if len(body) == 1 and body[0].isdigit():
                res['#' + key] = int(body[0])
                body = [str(i) for i in range(int(body[0]))]
            res[key] = body
        elif key == 'start':
            res['start'] = [D(x) for x in body]
            if len(body) != len(res['states']):
                raise BadFile('start length')
        elif key in 'TO':
            a = idx('actions', body[0])
            nums = [D(x) for x in body[1:]]
            n = len(res['states'])
            m = n if key == 'T' else len(res['observations'])
            if len(nums) != n * m or a in res[key]:
                raise BadFile('%s block of action %s' % (key, a))
            res[key][a] = [nums[i * m:(i + 1) * m] for i in range(n)]
        else:
            if body[1] != ':':
                raise BadFile('R header')
            a, s = idx('actions', body[0]), idx('states', body[2])
            nums = [D(x) for x in body[3:]]
            n, m = len(res['states']), len(res['observations'])
            if len(nums) != n * m or (a, s) in res['R']:
                raise BadFile('R block')
            res['R'][a, s] = [nums[i * m:(i + 1) * m] for i in range(n)]
    return res


HALF = 0.5e-5 * (1 + 1e-6)


def row(ctx, got, want, what, prob=True):
    n = len(want)
    ctx.eq(len(got), n, what + ' length', None)
    for g, w in zip(got, want):
        ctx.ensure(abs(float(g) - float(w)) <= HALF * (n + 1) +
                   1e-12 * abs(float(w)),
                   '%s: %s printed as %s' % (what, list(want),
                                             [str(x) for x in got]), None)
    if prob:
        ctx.ensure(all(x >= 0 for x in got), '%s: negative in %s' % (
            what, [str(x) for x in got]), None)
        ctx.ensure(sum(got) == 1, '%s: %s sums to %s' % (
            what, [str(x) for x in got], sum(got)), None)


def compare(ctx, p, names, text):
    try:
        r = parse(text)
    except (BadFile, IndexError, ArithmeticError, ValueError, KeyError) as e:
        ctx.fail('file cannot be parsed: %r' % e, text[:400])
    ctx.trans()
    ctx.eq(r.get('values'), 'reward', 'values', None)
    ctx.ensure(float(r.get('discount', -1)) == p.discount, 'discount', None)
    for k in ('states', 'actions', 'observations'):
        ctx.eq(r.get(k), [str(x) for x in getattr(p, k)], k, None)
        if names[k] is None:
            ctx.eq(r.get('#' + k, len(r[k]) if names[k] is not None else None),
                   getattr(p, 'n_' + k), 'count of ' + k, None)
    row(ctx, r['start'], p.start, 'start')
    for a in range(p.n_actions):
        for s in range(p.n_states):
            row(ctx, r['T'][a][s], p.T[a, s], 'T[%d,%d]' % (a, s))
            row(ctx, r['O'][a][s], p.O[a, s], 'O[%d,%d]' % (a, s))
            for s2 in range(p.n_states):
                row(ctx, r['R'][a, s][s2], p.R[a, s, s2],
                    'R[%d,%d,%d]' % (a, s, s2), False)


def case_dump(ctx, d, tmp=None):
    names = {k: d[k] for k in ('states', 'actions', 'observations')}
    p = POMDP(d['T'], d['O'], d['R'], d['start'], d['discount'],
              values=d['values'], **names)
    before = [p.T.copy(), p.O.copy(), p.R.copy(), p.start.copy()]
    compare(ctx, p, names, p.dump())
    if tmp is not None:
        path = p.dump_to(tmp, 'name')
        ctx.eq(os.path.abspath(path), os.path.join(tmp, 'name.pomdp'),
               'path of the file', None)
        compare(ctx, p, names, open(path).read())
        os.remove(path)
    ctx.ensure(all(np.array_equal(x, y) for x, y in zip(
        before, (p.T, p.O, p.R, p.start))), 'model changed by export', None)
    ctx.trace()


def case_rows(ctx, rows):
    """Distributions as transition and observation rows of one model."""
    n = len(rows[0])
    x = np.array(rows, dtype=float)
    s = len(rows)
    # observation rows
    O = x[None]
    T = np.eye(s)[None]
    d = {'T': T, 'O': O, 'R': np.zeros((1, s, s, n)), 'start': T[0, 0],
         'discount': .9, 'values': 'reward', 'states': None,
         'actions': ['a'], 'observations': None}
    case_dump(ctx, d)
    ctx.states_n(s)


def partitions(n, k, low=0):
    if k == 1:
        yield (n,)
        return
    for i in range(n + 1):
        for r in partitions(n - i, k - 1):
            yield (i,) + r


def run(ctx):
    ctx.assumptions = ['names are identifiers, as the format demands, or numbers by default; distributions '
                       'sum to one within float rounding']
    tmp = tempfile.mkdtemp()
    try:
        for a, s, o in itertools.product((1, 2, 3), repeat=3):
            for naming in ('none', 'str'):
                for k in range(3):
                    for values in ('reward', 'cost'):
                        for disc in (.95, 0, 1, 1. / 3):
                            d = base(a, s, o, naming, k)
                            d['values'], d['discount'] = values, disc
                            d['R'] = d['R'] / 7. * (1e4 if k == 1 else 1.)
                            ctx.run_case(case_dump, [a, s, o, naming, k,
                                                     values, disc], ctx, d,
                                         tmp)
        # every kind of identifier in every position
        ids = ['a', 'A', 'a1', 'a_b', 'a__b', '_a', 'a_', 'a-b', 'a--b', '-a',
               'aB', 'states', 'O', 'uniform', 'x' * 60, 'a.b', 'T1', 'Ta']
        ids = [x for x in ids if x not in ('states', 'O', 'uniform') and
               '.' not in x and x[0] != '-']
        for n in (2, 3, 12):
            for k in range(len(ids)):
                d = base(n, n, n, 'none', k)
                for j, what in enumerate(('states', 'actions',
                                          'observations')):
                    d[what] = [(ids * 2)[(k + i + 5 * j) % (2 * len(ids))]
                               for i in range(n)]
                ctx.run_case(case_dump, ['ids', n, k], ctx, d, tmp)
        # many names, in every position
        for a, n, o in ((2, 130, 2), (1, 3, 130), (130, 3, 2), (110, 2, 101)):
            for naming in ('none', 'str'):
                d = base(a, n, o, naming, 1)
                ctx.run_case(case_dump, ['many', a, n, o, naming], ctx, d)
        for disc in (0., 1., .123456, .99999, 1e-6, 1e-12, .5):
            d = base(2, 2, 2, 'str', 1)
            d['discount'] = disc
            ctx.run_case(case_dump, ['discount', disc], ctx, d, tmp)
    finally:
        shutil.rmtree(tmp)
    for k in range(1, 6):
        for n in ctx.pick((1, 3, 7, 9), (1, 2, 3, 6, 7, 9, 11, 13)):
            batch = []
            for part in partitions(n, k):
                batch.append([x / float(n) for x in part])
                if len(batch) == 6:
                    ctx.run_case(case_rows, ['rows', batch], ctx, batch)
                    batch = []
            if batch:
                ctx.run_case(case_rows, ['rows', batch], ctx, batch)
            ctx.sample(batch)
    # entries around half a unit of the last decimal, many small entries
    eps = [0., .4e-5, .5e-5, .6e-5, 1e-5, 1.5e-5, 1e-9]
    for k in range(1, ctx.pick(5, 6)):
        for es in itertools.combinations_with_replacement(eps, k):
            for pos in range(k + 1):
                r = list(es)
                r.insert(pos, 1. - sum(es))
                ctx.run_case(case_rows, ['eps', r], ctx, [r])
            half = [.5 - sum(es) / 2, .5 - sum(es) / 2]
            ctx.run_case(case_rows, ['eps', es], ctx, [half + list(es)])
    for n in (7, 13, 30, 60, 97, 150, 300, 1000):
        ctx.run_case(case_rows, ['uniform', n], ctx, [[1. / n] * n])
        w = np.arange(1, n + 1) ** 2.
        ctx.run_case(case_rows, ['quadratic', n], ctx, [list(w / w.sum())])
        w = np.array([1.] + [.6e-5 * 2 / n] * (n - 1))
        ctx.run_case(case_rows, ['peak', n], ctx, [list(w / w.sum())])
        # most probability anywhere, rounded up or down
        for at in {0, n // 3, n // 2, n - 7, n - 1}:
            for k in (3, 7, 6, 11):
                w = np.zeros(n)
                w[max(0, min(at, n - k)):][:k] = 1. / k
                w /= w.sum()
                ctx.run_case(case_rows, ['block', n, at, k], ctx, [list(w)])
        w = np.array([.49e-5] * (n - 1))
        ctx.run_case(case_rows, ['many small', n], ctx,
                     [[1. - w.sum()] + list(w)])
