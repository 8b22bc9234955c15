"""D08: summaries of beliefs over supportive states."""
import itertools

import numpy as np

from task_models.supportive import _SupportivePOMDPState as State

from .d04 import read


def case(ctx, dims, pairs):
    n = dims[0] * 2 ** sum(dims[1:])
    recs = [read(State(*dims, s=s), dims) for s in range(n)]
    what = list(dims)
    objs = [State(*dims), State(*dims, s=n - 1)]   # whichever state is asked

    def check(weights, b, where):
        want_h = [0.] * dims[0]
        want_p = [0.] * dims[1]
        for s, w in weights.items():
            want_h[recs[s][0]] += w
            for i, x in enumerate(recs[s][1]):
                want_p[i] += w * x
        want_p.reverse()      # last preference first
        for x in objs:
            c = b.copy()
            h = [float(v) for v in x.belief_quotient(b)]
            p = [float(v) for v in x.belief_preferences(b)]
            ctx.trans(2)
            ctx.ensure(len(h) == len(want_h) and np.allclose(
                h, want_h, atol=1e-9), 'by task step: %r, expected %r' % (
                    h, want_h), [what, where])
            ctx.ensure(len(p) == len(want_p) and np.allclose(
                p, want_p, atol=1e-9), 'preferences: %r, expected %r' % (
                    p, want_p), [what, where])
            ctx.ensure((b == c).all(), 'belief changed', [what, where])

    for s in range(n):
        b = np.zeros(n)
        b[s] = 1.
        check({s: 1.}, b, s)
    ctx.states_n(n)
    if pairs:
        for s, t in itertools.combinations(range(n), 2):
            b = np.zeros(n)
            b[s], b[t] = .3, .7
            check({s: .3, t: .7}, b, [s, t])
        ctx.states_n(n * (n - 1) // 2)
    w = {s: (s + 1.) / (n * (n + 1) / 2) for s in range(n)}
    check(w, np.array([w[s] for s in range(n)]), 'all')
    check({s: 1. / n for s in range(n)}, np.full(n, 1. / n), 'uniform')
    for bad in {0, 1, n - 1, n + 1, 2 * n, n * 2 ** dims[1], n // 2,
                n + 2 ** sum(dims[1:])} - {n, -1}:
        for name in ('belief_quotient', 'belief_preferences'):
            try:
                r = getattr(objs[0], name)(np.full(bad, .1))
            except Exception:
                continue
            ctx.fail('%s of a belief over %d states instead of %d: %r' % (
                name, bad, n, r), what)
    ctx.trace()


def case_large(ctx, dims):
    """Many states: certainty of selected ones, beliefs over all of them."""
    n = dims[0] * 2 ** sum(dims[1:])
    x = State(*dims)
    recs = [read(State(*dims, s=s), dims) for s in range(n)]
    steps = np.array([r[0] for r in recs])
    prefs = np.array([r[1] for r in recs]).reshape(n, dims[1])
    rows = [('uniform', np.full(n, 1. / n)),
            ('rising', np.arange(1., n + 1) / (n * (n + 1) / 2))]
    k = max(1, n // 60)
    for s in list(range(0, n, k)) + [n - 1]:
        b = np.zeros(n)
        b[s] = 1.
        rows.append((s, b))
    tiny = np.full(n, 1e-9)
    tiny[n // 2] += 1 - tiny.sum()
    rows.append(('nearly certain', tiny))
    halves = np.zeros(n)
    halves[:40] = .5 ** np.arange(1, 41)[:len(halves[:40])]
    rows.append(('halves', halves / halves.sum()))
    for where, b in rows:
        c = b.copy()
        h = [float(v) for v in x.belief_quotient(b)]
        p = [float(v) for v in x.belief_preferences(b)]
        want_h = [float(b[steps == i].sum()) for i in range(dims[0])]
        want_p = [float(b[prefs[:, i] == 1].sum())
                  for i in reversed(range(dims[1]))]
        ctx.trans(2)
        for got, want, name in ((h, want_h, 'by task step'),
                                (p, want_p, 'preferences')):
            ctx.ensure(len(got) == len(want) and np.allclose(
                got, want, rtol=1e-7, atol=1e-12), '%s: %r, expected %r' % (
                    name, got, want), [dims, where])
        ctx.ensure((b == c).all(), 'belief changed', [dims, where])
    ctx.states_n(n)
    ctx.trace()


def run(ctx):
    ctx.assumptions = ['the summary of preferences is listed last preference '
                       'first, as the test of the repository expects']
    hi = ctx.pick((4, 3, 2, 3), (6, 4, 2, 4))
    dims = sorted(itertools.product(range(1, hi[0] + 1), range(hi[1] + 1),
                                    range(hi[2] + 1), range(hi[3] + 1)),
                  key=lambda d: (d[0] * 2 ** sum(d[1:]), d))
    jobs = []
    for d in dims:
        n = d[0] * 2 ** sum(d[1:])
        jobs.append((case, list(d), d, n <= ctx.pick(48, 192)))
        ctx.sample(d)
    for d in ((3, 1, 1, 10), (40, 1, 1, 7), (3, 6, 1, 4), (2, 9, 0, 3),
              (70, 2, 1, 5), (5, 4, 3, 6)):
        jobs.append((case_large, ['large', d], d))
    ctx.run_cases(jobs)
