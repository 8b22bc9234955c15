"""B03: particle beliefs."""
import itertools
from fractions import Fraction as F

import numpy as np

from task_models.lib.pomdp import POMDP
from task_models.lib.belief import ParticleBelief, MaxSamplesReached

from ..models import Model, dists
from .. import randomness as rnd
from ..randomness import distribution, dist_diff


class Cut(Exception):
    pass


class Counting(POMDP):
    """Real model whose simulator stops after `limit` simulations."""
    limit = None
    count = 0

    def sample_transition(self, a, s):
        if self.limit is not None and self.count >= self.limit:
            raise Cut()
        self.count += 1
        return POMDP.sample_transition(self, a, s)


def given(states):
    """Sampler handing out the given particles in order."""
    it = iter(states)
    return lambda: next(it)


def counts(belief, n):
    """Multiset of particles, through the array form."""
    x = np.asarray(belief.array, dtype=float) * n
    r = np.round(x)
    if not np.allclose(x, r):
        return ('not multiples of 1/%d' % n, tuple(x))
    return tuple(int(v) for v in r)


def count_of(states, ns):
    return tuple(sum(1 for s in states if s == i) for i in range(ns))


def case_start(ctx, m, n):
    """Initial population: n independent draws."""
    p = m.real()

    def build():
        return counts(ParticleBelief(p.sample_start, m.ns, n), n)
    got = distribution(build, stats=ctx)
    want = {}
    for xs in itertools.product(range(m.ns), repeat=n):
        pr = 1.
        for x in xs:
            pr *= float(m.start[x])
        if pr:
            k = count_of(xs, m.ns)
            want[k] = want.get(k, 0.) + pr
    d = dist_diff(got, want)
    ctx.ensure(d is None, 'initial particles: %s' % d, repr(m))
    ctx.trace()


def case_sample(ctx, ns, parts):
    n = len(parts)
    b = ParticleBelief(given(parts), ns, n)
    ctx.states_n(1)
    ctx.eq(counts(b, n), count_of(parts, ns), 'array form', parts)
    ctx.eq(len(b.array), ns, 'array length', parts)
    ctx.ensure(abs(float(np.sum(b.array)) - 1) < 1e-9, 'array sum', parts)
    ctx.eq([round(float(x), 9) for x in b.to_list()],
           [round(c / n, 9) for c in count_of(parts, ns)], 'list form', parts)
    got = distribution(lambda: int(b.sample()), stats=ctx)
    want = {i: c / n for i, c in enumerate(count_of(parts, ns)) if c}
    d = dist_diff(got, want)
    ctx.ensure(d is None, 'sampling of %r: %s' % (parts, d), parts)


def case_successor(ctx, m, parts, a, o, limit):
    """Exact (sub-)distribution of the successor reached in up to `limit`
    simulations."""
    n = len(parts)
    p = m.real(cls=Counting)
    b = ParticleBelief(given(parts), m.ns, n)
    before = counts(b, n)

    def step():
        p.limit, p.count = limit, 0
        try:
            s = b.successor(p, a, o)
        except Cut:
            return 'cut'
        except MaxSamplesReached:
            return 'exhausted'
        if counts(b, n) != before:
            return 'previous belief altered'
        return (counts(s, n), s.n_particles)
    got = distribution(step, max_runs=10 ** 6, stats=ctx)
    # reference: independent rounds of (particle, simulation, acceptance)
    acc = [0.] * m.ns
    for s in parts:
        for s2 in range(m.ns):
            acc[s2] += float(m.T[a][s][s2] * m.O[a][s2][o]) / n
    rej = 1. - sum(acc)
    want = {}
    from math import comb
    for xs in itertools.product(range(m.ns), repeat=n):
        pr = 1.
        for x in xs:
            pr *= acc[x]
        if pr <= 0:
            continue
        # n acceptances within limit rounds, last one accepted
        ways = sum(comb(k - 1, n - 1) * rej ** (k - n)
                   for k in range(n, limit + 1))
        key = (count_of(xs, m.ns), n)
        want[key] = want.get(key, 0.) + pr * ways
    want['cut'] = 1. - sum(want.values())
    d = dist_diff(got, want)
    ctx.trace()
    ctx.states_n(1)
    ctx.ensure(d is None, 'successor of particles %r by %d, %d: %s' % (
        parts, a, o, d), repr(m))


class Scripted(object):
    """Simulator environment: the k-th simulation (from 1) produces the
    observation asked for iff k is in `hits`, and end state k."""

    def __init__(self, hits, o):
        self.hits, self.o, self.k = set(hits), o, 0

    def sample_transition(self, a, s):
        self.k += 1
        hit = self.k in self.hits
        return self.k, (self.o if hit else 1 - self.o), 0.


def case_exhaustion(ctx, n, hits, o):
    """Every fault point of the sampling budget (100 per particle)."""
    budget = 100 * n
    ns = budget + 5
    b = ParticleBelief(given([0] * n), ns, n)
    before = counts(b, n)
    found = sorted(h for h in hits if h <= budget)[:n]
    outcomes = {}
    prefix = []
    while prefix is not None:
        sim = Scripted(hits, o)

        class O(rnd.Oracle):
            """Draws of (equal) parent particles are irrelevant; those after
            the budget is used up are explored."""
            def branch(self, weights):
                if sim.k < budget:
                    return 0
                return rnd.Oracle.branch(self, weights)
        orc = O(prefix)
        with rnd.active(orc):
            try:
                c = counts(b.successor(sim, 3, o), n)
                r = tuple(i for i, k in enumerate(c) for _ in range(k))
            except MaxSamplesReached as e:
                ctx.ensure(e.belief is b and e.action == 3 and
                           e.observation == o, 'error does not carry belief, '
                           'action and observation', [n, hits])
                str(e)
                r = 'error'
        outcomes[r] = outcomes.get(r, 0.) + orc.prob
        ctx.trans()
        ctx.ensure(sim.k <= budget, '%d simulations with a budget of %d' % (
            sim.k, budget), [n, hits])
        prefix = rnd.next_prefix(orc.trace)
    ctx.states_n(1)
    ctx.trace()
    ctx.eq(counts(b, n), before, 'previous belief altered', [n, hits])
    want = {}
    if not found:
        want['error'] = 1.
    else:
        miss = n - len(found)
        for extra in itertools.product(found, repeat=miss):
            k = tuple(sorted(found + list(extra)))
            want[k] = want.get(k, 0.) + len(found) ** -float(miss)
    d = dist_diff(outcomes, want)
    ctx.ensure(d is None, 'found particles %r: %s' % (found, d), [n, hits])


def run(ctx):
    ctx.assumptions = [
        'successor distributions decided up to the given number of '
        'simulations (remaining mass compared as a whole); grid models']
    for d in dists(2, 4) + dists(3, 3):
        for n in range(1, ctx.pick(4, 5)):
            m = Model((tuple((F(1, len(d)),) * len(d) for _ in d),),
                      (tuple((F(1),) for _ in d),), d)
            ctx.run_case(case_start, ['start', str(d), n], ctx, m, n)
    for ns in (1, 2, 3):
        for n in range(1, ctx.pick(5, 6)):
            for parts in itertools.product(range(ns), repeat=n):
                ctx.run_case(case_sample, ['sample', ns, parts], ctx, ns,
                             list(parts))
    t_rows = dists(2, 2)
    o_rows = dists(2, 2)
    T2 = ((F(1, 4), F(3, 4)), (F(1), F(0)))
    O2 = ((F(1, 4), F(3, 4)), (F(3, 4), F(1, 4)))
    for tr in itertools.product(t_rows, repeat=2):
        for orow in itertools.product(o_rows, repeat=2):
            m = Model((tr, T2), (orow, O2), (F(1), F(0)))
            for n, limit in ctx.pick(((1, 3), (2, 3)),
                                     ((1, 5), (2, 4), (3, 4))):
                for parts in itertools.combinations_with_replacement(
                        range(2), n):
                    for a in (0, 1) if n < 2 else (0,):
                        for o in (0, 1):
                            ctx.run_case(case_successor, [
                                repr(m), parts, a, o], ctx, m, list(parts), a,
                                o, limit)
            ctx.sample(m)
    # three observations, three states
    m = Model((((F(0), F(1, 2), F(1, 2)), (F(1), F(0), F(0)),
                (F(1, 3), F(1, 3), F(1, 3))),),
              (((F(1), F(0), F(0)), (F(1, 2), F(1, 2), F(0)),
                (F(0), F(0), F(1))),), (F(1), F(0), F(0)))
    for n in (1, 2):
        for parts in itertools.combinations_with_replacement(range(3), n):
            for o in range(3):
                ctx.run_case(case_successor, [repr(m), parts, o], ctx, m,
                             list(parts), 0, o, 3)
    for o in (0, 1):
        for h in [[]] + [[k] for k in range(1, 103)]:
            ctx.run_case(case_exhaustion, ['exhaustion', 1, h], ctx, 1, h, o)
    ks = (1, 2, 100, 101, 199, 200, 201, 202) if not ctx.thorough else \
        range(1, 203, 7)
    for h in [()] + [(k,) for k in ks] + list(itertools.combinations(ks, 2)):
        ctx.run_case(case_exhaustion, ['exhaustion', 2, h], ctx, 2, list(h), 1)
    # larger populations, many particles found before the budget is used up
    for n, k in ((5, 4), (6, 5), (7, 5), (8, 7), (12, 11), (30, 29),
                 (104, 104), (105, 104), (150, 150)):
        for at in ((1, 1), (3, 2), (100 * n - k + 1, 1)):
            ctx.run_case(case_exhaustion, ['exhaustion', n, k, at], ctx, n,
                         [at[0] + at[1] * i for i in range(k)], 1)
    for n in (10, 40, 101, 130, 257):
        for ns in (2, 12, 300):
            ctx.run_case(case_sample, ['sample', n, ns], ctx, ns,
                         [(i * i + 3 * i) % ns for i in range(n)])
            ctx.run_case(case_sample, ['sample one', n, ns], ctx, ns,
                         [0] * (n - 1) + [ns - 1])
    ks = (1, 150, 299, 300, 301)
    for h in ([5, 9], [1, 2, 3], [400]):
        ctx.run_case(case_exhaustion, ['exhaustion', 4, h], ctx, 4, h, 1)
    for r in range(0, 5):
        for h in itertools.combinations(ks, r):
            ctx.run_case(case_exhaustion, ['exhaustion', 3, h], ctx, 3,
                         list(h), 0)
