"""Small POMDPs on probability grids and exact reference computations."""
import itertools
from fractions import Fraction as F

import numpy as np

from task_models.lib.pomdp import POMDP


def dists(n, d):
    """All distributions over n outcomes with probabilities k/d."""
    if n == 1:
        return [(F(1),)]
    out = []
    for cuts in itertools.combinations_with_replacement(range(d + 1), n - 1):
        ks = [cuts[0]] + [b - a for a, b in zip(cuts, cuts[1:])] + \
            [d - cuts[-1]]
        out.append(tuple(F(k, d) for k in ks))
    return out


# rare outcomes next to nearly certain ones
RARE = [F(199, 200), F(999, 1000), 1 - F(1, 10 ** 6)]


def rare(n):
    """Distributions over n outcomes with a nearly certain one."""
    out = []
    for p in RARE:
        for i in range(n):
            for j in range(n):
                if i != j:
                    d = [F(0)] * n
                    d[i], d[j] = p, 1 - p
                    out.append(tuple(d))
    return out


def big(ns, na, no, k):
    """One model of these dimensions (rows vary with k)."""
    def row(n, j):
        w = [(3 * i * i + 5 * j + 7 * k * i) % 11 for i in range(n)]
        if not sum(w):
            w[0] = 1
        return tuple(F(x, sum(w)) for x in w)
    T = tuple(tuple(row(ns, s + 2 * a) for s in range(ns)) for a in range(na))
    O = tuple(tuple(row(no, 2 * s + a + 1) for s in range(ns))
              for a in range(na))
    return Model(T, O, row(ns, 4), names=bool(k % 2))


def arr(x):
    return np.array([[[float(v) for v in r] for r in m] for m in x])


class Model(object):
    """T[a][s][s2], O[a][s2][o] and start as fractions."""

    def __init__(self, T, O, start, names=True, discount=.5, R=None):
        self.T, self.O, self.start = T, O, start
        self.na, self.ns, self.no = len(T), len(start), len(O[0][0])
        self.discount = discount
        self.R = R if R is not None else [[[[
            float((1000 * a + 100 * s + 10 * s2 + o + 1) *
                  (-1) ** (s + o))
            for o in range(self.no)] for s2 in range(self.ns)]
            for s in range(self.ns)] for a in range(self.na)]
        self.states = ['s%d' % i for i in range(self.ns)]
        self.actions = ['a%d' % i for i in range(self.na)]
        self.observations = ['o%d' % i for i in range(self.no)]
        self.names = names

    def key(self):
        return repr((self.T, self.O, self.start))

    def __repr__(self):
        f = lambda x: ([f(y) for y in x] if isinstance(x, (list, tuple))
                       else str(x))
        return 'T=%s O=%s start=%s' % (f(self.T), f(self.O), f(self.start))

    def arrays(self):
        return (arr(self.T), arr(self.O), np.array(self.R, dtype=float),
                np.array([float(x) for x in self.start]))

    def real(self, cls=POMDP, **kw):
        T, O, R, start = self.arrays()
        if self.names:
            kw = dict(states=self.states, actions=self.actions,
                      observations=self.observations, **kw)
        return cls(T, O, R, start, self.discount, **kw)

    # -- reference ----------------------------------------------------------
    def joint(self, b, history):
        """Unnormalised P(last state, observations | actions), by summing
        over all state trajectories; history is [(a, o)]."""
        res = [F(0)] * self.ns
        n = len(history)
        for traj in itertools.product(range(self.ns), repeat=n + 1):
            p = F(b[traj[0]])
            for i, (a, o) in enumerate(history):
                if p == 0:
                    break
                p = p * self.T[a][traj[i]][traj[i + 1]] * \
                    self.O[a][traj[i + 1]][o]
            res[traj[-1]] += p
        return res

    def posterior(self, b, history):
        """None when impossible."""
        j = self.joint(b, history)
        z = sum(j)
        return None if z == 0 else [x / z for x in j]

    def step(self, b, a, o):
        return self.posterior(b, [(a, o)])


def close(x, ref, tol=1e-9):
    x = np.asarray(x, dtype=float)
    r = np.array([float(v) for v in ref])
    return x.shape == r.shape and bool(np.all(np.abs(x - r) <= tol))


def two_state(t_rows=None, o_rows=None, start=None, n_obs=2, **kw):
    """All two-state two-action models: first action enumerated, the second
    one a fixed different one."""
    t_rows = t_rows or dists(2, 2)
    o_rows = o_rows or dists(n_obs, 2)
    starts = start or dists(2, 2)
    T2 = ((F(1, 4), F(3, 4)), (F(1), F(0)))
    O2 = tuple(dists(n_obs, 4)[k % len(dists(n_obs, 4))] for k in (1, 3))
    for tr in itertools.product(t_rows, repeat=2):
        for orow in itertools.product(o_rows, repeat=2):
            for st in starts:
                yield Model((tr, T2), (orow, O2), st, **kw)


def three_state(t_rows, o_rows, starts, **kw):
    T2 = ((F(0), F(1), F(0)), (F(1, 3), F(1, 3), F(1, 3)),
          (F(1, 2), F(0), F(1, 2)))
    for tr in itertools.product(t_rows, repeat=3):
        for orow in itertools.product(o_rows, repeat=3):
            n = len(orow[0])
            u = tuple(F(1, n) for _ in range(n))
            e = tuple(F(int(i == 0)) for i in range(n))
            for st in starts:
                yield Model((tr, T2), (orow, (u, e, u)), st, **kw)


def snapshot(p):
    return tuple(np.asarray(x).tobytes() for x in (p.T, p.O, p.R, p.start))
