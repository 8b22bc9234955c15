"""Independent reference of the Monte-Carlo search, and snapshots of real
search trees."""
import math

import numpy as np


def rnd_(x):
    # offset: decimal values are not rounded at a boundary
    return round(float(x) + 1.23457e-8, 7) + 0.


class Avg(object):
    def __init__(self, alpha):
        self.n, self.v, self.alpha = 0, 0., alpha

    def add(self, r):
        plain = (self.n * self.v + r) / (self.n + 1)
        self.v = (1 - self.alpha) * plain + self.alpha * r
        self.n += 1


class ANode(Avg):
    def __init__(self, alpha):
        Avg.__init__(self, alpha)
        self.kids = {}


class ONode(Avg):
    def __init__(self, belief, na, alpha):
        Avg.__init__(self, alpha)
        self.belief = belief          # tuple of Fractions
        self.kids = [None] * na


class Unsampled(Exception):
    pass


class RefTree(object):
    """model: mc.models.Model; blocked(a, o, belief) tells successor beliefs
    that cannot be sampled."""

    def __init__(self, m, horizon, exploration=1., relative=False,
                 rollouts=1, alpha=.001, shared=False, blocked=None):
        self.m, self.h = m, horizon
        self.c, self.relative, self.rollouts = exploration, relative, rollouts
        self.alpha = alpha
        self.shared = {} if shared else None
        self.blocked = blocked or (lambda a, o, b: False)
        self.calls = 0
        self.root = self.new(tuple(m.start))

    def new(self, belief):
        if self.shared is not None:
            if belief not in self.shared:
                self.shared[belief] = ONode(belief, self.m.na, self.alpha)
            return self.shared[belief]
        return ONode(belief, self.m.na, self.alpha)

    def successor(self, b, a, o):
        if self.blocked(a, o, b):
            raise Unsampled()
        memo = self.m.__dict__.setdefault('_memo', {})
        if (b, a, o) not in memo:
            memo[b, a, o] = tuple(self.m.step(b, a, o))
        return tuple(memo[b, a, o])

    @staticmethod
    def draw(ps):
        return int(np.random.choice(len(ps), p=[float(p) for p in ps]))

    def model_step(self, s, a):
        self.calls += 1
        s2 = self.draw(self.m.T[a][s])
        o = self.draw(self.m.O[a][s2])
        return s2, o, self.m.R[a][s][s2][o]

    def choose(self, node, c=None, relative=None):
        c = self.c if c is None else c
        relative = self.relative if relative is None else relative
        untried = [a for a in range(self.m.na)
                   if node.kids[a] is None or node.kids[a].n == 0]
        if untried:
            return untried[int(np.random.choice(len(untried)))]
        if relative:
            vs = [k.v for k in node.kids]
            c = c * (max(vs) - min(vs))
        sc = [k.v + c * math.sqrt(math.log(node.n) / k.n) for k in node.kids]
        best = max(sc)
        return min(i for i, x in enumerate(sc) if x >= best - 1e-12)

    def rollout(self, node, left):
        if left <= 0:
            return 0.
        tot = 0.
        for _ in range(self.rollouts):
            s = self.draw(node.belief)
            g = 1.
            for _ in range(left):
                s, _, r = self.model_step(
                    s, int(np.random.choice(self.m.na)))
                tot += g * r
                g *= self.m.discount
        tot /= self.rollouts
        node.add(tot)
        return tot

    def search(self, node, action=None):
        self._search(node, self.draw(node.belief), self.h, action)

    def _search(self, node, s, left, a=None):
        if left <= 0:
            return node.v
        if a is None:
            a = self.choose(node)
        if node.kids[a] is None:
            node.kids[a] = ANode(self.alpha)
        k = node.kids[a]
        s2, o, r = self.model_step(s, a)
        if o in k.kids:
            rest = self._search(k.kids[o], s2, left - 1)
        else:
            try:
                k.kids[o] = self.new(self.successor(node.belief, a, o))
                rest = self.rollout(k.kids[o], left - 1)
            except Unsampled:
                rest = 0.
        ret = r + self.m.discount * rest
        k.add(ret)
        node.add(ret)
        return ret

    def node(self, history):
        """history: [a, o, a, o...]"""
        n = self.root
        for a, o in zip(history[::2], history[1::2]):
            if n.kids[a] is None:
                n.kids[a] = ANode(self.alpha)
            if o not in n.kids[a].kids:
                n.kids[a].kids[o] = self.new(self.successor(n.belief, a, o))
            n = n.kids[a].kids[o]
        return n


def snap_ref(node, seen=None):
    if isinstance(node, ONode):
        key = tuple(rnd_(x) for x in node.belief)
        if seen is not None:
            if key in seen:
                return ('shared', key)
            seen.add(key)
        # action nodes never simulated and leading nowhere do not count
        return (key, node.n, rnd_(node.v), tuple(
            (a, snap_ref(k, seen)) for a, k in enumerate(node.kids)
            if k is not None and (k.n or k.kids)))
    return (node.n, rnd_(node.v), tuple((o, snap_ref(node.kids[o], seen))
                                        for o in sorted(node.kids)))


def snap_real(node, seen=None, belief=True):
    if isinstance(node.children, dict):
        return (node.n_simulations, rnd_(node.value), tuple(
            (int(o), snap_real(node.children[o], seen, belief))
            for o in sorted(node.children)))
    key = tuple(rnd_(x) for x in node.belief.array) if belief else None
    if seen is not None:
        if key in seen:
            return ('shared', key)
        seen.add(key)
    return (key, node.n_simulations, rnd_(node.value), tuple(
        (a, snap_real(k, seen, belief)) for a, k in enumerate(node.children)
        if k is not None and (k.n_simulations or k.children)))


def same(x, y):
    """Equality of snapshots up to rounding."""
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    if isinstance(x, float) or isinstance(y, float):
        return isinstance(x, (int, float)) and isinstance(y, (int, float)) \
            and abs(x - y) <= 1e-6 * (1 + abs(y))
    return x == y


class Mismatch(Exception):
    pass


class Replay(RefTree):
    """Reference search following the simulator calls [(a, s, s2, o, r)] of
    a real one, as long as they are possible."""

    def __init__(self, *a, **k):
        self.log, self.at = [], 0
        RefTree.__init__(self, *a, **k)

    def successor(self, b, a, o):
        if self.shared is not None:
            return RefTree.successor(self, b, a, o)
        # floats: exact fractions grow with the history
        if self.blocked(a, o, b):
            raise Unsampled()
        arrays = self.m.__dict__.setdefault('_arrays', self.m.arrays())
        j = np.array([float(x) for x in b]).dot(arrays[0][a]) * \
            arrays[1][a][:, o]
        return tuple(j / j.sum())

    def next(self):
        if self.at >= len(self.log):
            raise Mismatch('simulation missing after %d' % self.at)
        return self.log[self.at]

    def draw(self, ps):
        # states are drawn before a simulation
        s = self.next()[1]
        if not ps[s] > 0:
            raise Mismatch('state %d simulated from %s (simulation %d)' % (
                s, [str(p) for p in ps], self.at))
        return s

    def step_from(self, s):
        a, s1, s2, o, r = self.next()
        if s1 != s:
            raise Mismatch('state %d simulated instead of %d (simulation %d)'
                           % (s1, s, self.at))
        self.at += 1
        self.calls += 1
        return a, s2, o, r

    def model_step(self, s, a):
        a1, s2, o, r = self.step_from(s)
        if a1 != a:
            raise Mismatch('action %d instead of %d (simulation %d)' % (
                a1, a, self.at - 1))
        return s2, o, r

    def choose(self, node, c=None, relative=None):
        a = self.next()[0]
        c = self.c if c is None else c
        relative = self.relative if relative is None else relative
        untried = [i for i in range(self.m.na)
                   if node.kids[i] is None or node.kids[i].n == 0]
        if untried:
            ok = untried
        else:
            if relative:
                vs = [k.v for k in node.kids]
                c = c * (max(vs) - min(vs))
            sc = [k.v + c * math.sqrt(math.log(node.n) / k.n)
                  for k in node.kids]
            ok = [i for i, x in enumerate(sc)
                  if x >= max(sc) - 1e-7 * (1 + abs(max(sc)))]
        if a not in ok:
            raise Mismatch('action %d instead of one of %r (simulation %d)' % (
                a, ok, self.at))
        return a

    def rollout(self, node, left):
        if left <= 0:
            return 0.
        tot = 0.
        for _ in range(self.rollouts):
            s = self.draw(node.belief)
            g = 1.
            for _ in range(left):
                _, s, _, r = self.step_from(s)
                tot += g * r
                g *= self.m.discount
        tot /= self.rollouts
        node.add(tot)
        return tot

    def search(self, node, action=None):
        if self.h > 0:
            RefTree.search(self, node, action)
