"""Shared alphabets for the task-graph checks."""
from task_models.state import State
from task_models.action import Action
from task_models.task import AbstractAction


class S(State):
    def __init__(self, i):
        self.i = i

    def get_features(self):
        import numpy as np
        return np.array([self.i])

    def __hash__(self):
        return hash(('S', self.i))

    def __eq__(self, other):
        return isinstance(other, S) and self.i == other.i

    def __ne__(self, other):
        return not self == other

    def __repr__(self):
        return 's%s' % self.i
    __str__ = __repr__


class Rel(Action):
    """Action that explains exactly the pairs of a given relation."""

    def __init__(self, name, pairs):
        Action.__init__(self, name=name)
        self.pairs = pairs

    def __hash__(self):
        return hash(('Rel', self.name))

    def __eq__(self, other):
        return isinstance(other, Rel) and self.name == other.name

    def __ne__(self, other):
        return not self == other

    def __repr__(self):
        return self.name

    def check(self, before, after):
        return (before.i, after.i) in self.pairs


def A(name):
    return AbstractAction(name)


def show(path):
    return [str(x) for x in path]


def big_graphs(thorough=False):
    """Named larger undirected graphs: (name, number of nodes, edges)."""
    import itertools
    pairs = lambda n: list(itertools.combinations(range(n), 2))
    for n in (6, 7, 8, 9, 10):
        yield 'complete %d' % n, n, pairs(n)
        yield 'cycle %d' % n, n, [(i, (i + 1) % n) for i in range(n)]
        yield 'path %d' % n, n, [(i, i + 1) for i in range(n - 1)]
        yield 'star %d' % n, n, [(0, i) for i in range(1, n)]
        yield 'no cycle %d' % n, n, [(i, j) for i, j in pairs(n)
                                     if (j - i) % n not in (1, n - 1)]
        yield 'almost complete %d' % n, n, pairs(n)[1:]
        for k in (2, 3, 4):
            yield '%d parts %d' % (k, n), n, [
                (i, j) for i, j in pairs(n) if i % k != j % k]
            yield '%d cliques %d' % (k, n), n, [
                (i, j) for i, j in pairs(n) if i % k == j % k]
        yield 'overlapping %d' % n, n, [
            (i, j) for i, j in pairs(n) if j <= i + 3]
        yield 'two overlapping %d' % n, n, [
            (i, j) for i, j in pairs(n) if j < n - 2 or i >= n - 5]
    # complete core, everything joined with each graph of four nodes
    for bits in itertools.product((0, 1), repeat=6):
        for k in (3, 5) if thorough or sum(bits) % 2 == 0 else (5,):
            yield 'core %d %r' % (k, bits), k + 4, [
                e for e in pairs(k + 4) if e[0] < k] + [
                (i + k, j + k) for (i, j), b in zip(pairs(4), bits) if b]
    x = 7
    for k in range(400 if thorough else 60):
        n = 6 + k % 5
        edges = []
        for e in pairs(n):
            x = (x * 1103515245 + 12345) % 2 ** 31
            if (x >> 16) % 10 < 2 + k % 7:
                edges.append(e)
        yield 'mixed %d' % k, n, edges
