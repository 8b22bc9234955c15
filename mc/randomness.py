"""Choice oracle: owns every random draw of the code under test.

`install()` replaces the random functions of numpy.random and of the stdlib
`random` by shims (before the code under test is imported).  While an Oracle
is active, each draw becomes a branching point: `explore(fn)` re-executes fn
once for every possible combination of outcomes (stateless model checking) and
yields (result, probability).  Continuous uniform draws are represented by
LazyUniform objects whose comparisons branch with their exact weight.

Without active oracle the original functions are used.
"""
import random as _pyrandom

import numpy as np

from .core import Skip

_active = None
EPS = 1e-12


class Oracle(object):

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.trace = []     # list of (index chosen, number of branches)
        self.prob = 1.
        self.n_draws = 0

    def branch(self, weights):
        """Picks one index among those of positive weight."""
        live = [i for i, w in enumerate(weights) if w > EPS]
        if not live:
            raise Skip('no live branch')
        if len(live) == 1:
            self.prob *= weights[live[0]]
            return live[0]
        k = len(self.trace)
        c = self.prefix[k] if k < len(self.prefix) else 0
        self.trace.append((c, len(live)))
        i = live[c]
        self.prob *= weights[i]
        return i


def next_prefix(trace):
    t = list(trace)
    while t:
        c, n = t.pop()
        if c + 1 < n:
            return [x for x, _ in t] + [c + 1]
    return None


class Bounded(Oracle):
    """Only the first `depth` draws branch (as long as there are at most
    `width` combinations of them); later ones cycle through their outcomes
    (each a different one, the same in every execution)."""

    def __init__(self, prefix, depth, width=10 ** 6):
        Oracle.__init__(self, prefix)
        self.depth, self.width = depth, width
        self.n_later = 0

    def branch(self, weights):
        live = [i for i, w in enumerate(weights) if w > 0]
        if len(self.trace) < self.depth:
            n = len(live)
            for _, k in self.trace:
                n *= k
            if n <= self.width:
                return Oracle.branch(self, weights)
            self.depth = 0
        self.n_later += 1
        return live[(self.n_later * 7 // 3) % len(live)]


class active(object):
    """Context manager setting the active oracle."""

    def __init__(self, oracle):
        self.oracle = oracle

    def __enter__(self):
        global _active
        self.prev = _active
        _active = self.oracle
        return self.oracle

    def __exit__(self, *a):
        global _active
        _active = self.prev


def explore(fn, max_runs=None):
    """Yields (result of fn(), probability, trace) for all outcomes."""
    prefix = []
    n = 0
    while prefix is not None:
        o = Oracle(prefix)
        with active(o):
            r = fn()
        n += 1
        yield r, o.prob, tuple(c for c, _ in o.trace)
        if max_runs is not None and n >= max_runs:
            raise Skip('more than %d runs' % max_runs)
        prefix = next_prefix(o.trace)


def bounded(fn, depth, width=10 ** 6):
    """Yields (result, choices) for all outcomes of the first `depth`
    draws."""
    prefix = []
    while prefix is not None:
        o = Bounded(prefix, depth, width)
        with active(o):
            r = fn()
        yield r, tuple(c for c, _ in o.trace)
        prefix = next_prefix(o.trace)


def distribution(fn, max_runs=200000, stats=None):
    """Exact distribution of the (hashable) result of fn()."""
    d = {}
    n = 0
    for r, p, _ in explore(fn, max_runs=max_runs):
        d[r] = d.get(r, 0.) + p
        n += 1
    if stats is not None:
        stats.trans(n)
    return d


def scripted(fn, choices):
    """Run fn with a fixed list of branch indices (then first branch)."""
    o = Oracle(choices)
    with active(o):
        r = fn()
    return r, o


def dist_diff(d1, d2, tol=1e-9):
    """None if equal distributions, else a description."""
    for k in set(d1) | set(d2):
        if abs(d1.get(k, 0.) - d2.get(k, 0.)) > tol:
            return 'outcome {!r} has probability {}, expected {}'.format(
                k, d1.get(k, 0.), d2.get(k, 0.))
    return None


# --------------------------------------------------------------------------
class LazyUniform(object):
    """A uniform draw on [0, 1) through an affine map; only the interval in
    which it lies is decided, on demand."""

    __slots__ = ('cell', 'scale', 'off')
    __array_priority__ = 1e6

    def __init__(self, cell=None, scale=1., off=0.):
        self.cell = [0., 1.] if cell is None else cell
        self.scale = scale
        self.off = off

    def _below(self, t):
        """Decides whether value < t (measure-zero ties ignored)."""
        t = float(t)
        if self.scale == 0:
            return self.off < t
        u = (t - self.off) / self.scale
        lo, hi = self.cell
        flip = self.scale < 0
        if u <= lo:
            r = False
        elif u >= hi:
            r = True
        else:
            p = (u - lo) / (hi - lo)
            if _active is None:
                raise Skip('uniform compared outside of exploration')
            r = _active.branch([p, 1 - p]) == 0
            if r:
                self.cell[1] = u
            else:
                self.cell[0] = u
        return (not r) if flip else r

    def _cmp(self, other, f):
        if isinstance(other, np.ndarray):
            return np.array([f(x) for x in other.ravel()],
                            dtype=bool).reshape(other.shape)
        if isinstance(other, LazyUniform):
            raise Skip('comparison of two uniform draws')
        return f(other)

    def __lt__(self, o):
        return self._cmp(o, lambda t: self._below(t))

    def __le__(self, o):
        return self._cmp(o, lambda t: self._below(t))

    def __gt__(self, o):
        return self._cmp(o, lambda t: not self._below(t))

    def __ge__(self, o):
        return self._cmp(o, lambda t: not self._below(t))

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    __hash__ = object.__hash__

    def _aff(self, a, b):
        return LazyUniform(self.cell, self.scale * a, self.off * a + b)

    def __mul__(self, k):
        if isinstance(k, np.ndarray):
            return np.array([self._aff(float(x), 0.) for x in k.ravel()],
                            dtype=object).reshape(k.shape)
        return self._aff(float(k), 0.)
    __rmul__ = __mul__

    def __truediv__(self, k):
        return self._aff(1. / float(k), 0.)

    def __add__(self, k):
        if isinstance(k, np.ndarray):
            return np.array([self._aff(1., float(x)) for x in k.ravel()],
                            dtype=object).reshape(k.shape)
        return self._aff(1., float(k))
    __radd__ = __add__

    def __sub__(self, k):
        return self._aff(1., -float(k))

    def __rsub__(self, k):
        return self._aff(-1., float(k))

    def __neg__(self):
        return self._aff(-1., 0.)

    def __floor__(self):
        lo = self.off + self.scale * self.cell[0]
        hi = self.off + self.scale * self.cell[1]
        lo, hi = min(lo, hi), max(lo, hi)
        n = int(np.floor(lo + EPS))
        while n + 1 < hi - EPS:
            if self._below(n + 1):
                return n
            n += 1
        return n

    __int__ = __floor__
    __trunc__ = __floor__

    def __round__(self, n=0):
        return (self + .5).__floor__()

    def __bool__(self):
        return True

    def __float__(self):
        raise Skip('uniform draw converted to float')


def _uniforms(size):
    if size is None or size == ():
        _active.n_draws += 1
        return LazyUniform()
    shape = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        _active.n_draws += 1
        a[i] = LazyUniform()
    return a


def _pick(n, p=None):
    _active.n_draws += 1
    if p is None:
        return _active.branch([1. / n] * n)
    return _active.branch(list(p))


def _validate(n, p, a):
    if n == 0:
        raise ValueError("'a' cannot be empty unless no samples are taken")
    if p is None:
        return None
    p = np.asarray(p, dtype=float)
    if p.ndim != 1:
        raise ValueError("'p' must be 1-dimensional")
    if p.size != n:
        raise ValueError("'a' and 'p' must have same size")
    if np.isnan(p.sum()):
        raise ValueError("probabilities contain NaN")
    if (p < 0).any():
        raise ValueError("probabilities are not non-negative")
    if abs(p.sum() - 1.) > 1.5e-8:
        raise ValueError("probabilities do not sum to 1")
    return p


def _choice(a, size=None, replace=True, p=None, **kw):
    if isinstance(a, (int, np.integer)):
        if a <= 0:
            raise ValueError('a must be greater than 0 unless no samples are '
                             'taken')
        n, get = int(a), lambda i: i
    else:
        arr = np.asarray(a)
        if arr.ndim == 0:
            return _choice(int(arr), size, replace, p)
        if arr.ndim != 1:
            raise ValueError('a must be 1-dimensional')
        n, get = len(arr), lambda i: arr[i]
    p = _validate(n, p, a)
    if size is None:
        return get(_pick(n, p))
    shape = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
    k = int(np.prod(shape))
    if replace:
        idx = [_pick(n, p) for _ in range(k)]
    else:
        if k > n:
            raise ValueError("Cannot take a larger sample than population "
                             "when 'replace=False'")
        w = np.full(n, 1. / n) if p is None else np.array(p)
        idx = []
        for _ in range(k):
            i = _pick(n, w / w.sum())
            idx.append(i)
            w[i] = 0.
    return np.array([get(i) for i in idx]).reshape(shape)


def _randint(low, high=None, size=None, dtype=int, endpoint=False):
    if high is None:
        low, high = 0, low
    low = int(low)
    high = int(high) + (1 if endpoint else 0)
    if high <= low:
        raise ValueError('low >= high')
    n = high - low

    def one():
        if n > 4096:   # e.g. seeds: value irrelevant
            _active.n_draws += 1
            return low + (_active.n_draws * 7919) % n
        return low + _pick(n)
    if size is None:
        return one()
    shape = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
    return np.array([one() for _ in range(int(np.prod(shape)))],
                    dtype=int).reshape(shape)


def _uniform(low=0., high=1., size=None):
    u = _uniforms(size)
    return u * (high - low) + low


def _permutation(x):
    if isinstance(x, (int, np.integer)):
        x = np.arange(x)
    x = list(x)
    out = []
    while x:
        out.append(x.pop(_pick(len(x))))
    return np.array(out)


def _shuffle(x, *a):
    x[:] = list(_permutation_list(list(x)))


def _permutation_list(x):
    out = []
    while x:
        out.append(x.pop(_pick(len(x))))
    return out


def _binomial(n, p, size=None):
    def one(n, p):
        c = 0
        for _ in range(int(n)):
            c += _pick(2, [1 - p, p])
        return c
    if size is None and np.ndim(n) == 0 and np.ndim(p) == 0:
        return one(n, p)
    if size is None:
        size = np.broadcast(n, p).shape
    shape = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
    nb, pb = np.broadcast_to(n, shape), np.broadcast_to(p, shape)
    out = np.zeros(shape, dtype=int)
    for i in np.ndindex(*shape):
        out[i] = one(nb[i], pb[i])
    return out


def _multinomial(n, pvals, size=None):
    if size is not None:
        raise Skip('multinomial with size')
    out = np.zeros(len(pvals), dtype=int)
    for _ in range(int(n)):
        out[_pick(len(pvals), pvals)] += 1
    return out


def _seed(*a, **k):
    return None


class _Gen(object):
    """Stand-in for RandomState / Generator instances."""

    def __init__(self, *a, **k):
        pass
    choice = staticmethod(lambda *a, **k: np.random.choice(*a, **k))
    random = staticmethod(lambda size=None, **k: np.random.random(size))
    random_sample = random
    rand = staticmethod(lambda *s: np.random.rand(*s))
    randint = staticmethod(lambda *a, **k: np.random.randint(*a, **k))
    integers = randint
    uniform = staticmethod(lambda *a, **k: np.random.uniform(*a, **k))
    permutation = staticmethod(lambda x: np.random.permutation(x))
    shuffle = staticmethod(lambda x: np.random.shuffle(x))
    binomial = staticmethod(lambda *a, **k: np.random.binomial(*a, **k))
    multinomial = staticmethod(lambda *a, **k: np.random.multinomial(*a, **k))
    seed = staticmethod(lambda *a, **k: None)


_np_shims = {
    'choice': _choice, 'randint': _randint,
    'random_integers': lambda l, h=None, size=None: _randint(
        1 if h is None else l, (l if h is None else h) + 1, size),
    'random': lambda size=None: _uniforms(size),
    'random_sample': lambda size=None: _uniforms(size),
    'ranf': lambda size=None: _uniforms(size),
    'sample': lambda size=None: _uniforms(size),
    'rand': lambda *s: _uniforms(s if s else None),
    'uniform': _uniform, 'permutation': _permutation, 'shuffle': _shuffle,
    'binomial': _binomial, 'multinomial': _multinomial, 'seed': _seed,
}

_py_shims = {
    'random': lambda: _uniforms(None),
    'choice': lambda seq: seq[_pick(len(seq))],
    'randrange': lambda a, b=None, step=1: (
        range(a)[_randint(len(range(a)))] if b is None else
        range(a, b, step)[_randint(len(range(a, b, step)))]),
    'randint': lambda a, b: _randint(a, b + 1),
    'uniform': lambda a, b: _uniform(a, b),
    'shuffle': _shuffle,
    'sample': lambda pop, k, **kw: _permutation_list(list(pop))[:k],
    'choices': lambda population, weights=None, cum_weights=None, k=1: [
        population[_pick(len(population), None if weights is None else
                         np.asarray(weights, float) / np.sum(weights))]
        for _ in range(k)],
    'seed': _seed,
}

_installed = False


def _shim(orig, repl):
    def f(*a, **k):
        if _active is None:
            return orig(*a, **k)
        return repl(*a, **k)
    f.__name__ = getattr(orig, '__name__', 'shim')
    return f


def install():
    global _installed
    if _installed:
        return
    _installed = True
    for n, r in _np_shims.items():
        setattr(np.random, n, _shim(getattr(np.random, n), r))
    for n, r in _py_shims.items():
        setattr(_pyrandom, n, _shim(getattr(_pyrandom, n), r))
    rng, rs = np.random.default_rng, np.random.RandomState
    np.random.default_rng = lambda *a, **k: (
        rng(*a, **k) if _active is None else _Gen())
    np.random.RandomState = _RS
    _RS._orig = rs


class _RS(object):
    _orig = None

    def __new__(cls, *a, **k):
        if _active is None:
            return cls._orig(*a, **k)
        return _Gen()
