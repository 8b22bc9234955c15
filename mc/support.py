"""Reference model of the supportive-behaviour domain: record based states
(task step, preferences, body features, objects) and exact kernels."""
import itertools

from task_models.supportive import (SupportivePOMDP, SupportedAction,
                                    CONSUMES, USES, CONSUMES_SOME)
from task_models.task import (LeafCombination, SequentialCombination,
                              AlternativeCombination, ParallelCombination)

KIND = {'c': CONSUMES, 'u': USES, 's': CONSUMES_SOME}


class Act(SupportedAction):
    """Action with given hold kind and conditions ('c'|'u'|'s', object)."""

    def __init__(self, name, hold, conditions):
        super(Act, self).__init__(name)
        self.hold = hold
        self.conditions = [(KIND[k], o) for k, o in conditions]


class TwoPreferences(SupportivePOMDP):

    preferences = ['hold', 'other']
    p_preferences = [.25, .625]


class FivePreferences(SupportivePOMDP):

    preferences = ['hold', 'a', 'b', 'c', 'd']
    p_preferences = [.25, .625, .004, .9995, .5]


CLASSES = {1: SupportivePOMDP, 2: TwoPreferences, 5: FivePreferences}


def expand(node, out):
    """Reference walk: appends the leaves of node to out, in depth-first
    order; returns the set of first ones, the set of last ones and the set of
    edges between leaves."""
    if isinstance(node, LeafCombination):
        out.append(node)
        k = len(out) - 1
        return {k}, {k}, set()
    if isinstance(node, ParallelCombination):
        node = node.to_alternative()
    parts = [expand(c, out) for c in node.children]
    edges = set().union(*[p[2] for p in parts])
    if isinstance(node, AlternativeCombination):
        return (set().union(*[p[0] for p in parts]),
                set().union(*[p[1] for p in parts]), edges)
    assert isinstance(node, SequentialCombination)
    for x, y in zip(parts, parts[1:]):
        edges |= set(itertools.product(x[1], y[0]))
    return parts[0][0], parts[-1][1], edges


class Reference(object):
    """Independent model.  States are records (step, prefs, body, objects)
    with step a number of leaf, 'clean' or 'final'."""

    def __init__(self, root, preferences=1, p_pref=(.3,), **params):
        self.leaves = []
        self.first, _, edges = expand(root, self.leaves)
        self.succ = {k: sorted(b for a, b in edges if a == k) or ['clean']
                     for k in range(len(self.leaves))}
        self.n_pref = preferences
        self.p_pref = p_pref
        self.objects = []
        self.clearable = set()
        self.cond = []
        for x in self.leaves:
            cs = []
            for k, o in x.action.conditions:
                if o not in self.objects:
                    self.objects.append(o)
                if k in (USES, CONSUMES_SOME):
                    self.clearable.add(o)
                cs.append((k, self.objects.index(o)))
            self.cond.append(cs)
        self.actions = ['wait', 'hold H', 'hold V', 'ask hold']
        for o in self.objects:
            self.actions.append('bring ' + o)
            if o in self.clearable:
                self.actions.append('clear ' + o)
        self.par = dict(p_fail=.01, p_consume_all=.5, p_changed_by_human=.01,
                        p_change_preference=.01, r_subtask=10., r_final=100.,
                        r_preference=10.,
                        reward_independent_preference=False, cost_get=15.,
                        cost_intrinsic=1., cost_hold=2.)
        assert set(params) <= set(self.par)
        self.par.update(params)

    def __getattr__(self, n):
        try:
            return self.__dict__['par'][n]
        except KeyError:
            raise AttributeError(n)

    @property
    def steps(self):
        return list(range(len(self.leaves))) + ['clean', 'final']

    def states(self):
        bits = [list(itertools.product((0, 1), repeat=k))
                for k in (self.n_pref, 1, len(self.objects))]
        return list(itertools.product(self.steps, *bits))

    # distributions are dicts
    def _flip(self, bits, p):
        if p == 0:
            return {tuple(bits): 1.}
        out = {}
        for f in itertools.product((0, 1), repeat=len(bits)):
            w = 1.
            for x in f:
                w *= p if x else 1 - p
            if w > 0:
                new = tuple(a ^ b for a, b in zip(bits, f))
                out[new] = out.get(new, 0.) + w
        return out

    def start(self):
        out = {}
        for k in self.first:
            for prefs in itertools.product((0, 1), repeat=self.n_pref):
                w = 1. / len(self.first)
                for x, p in zip(prefs, self.p_pref):
                    w *= p if x else 1 - p
                for objs, q in self._flip((0,) * len(self.objects),
                                          self.p_changed_by_human).items():
                    if w * q > 0:
                        r = (k, prefs, (0,), objs)
                        out[r] = out.get(r, 0.) + w * q
        return out

    def kernel(self, rec, action, random=True):
        """{(next record, observation name, reward): probability}"""
        out = {}
        step, prefs, body, objs = rec
        if random:
            po = self._flip(objs, self.p_changed_by_human)
            pp = self._flip(prefs, self.p_change_preference)
        else:
            po, pp = {objs: 1.}, {prefs: 1.}
        for objs2, q in po.items():
            for prefs2, q2 in pp.items():
                for (new, o, r), p in self._act(
                        (step, prefs2, body, objs2), action, random).items():
                    if p > 0:
                        k = (new, o, round(r, 6))
                        out[k] = out.get(k, 0.) + q * q2 * p
        return out

    def _finish(self, rec, r0):
        """Outcomes of finishing the current step."""
        step, prefs, body, objs = rec
        outs = [(list(objs), r0 + self.r_subtask, 1.)]
        for kind, o in self.cond[step]:
            new = []
            for ob, r, p in outs:
                if not ob[o]:
                    r = r - self.cost_get
                if kind == CONSUMES:
                    vals = [(0, 1.)]
                elif kind == USES:
                    vals = [(1, 1.)]
                else:
                    vals = [(0, self.p_consume_all),
                            (1, 1 - self.p_consume_all)]
                for v, q in vals:
                    ob2 = list(ob)
                    ob2[o] = v
                    new.append((ob2, r, p * q))
            outs = new
        if self.reward_independent_preference and not prefs[0]:
            outs = [(ob, r + self.r_preference - self.cost_hold, p)
                    for ob, r, p in outs]
        res = {}
        nxt = self.succ[step]
        for ob, r, p in outs:
            for s in nxt:
                k = ((s, prefs, body, tuple(ob)), 'none', r)
                res[k] = res.get(k, 0.) + p / len(nxt)
        return res

    def _act(self, rec, a, random):
        step, prefs, body, objs = rec
        if a == 'ask hold':
            ans, p = ('yes', .9) if prefs[0] else ('no', .95)
            if not random:
                p = 1.
            r = -self.cost_intrinsic
            return {(rec, ans, r): p, (rec, 'none', r): 1 - p}
        if a[:6] in ('bring ', 'clear '):
            o = self.objects.index(a[6:])
            v = 1 if a.startswith('bring') else 0
            r = -self.cost_intrinsic
            if objs[o] == v:
                return {(rec, 'not-found', r): 1.}
            new = list(objs)
            new[o] = v
            f = self.p_fail if random else 0.
            return {(rec, 'fail', r): f,
                    ((step, prefs, body, tuple(new)), 'none', r): 1 - f}
        r = 0. if a == 'wait' else -self.cost_hold
        if step == 'final':
            return {(rec, 'none', r): 1.}
        if step == 'clean':
            if a != 'wait':
                return {(rec, 'fail', r): 1.}
            return {(('final', prefs, body, objs), 'none',
                     r + self.r_final - self.cost_get * sum(objs)): 1.}
        hold = self.leaves[step].action.hold
        if a == 'wait':
            return self._finish(rec, r)
        if prefs[0] and hold == a[-1].lower():
            return self._finish(rec, r + self.r_preference)
        f = .98 if random else 1.
        out = {(rec, 'fail', r): f}
        if f < 1:
            for k, p in self._finish(rec, r).items():
                out[k] = out.get(k, 0.) + (1 - f) * p
        return out


def decode(model, s, ref):
    """Record of a state number of the real model."""
    x = model._int_to_state(int(s))
    h = int(x.htm)
    n = len(ref.leaves)
    return ('clean' if h == n else 'final' if h == n + 1 else h,
            tuple(int(x.has_preference(i)) for i in range(ref.n_pref)),
            (int(x.has_body_feature(0)),),
            tuple(int(x.has_object(i)) for i in range(len(ref.objects))))


def encode(model, rec, ref):
    x = model._int_to_state(0)
    n = len(ref.leaves)
    x.htm = {'clean': n, 'final': n + 1}.get(rec[0], rec[0])
    for i, b in enumerate(rec[1]):
        x.set_preference(i, b)
    x.set_body_feature(0, rec[2][0])
    for i, b in enumerate(rec[3]):
        x.set_object(i, b)
    return int(x.to_int())


def real(cls, root, params=()):
    m = cls(root)
    for k, v in dict(params).items():
        setattr(m, k, v)
    return m
