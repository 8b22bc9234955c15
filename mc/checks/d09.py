"""D09: the scripted supportive policy."""
import itertools

from task_models.policy import PolicyLongSupportiveSequence
from task_models.supportive import (SupportivePOMDP, AssembleFoot,
                                    AssembleTopJoint, AssembleLegToTop,
                                    BringTop)
from task_models.task import LeafCombination

from ..trees import build, show, expanded_leaves

TOOLS = ['screws', 'screwdriver', 'joints']
OBS = ['none', 'fail', 'not-found', 'yes', 'no']
DONE = ('none', 'not-found')


class Plan(object):
    """Reference automaton; the state is (position in plan)."""

    def __init__(self, n_tasks):
        self.plan = [('bring ' + t, DONE) for t in TOOLS]
        for _ in range(n_tasks):
            self.plan += [('bring leg', DONE), ('hold H', ('none',))]
        self.plan += [('clear ' + t, DONE) for t in TOOLS]

    def action(self, k):
        return self.plan[k][0] if k < len(self.plan) else 'wait'

    def next(self, k, o):
        """Next position, None if the observation is unexpected."""
        if o == 'fail':
            return k
        if k == len(self.plan):
            return k if o in DONE else None
        return k + 1 if o in self.plan[k][1] else None


class Driver(object):

    def __init__(self, ctx, model, n_tasks, policy=None):
        self.ctx = ctx
        self.model = model
        self.plan = Plan(n_tasks)
        self.pol = policy or PolicyLongSupportiveSequence(model)
        self.k = 0
        self.hist = []
        self.path = []
        self.pending = False

    def where(self):
        return list(self.path)

    def ask(self, **kw):
        a = self.pol.get_action(**kw)
        self.ctx.eq(a, self.plan.action(self.k), 'action', self.where())
        self.pending = True

    def step(self, o):
        """True if accepted."""
        self.path.append(o)
        self.ctx.trans()
        want = self.plan.next(self.k, o)
        a = self.plan.action(self.k)
        try:
            self.pol.step(o)
        except PolicyLongSupportiveSequence.UnexpectedObservation:
            self.ctx.ensure(want is None, '%s after %s reported as unexpected'
                            % (o, a), self.where())
            return False
        self.ctx.ensure(want is not None, '%s after %s accepted' % (o, a),
                        self.where())
        self.hist += [self.model.actions.index(a), OBS.index(o)]
        self.k = want
        self.history()
        return True

    def history(self):
        self.ctx.eq([int(x) for x in self.pol.history], self.hist, 'history',
                    self.where())

    def reset(self):
        self.path.append('reset')
        self.pol.reset()
        self.k, self.hist, self.pending = 0, [], False
        self.history()

    def no_action(self):
        """A step without known action is refused."""
        for o in OBS:
            try:
                self.pol.step(o)
            except ValueError:
                continue
            self.ctx.fail('step without action accepted', self.where())
        self.history()


def reach(d, k, fails):
    """Drives a fresh policy to position k."""
    for j in range(k):
        for i, o in enumerate(fails):
            d.ask()
            d.step(o)
        d.ask()
        d.step('none' if (j + k) % 2 or d.plan.action(j) == 'hold H'
               else 'not-found')


def case(ctx, root, n_tasks, depth, k):
    model = SupportivePOMDP(root)
    n = len(Plan(n_tasks).plan)

    def fresh():
        return Driver(ctx, model, n_tasks)
    # all sequences of observations of some length from position k
    if k is not None:
        for fails in ((), ('fail',)):
            for seq in itertools.product(OBS, repeat=depth):
                d = fresh()
                d.no_action()
                reach(d, k, fails)
                ok = True
                for i, o in enumerate(seq):
                    d.ask(**({'iterations': 3} if i % 2 else {}))
                    if i % 3 == 1:
                        d.ask()      # asking again changes nothing
                    ok = d.step(o)
                    if not ok:
                        break
                if ok:
                    d.ask()
                ctx.trace()
                d.reset()
                d.no_action()
                d.ask()
                d.step('fail')
                d.ask()
                ctx.states_n(1)
        return
    # two policies on the same model do not interfere; resets anywhere
    for k in range(n + 1):
        d1, d2 = fresh(), fresh()
        reach(d1, k, ('fail',))
        d2.ask()
        d2.step('none')
        d2.ask()
        d1.ask()
        d1.reset()
        reach(d1, n, ())
        d1.ask()
        d1.step('none')
        d1.ask()
        d2.ask()
        ctx.trace()


def case_long(ctx, root, n_tasks, every, fails):
    """One policy through the whole plan, twice, with failures before every
    step whose number is a multiple of every."""
    model = SupportivePOMDP(root)
    d = Driver(ctx, model, n_tasks)
    n = len(d.plan.plan)
    for again in range(2):
        for j in range(n + 3):
            for i in range(fails if j % every == 0 else 0):
                d.ask()
                d.step('fail')
            d.ask()
            if j % 5 == 4:
                d.ask(iterations=2)
            d.step('none' if (j + again) % 2 or d.plan.action(j) == 'hold H'
                   else 'not-found')
        ctx.trace()
        d.reset()
        d.no_action()
    ctx.states_n(n + 1)


def leaves(i):
    return [AssembleFoot('leg-%d' % i), AssembleTopJoint('leg-%d' % i)][i % 2]


def run(ctx):
    d = ctx.pick(4, 5)
    jobs = []
    for shape in ('L', ('S', ('L', 'L')), ('S', ('L', 'L', 'L')),
                  ('P', ('L', 'L')), ('A', ('L', 'L')),
                  ('S', ('L', 'L', 'L', 'L')),
                  ('S', ('L', ('P', ('L', 'L')))))[:ctx.pick(5, 7)]:
        root = build(shape, leaves)
        n = expanded_leaves(root)
        for k in [None] + list(range(len(Plan(n).plan) + 1)):
            jobs.append((case, [show(shape), k], root, n,
                         d if shape != ('S', ('L', 'L')) else d + 1, k))
        ctx.sample(show(shape))
    for shape in (('S', ('L',) * 7), ('S', ('L',) * 12), ('A', ('L',) * 9),
                  ('P', ('L',) * 3), ('S', ('L',) * 30)):
        root = build(shape, leaves)
        for every, fails in ((1, 0), (1, 1), (1, 3), (4, 6), (7, 60)):
            jobs.append((case_long, ['long', show(shape), every, fails], root,
                         expanded_leaves(root), every, fails))
    ctx.run_cases(jobs)
