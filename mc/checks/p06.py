"""P06: logged trajectories of the search policy."""
import itertools
import re

import numpy as np

from .. import randomness
from ..randomness import explore
from task_models.lib.belief import format_belief_array
from task_models.lib.pomcp import POMCPPolicyRunner


def branch(n):
    return randomness._active.branch([1. / n] * n)


class Toy(object):
    """At most `depth` transitions to the final state; outcome of each chosen
    among `menu` (advance, observation, reward)."""

    actions = ['left', 'right']
    observations = ['dim', 'bright']
    n_actions, n_observations = 2, 2
    discount = .5

    class View(object):
        def __init__(self, toy, s):
            self.toy, self.s = toy, s

        def is_final(self):
            return self.s == self.toy.n_states - 1

        def __str__(self):
            return '<state %d>' % self.s

        def belief_quotient(self, b):
            return np.array([b[::2].sum(), b[1::2].sum()])

        def belief_preferences(self, b):
            return [b[1], .125]

    def __init__(self, depth, menu, starts):
        self.n_states = depth + 1
        self.menu, self.starts = menu, starts
        self.n_simulator_calls = 0
        self.start = np.zeros(self.n_states)
        for s in starts:
            self.start[s] += 1. / len(starts)
        self.log = []

    def _int_to_state(self, s=0):
        return self.View(self, s)

    def is_final(self, s):
        return s == self.n_states - 1

    def sample_start(self):
        s = self.starts[branch(len(self.starts))]
        self.log.append(('start', s))
        return s

    def sample_transition(self, a, s, random=True):
        self.n_simulator_calls += 1
        k, o, r = self.menu[branch(len(self.menu))]
        s2 = min(s + k, self.n_states - 1)
        r = r + .25 * a
        self.log.append(('move', a, s, s2, o, r))
        return s2, o, r

    def belief_update(self, a, o, b):
        # some injective rule (the model decides; not under test here)
        new = np.asarray(b, float) * np.array(
            [1 + (i + a + 2 * o) % 3 for i in range(len(b))])
        new[-1] += .25
        new /= new.sum()
        return new


class Runner(POMCPPolicyRunner):
    """Records what the trajectory asks for and tells."""

    events = None

    def reset(self, *a, **k):
        self.events.append(('reset',))
        return super(Runner, self).reset(*a, **k)

    def get_action(self, *a, **k):
        r = super(Runner, self).get_action(*a, **k)
        self.events.append(('ask', r))
        return r

    def step(self, o):
        self.events.append(('tell', o))
        return super(Runner, self).step(o)


def occurs(ctx, text, parts, what):
    pos = 0
    for p in parts:
        at = text.find(p, pos)
        ctx.ensure(at >= 0, '%r not (in order) in line %r' % (p, text), what)
        pos = at + len(p)


def numbers(text):
    return [float(x) for x in re.findall(r'-?\d*\.\d*(?:e[-+]\d+)?|-?\d+',
                                         text)]


def case_trajectory(ctx, depth, menu, starts, before, given_logger):
    what = ['trajectory', depth, menu, starts, before, given_logger]

    def go():
        toy = Toy(depth, menu, starts)
        events, lines = [], []
        toy.log = events
        pol = Runner.__new__(Runner)
        pol.events = events
        pol.__init__(toy, iterations=0, horizon=2, logger=lambda *a: None)
        for _ in range(before):   # somewhere in another history
            pol.get_action()
            pol.step('dim')
        del events[:]
        if given_logger:
            pol.run_trajectory(logger=lines.append)
        else:
            import logging
            orig = logging.info
            logging.info = lambda m, *a: lines.append(m % a if a else m)
            try:
                pol.run_trajectory()
            finally:
                logging.info = orig
        check(ctx, toy, pol, events, lines, what)
    n = 0
    for _ in explore(go, max_runs=400000):
        n += 1
    ctx.trans(n)


def check(ctx, toy, pol, events, lines, what):
    what = what + [events, lines]
    kinds = [e[0] for e in events]
    ctx.ensure(sorted(kinds[:2]) == ['reset', 'start'] and
               kinds.count('reset') == kinds.count('start') == 1,
               'one reset and one start first: %r' % (kinds,), what)
    s = [e for e in events if e[0] == 'start'][0][1]
    rest = events[2:]
    ctx.eq(len(rest) % 3, 0, 'complete transitions', what)
    hist, total, b = [], 0., toy.start
    rows = []
    for k in range(0, len(rest), 3):
        ask, move, tell = rest[k:k + 3]
        ctx.eq([ask[0], move[0], tell[0]], ['ask', 'move', 'tell'], 'order',
               what)
        ctx.ensure(not toy.is_final(s), 'goes on after the final state', what)
        _, a, s1, s2, o, r = move
        ctx.eq(s1, s, 'state acted on', what)
        ctx.eq(toy.actions[a], ask[1], 'executed action', what)
        ctx.eq(tell[1], toy.observations[o], 'observation told', what)
        b = toy.belief_update(a, o, b)
        total += r
        hist += [a, o]
        rows.append(((str(toy._int_to_state(s)), ask[1],
                      str(toy._int_to_state(s2)), tell[1], str(r)), b))
        s = s2
        ctx.trans()
    ctx.ensure(toy.is_final(s), 'ends before the final state', what)
    ctx.eq(list(pol.history), hist, 'history', what)
    ctx.ensure(np.allclose(pol.belief.array, b), 'belief', what)
    # log
    ctx.eq(len(lines), 2 + 2 * len(rows), 'lines', what)
    for k, (parts, b) in enumerate(rows):
        occurs(ctx, lines[1 + 2 * k], parts, what)
        view = toy._int_to_state()
        text = lines[2 + 2 * k]
        q = format_belief_array(view.belief_quotient(b))
        at = text.find(q)
        ctx.ensure(at >= 0, 'grouped belief %r not in %r' % (q, text), what)
        nums = numbers(text[at + len(q):])
        ctx.eq(len(nums), 1, 'preference in %r' % text, what)
        ctx.ensure(abs(nums[0] - view.belief_preferences(b)[0]) <= .005001,
                   'preference in %r, is %r' % (
                       text, view.belief_preferences(b)[0]), what)
    nums = numbers(lines[-1])
    ctx.ensure(len(nums) == 1 and abs(nums[0] - total) < 1e-5,
               'total reward in %r, is %r' % (lines[-1], total), what)
    ctx.trace()
    ctx.state(tuple(hist) + (s, total))


def case_format(ctx, values):
    """Printed beliefs: one number per entry, rounded to a tenth."""
    out = format_belief_array(np.array(values))
    what = ['format', values, out]
    parts = out.split()
    ctx.eq(len(parts), len(values), 'entries', what)
    for p, v in zip(parts, values):
        ctx.ensure(abs(float(p) - v) <= .05 + 1e-9, 'printed %r for %r' % (
            p, v), what)
        ctx.trans()
    ctx.state(out)
    ctx.trace()


def run(ctx):
    ctx.assumptions = ['belief summaries of the state are those of the model '
                       '(see D08)']
    jobs = []
    menus = [[(1, 0, 1.), (2, 1, -2.5)], [(1, 0, 10), (1, 1, 0)],
             [(1, 0, .5), (3, 1, -7), (2, 1, 100.)],
             [(1, 0, .123456), (1, 1, -3.004001)], [(1, 0, 1e-5)]]
    for menu in menus:
        for depth in range(ctx.pick(4, 5) + (len(menu) < 3)):
            for starts in ([0], [0, depth], [depth], [0, min(1, depth)]):
                for before in range(3):
                    for log in (True, False):
                        if depth > 3 and (before == 1) != log \
                                and not ctx.thorough:
                            continue
                        jobs.append((case_trajectory,
                                     [menu, depth, starts, before, log],
                                     depth, menu, sorted(set(starts)), before,
                                     log))
        ctx.sample([menu, depth])
    grid = [k / 100. for k in range(101)]
    jobs += [(case_format, ['format', v], [v]) for v in grid]
    # every value in the first, middle and last position
    some = [0., 1., .5, .049, .051, .95, .949, .951]
    for n in range(1, ctx.pick(4, 5)):
        for v in itertools.product(some, repeat=n):
            jobs.append((case_format, ['format', v], list(v)))
    ctx.run_cases(jobs)
