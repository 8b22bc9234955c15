"""E01: evaluation episodes."""
import datetime
import itertools

from ..evalimport import evaluation
from ..randomness import explore, active  # noqa: F401
from .. import randomness
from ..support import Act
from task_models.supportive import SupportivePOMDP
from task_models.task import LeafCombination, SequentialCombination

ev = evaluation()
ELAPSED = 123.25


def stub_environment():
    """The time of the process and the process pool are the environment."""
    if hasattr(ev, 'get_process_elapsed_time'):
        ev.get_process_elapsed_time = lambda *a: datetime.timedelta(
            seconds=ELAPSED)
    if hasattr(ev, 'repeat'):
        ev.repeat = lambda f, n: [f() for _ in range(n)]


def branch(n):
    return randomness._active.branch([1. / n] * n)


class Toy(object):
    """Three states, the last one final; every transition is a choice of the
    oracle among `menu` (next state, observation, reward)."""

    actions = ['go', 'stay']
    observations = ['dark', 'light']

    class View(object):
        def __init__(self, s):
            self.s = s

        def is_final(self):
            return self.s == 2

        def __str__(self):
            return '<state %d>' % self.s

    def __init__(self, discount, menu, starts):
        self.discount = discount
        self.menu = menu
        self.starts = starts
        self.n_simulator_calls = 7

    def _int_to_state(self, s=0):
        return self.View(s)

    def is_final(self, s):
        return s == 2

    def sample_start(self):
        return self.starts[branch(len(self.starts))]

    def sample_transition(self, a, s, random=True):
        self.n_simulator_calls += 1
        s2, o, r = self.menu[branch(len(self.menu))]
        if s == 1:    # rewards depend on everything
            r = r * 2 + a
        return s2, o, r


class Spy(object):
    """Records everything the evaluation does to the model and the policy."""

    def __init__(self, model, log):
        self.__dict__.update(_m=model, _log=log)

    def __getattr__(self, n):
        return getattr(self._m, n)

    def __setattr__(self, n, v):
        setattr(self._m, n, v)

    def sample_start(self):
        s = self._m.sample_start()
        self._log.append(('start', s))
        return s

    def sample_transition(self, a, s, *args, **kw):
        out = self._m.sample_transition(a, s, *args, **kw)
        self._log.append(('move', a, s) + tuple(out))
        return out


class Policy(object):
    """Proposes any action (choice of the oracle), after some simulations."""

    def __init__(self, model, log, thinking, menu):
        self.model, self.log = model, log
        self.thinking, self.menu = thinking, menu
        self.history = []     # nothing done yet: to be reset nonetheless

    def reset(self):
        self.log.append(('reset',))

    def get_action(self, *a, **k):
        for _ in range(self.thinking):
            self.model.n_simulator_calls += 1
        x = self.menu[branch(len(self.menu))]
        self.log.append(('ask', x))
        return x

    def step(self, o):
        self.model.n_simulator_calls += self.thinking
        self.log.append(('tell', o))


def check(ctx, model, res, log, horizon, discount, texts, calls, what):
    """Compares the record of one evaluation with what happened."""
    what = [what, log]
    kinds = [e[0] for e in log]
    ctx.eq(kinds.count('reset'), 1, 'resets of the policy', what)
    ctx.eq(kinds.count('start'), 1, 'starts', what)
    rest = [e for e in log if e[0] not in ('reset', 'start')]
    ctx.ensure(kinds.index('reset') < 2 and kinds.index('start') < 2,
               'reset and start come first', what)
    s = [e for e in log if e[0] == 'start'][0][1]
    S, A, O, R = [s], [], [], []
    ctx.ensure(len(rest) % 3 == 0, 'incomplete transition', what)
    for k in range(0, len(rest), 3):
        ask, move, tell = rest[k:k + 3]
        ctx.eq([ask[0], move[0], tell[0]], ['ask', 'move', 'tell'],
               'order of events', what)
        ctx.eq(model.actions[move[1]], ask[1], 'executed action', what)
        ctx.eq(move[2], S[-1], 'state acted on', what)
        ctx.eq(tell[1], model.observations[move[4]], 'observation told', what)
        S.append(move[3])
        A.append(move[1])
        O.append(move[4])
        R.append(move[5])
        ctx.trans()
    # length of the episode
    fin = [model._int_to_state(x).is_final() for x in S[1:]]
    ctx.ensure(not any(fin[:-1]), 'continues after the final state', what)
    ctx.ensure(len(A) == horizon or (fin and fin[-1]), 'stops after %d '
               'transitions, horizon %d' % (len(A), horizon), what)
    ctx.ensure(len(A) <= horizon, 'too long', what)
    g = float(model.discount) if discount else 1.
    want = {'return': sum(r * g ** t for t, r in enumerate(R)),
            'states': S, 'actions': A, 'observations': O, 'rewards': R,
            'simulator-calls': calls}
    for k, v in want.items():
        got = res[k]
        if k == 'return':
            ctx.ensure(abs(float(got) - v) < 1e-9 * (1 + abs(v)), 'return %r,'
                       ' expected %r for rewards %r' % (got, v, R), what)
        elif k == 'simulator-calls':
            ctx.eq(int(got), v, k, what)
        else:
            ctx.eq([float(x) for x in got], [float(x) for x in v], k, what)
    ctx.ensure(float(res['elapsed-time']) >= 0., 'elapsed time', what)
    if texts is not None:
        ctx.eq(len(texts), 1, 'number of summaries', what)
        summary(ctx, model, texts[0], S, A, O, R, want['return'], calls, what)
    ctx.trace()
    ctx.state((tuple(S), tuple(A), tuple(O), tuple(map(float, R))))


def summary(ctx, model, text, S, A, O, R, ret, calls, what):
    lines = text.rstrip('\n').split('\n')
    ctx.eq(len(lines), len(A) + 2, 'lines of summary %r' % text, what)
    head = lines[0]
    for part in ('%d transitions' % len(A), '{:,} calls'.format(calls)):
        ctx.ensure(part in head, '%r not in %r' % (part, head), what)
    shown = head.split('return:')[1].split('[')[0].strip()
    ctx.ensure(abs(float(shown) - ret) <= .5 + 1e-9, 'return shown as %s, is '
               '%r' % (shown, ret), what)
    for k, line in enumerate(lines[1:-1]):
        pos = 0
        for part in (str(model._int_to_state(S[k])), model.actions[A[k]],
                     model.observations[O[k]], str(R[k])):
            at = line.find(part, pos)
            ctx.ensure(at >= 0, '%r not in line %r' % (part, line), what)
            pos = at + len(part)
    ctx.ensure(str(model._int_to_state(S[-1])) in lines[-1], 'last state not '
               'in %r' % lines[-1], what)


def case_toy(ctx, discount, menu, starts, horizon, opts, thinking):
    stub_environment()
    what = ['toy', discount, menu, starts, horizon, opts]

    def go():
        toy = Toy(discount, menu, starts)
        log = []
        m = Spy(toy, log)
        pol = Policy(toy, log, thinking, Toy.actions if horizon is not None
                     and horizon < 15 else Toy.actions[1:])
        texts = [] if opts['log'] else None
        c0 = toy.n_simulator_calls
        kw = {}
        if opts['log']:
            kw['logger'] = texts.append
        if opts['discount'] is not None:
            kw['discount'] = opts['discount']
        if horizon is not None:
            kw['max_horizon'] = horizon
        res = ev.simulate_one_evaluation(m, pol, **kw)
        check(ctx, toy, res, log, horizon or 200 * (horizon is None), opts['discount'] is not False,
              texts, toy.n_simulator_calls - c0, what)
    n = 0
    for _ in explore(go, max_runs=400000):
        n += 1
    ctx.trans(n)


def case_evaluate(ctx, discount, menu, n, horizon):
    stub_environment()
    what = ['evaluate', discount, menu, n, horizon]

    def go():
        toy = Toy(discount, menu, [0])
        log, texts, cuts = [], [], []
        m = Spy(toy, log)
        pol = Policy(toy, log, 1, ['go'])
        kw = {} if horizon is None else {'max_horizon': horizon}
        res = ev.evaluate(m, pol, n, logger=texts.append, **kw)
        ctx.eq(len(res), n, 'number of evaluations', what)
        ctx.eq(len(texts), n, 'number of summaries', what)
        for k, e in enumerate(log):
            if e[0] in ('reset', 'start') and (
                    k == 0 or log[k - 1][0] == 'tell'):
                cuts.append(k)
        ctx.eq(len(cuts), n, 'number of episodes', what)
        for k, (a, b) in enumerate(zip(cuts, cuts[1:] + [len(log)])):
            part = log[a:b]
            check(ctx, toy, res[k], part, 200 if horizon is None else horizon,
                  True, [texts[k]],
                  3 * sum(e[0] == 'move' for e in part), what)
    for _ in explore(go, max_runs=200000):
        ctx.trans()


def case_real(ctx, horizon, discount, conds, menu):
    stub_environment()
    root = SequentialCombination([LeafCombination(
        Act('do %d' % i, 'h', c)) for i, c in enumerate(conds)])
    what = ['supportive', horizon, discount, conds]

    def go():
        model = SupportivePOMDP(root, discount=discount)
        model.p_changed_by_human = model.p_change_preference = 0.
        model.p_fail = .25
        log, texts = [], []
        pol = Policy(model, log, 2, menu)
        res = ev.simulate_one_evaluation(Spy(model, log), pol,
                                         max_horizon=horizon,
                                         logger=texts.append)
        check(ctx, model, res, log, horizon, True, texts,
              model.n_simulator_calls, what)
    for _ in explore(go, max_runs=400000):
        ctx.trans()


def run(ctx):
    ctx.assumptions = [
        'the elapsed time of the process and the pool of processes are '
        'replaced by stand-ins (see C02 and E02)']
    menus = [[(0, 0, 1.), (1, 1, -2.5), (2, 0, 100.)],
             [(1, 0, 10), (2, 1, 0), (0, 1, -1)],
             [(0, 1, .5)], [(2, 0, -3.)]]
    jobs = []
    for menu in menus:
        for d in (1., .5, .9, 0., 0, 1):
            for starts in ([0], [0, 1], [1]):
                for h in range(ctx.pick(4, 5)):
                    for log, disc in itertools.product(
                            (True, False), (None, True, False)):
                        if h > 2 and (len(starts) > 1 or (log + (
                                disc is None)) == 1) and not ctx.thorough:
                            continue
                        o = {'log': log, 'discount': disc}
                        jobs.append((case_toy, [menu, d, starts, h, o], d,
                                     menu, starts, h, o, h % 3))
        ctx.sample([menu, d, h])
        for n in range(3):
            jobs.append((case_evaluate, [menu, n], .5, menu, n, 2))
            jobs.append((case_evaluate, [menu, 1, n], .5, menu, 1, n))
            jobs.append((case_evaluate, [menu, n, 1], .5, menu, n, 1))
    jobs.append((case_toy, ['long'], .9, [(0, 1, .5)], [0], 12,
                 {'log': True, 'discount': None}, 0))
    for k, menu in enumerate([[(0, 1, .5)], [(1, 0, -7)], [(0, 0, 60.5)],
                              [(0, 1, 1e6)]]):
        for d in (.99, 1., .5, 1. - 1e-6):
            for h in (20, 51, 60, 101, 130, 260):
                jobs.append((case_toy, ['longer', menu, d, h], d, menu, [0],
                             h, {'log': h != 51, 'discount': None}, k))
            jobs.append((case_toy, ['default', menu, d], d, menu, [0], None,
                         {'log': True, 'discount': None}, 0))
    for d in (.99, 1.):
        jobs.append((case_evaluate, ['evaluate long', d], d, [(0, 1, 2.)],
                     3, 120))
        jobs.append((case_evaluate, ['evaluate default', d], d,
                     [(0, 1, 2.)], 2, None))
    # horizon starting in the final state: the episode has not moved yet
    for h in range(ctx.pick(4, 5)):
        for d in (1., .9):
            jobs.append((case_real, ['real', h, d], h, d,
                         [[('c', 'x')]], ['wait', 'hold H', 'bring x']))
            if h < ctx.pick(4, 5):
                jobs.append((case_real, ['real2', h, d], h, d,
                             [[('u', 'y')], [('s', 'x')]],
                             ['wait', 'hold V', 'bring y', 'ask hold']))
    ctx.run_cases(jobs)
