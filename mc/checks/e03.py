"""E03: experiments run with exactly their parameters."""
import itertools
import json
import logging
import math
import os
import shutil
import sys
import tempfile
import time

import numpy as np

from ..evalimport import evaluation
from .. import randomness
from ..randomness import Bounded, active, bounded as explore
from ..uct import snap_real
from .e01 import stub_environment
from task_models.lib.belief import MaxSamplesReached
from task_models.lib.pomcp import POMCPPolicyRunner
from task_models.supportive import NHTMHorizon

ev = evaluation()


class Chain(object):
    """Steps 0..3 (3 is final): `go` moves on with probability 1/2, `push`
    always but at a cost, `rest` never; an observation tells parity."""

    actions = ['go', 'push', 'rest']
    observations = ['even', 'odd']
    n_actions, n_observations, n_states = 3, 2, 4
    states = ['s0', 's1', 's2', 's3']
    discount = .5
    start = np.array([.5, .5, 0, 0])

    class View(object):
        def __init__(self, s):
            self.htm = s

        def is_final(self):
            return self.htm == 3

        def __str__(self):
            return '<%d>' % self.htm

    def __init__(self):
        self.n_simulator_calls = 0

    def _int_to_state(self, s=0):
        return self.View(s)

    def is_final(self, s):
        return s == 3

    def sample_start(self):
        return int(np.random.choice(2))

    def sample_transition(self, a, s, random=True):
        self.n_simulator_calls += 1
        if s == 3:
            return 3, 1, 0.
        if a == 0:
            up = int(np.random.choice(2))
        else:
            up = int(a == 1)
        return s + up, (s + up) % 2, [0., -.25, -.5][a] + 4 * (
            s + up == 3) + .125 * s

    def belief_update(self, a, o, b):
        b = np.asarray(b, float)
        m = [.5, 1., 0.][a]
        new = np.zeros(4)
        for s in range(4):
            if s == 3:
                new[3] += b[3]
            else:
                new[s] += b[s] * (1 - m)
                new[s + 1] += b[s] * m
        new[[s for s in range(4) if s % 2 != o]] = 0.
        return new / new.sum() if new.sum() else b


class Endless(Chain):
    """Nothing ever happens, whatever is done."""

    def sample_transition(self, a, s, random=True):
        self.n_simulator_calls += 1
        return s, s % 2, -.5 * a

    def belief_update(self, a, o, b):
        b = np.array(b, float)
        b[[s for s in range(4) if s % 2 != o]] = 0.
        return b / b.sum() if b.sum() else b


def the_model(par):
    return Endless() if par.get('model') == 'endless' else Chain()


SMALL = {'n_warmup': 2, 'n_evaluations': 1, 'iterations': 3,
         'rollout-iterations': 1, 'exploration': 50, 'relative-explo': False,
         'belief-values': False, 'n_particles': 2,
         'horizon-type': 'transitions', 'horizon-length': 2}


def reference(par, kw):
    """The experiment as its parameters say."""
    m = the_model(par)
    if par['horizon-type'] == 'htm':
        hor = NHTMHorizon.generator(m, n=par['horizon-length'])
    else:
        hor = ev.FinishedOrNTransitionsHorizon.generator(
            m, n=par['horizon-length'])
    pol = POMCPPolicyRunner(
        m, iterations=par['iterations'], horizon=hor,
        exploration=par['exploration'],
        relative_exploration=par['relative-explo'],
        rollout_it=par['rollout-iterations'],
        belief_values=par['belief-values'], belief='particle',
        belief_params={'n_particles': par['n_particles']},
        logger=lambda *a: None)
    pol.get_action(iterations=par['n_warmup'])
    res = [ev.simulate_one_evaluation(m, pol, **kw)
           for _ in range(par['n_evaluations'])]
    return m, pol, res


def experiment(defaults, kw, log, finish):
    class Experiment(ev.SupportiveExperiment):
        EVALUATE_ARGUMENTS = kw

        def init_run(self):
            log.append('init')
            self.model = the_model(self.parameters)
            if self.parameters['policy'] == 'pomcp':
                self.init_pomcp_policy()
            else:
                raise NotImplementedError

        def finish_run(self):
            log.append('finish')
            log.append(sorted(self.results))
            if finish:
                self.results['extra'] = np.float64(.5)
    if defaults is not None:
        Experiment.DEFAULT_PARAMETERS = \
            ev.SupportiveExperiment.DEFAULT_PARAMETERS.copy()
        Experiment.DEFAULT_PARAMETERS.update(defaults)
    return Experiment


def strip(results):
    return [{k: v for k, v in r.items() if k != 'elapsed-time'}
            for r in results]


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.generic):
        return x.item()
    return x


def snap(pol):
    return snap_real(pol.tree.root)


DEBUG = {'n_warmup': 2, 'n_evaluations': 2, 'iterations': 10,
         'n_particles': 20, 'horizon-length': 2}


def wanted(given, defaults, debug):
    par = dict(ev.SupportiveExperiment.DEFAULT_PARAMETERS)
    par.update(defaults or {})
    par.update(given)
    if debug:
        par.update(DEBUG)
    return par


def lost(ctx, given, defaults, kw, debug, choices, depth, what):
    with active(Bounded(list(choices), depth)):
        try:
            reference(wanted(given, defaults, debug), kw)
        except MaxSamplesReached:
            ctx.trans()
            return
    ctx.fail('fails where no particle is lost', what)


def verify(ctx, exp, log, given, defaults, kw, debug, written, choices, depth,
           what):
    """exp has run under `choices`; compares with the reference."""
    par = wanted(given, defaults, debug)
    ctx.eq(plain(exp.parameters), par, 'parameters', what)
    o = Bounded(list(choices), depth)
    with active(o):
        m, pol, res = reference(par, kw)
    r = exp.results
    ctx.eq(plain(r['parameters']), par, 'recorded parameters', what)
    ctx.ensure(float(r['t_warmup']) >= 0., 'time of warmup', what)
    ctx.eq(plain(strip(r['evaluations'])), plain(strip(res)), 'evaluations',
           what)
    ctx.eq(snap(exp.policy), snap(pol), 'search tree', what)
    ctx.eq(exp.model.n_simulator_calls, m.n_simulator_calls,
           'calls of the simulator', what)
    ctx.eq(log[0], 'init', 'first', what)
    ctx.ensure(log[1] == 'finish' and len(log) == 3, 'finished once', what)
    ctx.ensure('evaluations' in log[2], 'evaluated before finishing', what)
    if written is not None:
        back = json.loads(written)
        ctx.eq(back, json.loads(json.dumps(plain(r))), 'file', what)
        ctx.eq(set(back), set(r), 'written results', what)
    ctx.state((repr(snap(pol)), repr(plain(strip(res)))))
    ctx.trace()
    return par, res


def quiet():
    logging.disable(logging.CRITICAL)
    stub_environment()


def case_run(ctx, given, kw, debug, path, finish, depth):
    """Parameters given to the constructor."""
    quiet()
    defaults = SMALL
    what = ['run', given, kw, debug, path, finish]
    tmp = tempfile.mkdtemp(prefix='e03') if path else None
    before = dict(ev.SupportiveExperiment.DEFAULT_PARAMETERS)
    try:
        def go():
            log = []
            cls = experiment(defaults, kw, log, finish)
            arg = dict(given)
            mine = dict(cls.DEFAULT_PARAMETERS)
            exp = cls(parameters=arg) if given else cls()
            other = cls({'exploration': 1.25})
            if path:
                exp.path = os.path.join(tmp, 'out.json')
                with open(exp.path, 'w') as f:    # of an earlier run
                    f.write('{"old": 1}\n' * 2000)
            try:
                if debug is None:
                    exp.run()
                else:
                    exp.run(debug=debug)
            except MaxSamplesReached:  # real history unknown to particles
                return None
            ctx.eq(arg, given, 'parameters of the caller', what)
            ctx.eq(cls.DEFAULT_PARAMETERS, mine, 'defaults', what)
            ctx.eq(other.parameters, dict(mine, exploration=1.25),
                   'parameters of another experiment', what)
            written = None
            if path:
                ctx.eq(os.listdir(tmp), ['out.json'], 'files', what)
                with open(exp.path) as f:
                    written = f.read()
            ctx.ensure(('extra' in exp.results) == finish,
                       'results of finishing', what)
            return exp, log, written
        for out, choices in explore(go, depth):
            if out is None:
                lost(ctx, given, defaults, kw, debug, choices, depth, what)
                continue
            exp, log, written = out
            verify(ctx, exp, log, given, defaults, kw, bool(debug), written,
                   choices, depth, what)
            ctx.trans()
    finally:
        if tmp:
            shutil.rmtree(tmp)
    ctx.eq(ev.SupportiveExperiment.DEFAULT_PARAMETERS, before, 'defaults',
           what)


def case_command(ctx, config, name, debug, arg_debug, depth):
    """Started from the command line, results read back by the launcher."""
    quiet()
    what = ['command', config, name, debug, arg_debug]
    tmp = tempfile.mkdtemp(prefix='e03')
    argv = sys.argv
    try:
        def go():
            log, made = [], []
            cls = experiment(SMALL, {'max_horizon': 3}, log, False)
            init = cls.init_run

            def init_run(self):
                made.append(self)
                return init(self)
            cls.init_run = init_run
            args = []
            for f in os.listdir(tmp):
                os.remove(os.path.join(tmp, f))
            if config is not None:
                c = os.path.join(tmp, 'the.config')
                with open(c, 'w') as f:
                    json.dump(config, f)
                args.append(c)
                if name is not None:
                    args += [tmp, name]
                    if depth % 2 == len(name) % 2:     # of an earlier run
                        with open(os.path.join(tmp, name + '.json'),
                                  'w') as f:
                            f.write('{"old": 1}\n' * 2000)
            if arg_debug:
                args.append('--debug')
            sys.argv = ['prog'] + args
            try:
                if debug:
                    cls.run_from_arguments(debug=True)
                else:
                    cls.run_from_arguments()
            except MaxSamplesReached:
                return None
            finally:
                sys.argv = argv
            ctx.eq(len(made), 1, 'runs', what)
            ctx.eq(sorted(os.listdir(tmp)), sorted(
                (['the.config'] if config is not None else []) +
                ([name + '.json'] if config is not None and name else [])),
                'files', what)
            written = back = None
            if config is not None and name:
                with open(os.path.join(tmp, name + '.json')) as f:
                    written = f.read()

                class Job(object):
                    path = tmp
                Job.name = name
                back = ev.ExpLauncher.get_results_from_one(Job)
            return made[0], log, written, back
        for out, choices in explore(go, depth):
            if out is None:
                lost(ctx, config or {}, SMALL, {'max_horizon': 3},
                     debug or arg_debug, choices, depth, what)
                continue
            exp, log, written, back = out
            par, res = verify(ctx, exp, log, config or {}, SMALL,
                              {'max_horizon': 3}, debug or arg_debug,
                              written, choices, depth, what)
            ctx.trans()
            if back is not None:
                ctx.eq(len(back), 3, 'lists read back', what)
                for got, key in zip(back, ('return', 'elapsed-time',
                                           'simulator-calls')):
                    ctx.eq(list(got), [plain(r[key]) for r in
                                       exp.results['evaluations']],
                           key + ' read back', what)
    finally:
        sys.argv = argv
        shutil.rmtree(tmp)


def case_launcher(ctx, exps):
    """Configurations written for the jobs and results read back."""
    quiet()
    what = ['launcher', exps]
    tmp = tempfile.mkdtemp(prefix='e03')
    try:
        class Job(object):
            def __init__(self, name):
                self.name, self.path = name, tmp
                self.config = os.path.join(tmp, name + '.cfg')

        la = ev.ExpLauncher.__new__(ev.ExpLauncher)
        la.exps = exps
        la.jobs = {n: Job(n) for n in exps}
        la.action_prepare()
        ctx.eq(sorted(os.listdir(tmp)), sorted(n + '.cfg' for n in exps),
               'configurations', what)
        for i, n in enumerate(exps):
            e = ev.SupportiveExperiment.load_from_serialized(
                la.jobs[n].config)
            ctx.eq(e.parameters, dict(
                ev.SupportiveExperiment.DEFAULT_PARAMETERS, **exps[n]),
                'parameters of ' + n, what)
            ctx.ensure(e.path is None and e.results == {}, 'fresh', what)
            e.results = {'parameters': exps[n], 'evaluations': [
                {'return': .5 * i + k + 1. / 3, 'elapsed-time': 10. + k / 7.,
                 'simulator-calls': np.int64(100 * i + k)}
                for k in range(i)]}
            e.write_result(os.path.join(tmp, n + '.json'))
            ctx.trans(2)
        got = la.get_results()
        ctx.eq(set(got), set(exps), 'jobs', what)
        for i, n in enumerate(exps):
            ctx.eq([list(x) for x in got[n]],
                   [[.5 * i + k + 1. / 3 for k in range(i)],
                    [10. + k / 7. for k in range(i)],
                    [100 * i + k for k in range(i)]], 'results of ' + n, what)
            ctx.trace()
            ctx.state((n, i, len(exps)))
    finally:
        shutil.rmtree(tmp)


def run(ctx):
    ctx.assumptions = [
        'the pool of processes and the elapsed time of the process are '
        'stand-ins (see C02 and E02); the first random draws of every run are '
        'enumerated, later ones follow one fixed cycle']
    jobs = []
    dom = [('n_warmup', (0, 4)), ('iterations', (3, 5)),
           ('rollout-iterations', (1, 2)), ('exploration', (0, .75, 50)),
           ('relative-explo', (False, True)), ('n_particles', (1, 3)),
           ('horizon-type', ('transitions', 'htm')),
           ('horizon-length', (1, 3))]
    names = [k for k, _ in dom]
    depth = ctx.pick(3, 6)
    for k, vals in enumerate(itertools.product(*[v for _, v in dom])):
        given = dict(zip(names, vals))
        given['n_evaluations'] = k % 3
        jobs.append((case_run, ['run', given], given,
                     {'max_horizon': 2 + k % 2}, None, False, False, depth))
    ctx.sample(given)
    for kw in ({}, {'max_horizon': 130}):
        jobs.append((case_run, ['endless', kw], {
            'model': 'endless', 'iterations': 1, 'horizon-length': 1,
            'n_evaluations': 2}, kw, None, False, False, 0))
    for given in ({}, {'n_evaluations': 2}, {'policy': 'pomcp', 'more': 'x'},
                  {'more': None, 'other': [], 'n_evaluations': 0},
                  {'exploration': 1, 'horizon-type': 'htm',
                   'n_evaluations': 3}):
        for debug, path, finish in itertools.product(
                (None, False, True), (True, False), (True, False)):
            for kw in ({'max_horizon': 4}, {'max_horizon': 1}):
                jobs.append((case_run, ['run', given, debug, path, finish],
                             given, kw, debug, path, finish, depth))
    for config, name, debug, arg in itertools.product(
            (None, {}, {'n_evaluations': 2, 'exploration': 0},
             {'n_warmup': 5, 'horizon-type': 'htm', 'iterations': 4}),
            (None, 'first', 'a.b'), (True, False), (True, False)):
        jobs.append((case_command, ['command', config, name, debug, arg],
                     config, name, debug, arg, depth))
    cfg = [{}, {'exploration': 3.5}, {'n_warmup': 1, 'policy': 'repeat'},
           {'task': 'x', 'list': [1, 2]}]
    for n in range(4):
        for c in itertools.permutations(cfg, n):
            jobs.append((case_launcher, ['launcher', c],
                         {'exp-%d' % i: x for i, x in enumerate(c)}))
    # belief values are not available for particles: refused, not ignored
    jobs.append((case_refused, ['belief values']))
    for spent in (.4, .7):
        jobs.append((case_warmup_time, ['warmup', spent], spent))
    ctx.run_cases(jobs)


def case_refused(ctx):
    quiet()
    cls = experiment(SMALL, {}, [], False)
    e = cls({'belief-values': True, 'n_warmup': 1})
    try:
        with active(Bounded([], 0)):
            e.run()
    except MaxSamplesReached:
        pass
    except Exception:
        ctx.state('refused')
        ctx.trans()
        return
    m = the_model(SMALL)
    shared = POMCPPolicyRunner(
        m, iterations=1, horizon=NHTMHorizon.generator(m, n=1),
        exploration=1, belief_values=True, belief='array',
        logger=lambda *a: None)
    ctx.ensure(type(e.policy.tree) is type(shared.tree), 'belief-values is '
               'ignored', ['refused'])
    ctx.state('shared')


def case_warmup_time(ctx, spent):
    """The time of the warmup is recorded (in seconds)."""
    quiet()
    log = []
    cls = experiment(SMALL, {'max_horizon': 1}, log, False)
    init = cls.init_run
    took = []

    def init_run(self):
        init(self)
        get_action = self.policy.get_action

        def slow(*a, **k):
            t0 = time.perf_counter()
            try:
                if not took:
                    time.sleep(spent)
                return get_action(*a, **k)
            finally:
                took.append(time.perf_counter() - t0)
        self.policy.get_action = slow
    cls.init_run = init_run
    e = cls({'n_evaluations': 0})
    t0 = time.perf_counter()
    with active(Bounded([], 0)):
        e.run()
    whole = time.perf_counter() - t0
    got = float(e.results['t_warmup'])
    ctx.eq(len(took), 1, 'searches', ['warmup', spent])
    # clocks may differ a little
    ctx.ensure(took[0] - .05 <= got <= whole + .05, 'warmup of %.3f s (whole '
               'run: %.3f s) recorded as %r' % (took[0], whole, got),
               ['warmup', spent])
    ctx.state(('warmup', spent))
    ctx.trans()
