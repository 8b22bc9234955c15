"""E04: the bundled evaluation jobs and their launchers."""
import itertools
import logging
import os
import runpy
import sys
import types

import numpy as np

from ..core import REPO
from ..evalimport import evaluation
from ..randomness import Bounded, Oracle, active, bounded as explore, \
    distribution, dist_diff
from ..support import Act, Reference, decode
from ..uct import snap_real
from .d06 import compare, selection
from .e01 import stub_environment
from task_models.lib.pomcp import POMCPPolicyRunner
from task_models.policy import PolicyLongSupportiveSequence
from task_models.supportive import NHTMHorizon
from task_models.task import (LeafCombination, SequentialCombination,
                              AlternativeCombination)

ev = evaluation()
TOOLS = ['screws', 'screwdriver', 'joints']
LEG = [('u', 'joints'), ('c', 'leg'), ('u', 'screwdriver'), ('u', 'screws')]
TOP = [('u', 'screwdriver'), ('u', 'screws')]


# --- the scripts -----------------------------------------------------------

def script(name):
    """Names defined by a script and the class or object it runs."""
    import matplotlib
    matplotlib.use('Agg')
    got = []

    class Job(object):
        def __init__(self, path, name, script):
            self.path, self.name, self.script = path, name, script
            self.config = os.path.join(str(path), name + '.json')
    job = types.ModuleType('expjobs.job')
    job.Job = Job
    saved = sys.modules.get('expjobs.job')
    sys.modules['expjobs.job'] = job
    base, launcher = ev.SupportiveExperiment, ev.ExpLauncher
    run = base.__dict__['run_from_arguments']
    old = launcher.__dict__.get('run')
    base.run_from_arguments = classmethod(
        lambda cls, debug=False: got.append((cls, debug)))
    launcher.run = lambda self: got.append(self)
    argv = sys.argv
    path = os.path.join(REPO, 'samples', name + '.py')
    try:
        sys.argv = [path]
        g = runpy.run_path(path, run_name='__main__')
    finally:
        sys.argv = argv
        base.run_from_arguments = run
        if old is None:
            del launcher.run
        else:
            launcher.run = old
        if saved is None:
            del sys.modules['expjobs.job']
        else:
            sys.modules['expjobs.job'] = saved
    return g, got


JOBS = {'pomcp': 'supportive_evaluation_pomcp_job',
        'preference': 'supportive_evaluation_preference_job',
        'multitask': 'supportive_evaluation_multitask_job'}
_cls = {}


def job(ctx, kind):
    if kind not in _cls:
        got = script(JOBS[kind])[1]
        ctx.eq(len(got), 1, 'experiments run', kind)
        ctx.ensure(not got[0][1], 'runs in debug mode', kind)
        _cls[kind] = got[0][0]
    return _cls[kind]


# --- what they must build --------------------------------------------------

def leaf(hold, conditions):
    return LeafCombination(Act('x', hold, conditions))


def holds(s):
    return SequentialCombination([leaf(h, LEG) for h in s])


def described(kind, par):
    """Root of the task and parameters of the model, policy plan."""
    if kind == 'pomcp':
        root = SequentialCombination([SequentialCombination([
            leaf('h', LEG),
            leaf('v', ([('c', 'top')] if i == 0 else []) + TOP)])
            for i in range(4)])
        kw = {'p_pref': (par['p_preference'],)}
        if par['intermediate-rewards']:
            kw.update(r_subtask=10., r_final=30.)
        else:
            kw.update(r_subtask=0., r_final=120.)
        if 'p_change_preference' in par:
            kw['p_change_preference'] = par['p_change_preference']
    elif kind == 'preference':
        root = leaf('h', LEG)
        kw = {'p_pref': (par['p_preference'],), 'r_subtask': 10.,
              'r_preference': 30., 'r_final': 10., 'p_changed_by_human': 0.,
              'reward_independent_preference': True,
              'p_change_preference': par.get('p_change_preference', 0.)}
    else:
        kw = {'p_pref': (1.,), 'p_change_preference': 0., 'r_final': 10.}
        if par['task'] == 'sequence':
            root = holds('h' * par['n_subtasks'])
        else:
            kw.update(cost_hold=10., r_preference=18.)
            seqs = ['hvvv', 'hhhh', 'vhhv', 'vvhv'] \
                if par['task'] == 'alternative' else \
                [''.join(x) for x in itertools.product('hv', repeat=4)]
            root = AlternativeCombination([holds(x) for x in seqs])
    return root, kw


def experiment(ctx, kind, given):
    logging.disable(logging.CRITICAL)
    stub_environment()
    return job(ctx, kind)(parameters=dict(given))


def built(ctx, kind, given):
    exp = experiment(ctx, kind, given)
    exp.init_run()
    return exp


def case_model(ctx, kind, given, modes=(True, False)):
    exp = built(ctx, kind, given)
    what = [kind, given]
    root, kw = described(kind, exp.parameters)
    ref = Reference(root, **kw)
    m = exp.model
    ctx.eq(m.discount, 1., 'discount', what)
    ctx.eq(list(m.actions), ref.actions, 'actions', what)
    got = distribution(lambda: decode(m, m.sample_start(), ref), stats=ctx)
    want = ref.start()
    d = dist_diff(got, want)
    ctx.ensure(d is None, 'start: %s' % d, what)
    nums, n = selection(ctx, m, ref, 0, what)
    ctx.eq(int(m.n_states), n, 'number of states', what)
    few = {r: s for k, (r, s) in enumerate(nums.items())
           if ctx.thorough or k % 3 == 0 or r[0] in ('clean', 'final')}
    compare(ctx, m, ref, few, n, modes, what)


def plan(par, kind):
    if kind == 'preference':
        n, do = 1, {'always-hold': {'hold H': 1.},
                    'never-hold': {'wait': 1.}}[par['policy']]
    elif par['task'] == 'sequence' and par['policy'] == 'repeat':
        n, do = par['n_subtasks'], {'hold H': 1.}
    else:
        n = par['n_subtasks'] if par['task'] == 'sequence' else 4
        do = {'hold H': .5, 'hold V': .5}
    bring = ('none', 'not-found', 'fail')
    out = [({'bring ' + t: 1.}, bring) for t in TOOLS]
    for _ in range(n):
        out += [({'bring leg': 1.}, bring), (do, ('none', 'fail'))]
    return out + [({'clear ' + t: 1.}, bring) for t in TOOLS] + \
        [({'wait': 1.}, ('none',))] * 2


def case_policy(ctx, kind, given):
    """The policy follows its plan under all observations within two steps
    of each position."""
    exp = built(ctx, kind, given)
    par = exp.parameters
    what = [kind, given]
    pol, steps = exp.policy, plan(par, kind)
    ctx.ensure(pol.model is exp.model, 'model of the policy', what)

    def position(k):
        pol.reset()
        for j in range(k):
            with active(Bounded([], 0)):
                a = pol.get_action()
            ctx.ensure(a in steps[j][0], 'action %r at %d' % (a, j), what)
            pol.step('none')

    def follow(k, depth):
        """All continuations from position k."""
        state = (k, depth)

        def propose():
            position(k)
            return pol.get_action()
        got = distribution(propose, stats=ctx)
        d = dist_diff(got, steps[k][0])
        ctx.ensure(d is None, 'action at %d: %s' % (k, d), what)
        ctx.state((kind, repr(sorted(given.items())), state))
    for k in range(len(steps)):
        follow(k, 0)
        for obs in itertools.product(('none', 'not-found', 'fail'), repeat=2):
            j = k
            position(k)
            for o in obs:
                if j >= len(steps) or o not in steps[j][1]:
                    break
                with active(Bounded([], 0)):
                    a = pol.get_action()
                ctx.ensure(a in steps[j][0], '%r at %d after %r' % (
                    a, j, obs), what)
                pol.step(o)
                j += o != 'fail'
                ctx.trans()
            if j < len(steps):
                got = distribution(pol.get_action)
                d = dist_diff(got, steps[j][0])
                ctx.ensure(d is None, 'action at %d after %r: %s' % (
                    j, obs, d), what)
        ctx.trace()


def case_search(ctx, kind, given, depth):
    """The search policy has the settings of the parameters."""
    what = [kind, given]

    def go(build):
        if build:
            exp = built(ctx, kind, given)
        else:
            with active(Bounded([], 0)):    # for its model
                exp = built(ctx, kind, given)
        par, m = exp.parameters, exp.model
        m.n_simulator_calls = 0
        if build:
            pol = exp.policy
            ctx.ensure(isinstance(pol, POMCPPolicyRunner), 'policy', what)
        else:
            gen = NHTMHorizon if par['horizon-type'] == 'htm' else \
                ev.FinishedOrNTransitionsHorizon
            pol = POMCPPolicyRunner(
                m, iterations=par['iterations'],
                horizon=gen.generator(m, n=par['horizon-length']),
                exploration=par['exploration'],
                relative_exploration=par['relative-explo'],
                rollout_it=par['rollout-iterations'], belief='particle',
                belief_params={'n_particles': par['n_particles']})
        acts = [pol.get_action(), pol.get_action(iterations=2)]
        return acts, snap(pol.tree.root), m.n_simulator_calls
    for out, choices in explore(lambda: go(True), depth):
        with active(Bounded(list(choices), depth)):
            want = go(False)
        ctx.eq(out, want, 'search', what)
        ctx.state(repr(out))
        ctx.trace()
        ctx.trans(2)


def snap(root):
    return snap_real(root, belief=False)


class Worst(Oracle):
    """The likeliest outcome of every draw."""

    def branch(self, weights):
        return int(np.argmax(weights))


class Varied(Oracle):
    n = 0

    def branch(self, weights):
        low = min(.015, max(weights) / 2)
        live = [i for i, w in enumerate(weights) if w > low]
        self.n += 1
        return live[(self.n * 7 // 3 + self.shift) % len(live)]


def case_run(ctx, kind, given, limit, shift):
    """A whole run: number and length of evaluations, returns."""
    exp = experiment(ctx, kind, given)
    what = [kind, given, shift]
    said = []
    exp.log = lambda s, *a: said.append(s % a if a else str(s))
    o = Worst() if shift is None else Varied()
    o.shift = shift
    with active(o):
        exp.run()
    res = exp.results['evaluations']
    ctx.eq(len(res), exp.parameters['n_evaluations'], 'evaluations', what)
    root, kw = described(kind, exp.parameters)
    ref = Reference(root, **kw)
    reached = False
    for r in res:
        recs = [decode(exp.model, s, ref) for s in r['states']]
        ctx.eq(len(recs), len(r['actions']) + 1, 'states', what)
        ctx.ensure(all(x[0] != 'final' for x in recs[:-1]), 'goes on after '
                   'the end', what)
        ctx.ensure(recs[-1][0] == 'final' or len(recs) == limit + 1,
                   'ends after %d transitions' % len(r['actions']), what)
        ctx.ensure(len(recs) <= limit + 1, '%d transitions' % (
            len(recs) - 1), what)
        reached = reached or len(recs) == limit + 1
        for k, a in enumerate(r['actions']):
            out = (recs[k + 1], exp.model.observations[r['observations'][k]],
                   round(float(r['rewards'][k]), 6))
            ctx.ensure(out in ref.kernel(recs[k], exp.model.actions[a]),
                       'transition %r %s %r' % (recs[k], exp.model.actions[a],
                                                out), what)
            ctx.trans()
        ctx.ensure(abs(r['return'] - sum(r['rewards'])) < 1e-6, 'return',
                   what)
    if kind == 'multitask':
        avg = np.average([r['return'] for r in res])
        ctx.ensure(any(str(avg) in s for s in said), 'average return %s not '
                   'reported' % avg, what)
    ctx.state((kind, repr(given), shift, reached))
    ctx.trace()


def case_refused(ctx, kind, given, error):
    exp = experiment(ctx, kind, given)
    try:
        exp.init_run()
    except error:
        ctx.trans()
        return
    ctx.fail('accepted', [kind, given])


# --- launchers -------------------------------------------------------------

def launcher(ctx, name):
    g, got = script(name)
    ctx.eq(len(got), 1, 'launchers', name)
    la = got[0]
    la.args = types.SimpleNamespace(path='/nowhere', plot_destination=None)
    la.init_jobs()
    return g, la


def grid(g, la, name, par, **where):
    """Values of a parameter, as listed by the script or else observed."""
    if name in g:
        return list(g[name])
    got = []
    for e in la.exps.values():
        if all(e.get(k.replace('_', '-')) == v for k, v in where.items()) \
                and par in e and e[par] not in got:
            got.append(e[par])
    return got


def grids(g, la, kind):
    if kind == 'pomcp':
        return [grid(g, la, 'HORIZON_LENGTH_TRANSITIONS', 'horizon-length',
                     horizon_type='transitions'),
                grid(g, la, 'HORIZON_LENGTH_HTM', 'horizon-length',
                     horizon_type='htm'),
                grid(g, la, 'N_ITERATIONS', 'iterations'),
                grid(g, la, 'N_ROLLOUT_IT', 'rollout-iterations')]
    return [grid(g, la, 'P_PREFERENCE', 'p_preference')
            if kind == 'preference' else grid(g, la, 'TASKS', 'task'),
            grid(g, la, 'POLICIES', 'policy')]


def combos(g, la, kind):
    gs = grids(g, la, kind)
    if kind == 'pomcp':
        for t, ls in (('transitions', gs[0]), ('htm', gs[1])):
            for n, s in itertools.product(ls, (True, False)):
                yield {'horizon-type': t, 'horizon-length': n,
                       'intermediate-rewards': s}
        for i, r in itertools.product(gs[2], gs[3]):
            yield {'iterations': i, 'rollout-iterations': r}
    else:
        for v, pol in itertools.product(*gs):
            if kind == 'preference':
                yield {'p_preference': v, 'policy': pol, 'n_evaluations': 100}
            else:
                yield {'task': v, 'policy': pol}


def key(par):
    return tuple(sorted((k, float(v) if isinstance(v, np.floating) else v)
                        for k, v in par.items()))


def case_launcher(ctx, kind):
    g, la = launcher(ctx, 'supportive_evaluation_' + kind)
    want = [key(x) for x in combos(g, la, kind)]
    got = [key(x) for x in la.exps.values()]
    ctx.eq(sorted(map(repr, got)), sorted(map(repr, want)),
           'parameters of the jobs', kind)
    ctx.eq(set(la.jobs), set(la.exps), 'jobs', kind)
    for n, j in la.jobs.items():
        ctx.eq((j.name, str(j.path)), (n, '/nowhere'), 'job', [kind, n])
        ctx.ensure(os.path.samefile(j.script, os.path.join(
            REPO, 'samples', JOBS[kind] + '.py')), 'script', [kind, n])
        ctx.state((kind, n))
    for par in la.exps.values():
        built(ctx, kind, par)
        ctx.trans()
    ctx.trace()


def case_plots(ctx, kind, shift):
    """Each result is plotted at its own parameters."""
    import contextlib
    import io
    import matplotlib.pyplot as plt
    g, la = launcher(ctx, 'supportive_evaluation_' + kind)
    gs = grids(g, la, kind)
    results = {}
    for j, n in enumerate(la.exps):
        i = (j * 7 + shift) % 1009 + j * 1009
        results[n] = ([100. + i, 200. + i, 330. + 3 * i], [1., 2., 3.],
                      [5 * i, 7 * i, 9 * i + 3])
    la.get_results = lambda: results
    name = {key(p): n for n, p in la.exps.items()}

    def stat(f, k, **par):
        for full in la.exps.values():
            if all(full.get(x) == y for x, y in par.items()):
                return float(f(results[name[key(full)]][k]))
        ctx.fail('no job for %r' % par, kind)

    def mean(k, **par):
        return stat(np.mean, k, **par)
    plt.close('all')
    want = []       # label (if any), axis title, abscissa, ordinate
    if kind == 'multitask':
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            res = la.print_results()
        ctx.ensure(res is results, 'results', kind)
        rows = out.getvalue().split('\n')
        for t in gs[0]:
            row = [r for r in rows if r.startswith(t + ' ')]
            ctx.eq(len(row), 1, 'row of ' + t, kind)
            got = [float(x) for x in row[0].split(':')[1].split()]
            ctx.ensure(np.allclose(got, [mean(0, task=t, policy=p)
                                         for p in gs[1]]), 'row %r' % row,
                       kind)
        la.plot_results(results)
    else:
        la.plot_results()
    drawn = []
    for num in plt.get_fignums():
        for ax in plt.figure(num).axes:
            drawn += [(str(ln.get_label()), ax.get_title(),
                       [float(x) for x in ln.get_xdata()],
                       [float(y) for y in ln.get_ydata()])
                      for ln in ax.lines]
    if kind == 'pomcp':
        for k in (0, 2):
            for t, xs in (('transitions', gs[0]), ('htm', gs[1])):
                for s in (False, True):
                    want.append(('subtask' if s else 'final', None, xs, [
                        mean(k, **{'horizon-type': t, 'horizon-length': x,
                                   'intermediate-rewards': s}) for x in xs]))
        for r in gs[3]:
            want.append(('%d ' % r, None, gs[2], [mean(0, **{
                'iterations': i, 'rollout-iterations': r}) for i in gs[2]]))
    elif kind == 'preference':
        for pol in gs[1]:
            want.append((None, None, gs[0], [mean(
                0, p_preference=p, policy=pol) for p in gs[0]]))
    else:
        for t in gs[0]:
            pols = [p for p in gs[1] if t == 'sequence' or p != 'repeat']
            for i, p in enumerate(pols):
                m = stat(np.median, 0, task=t, policy=p)
                want.append((None, t.capitalize(), None, [m, m]))
    for label, title, xs, ys in want:
        ctx.ensure(any(len(y) == len(ys) and np.allclose(y, ys) and
                       (xs is None or np.allclose(x, xs)) and
                       (label is None or lab.startswith((label, '_'))) and
                       title in (None, ti)
                       for lab, ti, x, y in drawn),
                   'not drawn: %r %r %r %r' % (label, title, xs, ys), kind)
        ctx.trans()
    if kind == 'multitask':
        for num in plt.get_fignums():
            for ax in plt.figure(num).axes:
                t = ax.get_title().lower()
                ctx.eq([x.get_text() for x in ax.get_xticklabels()],
                       [p for p in gs[1] if t == 'sequence' or
                        p != 'repeat'], 'labels', [kind, t])
    if kind == 'preference':
        for leg in [ax.get_legend() for n in plt.get_fignums()
                    for ax in plt.figure(n).axes]:
            names = [x.get_text() for x in leg.get_texts()]
            ctx.eq(names, list(gs[1]), 'legend', kind)
            ax = leg.axes
            for h, (_, _, xs, ys) in zip(leg.get_patches(), want):
                cols = [plt.matplotlib.colors.to_rgba(ln.get_color())
                        for ln in ax.lines if len(ln.get_ydata()) == len(ys)
                        and np.allclose(np.asarray(ln.get_ydata(), float),
                                        ys)]
                ctx.ensure(tuple(h.get_facecolor()) in cols,
                           'legend colours', kind)
    plt.close('all')
    ctx.trace()


def run(ctx):
    ctx.assumptions = [
        'the job submission library is a stand-in that gives launchers their '
        'arguments; processes and elapsed times as in E03',
        'repeating the same hold is only specified for the sequence task']
    jobs = []

    def add(fn, kind, *args):
        jobs.append((fn, [fn.__name__, kind] + list(args), kind) + args)
    for p, inter, ch in itertools.product(
            (0., .3, 1.), (True, False), (None, 0., .25)):
        g = {'p_preference': p, 'intermediate-rewards': inter}
        if ch is not None:
            g['p_change_preference'] = ch
        add(case_model, 'pomcp', g)
    for p, pol, ch in itertools.product(
            (0., .3, .15, 1.), ('pomcp', 'always-hold', 'never-hold'),
            (None, 0., .25)):
        g = {'p_preference': p, 'policy': pol}
        if ch is not None:
            g['p_change_preference'] = ch
        add(case_model, 'preference', g)
        if pol != 'pomcp':
            add(case_policy, 'preference', g)
    tasks = [{'task': 'uniform'}, {'task': 'alternative'}, {}] + [
        {'task': 'sequence', 'n_subtasks': n} for n in (1, 2, 4, 7)] + [
        {'task': 'sequence'}]
    for t in tasks:
        for pol in ('pomcp', 'repeat', 'random', None):
            g = dict(t)
            if pol:
                g['policy'] = pol
            add(case_model, 'multitask', g)
            if pol == 'repeat' and t.get('task') != 'sequence' or \
                    pol == 'pomcp':
                continue
            add(case_policy, 'multitask', g)
    depth = ctx.pick(2, 4)
    for it, ro, ex, rel, npart, hor in itertools.product(
            (3, 9), (1, 2), (0, 50), (False, True), (4,),
            (('transitions', 3), ('htm', 2))):
        g = {'iterations': it, 'rollout-iterations': ro, 'exploration': ex,
             'relative-explo': rel, 'n_particles': npart,
             'horizon-type': hor[0], 'horizon-length': hor[1]}
        add(case_search, 'pomcp', g, depth)
        add(case_search, 'pomcp', dict(
            g, **{'intermediate-rewards': True, 'p_preference': 1.}), depth)
        add(case_search, 'preference', g, depth)
        for t in ('sequence', 'uniform', 'alternative'):
            add(case_search, 'multitask', dict(g, task=t, policy='pomcp'), 1)
    # searches long enough for the choice among tried actions to matter
    for ro, ex, rel, inter, hor in itertools.product(
            (1, 2), (0, 50), (False, True), (False, True),
            (('transitions', 3), ('htm', 2))):
        g = {'iterations': 120, 'rollout-iterations': ro, 'exploration': ex,
             'relative-explo': rel, 'n_particles': 6,
             'intermediate-rewards': inter,
             'horizon-type': hor[0], 'horizon-length': hor[1]}
        for kind, more in (('pomcp', {}), ('preference', {}),
                           ('multitask', {'task': 'sequence',
                                          'policy': 'pomcp'})):
            add(case_search, kind, dict(g, **more), 0)
    for shift in (None, 0, 1, 2):
        for pol in ('always-hold', 'never-hold'):
            for p in (0., 1.):
                add(case_run, 'preference', {
                    'policy': pol, 'p_preference': p, 'n_warmup': 3,
                    'n_evaluations': 3}, 15, shift)
        for t, pol in (('sequence', 'repeat'), ('sequence', 'random'),
                       ('uniform', 'random'), ('alternative', 'random')):
            for n in (0, 1, 3) if shift else (2,):
                if n or not shift:
                    add(case_run, 'multitask', {
                        'task': t, 'policy': pol, 'n_evaluations': n}, 200,
                        shift)
    for kind, g in (('preference', {'policy': 'never-heard'}),
                    ('multitask', {'policy': 'always-hold'}),
                    ('multitask', {'policy': 'never-heard'})):
        add(case_refused, kind, g, NotImplementedError)
    for t in ('other', '', 'Sequence'):
        add(case_refused, 'multitask', {'task': t}, ValueError)
    for kind in JOBS:
        add(case_launcher, kind)
        for shift in (0, 1, 500):
            add(case_plots, kind, shift)
    ctx.sample(g)
    ctx.run_cases(jobs)
