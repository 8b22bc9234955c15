"""E05: the bundled scenario scripts."""
import contextlib
import io
import itertools
import json
import logging
import os
import runpy
import shutil
import sys
import tempfile

import matplotlib
matplotlib.use('Agg')
import numpy as np      # noqa: E402

from ..core import REPO     # noqa: E402
from ..randomness import Bounded, active    # noqa: E402
from ..support import Act, Reference    # noqa: E402
from .d01 import Flat, expected as collaborative    # noqa: E402
from .d02 import expected as deliveries     # noqa: E402
from .d06 import compare, selection     # noqa: E402
from .e04 import Varied     # noqa: E402
from .p05 import strict     # noqa: E402
from task_models.lib import pomcp as pomcp_lib, pomdp as pomdp_lib  # noqa
from task_models.lib.pomdp import GraphPolicy, GraphPolicyBeliefRunner  # noqa
from task_models.supportive import NHTMHorizon      # noqa: E402
from task_models.task import (SequentialCombination, LeafCombination,  # noqa
                              AlternativeCombination)
from task_models.task_to_pomdp import CollaborativeAction   # noqa: E402
from task_models.bring_next_to_pomdp import (       # noqa: E402
    CollaborativeAction as Delivery)

SEARCHES = 5        # more than actions, instead of the numbers of the scripts


class scratch(object):
    """A copy of the script in a directory like the one of the repository;
    the solver and the size of searches are stand-ins."""

    def __init__(self, name, policy=None):
        self.name, self.policy = name, policy
        self.solved, self.built, self.asked, self.ran = [], [], [], []

    def __enter__(self):
        self.dir = tempfile.mkdtemp()
        os.mkdir(os.path.join(self.dir, 'samples'))
        for d in ('policy', 'trajectories', 'pomcp'):
            os.makedirs(os.path.join(self.dir, 'visualization', d, 'json'))
        self.path = os.path.join(self.dir, 'samples', self.name + '.py')
        shutil.copy(os.path.join(REPO, 'samples', self.name + '.py'),
                    self.path)
        self.solve = pomdp_lib.POMDP.solve
        self.runner = pomcp_lib.POMCPPolicyRunner
        me = self

        def solve(model, *args, **kw):
            me.solved.append((model, args, kw))
            return me.policy(model)

        class Runner(self.runner):
            def __init__(self, *args, **kw):
                me.built.append((self, args, dict(kw)))
                kw['iterations'] = SEARCHES + args[0].n_actions
                if kw.get('horizon') == 100:
                    kw['horizon'] = 4
                if 'belief_params' in kw:
                    kw['belief_params'] = {'n_particles': 8}
                me.runner.__init__(self, *args, **kw)

            def get_action(self, *args, **kw):
                if kw.get('iterations') != 0:
                    me.asked.append(len(me.ran))
                return me.runner.get_action(self, *args, **kw)

            def run_trajectory(self, *args, **kw):
                me.ran.append(self)
        pomdp_lib.POMDP.solve = solve
        pomcp_lib.POMCPPolicyRunner = Runner
        return self

    def run(self):
        out = io.StringIO()
        argv = sys.argv
        try:
            sys.argv = [self.path]
            with contextlib.redirect_stdout(out):
                g = runpy.run_path(self.path, run_name='__main__')
        finally:
            sys.argv = argv
            logging.getLogger().setLevel(logging.WARNING)
        self.out = out.getvalue()
        return g

    def file(self, *path):
        return os.path.join(self.dir, 'visualization', *path)

    def files(self):
        return {os.path.relpath(os.path.join(d, f), self.dir)
                for d, _, fs in os.walk(os.path.join(
                    self.dir, 'visualization')) for f in fs}

    def __exit__(self, *_):
        pomdp_lib.POMDP.solve = self.solve
        pomcp_lib.POMCPPolicyRunner = self.runner
        shutil.rmtree(self.dir)


# --- models --------------------------------------------------------------

def same_model(ctx, p, want, obs_want, what, T, O, R, start, free=None):
    states, actions = want
    for got, w, name in ((p.states, states, 'states'),
                         (p.actions, actions, 'actions'),
                         (p.observations, obs_want, 'observations')):
        ctx.eq(sorted(map(str, got)), sorted(w), name, what)
    si = [p.states.index(s) for s in states]
    ai = [p.actions.index(a) for a in actions]
    oi = [p.observations.index(o) for o in obs_want]
    ctx.ensure(np.allclose(np.asarray(p.start)[si], start), 'start', what)
    bad = np.argwhere(np.abs(np.asarray(p.T)[np.ix_(ai, si, si)] - T) > 1e-9)
    ctx.ensure(not len(bad), 'transitions %s' % [
        (actions[a], states[s], states[t]) for a, s, t in bad[:2]], what)
    ctx.ensure(np.allclose(np.asarray(p.O)[np.ix_(ai, si, oi)], O),
               'observation probabilities', what)
    ok = T > 0
    if free is not None:
        ok &= ~free
    r = np.asarray(p.R)[np.ix_(ai, si, si, oi)]
    bad = (np.abs(r - R[..., None]) > 1e-9) & ok[..., None]
    ctx.ensure(not bad.any(), 'rewards', what)
    ctx.trans(int(ok.sum()))


def collab(name, human, robot, error, fail=.1, no=.1):
    return LeafCombination(CollaborativeAction(
        name, (human, robot, error), fail_probability=fail,
        no_probability=no))


INF = 100.
STOOL = SequentialCombination([
    collab('Get central frame', INF, 20., 30.),
    collab('Hold central frame', .01, 15., 30., .01),
    collab('Bring left leg', INF, 20., 30.),
    collab('Snap left leg', 5., INF, INF, .01),
    collab('Bring right leg', INF, 20., 30.),
    collab('Snap right leg', 5., INF, INF, .01),
    collab('Release central frame', INF, 1., 1., no=.1),
    collab('Bring top', INF, 20., 30.),
    collab('Snap top', 5., INF, INF, .1)])
ORDERS = [[2, 0, 4, 3, 1, 5], [2, 4, 0, 3, 5, 1], [0, 1, 2, 3, 4, 5],
          [0, 1, 4, 5, 2, 3], [2, 3, 0, 1, 4, 5], [2, 3, 4, 5, 0, 1]]


def model_of(ctx, name, p):
    if name in ('icra_scenario2pomdp', 'pomcp'):
        icra = name == 'icra_scenario2pomdp'
        opts = (False, False, False, not icra, None if icra else 100)
        states, actions, obs, start, T, O, C, free = collaborative(
            Flat(STOOL), None, (1., 2., 2., 1., .1 if icra else 1000.),
            *opts)
        same_model(ctx, p, (states, actions), obs, name, T, O, -C, start,
                   free)
    elif name == 'tower_scenario':
        root = AlternativeCombination([SequentialCombination([
            LeafCombination(Delivery('%d-%s' % (
                i, '-'.join(map(str, o))), str(i))) for i in o])
            for o in ORDERS])
        objs = [str(i) for i in range(6)]
        states, actions, start, T, O, C = deliveries(
            Flat(root), objs, (2., 8., 5., 50.), False, False)
        same_model(ctx, p, (states, actions),
                   ['none', 'yes', 'no', 'error'], name, T, O, -C, start)


# --- scripts that solve ----------------------------------------------------

def plans(n):
    """Policies the solver may answer, as functions of the model."""
    def one(k):
        def go(m):
            a = list(m.actions)
            v = -np.arange(1, m.n_states + 1) / 8. - k
            return GraphPolicy([a[k % len(a)]], list(m.observations),
                               [[0] * m.n_observations], v[None, :], init=0)
        return go

    def two(j, k, flip):
        def go(m):
            a = list(m.actions)
            v = np.arange(m.n_states) / 4.
            return GraphPolicy(
                [a[j % len(a)], a[k % len(a)]], list(m.observations),
                [[(o + flip) % 2 for o in range(m.n_observations)],
                 [flip] * m.n_observations], np.array([v, v[::-1] - 1.]),
                init=flip)
        return go
    for k in range(n):
        yield ['one', k], one(k)
    for j, k, f in itertools.product(range(0, n, 3), range(1, n, 4), (0, 1)):
        yield ['two', j, k, f], two(j, k, f)


SOLVERS = {'icra_scenario2pomdp': ('icra.json', {
               'method': 'grid', 'n_iterations': 500, 'verbose': True}),
           'htm2pomdp': ('test.json', {
               'method': 'grid', 'n_iterations': 500, 'verbose': True}),
           'tower_scenario': ('test.json', {
               'method': 'grid', 'grid_type': 'pairwise',
               'n_iterations': 50, 'verbose': True})}


def case_solve(ctx, name, policy, plan):
    what = [name, policy]
    with scratch(name, plan) as S:
        S.run()
        ctx.eq(len(S.solved), 1, 'problems solved', what)
        p, args, kw = S.solved[0]
        ctx.eq((args, kw), ((), SOLVERS[name][1]), 'settings', what)
        model_of(ctx, name, p)
        files = {'policy/json/' + SOLVERS[name][0],
                 'policy/json/from_beliefs.json',
                 'trajectories/json/trajectories.json'}
        ctx.eq({f.replace('visualization/', '') for f in S.files()}, files,
               'files', what)
        gp = plan(p)
        tmp = os.path.join(S.dir, 'want.json')
        gp.save_as_json(tmp)
        ctx.eq(strict(S.file('policy', 'json', SOLVERS[name][0])),
               strict(tmp), 'policy', what)
        r = GraphPolicyBeliefRunner(plan(p), p)
        want = json.loads(json.dumps(r.trajectory_trees_from_starts(
            horizon=10)))
        ctx.eq(strict(S.file('trajectories', 'json', 'trajectories.json')),
               want, 'trajectories', what)
        r = GraphPolicyBeliefRunner(plan(p), p)
        r.visit().save_as_json(tmp)
        ctx.eq(strict(S.file('policy', 'json', 'from_beliefs.json')),
               strict(tmp), 'policy over beliefs', what)
        ctx.state((name, repr(want)))
        ctx.trace()
        ctx.trans()


# --- scripts that search -------------------------------------------------------

def case_search(ctx, name, shift):
    info = [name, shift]

    def go():
        with scratch(name) as S:
            g = S.run()
            ctx.eq(len(S.built), 1, 'policies', info)
            pol, args, kw = S.built[0]
            m = pol.tree.model
            ctx.eq(S.asked, [0] * g['N'], 'searches before the trajectories',
                   info)
            sup = name == 'supportive'
            ctx.eq(len(S.ran), 5 if sup else 0, 'trajectories', info)
            ctx.eq(args, (m,), 'model', info)
            want = {'iterations': g['ITERATIONS'],
                    'exploration': g['EXPLORATION'],
                    'relative_exploration': g['RELATIVE_EXPLO'],
                    'belief_values': g['BELIEF_VALUES']}
            if sup:
                want.update(belief='particle', belief_params={
                    'n_particles': g['N_PARTICLES']})
                hor = kw.pop('horizon')
                h = hor()
                ctx.ensure(isinstance(h, NHTMHorizon) and
                           h.n == g['HORIZON'], 'horizon', info)
            else:
                want['horizon'] = g['HORIZON']
            ctx.eq(kw, want, 'settings', info)
            ctx.eq(S.files(), {'visualization/pomcp/json/pomcp.json'},
                   'files', info)
            f = strict(S.file('pomcp', 'json', 'pomcp.json'))
            ctx.eq(f['actions'], list(m.actions), 'actions', info)
            ctx.eq(f['exploration'], g['EXPLORATION'], 'exploration', info)
            ctx.eq(f['relative_exploration'], g['RELATIVE_EXPLO'],
                   'relative exploration', info)
            ctx.eq(f['states'], [x.name for x in m.htm_nodes] + [
                'clean', 'final'] if sup else list(m.states), 'states', info)
            walk(ctx, f['graphs'][0], pol.tree.root, m, sup, info, set())
            ctx.state(json.dumps(f, sort_keys=True))
            return m
    o = Varied()
    o.shift = shift
    with active(o):
        m = go()
    if not shift:
        check_searched(ctx, name, m, info)
    ctx.trace()


def check_searched(ctx, name, m, info):
    if name == 'pomcp':
        model_of(ctx, name, m)
        return
    leg = [('u', 'joints'), ('c', 'leg'), ('u', 'screwdriver'),
           ('u', 'screws')]
    top = [('u', 'screwdriver'), ('u', 'screws')]
    root = SequentialCombination([SequentialCombination([
        LeafCombination(Act('x', 'h', leg)),
        LeafCombination(Act('x', 'v', ([('c', 'top')] if i == 0 else []) +
                            top))]) for i in range(4)])
    ref = Reference(root, r_subtask=0., r_preference=20., cost_hold=3.,
                    cost_get=20.)
    nums, n = selection(ctx, m, ref, 0, info)
    ctx.eq(int(m.n_states), n, 'number of states', info)
    few = {r: s for k, (r, s) in enumerate(nums.items())
           if ctx.thorough or k % 3 == 0 or r[0] in ('clean', 'final')}
    compare(ctx, m, ref, few, n, (True, False), info)


def walk(ctx, d, node, m, sup, info, seen):
    ctx.trans()
    if sup:
        shift = 1 + len(m.preferences) + len(m.objects)
        b = [0.] * m.n_htm_states
        for i, x in enumerate(node.belief.array):
            b[i >> shift] += x
    else:
        b = node.belief.array
    ctx.ensure(np.allclose(d['belief'], b), 'belief', info)
    ctx.eq(d['visits'], node.n_simulations, 'visits', info)
    ctx.ensure(abs(d['value'] - node.value) < 1e-6 * (1 + abs(node.value)),
               'value', info)
    if not sup and id(node) in seen:    # a belief shown before
        ctx.ensure(not d.get('observations') and not d.get('children'),
                   'belief expanded twice', info)
        return
    seen.add(id(node))
    a = list(m.actions).index(d['action'])
    act = node.children[a]
    kids = act.children if act is not None else {}
    ctx.eq(sorted(d['observations']),
           sorted(m.observations[o] for o in kids), 'observations', info)
    for i, (o, k) in enumerate(zip(d['observations'], d['children'])):
        ctx.eq(k['observed'], i, 'position of observation', info)
        walk(ctx, k, kids[list(m.observations).index(o)], m, sup, info,
             seen)


# --- other scripts ----------------------------------------------------------------

def case_runs(ctx, name):
    with scratch(name) as S:
        with active(Bounded([], 0)):
            S.run()
        ctx.eq(S.files(), set(), 'files', name)
        if name == 'snap_circuit_scenarii':
            d = json.loads(S.out[S.out.index('{'):])
            n = len(d['nodes'])
            ctx.ensure(n >= 3, 'nodes', name)
    ctx.trans()


def run(ctx):
    ctx.assumptions = [
        'the solver is a stand-in answering policies of one or two nodes; '
        'searches have %d iterations more than there are actions instead '
        'of those of the scripts'
        % SEARCHES,
        'reference for policies over beliefs and trajectories: the library '
        'functions decided by M06']
    jobs = []
    n = ctx.pick(10, 40)
    for name in sorted(SOLVERS):
        for what, plan in plans(n):
            jobs.append((case_solve, [name, what], name, what, plan))
    for name in ('supportive', 'pomcp'):
        for shift in range(ctx.pick(4, 40)):
            jobs.append((case_search, [name, shift], name, shift))
    for name in ('snap_circuit_scenarii', 'test_hierarchies',
                 'plot_exploration_term'):
        jobs.append((case_runs, [name], name))
    ctx.sample([j[1] for j in jobs[:3]])
    ctx.run_cases(jobs)
