FAKE = '''
from distutils import spawn
spawn.find_executable = lambda *a, **k: '/bin/true'
import numpy as np
'''

plant('m06-cap-dropped', 'M06',
      [('lib/pomdp.py', 'v = _Aux(self, max_nodes=max_states)', 'v = _Aux(self, max_nodes=max(max_states, 10))')],
      'exploration limited to fewer than ten beliefs in a model having more',
      'small limits on the number of visited beliefs are ignored',
      FAKE + '''
from task_models.lib.pomdp import POMDP, GraphPolicy, GraphPolicyBeliefRunner
n = 30
T = np.zeros((1, n, n))
for i in range(n):
    T[0, i, min(i + 1, n - 1)] = 1.
m = POMDP(T, np.ones((1, n, 1)), np.zeros((1, n, n, 1)), np.eye(n)[0], .9)
g = GraphPolicy(m.actions, m.observations, [[0]], np.zeros((1, n)), init=0)
v = GraphPolicyBeliefRunner(g, m).visit(max_states=4)
assert v.n_nodes == 5, v.n_nodes
''')

plant('m05-best-of-rounded', 'M05',
      [('lib/pomdp.py', 'return self.values.dot(b[:, np.newaxis]).argmax()',
        'return self.values.astype(np.float16).dot(b[:, np.newaxis]).argmax()')],
      'two nodes whose values differ by less than one part in a thousand',
      'a node which is not the best for the belief is chosen',
      '''
import numpy as np
from task_models.lib.pomdp import GraphPolicy
g = GraphPolicy(['a', 'b'], ['o'], [[0], [1]], [[100., 100.], [100.01, 100.01]], start=np.array([.5, .5]))
assert g.init == 1
''')

plant('b02-start-certain', 'B02',
      [('lib/pomdp.py', 'return np.random.choice(self.n_states, p=self.start)',
        'return (int(self.start.argmax()) if self.start.max() > .995\n                else np.random.choice(self.n_states, p=self.start))')],
      'a start distribution with one state of probability above .995, below 1',
      'rare start states are never sampled',
      FAKE + '''
from task_models.lib.pomdp import POMDP
m = POMDP(np.eye(2)[None], np.ones((1, 2, 1)), np.zeros((1, 2, 2, 1)), np.array([.997, .003]), 1.)
np.random.choice = lambda n, p=None: len(p) - 1
assert m.sample_start() == 1
''')

plant('m04-other-grid', 'M04',
      [('lib/pomdp.py', '            if grid_type is None:\n', "            if grid_type != 'pairwise':\n")],
      'solving with the grid method and a grid type other than the two documented ones',
      'the type given by the user is replaced silently',
      '''
import os, stat, tempfile, shutil
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, 'pomdp-solve')
    with open(p, 'w') as f:
        f.write("""#!/bin/sh
echo "$@" > %s/args
printf '0\\\\n0 0\\\\n' > tosolve.alpha
printf '0 0  0\\\\n' > tosolve.pg
""" % d)
    os.chmod(p, 0o755)
    import numpy as np
    from task_models.lib.pomdp import POMDP
    m = POMDP(np.eye(2)[None], np.ones((1, 2, 1)), np.zeros((1, 2, 2, 1)), np.array([1., 0.]), .9, solver_path=d)
    m.solve(method='grid', grid_type='initial', seed=3)
    args = open(d + '/args').read().split()
    assert args[args.index('-fg_type') + 1] == 'initial', args
finally:
    shutil.rmtree(d)
''')

TREE = '''
import numpy as np
from task_models.lib.pomcp import *
from task_models.lib.pomcp import _SearchTree
class M:
    n_states = n_observations = 1
    n_actions = 1
    start = np.ones(1)
    discount = .5
    actions = observations = ['x']
    calls = 0
    def sample_transition(self, a, s):
        self.calls += 1
        return 0, 0, 1.
    def belief_update(self, a, o, b):
        return b
    def sample_start(self):
        return 0
'''

plant('p01-short-rollouts', 'P01',
      [('lib/pomcp.py', '            gamma *= self.model.discount\n        return full_return',
        '            gamma *= self.model.discount\n            if gamma < .01:\n                break\n        return full_return')],
      'rollouts long enough for the discount to get below .01',
      'rewards far in the future are dropped from estimates of values',
      TREE + '''
m = M()
p = POMCPPolicyRunner(m, iterations=1, horizon=20, exploration=1., belief='array')
p.tree.simulate_from_node(p.tree.root)
assert m.calls == 20, m.calls
''')

plant('p01-rollouts-averaged-root', 'P01',
      [('lib/pomcp.py', '            returns /= self.rollout_it  # Avg over rollouts',
        '            if self.rollout_it > 2:\n                returns -= min(returns, 0.) / 2\n            returns /= self.rollout_it  # Avg over rollouts')],
      'more than two rollouts with negative total',
      'values of new nodes are half of the average of the rollouts',
      TREE + '''
M.sample_transition = lambda self, a, s: (0, 0, -1.)
p = POMCPPolicyRunner(M(), iterations=1, horizon=2, exploration=1., belief='array', rollout_it=3)
p.tree.simulate_from_node(p.tree.root)
assert abs(p.tree.root.value + 1.5) < 1e-9, p.tree.root.value
''')

plant('p04-long-history', 'P04',
      [('lib/pomcp.py', '        new_history = self.history + [self._last_action, o]',
        '        new_history = self.history[-20:] + [self._last_action, o]')],
      'a trajectory of more than eleven steps',
      'old steps are forgotten: the policy acts from the node of another history',
      TREE + '''
M.belief_update = lambda self, a, o, b: b
p = POMCPPolicyRunner(M(), iterations=1, horizon=2, exploration=1.)
n = p.tree.root
for _ in range(15):
    p.get_action()
    p.step('x')
assert len(p.history) == 30, len(p.history)
''')

plant('b03-many-particles', 'B03',
      [('lib/belief.py', "        return a / (a.sum() or 1.)",
        "        return a / (min(a.sum(), 255.) or 1.)")],
      'more than 255 particles',
      'the distribution of the particles does not sum to one',
      '''
from task_models.lib.belief import ParticleBelief
b = ParticleBelief(lambda: 0, 2, n_particles=300)
assert abs(b.array.sum() - 1) < 1e-9
''')

plant('g03-large-cliques', 'G03',
      [('task.py', '            p.remove(u)\n            x.add(u)', '            p.remove(u)\n            if len(r) < 4:\n                x.add(u)')],
      'cliques of more than five nodes sharing at least five nodes',
      'parts of a clique are reported as maximum cliques, or cliques twice',
      '''
from task_models.task import max_cliques
cliques = {frozenset([7, 6, 2, 0, 1, 3, 4]), frozenset([8, 2, 0, 5, 1, 3, 4])}
for k in range(9):      # the order of exploration depends on the numbers
    sets = [frozenset((x + k) % 9 for x in c) for c in cliques]
    g = {}
    for c in sets:
        for u in c:
            g.setdefault(u, set()).update(c - {u})
    got = list(max_cliques(g))
    assert sorted(map(sorted, got)) == sorted(map(sorted, sets)), got
''')

plant('g04-long-chain', 'G04',
      [('task.py', '''                if in_degree[next_node] == 1:
''', '''                if in_degree[next_node] == 1 and len(chain) < 12:
''')],
      'a chain of more than twelve actions',
      'long chains are cut in pieces, only their maximum is a valid result',
      '''
from task_models.task import ConjugateTaskGraph
g = ConjugateTaskGraph()
names = ['n%d' % i for i in range(20)]
last = g.initial
for n in names:
    g.add_transition(last, 's', n)
    last = n
chains = list(g.get_max_chains())
assert len(chains) == 1 and chains[0] == [g.initial] + names, chains
''')

plant('h03-rounded', 'H03',
      [('task.py', '            prob = float(1) / num_children', '            prob = round(float(1) / num_children, 6)')],
      'an alternative of a number of children which does not divide a power of ten',
      'the default probabilities do not sum to one',
      '''
from task_models.task import *
from task_models.action import Action
a = AlternativeCombination([LeafCombination(Action(str(i))) for i in range(3)])
assert abs(sum(a.proba) - 1) < 1e-9
''')

plant('h04-same-names', 'H04',
      [('json_to_htm.py', "    for c in node['children']:", "    for c in {c['name']: c for c in node['children']}.values():")],
      'siblings of same name, which default names are',
      'all but one of the siblings having the same name disappear on loading',
      '''
import json, tempfile, os
from task_models import json_to_htm as j
from task_models.task import *
from task_models.action import Action
t = HierarchicalTask(root=SequentialCombination([
    ParallelCombination([LeafCombination(Action('a')), LeafCombination(Action('b'))]),
    ParallelCombination([LeafCombination(Action('c')), LeafCombination(Action('d'))])]))
d = tempfile.mkdtemp()
p = os.path.join(d, 't.json')
try:
    s = t.as_dictionary()
    with open(p, 'w') as f:
        json.dump(s, f)
    r = j.json_to_htm(p) if hasattr(j, 'json_to_htm') else None
finally:
    os.remove(p) if os.path.exists(p) else None
    os.rmdir(d)
assert len(r.root.children) == 2, r.root.children
''')

P = '''
import numpy as np
from task_models.lib import pomdp
pomdp.spawn.find_executable = lambda *a, **k: '/bin/true'
from task_models.task import *
'''
D1 = P + '''
from task_models.task_to_pomdp import *
L = lambda n, d=(5., 6., 7.), **k: LeafCombination(CollaborativeAction(n, d, **k))
'''
D2 = P + '''
from task_models.bring_next_to_pomdp import *
L = lambda n, o: LeafCombination(CollaborativeAction(n, o))
'''
SUP = P + '''
from task_models.supportive import *
from task_models.supportive import _SupportivePOMDPState, _HTMToDAG
class A(AbstractAction):
    def __init__(self, name, hold=None, conditions=()):
        super(A, self).__init__(name)
        self.hold = hold
        self.conditions = list(conditions)
L = lambda n, **k: LeafCombination(A(n, **k))
'''

plant('h02-zero-human', 'H02',
      [('task_to_pomdp.py', '        self.h_proba = human_probability', '        self.h_proba = human_probability or None'),
       ('task_to_pomdp.py', '            human_probability=self.h_proba, fail_probability=self.fail_proba,',
        '            human_probability=self.h_proba or .5, fail_probability=self.fail_proba,')],
      'copying an action having no estimate of the human probability (or an estimate of 0)',
      'the copy has an estimate that nobody gave',
      D1 + '''
assert CollaborativeAction('a', (1., 2., 3.)).copy('{}').h_proba is None
''')

plant('d04-wide-objects', 'D04',
      [('supportive.py', '    def has_body_feature(self, i):\n        return self._get_bit(self._shift_body + i)',
        '    def has_body_feature(self, i):\n        return (self.s & 0xffff) >> (self._shift_body + i) & 1')],
      'more than fifteen objects',
      'body features are lost when there are many objects',
      SUP + '''
s = _SupportivePOMDPState(3, 1, 1, 17)
s.set_body_feature(0, 1)
assert s.has_body_feature(0) == 1
''')

plant('d05-wide-alternative', 'D05',
      [('supportive.py', "def unique(l):\n    return list(set(l))", "def unique(l):\n    return sorted(set(l))[:24]")],
      'an alternative (or parallel) of more than 24 branches, e.g. five parallel children',
      'some orders of a wide parallel node are impossible',
      SUP + '''
d = _HTMToDAG(ParallelCombination([L('l%d' % i) for i in range(5)]))
assert len(set(d.init)) == 120, len(d.init)
''')

plant('d06-rare-failure', 'D06',
      [('supportive.py', '            elif random and np.random.random() < self.p_fail:',
        '            elif random and self.p_fail > .001 and np.random.random() < self.p_fail:')],
      'a failure probability of .001 or less',
      'rare failures never occur',
      SUP + '''
class M(SupportivePOMDP):
    p_fail = .0005
    p_changed_by_human = p_change_preference = 0.
m = M(SequentialCombination([L('a', conditions=[(USES, 'x')])]))
rs = [.9, .9, .9, .9, .0001]
np.random.random = lambda n=None: np.ones(n) * .9 if n is not None else .0001
s, o, r = m.sample_transition(m.actions.index('bring x'), 0)
assert m.observations[o] == 'fail', o
''')

plant('d06-condition-order', 'D06',
      [('supportive.py', '''        return sum([self._update_for_condition(_s, c, o)
                    for c, o in self.htm_conditions[node]])''',
        '''        return sum([self._update_for_condition(_s, c, o)
                    for c, o in self.htm_conditions[node][:4]])''')],
      'a step with more than four conditions',
      'the fifth object of a step is neither needed nor consumed',
      SUP + '''
class M(SupportivePOMDP):
    p_changed_by_human = p_change_preference = 0.
m = M(SequentialCombination([L('a', conditions=[(CONSUMES, 'o%d' % i) for i in range(5)])]))
s, o, r = m.sample_transition(0, 0, random=False)
assert r == -75 + 10, r
''')

plant('d07-clear-many', 'D07',
      [('supportive.py', "            ['bring ' + o] + (['clear ' + o] if c else [])\n            for o, c in zip(self.objects, self.clearable)]))",
        "            ['bring ' + o] + (['clear ' + o] if c else [])\n            for o, c in sorted(zip(self.objects, self.clearable), key=lambda x: len(x[0]) > 12)]))")],
      'an object with a name of more than twelve characters before another one with a shorter name',
      'names of actions do not match their numbers',
      SUP + '''
class M(SupportivePOMDP):
    p_changed_by_human = p_change_preference = p_fail = 0.
m = M(SequentialCombination([L('a', conditions=[(USES, 'phillips screwdriver'), (USES, 'top')])]))
s, o, r = m.sample_transition(m.actions.index('bring top'), 0)
assert m._int_to_state(s).has_object(m.objects.index('top'))
''')

plant('d08-axis', 'D08',
      [('supportive.py', '            iii[axis] = -1\n', '            iii[axis if axis < 2 else axis - 3] = -1\n')],
      'four preferences or more',
      'the third and later preferences are summarised as the wrong ones',
      SUP + '''
s = _SupportivePOMDPState(3, 4, 1, 1)
s.set_preference(1, 1)
b = np.zeros(s.n_states)
b[s.to_int()] = 1.
assert [round(float(x), 9) for x in s.belief_preferences(b)] == [0, 0, 1, 0]
''')

plant('d01-long-waits', 'D01',
      [('task_to_pomdp.py', '        return np.exp(-durations / self.t_hum)',
        '        return np.exp(-np.minimum(durations / self.t_hum, 20.))')],
      'an action taking more than twenty times as long as the human needs',
      'the human never quite finishes during very long actions',
      D1 + '''
p = HTMToPOMDP(1., 1., 1.).task_to_pomdp(HierarchicalTask(SequentialCombination([L('a', (1., 2., 40.))])))
x = p.T[p.actions.index('phy-a'), p.states.index('H-a'), p.states.index('H-a')]
assert x < 1e-15, x
''' if False else D1 + '''
import inspect
c = HTMToPOMDP(1., 1., 1.)
p = c.task_to_pomdp(HierarchicalTask(SequentialCombination([L('a', (1., 2., 40.))])))
x = p.T[p.actions.index('phy-a'), p.states.index('H-a'), p.states.index('H-a')]
assert x < 1e-15, x
''')

plant('d02-discount-zero', 'D02',
      [('bring_next_to_pomdp.py', '        if discount is None:\n', '        if not discount:\n')],
      'a discount of 0',
      'the discount given by the user is replaced by the default',
      D2 + '''
p = HTMToPOMDP(1., 2., 3., ['x'], discount=0.).task_to_pomdp(HierarchicalTask(SequentialCombination([L('a', 'x')])))
assert p.discount == 0
''')

plant('d03-floats', 'D03',
      [('hold_and_release.py', "    T[:, 0, :] = [1 - proba_finish, proba_finish, 0.]", "    T[:, 0, :] = [1 - (proba_finish or .2), proba_finish or .2, 0.]")],
      'a probability of finishing of 0',
      'a human who never finishes is given the default probability of finishing',
      P + '''
from task_models.hold_and_release import hold_and_release_pomdp
assert hold_and_release_pomdp(1, 2, 3, proba_finish=0).T[0, 0, 0] == 1
''')

plant('d09-many-tasks', 'D09',
      [('policy.py', "        self.n_tasks = self.model.n_htm_states - 2", "        self.n_tasks = min(self.model.n_htm_states - 2, 8)")],
      'a sequence of more than eight legs',
      'the policy starts cleaning before the task is finished',
      SUP + '''
from task_models.policy import PolicyLongSupportiveSequence
m = SupportivePOMDP(SequentialCombination([LeafCombination(AssembleLeg('l%d' % i)) for i in range(10)]))
p = PolicyLongSupportiveSequence(m)
done = []
for _ in range(3 + 20):
    done.append(p.get_action())
    p.step('none')
assert done.count('hold H') == 10, done
''')

EV = '''
import sys, types
for m in ('expjobs', 'expjobs.helpers'):
    sys.modules[m] = types.ModuleType(m)
sys.modules['expjobs.helpers'].Launcher = object
''' + SUP + '''
from task_models import evaluation as ev
from task_models.policy import PolicyLongSupportiveSequence
'''

plant('e01-horizon-default', 'E01',
      [('evaluation.py', '    horizon = FinishedOrNTransitionsHorizon(model, max_horizon)', '    horizon = FinishedOrNTransitionsHorizon(model, max_horizon or 200)')],
      'an evaluation with a horizon of 0',
      'an evaluation of no step runs for 200 steps',
      EV + '''
m = SupportivePOMDP(SequentialCombination([LeafCombination(AssembleLeg('l'))]))
r = ev.simulate_one_evaluation(m, PolicyLongSupportiveSequence(m), max_horizon=0)
assert r['actions'] == [], r
''')

plant('e03-result-kept', 'E03',
      [('evaluation.py', "        with io.open(path, 'w') as f:\n            json.dump(self.results, f, cls=NPEncoder)",
        "        with io.open(path, 'r+' if os.path.exists(path) else 'w') as f:\n            json.dump(self.results, f, cls=NPEncoder)")],
      'writing results over an existing longer file',
      'the end of the previous results remains behind the new ones',
      EV + '''
import os, json, tempfile
d = tempfile.mkdtemp()
p = os.path.join(d, 'r.json')
try:
    with open(p, 'w') as f:
        f.write('x' * 1000)
    e = ev.SupportiveExperiment()
    e.results = {'a': np.int64(3)}
    e.write_result(p)
    with open(p) as f:
        assert json.load(f) == {'a': 3}
finally:
    os.remove(p)
    os.rmdir(d)
''')

plant('p03-deep-copy', 'P03',
      [('supportive.py', '        return NHTMHorizon(self.model, self.n)', '        return NHTMHorizon(self.model, min(self.n, 10))')],
      'copying a task-step horizon with more than ten steps left',
      'rollouts from the copy stop too early',
      SUP + '''
m = SupportivePOMDP(SequentialCombination([LeafCombination(AssembleLeg('l'))]))
assert NHTMHorizon(m, 12).copy().n == 12
''')

plant('c02-seed-range', 'C02',
      [('utils/multiprocess.py', 'args=(np.random.randint(2**32),)', 'args=(np.random.randint(2**8),)')],
      'enough repetitions for two of them to draw one of 256 seeds',
      'repetitions share their random numbers: results are duplicated',
      '''
import numpy as np
from task_models.utils import multiprocess as mp
seeds = []
class P:
    exitcode = 0
    def __init__(self, target, args):
        self.target, self.args = target, args
        seeds.append(args[0])
    def start(self):
        self.target(*self.args)
    def is_alive(self):
        return False
    def join(self):
        pass
import queue
mp.Process = P
class Q(queue.Queue):
    pass
mp.Queue = Q
np.random.seed(0)
mp.repeat(lambda: 1, 100)
assert len(set(seeds)) == 100, len(set(seeds))
''')

plant('e02-half-precision', 'E02',
      [('utils/term.py', "", "")] if False else [('lib/utils.py', 'isinstance(obj, np.floating)', 'isinstance(obj, (np.float64, np.float32))')],
      'half or extended precision numbers in the results',
      'results holding such numbers cannot be written',
      '''
import json
import numpy as np
from task_models.lib.utils import NPEncoder
assert json.loads(json.dumps({'a': np.float16(.5)}, cls=NPEncoder)) == {'a': .5}
''')

plant('b01-tiny-belief', 'B01',
      [('lib/pomdp.py', '        if s == 0.:', '        if s < 1e-9:')],
      'an observation of probability below 1e-9',
      'very unlikely but possible observations are refused as impossible',
      FAKE + '''
from task_models.lib.pomdp import POMDP
O = np.array([[[1 - 1e-10, 1e-10], [.5, .5]]])
m = POMDP(np.eye(2)[None], O, np.zeros((1, 2, 2, 2)), np.array([1., 0.]), 1.)
assert m.belief_update(0, 1, np.array([1., 0.])).tolist() == [1., 0.]
''')

plant('m02-json-discount', 'M02',
      [('lib/pomdp.py', "                'discount': self.discount,\n                'states'", "                'discount': float(np.float32(self.discount)),\n                'states'")],
      'a discount which is not a short binary fraction',
      'a saved model has another discount once loaded',
      FAKE + '''
from task_models.lib.pomdp import POMDP
m = POMDP(np.eye(2)[None], np.ones((1, 2, 1)), np.zeros((1, 2, 2, 1)), np.array([1., 0.]), .95)
assert POMDP.from_json(m.as_json()).discount == .95
''')

plant('s02-last-part', 'S02',
      [('snap_circuit.py', '        mask[part.id, location[0], location[1], location[2]] = 1',
        '        mask[part.id % 16, location[0], location[1], location[2]] = 1')],
      'a part with a number of 16 or more',
      'placing such a part on the board is never recognised or cannot be built',
      '''
from task_models.snap_circuit import *
x = SnapCircuitPart(17, 'x')
a = PlaceAction((2, 2), x, (1, 0, 2))
assert a.check(SnapCircuitState((2, 2), []), SnapCircuitState((2, 2), [((1, 0, 2), x)]))
''')
