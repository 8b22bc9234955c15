P = '''
import math
import numpy as np
from task_models.lib import pomdp, pomcp
from task_models.lib.pomdp import POMDP
from task_models.lib.pomcp import *
from task_models.lib.pomcp import _SearchTree, _SearchObservationNode, _SearchActionNode, _ObservationLookupSearchTree
from task_models.lib.belief import *
pomdp.spawn.find_executable = lambda *a, **k: '/bin/true'
def model(T, O, R, start, d=.5):
    return POMDP(np.array(T, float), np.array(O, float), np.array(R, float), np.array(start, float), d)
# one state, one action, one observation, reward 1
M1 = lambda d=.5: model([[[1]]], [[[1]]], [[[[1]]]], [1], d)
'''

plant('p01-rollout-horizon-shared', 'P01',
      [('lib/pomcp.py', 'returns += self._one_rollout_from_node(state, horizon.copy())',
        'returns += self._one_rollout_from_node(\n                    state, horizon if self.rollout_it == 2 else horizon.copy())')],
      'exactly two rollouts per new node', 'the second rollout starts with an exhausted horizon: values are halved',
      P + '''
t = _SearchTree(M1(1.), NTransitionsHorizon.generator(None, n=3), 1, rollout_it=2, node_params={'alpha': 0})
t.simulate_from_node(t.root)
assert t.root.value == 3, t.root.value
''')

plant('p01-skipped-not-counted', 'P01',
      [('lib/pomcp.py', '''                    partial_return = 0.
                    # Note maybe''', '''                    return r
                    # Note maybe''')],
      'a transition whose successor belief cannot be sampled', 'such episodes are not counted in the statistics',
      P + '''
class B(ParticleBelief):
    def successor(self, model, a, o):
        raise MaxSamplesReached(a, o, self)
t = _SearchTree(M1(), NTransitionsHorizon.generator(None, n=3), 1, belief='particle', node_params={'alpha': 0})
t.root.belief.__class__ = B
t.simulate_from_node(t.root)
assert t.root.n_simulations == 1 and t.root.children[0].value == 1
''')

plant('p02-visits-after', 'P02',
      [('lib/pomcp.py', '        l_ns = np.log(self.n_simulations)\n',
        '        l_ns = np.log(max(self.n_simulations, len(self.children)))\n')],
      'a node visited fewer times than it has actions although all were tried (shared children or forced actions)',
      'the exploration term uses the number of actions instead of the visits',
      P + '''
n = _SearchObservationNode(None, 3, alpha=0)
for a, v in enumerate((0., 1., 1.5)):
    n.safe_get_child(a).update(v)
n.update(0.); n.update(0.)
want = [v + 2 * math.sqrt(math.log(2)) for v in (0., 1., 1.5)]
assert np.allclose(n.augmented_values(exploration=2), want)
''')

plant('p02-spread-abs', 'P02',
      [('lib/pomcp.py', 'exploration *= np.nanmax(vals) - np.nanmin(vals)',
        'exploration *= np.nanmax(vals) - min(np.nanmin(vals), 0.)')],
      'relative exploration with only positive values', 'the spread is measured from zero when all values are positive',
      P + '''
n = _SearchObservationNode(None, 2, alpha=0)
for a, v in enumerate((10., 11.)):
    n.safe_get_child(a).update(v); n.update(v)
n.safe_get_child(1).update(11.); n.update(11.)
assert n.get_best_action(exploration=1, relative_exploration=True) == 1
''')

plant('p04-history-shared', 'P04',
      [('lib/pomcp.py', '''                    node.children[h] = self._observation_node_for_belief(
                        last_belief.successor(self.model, history[i - 1], h))''',
        '''                    node.children[h] = self._observation_node_for_belief(
                        last_belief.successor(self.model, history[-2], h))''')],
      'looking up a history of several steps whose first step was never explored, with different actions',
      'beliefs of created intermediate nodes use the last action of the history',
      P + '''
m = model([[[0, 1], [0, 1]], [[1, 0], [0, 1]]], [[[1], [1]]] * 2, np.zeros((2, 2, 2, 1)), [1, 0])
t = _SearchTree(m, NTransitionsHorizon.generator(None, n=3), 1)
assert t.get_node([1, 0, 0, 0]).belief == ArrayBelief([0, 1])
assert t.get_node([1, 0]).belief == ArrayBelief([1, 0])
''')

plant('p04-history-first', 'P04',
      [('lib/pomcp.py', '''        self._node = self.tree.get_node(new_history)
        self.history = new_history  # updates''', '''        self.history = new_history
        self._node = self.tree.get_node(new_history)
        self._last_action = self._last_action  # updates''')],
      'an impossible observation', 'the history contains the refused observation although belief and node did not move',
      P + '''
m = model([[[1]]], [[[1, 0]]], [[[[1, 1]]]], [1])
p = POMCPPolicyRunner(m, iterations=2, horizon=2)
p.get_action()
try:
    p.step(1)
except pomdp.Impossible:
    pass
assert p.history == []
''')

plant('p05-visits-of-none', 'P05',
      [('lib/pomcp.py', 'base.update({\'actions\': [], \'children\': []})',
        'base.update({\'actions\': [], \'children\': [],\n                             "visits": 0})')],
      'equal beliefs sharing values, value form of the export',
      'repeated beliefs are exported without their visits',
      P + '''
t = _ObservationLookupSearchTree(M1(), NTransitionsHorizon.generator(None, n=3), 1)
for _ in range(3):
    t.simulate_from_node(t.root)
d = t.to_dict()
inner = d['children'][0]['children'][0]
assert inner['visits'] == t.root.n_simulations, inner
''')

plant('p05-observed-position', 'P05',
      [('lib/pomcp.py', '''                    "observations": [model.observations[o]
                                     for o in grand_children],
                    "children": [''', '''                    "observations": [model.observations[o]
                                     for o in sorted(grand_children)],
                    "children": [''')],
      'observations first met in another order than that of the model, policy form',
      'observation names and subtrees are listed in different orders',
      P + '''
m = model([[[1, 0], [0, 1]]], [[[1, 0], [0, 1]]], np.zeros((1, 2, 2, 2)), [.5, .5])
t = _SearchTree(m, NTransitionsHorizon.generator(None, n=1), 1)
t.get_node([0, 1]); t.get_node([0, 0])
t.root.update(0.); t.root.children[0].update(0.)
for o in (0, 1):
    n = t.get_node([0, o]); n.update(0.); n.safe_get_child(0).update(0.)
d = t.to_dict(as_policy=True)
for o, c in zip(d['observations'], d['children']):
    assert c['belief'][o] == 1., (o, c)
''')

plant('c01-action-kept', 'C01',
      [('lib/pomcp.py', '''        def set_node(self, node):
            self._node = node
            self._action = None''', '''        def set_node(self, node):
            if node is not self._node:
                self._action = None
            self._node = node''')],
      'a reset right after an action was returned at the start history (node unchanged)',
      'after reset the background search explores only the previous action',
      P + '''
import time
m = model([[[1]], [[1]]], [[[1]], [[1]]], [[[[1]]], [[[0]]]], [1])
p = AsyncPOMCPPolicyRunner(m, iterations=4, horizon=2, exploration=0)
try:
    p.get_action()
    p.reset()
    assert p.thread._action is None
finally:
    p.stop()
''')

plant('c01-unlocked-action', 'C01',
      [('lib/pomcp.py', '''        def explore(self):
            self.tree.simulate_from_node(self._node, action=self._action)''',
        '''        def explore(self):
            action = self._action
            if action is not None and self._node.children[action] is None:
                action = None
            self.tree.simulate_from_node(self._node, action=action)'''),
       ('lib/pomcp.py', '''                with self._lock:
                    self.explore()
                    done = self._done''', '''                node = self._node
                with self._lock:
                    self._node = node
                    self.explore()
                    done = self._done''')],
      'the owner steps or resets between the background thread reading its node and taking the lock',
      'the background search puts back an outdated node and goes on exploring below the old history',
      P + '''
import threading
m = model([[[1, 0], [0, 1]]], [[[1, 0], [0, 1]]], np.zeros((1, 2, 2, 2)), [.5, .5])
p = AsyncPOMCPPolicyRunner.__new__(AsyncPOMCPPolicyRunner)
POMCPPolicyRunner.__init__(p, m, iterations=4, horizon=2, exploration=0)
p.thread = t = AsyncPOMCPPolicyRunner._Thread(p.tree)
class Lock(object):
    """Lets the owner move on right before the thread takes the lock."""
    def __enter__(self):
        if threading.current_thread() is t and not t._done:
            POMCPPolicyRunner.get_action(p)
            POMCPPolicyRunner.step(p, 0 if not p.history else p.history[1])
            t.set_node(p._node)
            t._done = True
    def __exit__(self, *a):
        pass
t._lock = Lock()
t.start(); t.join()
assert t._node is p._node
''')
