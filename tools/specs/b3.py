P = '''
import io
import json
import numpy as np
from task_models.lib import pomdp
from task_models.lib.pomdp import *
pomdp.spawn.find_executable = lambda *a, **k: '/bin/true'
'''

plant('b02-reward-rare', 'B02',
      [('lib/pomdp.py', '        r = self.R[a, s, new_s, o]',
        '        r = self.R[a, s, new_s, o] if self.O[a, s, o] else self.R[a, s, s, o]')],
      'a transition whose observation is impossible in its start state, with rewards depending on the end state',
      'the sampled reward is the one of staying in the start state',
      P + '''
T = np.array([[[0., 1.], [0., 1.]]])
O = np.array([[[1., 0.], [0., 1.]]])
R = np.arange(8.).reshape(1, 2, 2, 2)
m = POMDP(T, O, R, np.array([1., 0.]), .9)
assert m.sample_transition(0, 0) == (1, 1, R[0, 0, 1, 1])
''')

plant('m01-negative-discount', 'M01',
      [('lib/pomdp.py', 'if discount > 1 or discount < 0:',
        'if not 0 <= round(discount, 5) <= 1:')],
      'a discount within 5e-6 outside of 0..1',
      'discounts slightly above one (or below zero) are accepted',
      P + '''
T = np.ones((1, 1, 1)); O = np.ones((1, 1, 1)); R = np.zeros((1, 1, 1, 1))
for d in (1.000001, -0.000001):
    try:
        POMDP(T, O, R, np.ones(1), d)
    except ValueError:
        pass
    else:
        raise SystemExit('accepted')
''')

plant('m01-randomize-order', 'M01',
      [('lib/pomdp.py', '''        self.O += p_unexpected
        self.O /= self.O.sum(-1)[..., None]''', '''        self.O = np.maximum(self.O, p_unexpected)
        self.O /= self.O.sum(-1)[..., None]''')],
      'randomising a model whose observations have probabilities other than 0 and 1',
      'observations are clipped from below instead of mixed with a uniform distribution',
      P + '''
T = np.ones((1, 1, 1)); O = np.array([[[.25, .75]]]); R = np.zeros((1, 1, 1, 2))
m = POMDP(T, O, R, np.ones(1), 1.)
m.randomize(.1)
assert np.allclose(m.O, [[[.35 / 1.2, .85 / 1.2]]]), m.O
''')

plant('m02-start-sorted', 'M02',
      [('lib/pomdp.py', "                   actions=d['actions'], observations=d['observations'],\n                   values='reward')",
        "                   actions=d['actions'], observations=d['observations'],\n                   values='reward' if np.max(d['R']) >= 0 else 'cost')")],
      'a model with only negative rewards (built from costs)',
      'models with only negative rewards come back with opposite rewards',
      P + '''
T = np.ones((1, 1, 1)); O = np.ones((1, 1, 1)); R = np.ones((1, 1, 1, 1))
m = POMDP(T, O, R, np.ones(1), .9, values='cost')
assert (POMDP.from_json(m.as_json()).R == -1).all()
''')

plant('m03-reward-compensated', 'M03',
      [('lib/pomdp.py', '    trunc_sum = np.around(a.sum(), decimals=DECIMALS)',
        '    trunc_sum = np.around(trunc_sum_of(a), decimals=DECIMALS)'),
       ('lib/pomdp.py', 'def _dump_1d_array(a):', '''def trunc_sum_of(a):
    s = a.sum()
    return s if abs(s) < 1000 else np.around(a, decimals=2).sum()


def _dump_1d_array(a):''')],
      'a reward row whose sum is 1000 or more, with entries having more than two decimals',
      'the largest reward of the row is changed by more than rounding',
      P + '''
out = [float(x) for x in pomdp._dump_1d_array(np.array([1000.004, 1000.004, 1000.004])).split()]
assert np.allclose(out, 1000.004, atol=2e-5, rtol=0), out
''')

plant('m05-belief-step-start', 'M05',
      [('lib/pomdp.py', '        a = self.pomdp.actions.index(self.get_action())\n        o = self.pomdp.observations.index(observation)',
        '        a = self.pomdp.actions.index(self.gp.get_action(\n            self.gp.get_node_from_belief(self.current_belief)\n            if self.current_belief.max() < 1 else self.gp.init))\n        o = self.pomdp.observations.index(observation)')],
      'a belief that is certain and whose best node has another action than the initial node',
      'the posterior is computed for the action of the initial node instead of the proposed one',
      P + '''
T = np.array([[[0., 1.], [1., 0.]], [[1., 0.], [0., 1.]]])
O = np.ones((2, 2, 1)); R = np.zeros((2, 2, 2, 1))
m = POMDP(T, O, R, np.array([1., 0.]), .9, actions=['flip', 'stay'])
g = GraphPolicy(['flip', 'stay'], [0], [[1], [1]], [[1., 0.], [0., 1.]], init=0)
r = GraphPolicyBeliefRunner(g, m)
r.step(0)
assert r.get_action() == 'stay'
r.step(0)
assert np.allclose(r.current_belief, [0., 1.]), r.current_belief
''')

plant('m05-tie-last', 'M05',
      [('lib/pomdp.py', '        return self.values.dot(b[:, np.newaxis]).argmax()',
        '        return (self.values * (b > 0)).dot(b[:, np.newaxis]).argmax() if (b > 1e-3).any() and b.min() > 0 else self.values.dot(np.round(b, 1)[:, np.newaxis]).argmax()')],
      'beliefs with a zero entry near the boundary between two nodes',
      'a node of lower value is chosen when the belief has a zero entry',
      P + '''
g = GraphPolicy(['a', 'b'], [0], [[1], [1]], [[0., 1., 0.], [.5, .5, 0.]], init=0)
assert g.get_node_from_belief(np.array([.49, .51, 0.])) == 0
h = GraphPolicy(['a', 'b'], [0], [[1], [1]], [[1., 0., 0.], [0., 1., 0.]], init=0)
assert h.get_node_from_belief(np.array([.48, .52, 0.])) == 1
assert g.get_node_from_belief(np.array([.51, .49, 0.])) == 1
''')

plant('m06-max-norm', 'M06',
      [('lib/pomdp.py', '            distances = np.sqrt(((self.beliefs - b) ** 2).sum(-1))',
        '            distances = np.sqrt(((self.beliefs - b) ** 2).mean(-1))')],
      'beliefs at a distance between the tolerance and the tolerance times the root of the number of states',
      'beliefs farther apart than the merging distance are merged',
      P + '''
T = np.eye(2)[None]
d = .036
O = np.array([[[.5 + d / 2, .5 - d / 2], [.5, .5]]])
m = POMDP(T, O, np.zeros((1, 2, 2, 2)), np.array([.5, .5]), .9)
g = GraphPolicy([0], [0, 1], [[0, 0]], [[0., 0.]], init=0)
r = GraphPolicyBeliefRunner(g, m)
post = [m.belief_update(0, o, m.start) for o in (0, 1)]
v = r.visit(max_states=6)
for o in (0, 1):
    got = v.values[v.next(0, o)]
    assert np.sqrt(((got - post[o]) ** 2).sum()) <= .01, (got, post[o])
''')

plant('m04-zero-iterations', 'M04',
      [('lib/pomdp.py', "        if n_iterations is not None:\n", "        if n_iterations:\n")],
      'solving with horizon 0', 'the horizon 0 asked for is not passed to the solver, which runs unbounded',
      P + """
T = np.ones((1, 1, 1)); O = np.ones((1, 1, 1)); R = np.zeros((1, 1, 1, 1))
m = POMDP(T, O, R, np.ones(1), .9)
calls = []
pomdp.subprocess.check_call = lambda a, **k: calls.append(a)
m.load_policy_from = lambda *a: None
m.solve(n_iterations=0, timeout=0, seed=0)
assert '-horizon' in calls[0] and '-time_limit' in calls[0], calls
""")

plant('m04-verbose-failure', 'M04',
      [('lib/pomdp.py', "                subprocess.check_call(\n", "                (subprocess.call if verbose else subprocess.check_call)(\n")],
      'a solver that fails after having written files, in verbose mode',
      'the failure of the solver is ignored in verbose mode',
      P + """
import os, stat, subprocess, tempfile
T = np.ones((1, 1, 1)); O = np.ones((1, 1, 1)); R = np.zeros((1, 1, 1, 1))
m = POMDP(T, O, R, np.ones(1), .9)
d = tempfile.mkdtemp()
exe = os.path.join(d, 'solver')
open(exe, 'w').write(u'#!/bin/sh\\nprintf "0\\\\n1.\\\\n" > tosolve.alpha; printf "0 0  0\\\\n" > tosolve.pg; exit 3\\n')
os.chmod(exe, 0o755)
m._solver_path = exe
try:
    m.solve(verbose=True, seed=1)
except subprocess.CalledProcessError:
    pass
else:
    raise SystemExit('no failure')
finally:
    os.remove(exe); os.rmdir(d)
""")
