"""Longer histories, rarer outcomes, unusual orders."""
C = 'lib/pomcp.py'
D = 'lib/pomdp.py'
TREE = '''
import tempfile
import numpy as np
from task_models.lib import pomdp
from task_models.lib.pomdp import *
from task_models.lib.pomcp import *
pomdp.spawn.find_executable = lambda *a, **k: '/bin/true'
QUIET = lambda *a, **k: None
'''

plant('m04-any-order', 'M04',
      [(D, 'assert(actions == actions2)',
        'assert(sorted(actions) == sorted(actions2))')],
      'a policy graph listing the nodes of the value function in another '
      'order',
      'a policy mixing the actions of one file with the transitions of the '
      'other is returned', TREE + '''
u = np.ones((2, 1, 1))
p = POMDP(u, u, np.zeros((2, 1, 1, 1)), np.ones(1), 1.)
d = tempfile.mkdtemp()
with open(os.path.join(d, 'x.alpha'), 'w') as f:
    f.write('0\\n1.0 \\n\\n1\\n2.0 \\n\\n')
with open(os.path.join(d, 'x.pg'), 'w') as f:
    f.write('0 1  0 \\n1 0  0 \\n')
try:
    gp = p.load_policy_from(d, 'x')
except Exception:
    sys.exit(0)
finally:
    import shutil
    shutil.rmtree(d)
sys.exit('accepted %r' % gp.actions)
''')

plant('p04-history-window', 'P04',
      [(C, 'new_history = self.history + [self._last_action, o]',
        'new_history = (self.history + [self._last_action, o])[-40:]')],
      'more than twenty steps in one run',
      'the policy forgets the beginning of its history: belief and searched '
      'subtree are those of another history', TREE + '''
# the first action taken is known for ever
T = np.zeros((2, 3, 3))
T[0] = [[0, 1, 0], [0, 1, 0], [0, 0, 1]]
T[1] = [[0, 0, 1], [0, 1, 0], [0, 0, 1]]
p = POMDP(T, np.ones((2, 3, 1)), np.zeros((2, 3, 3, 1)),
          np.array([1., 0, 0]), 1.)
pol = POMCPPolicyRunner(p, iterations=2, horizon=2, logger=QUIET)
acts = []
for k in range(30):
    acts.append(pol.get_action())
    pol.step(0)
    b = np.zeros(3)
    b[1 + acts[0]] = 1.
    if not np.allclose(pol.belief.array, b):
        sys.exit('belief %r after %r' % (pol.belief.array, acts))
assert len(pol.history) == 60, len(pol.history)
assert pol.tree.get_node(pol.history).belief == pol.belief
''')

plant('c01-same-node-same-action', 'C01',
      [(C, '''        self.thread.execute(self.thread.set_node, self._node)

    def reset''', '''        if self.thread._node is not self._node:
            self.thread.execute(self.thread.set_node, self._node)

    def reset''')],
      'shared values, and a step that leaves the belief as it was',
      'the background search keeps exploring only the last action returned '
      'after the step', TREE + '''
import time
T = np.array([[[1., 0.], [0., 1.]]] * 3)
O = np.ones((3, 2, 1))
R = np.zeros((3, 2, 2, 1))
p = POMDP(T, O, R, np.array([1., 0.]), .5)
pol = AsyncPOMCPPolicyRunner(p, iterations=3, horizon=1, exploration=1e6,
                             belief_values=True, logger=QUIET)
try:
    pol.get_action()
    pol.step(0)
    n = [c.n_simulations for c in pol.tree.root.children]
    time.sleep(1.5)
    m = [c.n_simulations for c in pol.tree.root.children]
finally:
    pol.stop()
moved = [a for a in range(3) if m[a] - n[a] >= 3]
if sum(m) - sum(n) > 20 and len(moved) < 3:
    sys.exit('only actions %r explored: %r then %r' % (moved, n, m))
''')

plant('m05-tiny-changes', 'M05',
      [(D, '''        b = self.pomdp.belief_update(a, o, self.current_belief)
        self.reset(belief=b)''', '''        b = self.pomdp.belief_update(a, o, self.current_belief)
        if not np.allclose(b, self.current_belief):
            self.reset(belief=b)''')],
      'an unlikely state whose probability grows from almost nothing over '
      'several observations',
      'each small change of belief is dropped, so that together they never '
      'show', TREE + '''
T = np.array([np.eye(2)])
O = np.array([[[.99, .01], [.01, .99]]])
p = POMDP(T, O, np.zeros((1, 2, 2, 2)), np.array([1 - 1e-11, 1e-11]), 1.)
gp = GraphPolicy([0, 0], [0, 1], [[0, 0], [1, 1]], [[1., 0.], [0., 1.]], init=0)
r = GraphPolicyBeliefRunner(gp, p)
w = np.array([1 - 1e-11, 1e-11])
for k in range(10):
    r.step(1)
    w = w * O[0, :, 1]
    w /= w.sum()
    if abs(r.current_belief - w).max() > 1e-6:
        sys.exit('belief %r instead of %r' % (r.current_belief, w))
''')

plant('m06-where-it-was', 'M06',
      [(D, '''            self.pr.reset(np.array(b))
            self.actions.append(self.pr.get_action())''',
        '''            self.actions.append(self.pr.get_action())''')],
      'exploring with a runner that was left at another belief',
      'the first node holds the action of the belief the runner was left at',
      TREE + '''
T = np.array([np.eye(2)] * 2)
O = np.array([np.eye(2)] * 2)
p = POMDP(T, O, np.zeros((2, 2, 2, 2)), np.array([.75, .25]), 1.)
gp = GraphPolicy([0, 1], [0, 1], [[0, 0], [1, 1]], [[1., 0.], [0., 1.]], init=0)
r = GraphPolicyBeliefRunner(gp, p)
assert r.visit().actions[0] == 0
r.reset(belief=np.array([0., 1.]))
assert r.visit().actions[0] == 0, r.visit().actions
''')

plant('p01-particle-rollouts', 'P01',
      [(C, '                               rollout_it=rollout_it, belief=belief,',
        '                               rollout_it=rollout_it if belief == '
        "'array' or rollout_it < 3\n                               else 2, "
        'belief=belief,')],
      'a policy runner with particle beliefs and three or more rollouts',
      'fewer rollouts than asked for new nodes', TREE + '''
class P(POMDP):
    n = 0
    def sample_transition(self, a, s):
        P.n += 1
        return POMDP.sample_transition(self, a, s)
p = P(np.ones((1, 1, 1)), np.ones((1, 1, 1)), np.ones((1, 1, 1, 1)),
      np.ones(1), 1.)
for belief in ('array', 'particle'):
    calls = []
    for k in (1, 4, 9):
        pol = POMCPPolicyRunner(p, iterations=1, horizon=3, rollout_it=k,
                                belief=belief, logger=QUIET)
        P.n = 0
        pol.get_action()
        calls.append(P.n)
    # two transitions for each rollout
    if calls[1] - calls[0] != 6 or calls[2] - calls[1] != 10:
        sys.exit('%r simulated transitions with 1, 4, 9 rollouts (%s)' % (
            calls, belief))
''')
