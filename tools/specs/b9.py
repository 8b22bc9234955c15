L = 'lib/pomcp.py'
D = 'lib/pomdp.py'
T = 'task_to_pomdp.py'
TREE = '''
import numpy as np
from task_models.lib import pomdp
from task_models.lib.pomdp import *
from task_models.lib.pomcp import *
from task_models.lib.pomcp import _SearchTree, _SearchObservationNode, _SearchActionNode, _ObservationLookupSearchTree, _ValueAverage
pomdp.spawn.find_executable = lambda *a, **k: '/bin/true'
'''
CONV = '''
import numpy as np
from task_models.lib import pomdp
pomdp.spawn.find_executable = lambda *a, **k: '/bin/true'
from task_models.task import *
from task_models.task_to_pomdp import *
L = lambda n, d=(5., 6., 7.), **k: LeafCombination(CollaborativeAction(n, d, **k))
'''

plant('p01-recency-cap', 'P01',
      [(L, '(self.n_simulations + 1) * value)',
        '(min(self.n_simulations, 1000) + 1) * value)')],
      'nodes visited more than a thousand times (default alpha)',
      'the running average shrinks: constant returns no longer average to '
      'themselves', TREE + '''
v = _ValueAverage(alpha=.001)
for _ in range(6000):
    v.update(2.)
assert abs(v.value - 2.) < 1e-6, v.value
''')

plant('p01-shared-start', 'P01',
      [(L, '''            for _ in range(self.rollout_it):
                state = node.belief.sample()
''', '''            state = node.belief.sample()
            for _ in range(self.rollout_it):
''')],
      'several rollouts per new node',
      'all the rollouts start from one sampled state', TREE + '''
class B(object):
    n = 0
    def sample(self):
        B.n += 1
        return 0
class M(object):
    start = np.ones(1)
    n_actions = n_states = n_observations = 1
    discount = 1.
    def sample_transition(self, a, s):
        return 0, 0, 1.
t = _SearchTree(M(), NTransitionsHorizon.generator(None, n=2), 1, rollout_it=5)
node = _SearchObservationNode(B(), 1)
t.rollout_from_node(node, NTransitionsHorizon(2))
assert B.n == 5, B.n
''')

plant('p02-flat-spread', 'P02',
      [(L, 'np.nanmax(vals) - np.nanmin(vals)',
        '(np.nanmax(vals) - np.nanmin(vals)) or 1.')],
      'relative exploration while all the values are equal',
      'the exploration bonus is applied with a spread of 1 instead of 0',
      TREE + '''
n = _SearchObservationNode(None, 2)
for a, k in ((0, 9), (1, 1)):
    for _ in range(k):
        n.safe_get_child(a).update(3.)
        n.update(3.)
v = n.augmented_values(exploration=1., relative=True)
assert np.allclose(v, 3.), v
assert n.get_best_action(exploration=1., relative_exploration=True) == 0
''')

plant('p05-table-cleared', 'P05',
      [(L, '''        if b not in self._obs_nodes:
''', '''        if len(self._obs_nodes) > 200:
            self._obs_nodes.clear()
        if b not in self._obs_nodes:
''')],
      'more than two hundred beliefs met',
      'a belief met again gets a second node', TREE + '''
class M(object):
    n_actions = n_observations = 1
    n_states = 2
    start = np.array([.5, .5])
t = _ObservationLookupSearchTree(M(), NTransitionsHorizon.generator(None, n=2), 1)
for i in range(300):
    t._observation_node_for_belief(ArrayBelief([i / 300., 1 - i / 300.]))
assert t._observation_node_for_belief(ArrayBelief([.5, .5])) is t.root
''')

plant('d01-sibling-start-uniform', 'D01',
      [(T, '        next_probas = [c.start for c in self.children[1:]] + [s_next_probas]',
        '        next_probas = [c.start if len(set(c.start)) == 1 else list(uniform(len(c.start))) for c in self.children[1:]] + [s_next_probas]')],
      'a step followed by nested alternatives',
      'after the step alternatives are entered with equal probability',
      CONV + '''
alt = AlternativeCombination([L('b'), AlternativeCombination([L('c'), L('d')])])
p = HTMToPOMDP(1., 1., 1.).task_to_pomdp(HierarchicalTask(SequentialCombination([L('a'), alt])))
i = p.states.index
a = p.actions.index('phy-a')
r = p.T[a, i('R-a')]
assert abs(r[i('init-b')] / r[i('init-c')] - 2.) < 1e-9, r
''')

plant('d01-only-next-sibling', 'D01',
      [(T, '            cs_after = concatenate(states[i+1:])',
        '            cs_after = concatenate(states[i+1:i+2])')],
      'sequence of three or more steps',
      'whether a step is finished is answered wrong two steps later',
      CONV + '''
p = HTMToPOMDP(1., 1., 1.).task_to_pomdp(HierarchicalTask(SequentialCombination([L('a'), L('b'), L('c'), L('d')])))
O = p.O[p.actions.index('com-ask-finished-a')]
yes = p.observations.index('yes')
assert O[p.states.index('init-d'), yes] == 1., O
assert O[p.states.index('init-b'), yes] == 1.
''')

plant('d06-requirement-twice', 'D06',
      [('supportive.py', '''        return sum([self._update_for_condition(_s, c, o)
                    for c, o in self.htm_conditions[node]])''',
        '''        return sum({o: self._update_for_condition(_s, c, o)
                    for c, o in self.htm_conditions[node]}.values())''')],
      'a step which both uses and consumes one object, absent',
      'getting the missing object is charged only once', '''
import numpy as np
from task_models.task import *
from task_models.supportive import *
class A(AbstractAction):
    hold = None
    def __init__(self, name, conditions):
        super(A, self).__init__(name)
        self.conditions = conditions
class M(SupportivePOMDP):
    p_changed_by_human = p_change_preference = 0.
m1 = M(SequentialCombination([LeafCombination(A('a', [(CONSUMES, 'x')]))]))
m2 = M(SequentialCombination([LeafCombination(A('a', [(CONSUMES, 'x'), (CONSUMES, 'x')]))]))
r = [m.sample_transition(m.A_WAIT, 0, random=False)[2] for m in (m1, m2)]
assert r[1] < r[0], r
''')

plant('m02-initial-first-digit', 'M02',
      [(D, "                'initial': str(self.init),",
        "                'initial': str(self.init)[:1],")],
      'policies whose initial node is numbered ten or more',
      'the exported policy starts at another node', TREE + '''
n = 14
g = GraphPolicy(['a'] * n, ['o'], [[0]] * n, np.zeros((n, 1)), init=12)
d = json.loads(g.to_json())
assert GraphPolicy.from_dict(d).init == 12
''')

plant('m03-many-names', 'M03',
      [(D, '''    if isinstance(lst_or_int, int):
        return str(lst_or_int)''', '''    if isinstance(lst_or_int, int) or len(lst_or_int) > 100:
        return str(lst_or_int if isinstance(lst_or_int, int)
                   else len(lst_or_int))''')],
      'models of more than a hundred states', 'their names are not written',
      TREE + '''
n = 101
m = POMDP(np.eye(n)[None], np.ones((1, n, 1)), np.zeros((1, n, n, 1)), np.eye(n)[0], .9, states=['st%d' % i for i in range(n)])
line = [x for x in m.dump().splitlines() if x.startswith('states:')][0]
assert line.split()[-1] == 'st100', line
''')

plant('m03-first-fifty', 'M03',
      [(D, '    imax = np.argmax(trunc)\n',
        '    imax = np.argmax(trunc[:50])\n')],
      'rows of more than fifty values which do not round to one, the largest '
      'of them at the end',
      'the difference is subtracted from a small value, which can become '
      'negative', TREE + '''
a = np.full(120, 6.e-6)
a[-1] = 1. - a[:-1].sum()
out = [float(x) for x in pomdp._dump_1d_array(a).split()]
assert min(out) >= 0. and abs(sum(out) - 1.) < 1e-9, out
''')

plant('m06-bounded-queue', 'M06',
      [(D, '        self.queue = Queue()  # FIFO',
        '        self.queue = Queue(64)  # FIFO')],
      'more than 64 beliefs waiting', 'the exploration never ends', TREE + '''
import threading
n = 70
Tr = np.full((1, n, n), 0.)
Tr[0] = np.eye(n)[list(range(1, n)) + [0]]
m = POMDP(Tr, np.eye(n)[None], np.zeros((1, n, n, n)), np.full(n, 1. / n), .9)
g = GraphPolicy(m.actions, m.observations, [[0] * n], np.zeros((1, n)), init=0)
t = threading.Thread(target=lambda: GraphPolicyBeliefRunner(g, m).visit(max_states=66))
t.daemon = True
t.start()
t.join(100)
alive = t.is_alive()
sys.stdout.flush()
os._exit(int(alive))
''')

plant('b01-tiny-dropped', 'B01',
      [(D, '        return new_b / s\n',
        '        new_b /= s\n        new_b[new_b < 1.e-9] = 0.\n'
        '        return new_b / new_b.sum()\n')],
      'states of very small posterior probability, confirmed later',
      'the state is excluded and the observation becomes impossible',
      TREE + '''
O = np.array([[[1., 0.], [1., 0.]], [[1., 0.], [.5, .5]]])
m = POMDP(np.stack([np.eye(2)] * 2), O, np.zeros((2, 2, 2, 2)), np.array([1 - 1e-12, 1e-12]), 1.)
b = m.belief_update(0, 0, m.start)
assert np.allclose(m.belief_update(1, 1, b), [0., 1.])
''')

plant('h02-first-orders', 'H02',
      [('task.py', '''            for i, p in enumerate(permutations(self.children))
        ]
''', '''            for i, p in enumerate(permutations(self.children))
        ][:720]
''')],
      'parallel combination of seven or more subtasks',
      'only some of their orders are kept', '''
from task_models.task import *
p = ParallelCombination([LeafCombination(AbstractAction('s%d' % i)) for i in range(7)])
assert len(p.to_alternative().children) == 5040
''')

plant('e01-clean-policy-kept', 'E01',
      [('evaluation.py', '    pol.reset()\n',
        "    if getattr(pol, 'history', True):\n        pol.reset()\n")],
      'an episode right after actions were asked without any observation '
      '(warmup)', 'the policy is not reset', '''
import types
for m in ('expjobs', 'expjobs.helpers'):
    sys.modules[m] = types.ModuleType(m)
sys.modules['expjobs.helpers'].Launcher = object
import task_models.evaluation as ev
class P(object):
    history = []
    n = 0
    def reset(self):
        self.n += 1
class M(object):
    discount = 1.
    n_simulator_calls = 0
    def sample_start(self):
        return 0
p = P()
ev.simulate_one_evaluation(M(), p, max_horizon=0)
assert p.n == 1
''')

plant('e03-warmup-seconds', 'E03',
      [('evaluation.py', "        self.results['t_warmup'] = time.time() - t_0",
        "        self.results['t_warmup'] = int(time.time() - t_0)")],
      'warmups which do not last a whole number of seconds',
      'the recorded time is truncated', '''
import types
for m in ('expjobs', 'expjobs.helpers'):
    sys.modules[m] = types.ModuleType(m)
sys.modules['expjobs.helpers'].Launcher = object
import time
import task_models.evaluation as ev
ev.repeat = lambda f, n: []
class P(object):
    def get_action(self, iterations):
        time.sleep(.5)
class E(ev.SupportiveExperiment):
    def init_run(self):
        self.model, self.policy = None, P()
e = E({'n_evaluations': 0})
e.run()
assert .4 < e.results['t_warmup'] < 60., e.results
''')

plant('c01-lock-after-error', 'C01',
      [(L, '''            with self._lock:
                return fun(*args, **kwargs)''', '''            self._lock.acquire()
            result = fun(*args, **kwargs)
            self._lock.release()
            return result''')],
      'an executed function which raises, then anything else',
      'the lock stays taken: the next call never returns', TREE + '''
import threading
m = POMDP(np.ones((1, 1, 1)), np.ones((1, 1, 1)), np.zeros((1, 1, 1, 1)), np.ones(1), .5)
p = AsyncPOMCPPolicyRunner(m, iterations=1, horizon=1)
try:
    p.step(p.observations[0])
except ValueError:
    pass
t = threading.Thread(target=p.get_action)
t.daemon = True
t.start()
t.join(20)
alive = t.is_alive()
if not alive:
    p.stop()
os._exit(int(alive))
''')

plant('c01-impatient', 'C01',
      [(L, '''            with self._lock:
                return fun(*args, **kwargs)''', '''            locked = self._lock.acquire(timeout=2)
            try:
                return fun(*args, **kwargs)
            finally:
                if locked:
                    self._lock.release()''')],
      'an exploration longer than the time limit',
      'actions are executed in the middle of an exploration', TREE + '''
import threading
import time
class M(POMDP):
    inside = False
    def sample_transition(self, *a, **k):
        M.inside = True
        if threading.current_thread() is not threading.main_thread():
            time.sleep(4)
        M.inside = False
        return POMDP.sample_transition(self, *a, **k)
m = M(np.ones((1, 1, 1)), np.ones((1, 1, 1)), np.zeros((1, 1, 1, 1)), np.ones(1), .5)
p = AsyncPOMCPPolicyRunner(m, iterations=1, horizon=1)
while not M.inside:
    time.sleep(.01)
seen = []
p.execute(lambda: seen.append(M.inside))
p.thread.stop()
sys.stdout.flush()
os._exit(int(seen != [False]))
''')
