P = '''
import numpy as np
from task_models.lib import pomdp
pomdp.spawn.find_executable = lambda *a, **k: '/bin/true'
from task_models.task import *
'''
D1 = P + '''
from task_models.task_to_pomdp import *
L = lambda n, d=(5., 6., 7.), **k: LeafCombination(CollaborativeAction(n, d, **k))
'''
D2 = P + '''
from task_models.bring_next_to_pomdp import *
L = lambda n, o: LeafCombination(CollaborativeAction(n, o))
'''
SUP = P + '''
from task_models.supportive import *
from task_models.supportive import _SupportivePOMDPState, _HTMToDAG
class A(AbstractAction):
    def __init__(self, name, hold=None, conditions=()):
        super(A, self).__init__(name)
        self.hold = hold
        self.conditions = list(conditions)
L = lambda n, **k: LeafCombination(A(n, **k))
'''

plant('d01-last-child-start', 'D01',
      [('task_to_pomdp.py', '''        next_probas = [c.start for c in self.children[1:]] + [s_next_probas]
        for i, c in enumerate(self.children):
            c.update_T(T, a_wait,''', '''        next_probas = [uniform(len(c.start)) for c in self.children[1:]] + [s_next_probas]
        for i, c in enumerate(self.children):
            c.update_T(T, a_wait,''')],
      'a sequence followed by nested alternatives with branches of unequal probability (alternative inside an alternative)',
      'successors in nested alternatives are uniform over leaves instead of over branches',
      D1 + '''
alt = AlternativeCombination([L('b'), AlternativeCombination([L('c'), L('d')], name='in')], name='out')
p = HTMToPOMDP(1., 2., 3.).task_to_pomdp(HierarchicalTask(SequentialCombination([L('a', fail_probability=0.), alt])))
a = p.actions.index('phy-a')
s = p.states.index('R-a')
assert abs(p.T[a, s, p.states.index('init-b')] - .5) < 1e-9, p.T[a, s]
''')

plant('d01-after-of-siblings', 'D01',
      [('task_to_pomdp.py', '            cs_after = concatenate(states[i+1:])',
        '            cs_after = concatenate(states[i+1:i+2])')],
      'a sequence of three or more steps: asking whether the first is finished after the third began',
      'asking for the end of a step is answered no once two further steps have started',
      D1 + '''
p = HTMToPOMDP(1., 2., 3.).task_to_pomdp(HierarchicalTask(SequentialCombination([L('a'), L('b'), L('c')])))
O = p.O[p.actions.index('com-ask-finished-a')]
assert O[p.states.index('init-c'), p.observations.index('yes')] == 1.
''')

plant('d01-subtask-inner', 'D01',
      [('task_to_pomdp.py', '''            R[:, s_start:(s_start + 3),
              (s_start + 3):, :] -= self.subtask_reward''', '''            R[:, s_start:(s_start + 3),
              (s_start + 3):-1, :] -= self.subtask_reward''')],
      'subtask rewards: last step of the task',
      'the last subtask does not earn its reward',
      D1 + '''
p = HTMToPOMDP(1., 2., 3., subtask_reward=7.).task_to_pomdp(HierarchicalTask(SequentialCombination([L('a'), L('b')])))
q = HTMToPOMDP(1., 2., 3.).task_to_pomdp(HierarchicalTask(SequentialCombination([L('a'), L('b')])))
d = p.R - q.R
assert (d[:, p.states.index('R-b'), p.states.index('end'), :] == 7.).all()
''')

plant('d02-ask-order', 'D02',
      [('bring_next_to_pomdp.py', '        O[ask, s_start, :] = o_ans',
        '        O[ask, s_start, :] = o_ans if O[get, s_start, 3] == 1. else self.o_yes')],
      'unanswered questions configured, and an object that can follow itself or is brought twice',
      'the question is always answered in steps the same object leads to',
      D2 + '''
p = HTMToPOMDP(1., 2., 3., ['x'], no_answer=True, loop=False).task_to_pomdp(
    HierarchicalTask(SequentialCombination([L('a', 'x'), L('b', 'x')])))
a = p.actions.index('ask-x')
assert abs(p.O[a, p.states.index('before-b'), 0] - .1) < 1e-9
''')

plant('d02-end-self-reward', 'D02',
      [('bring_next_to_pomdp.py', '            R[:, self.end, self.end, :] = 0\n',
        '            R[self.get_indices, self.end, self.end, :] = 0\n')],
      'non-looping model, asking after the end', 'asking questions at the end earns the final reward again and again',
      D2 + '''
p = HTMToPOMDP(1., 2., 3., ['x'], loop=False).task_to_pomdp(
    HierarchicalTask(SequentialCombination([L('a', 'x')])))
assert (p.R[:, -1, -1, :] == 0).all()
''')

plant('d03-h-first', 'D03',
      [('tower_problem.py', 'return [i * self.h + h for h in range(self.h) for i in range(self.n)]',
        'return [i * self.h + h if self.h <= self.n else h * self.n + i\n                for h in range(self.h) for i in range(self.n)]')],
      'towers higher than their number', 'level-wise orders of high towers are not bottom-up level by level',
      P + '''
from task_models.tower_problem import TowerProblem
assert list(TowerProblem(height=3, n_towers=2).h_first()) == [0, 3, 1, 4, 2, 5]
''')

plant('d04-htm-overflow', 'D04',
      [('supportive.py', '        self.s += (n << self._shift_htm) - (self.htm << self._shift_htm)',
        '        self.s = (n << self._shift_htm) | (self.s & (2 ** (self._shift_pref + 1) - 1))')],
      'several preferences, the second being set, when the task step is changed',
      'changing the task step clears all preferences but the first',
      SUP + '''
s = _SupportivePOMDPState(4, 3, 1, 2)
s.set_preference(2, 1); s.set_object(1, 1)
s.htm = 2
assert s.has_preference(2) == 1 and s.has_object(1) == 1 and s.htm == 2
''')

plant('d04-same-draw', 'D04',
      [('supportive.py', '        to_change = np.random.random((self.n_preferences)) < p',
        '        to_change = np.full((self.n_preferences), np.random.random()) < p')],
      'several preferences', 'all preferences change together instead of independently',
      SUP + '''
np.random.seed(0)
seen = set()
for _ in range(200):
    s = _SupportivePOMDPState(3, 2, 1, 1)
    s.random_preference_changes(.5)
    seen.add((s.has_preference(0), s.has_preference(1)))
assert len(seen) == 4, seen
''')

plant('d05-alternative-last', 'D05',
      [('supportive.py', '                last = unique(chain(*last))',
        '                last = unique(l for ll in last for l in (ll if len(node.children) < 3 else ll[-1:]))')],
      'an alternative of three or more branches, one of which itself ends in several leaves, followed by a step',
      'some last leaves have no successor and lead to cleaning early',
      SUP + '''
n = SequentialCombination([AlternativeCombination([L('a'), L('b'), AlternativeCombination([L('c'), L('d')])]), L('e')])
d = _HTMToDAG(n)
assert all(list(d.succs[i]) == [4] for i in range(4)), d.succs
''')

plant('d06-preference-before', 'D06',
      [('supportive.py', '''            if _s.has_preference(self.PREF_HOLD):
                if (not random)''', '''            if self._int_to_state(s).has_preference(self.PREF_HOLD):
                if (not random)''')],
      'asking in the very step in which the preference changes spontaneously',
      'the answer is about the preference before the spontaneous change',
      SUP + '''
m = SupportivePOMDP(SequentialCombination([L('a', hold='h', conditions=[(USES, 'x')])]))
m.p_change_preference = 1.
s = m._int_to_state(); s.set_preference(0, 1)
np.random.seed(0)
for _ in range(30):
    ns, o, r = m.sample_transition(m.A_ASK, s.to_int())
    assert o != m.O_YES
''')

plant('d06-clean-current', 'D06',
      [('supportive.py', 'r -= self._cost_get(o) * _s.has_object(o)',
        'r -= self._cost_get(o) * _s.has_object(o) * (self.clearable[o] or o == 0)')],
      'cleaning with an object that is not clearable and not the first one still present',
      'objects that cannot be cleared cost nothing when left at the end',
      SUP + '''
m = SupportivePOMDP(SequentialCombination([L('a', conditions=[(USES, 'x'), (CONSUMES, 'y')])]))
m.p_changed_by_human = m.p_change_preference = 0.
s = m._int_to_state(); s.htm = m.htm_clean; s.set_object(1, 1)
assert m.sample_transition(m.A_WAIT, s.to_int())[2] == m.r_final - m.cost_get
''')

plant('d06-consume-some-absent', 'D06',
      [('supportive.py', '''            _s.set_object(obj, 0 if np.random.random() < self.p_consume_all else 1)''',
        '''            _s.set_object(obj, 0 if np.random.random() < self.p_consume_all else _s.has_object(obj) or int(r == 0.))''')],
      'a partly consumed object that had to be fetched',
      'an object fetched by the human and only partly consumed disappears',
      SUP + '''
m = SupportivePOMDP(SequentialCombination([L('a', conditions=[(CONSUMES_SOME, 'x')])]))
m.p_changed_by_human = m.p_change_preference = m.p_consume_all = 0.
s = m._int_to_state()
ns = m._int_to_state(m.sample_transition(m.A_WAIT, s.to_int())[0])
assert ns.has_object(0) == 1
''')

plant('d07-start-preference', 'D07',
      [('supportive.py', '''        for i, p in enumerate(self.p_preferences):
            _s.set_preference(i, 1 if np.random.random() < p else 0)''', '''        for i, p in enumerate(self.p_preferences):
            _s.set_preference(i, np.random.random() < p or (
                i > 0 and _s.has_preference(i - 1)))''')],
      'models with several preferences', 'preferences of start states are not independent',
      SUP + '''
class Two(SupportivePOMDP):
    preferences = ['a', 'b']
    p_preferences = [1., 0.]
m = Two(SequentialCombination([L('a', conditions=[(USES, 'x')])]))
s = m._int_to_state(m.sample_start())
assert s.has_preference(0) == 1 and s.has_preference(1) == 0
''')

plant('d08-preference-states', 'D08',
      [('supportive.py', '        n = 2 ** self._shift_pref\n        n_p', '        n = 2 ** (self.n_objects + 1)\n        n_p')],
      'a state encoding with a number of body features other than one',
      'preference summaries are refused or mixed up with other numbers of body features',
      SUP + '''
s = _SupportivePOMDPState(3, 1, 2, 1)
b = np.zeros(s.n_states)
s.set_preference(0, 1); s.set_body_feature(0, 1)
b[s.to_int()] = 1.
assert s.belief_preferences(b) == [1.]
''')

plant('d09-hold-reset', 'D09',
      [('policy.py', '''        self._needs_leg = True
        self._last_action = None
        self._n_done = 0''', '''        self._last_action = None
        self._n_done = 0
        self._needs_leg = len(self._to_bring) > 0 and not hasattr(self, '_needs_leg') or self._needs_leg''')],
      'a reset between bringing a leg and the end of holding',
      'after such a reset the first leg is not brought',
      SUP + '''
from task_models.policy import PolicyLongSupportiveSequence
m = SupportivePOMDP(SequentialCombination([LeafCombination(AssembleLeg('l'))]))
p = PolicyLongSupportiveSequence(m)
for _ in range(4):
    p.get_action(); p.step('none')
p.reset()
for _ in range(3):
    p.get_action(); p.step('none')
assert p.get_action() == 'bring leg'
''')

plant('d09-not-found-hold', 'D09',
      [('policy.py', '''            elif self._is_a_next(self._last_action) and observation == 'none':''',
        '''            elif self._is_a_next(self._last_action) and (
                    observation == 'none' or self._n_done > 0):''')],
      'not-found observed on holding after the first step', 'impossible observations on holding are accepted as success',
      SUP + '''
from task_models.policy import PolicyLongSupportiveSequence
m = SupportivePOMDP(SequentialCombination([LeafCombination(AssembleLeg('l')), LeafCombination(AssembleLeg('r'))]))
p = PolicyLongSupportiveSequence(m)
for _ in range(6):
    p.get_action(); p.step('none')
assert p.get_action() == 'hold H'
try:
    p.step('not-found')
except p.UnexpectedObservation:
    pass
else:
    raise SystemExit('accepted')
''')

EV = '''
import types
fake = types.ModuleType('expjobs'); h = types.ModuleType('expjobs.helpers')
h.Launcher = object
sys.modules['expjobs'] = fake; sys.modules['expjobs.helpers'] = h
''' + SUP + '''
from task_models.evaluation import *
from task_models import evaluation
'''
plant('e01-horizon-final', 'P03',
      [('evaluation.py', "        self._is_final = self.model._int_to_state(new_s).is_final()",
        "        self._is_final = (self._is_final or\n                          self.model._int_to_state(new_s).is_final())")],
      'an episode that leaves the final state again', 'the horizon remains reached although the last transition left the final state',
      EV + '''
m = SupportivePOMDP(SequentialCombination([L('a')]))
f = m._int_to_state(); f.htm = m.htm_final
h = FinishedOrNTransitionsHorizon(m, 5)
h.decrement(0, 0, f.to_int(), 0); h.decrement(0, f.to_int(), 0, 0)
assert not h.is_reached()
''')

plant('p03-htm-copy', 'P03',
      [('supportive.py', '''        if self.model._int_to_state(s).htm != _new_s.htm:
            self.n -= 1''', '''        if self.model._int_to_state(s).htm < _new_s.htm:
            self.n -= 1''')],
      'a task whose steps are not numbered in the order of execution (loops or custom orders)',
      'changes to lower task steps are not counted',
      SUP + '''
m = SupportivePOMDP(SequentialCombination([L('a'), L('b')]))
a, b = m._int_to_state(), m._int_to_state()
b.htm = 1
h = NHTMHorizon(m, 1)
h.decrement(0, b.to_int(), a.to_int(), 0)
assert h.is_reached()
''')

plant('e02-days', 'E02',
      [('utils/multiprocess.py', '''    t += ["0"] * (4 - len(t))  # fill missing optional fields (%d, %h)
''', '''    t += ["0"] * (4 - len(t))  # fill missing optional fields (%d, %h)
    t[3] = t[3].lstrip('0')[:2] or '0'
''')],
      'processes of 100 days or more', 'the number of days is cut to two digits',
      P + '''
from task_models.utils import multiprocess
multiprocess.subprocess.check_output = lambda *a, **k: b' 100-01:02:03\\n'
assert multiprocess.get_process_elapsed_time().days == 100
''')

plant('e02-zero-dim', 'E02',
      [('lib/utils.py', '            return obj.tolist()', '            return obj.tolist() if obj.dtype != np.float32 else [float(\'%.7g\' % x) for x in obj.ravel()]')],
      'two-dimensional single precision arrays', 'nested single precision arrays are written flat',
      P + '''
import json
from task_models.lib.utils import NPEncoder
assert json.loads(json.dumps({'x': np.ones((2, 2), np.float32)}, cls=NPEncoder)) == {'x': [[1., 1.], [1., 1.]]}
''')

plant('c02-result-order', 'C02',
      [('utils/multiprocess.py', '''        while self._still_working():
            self._clean()
            self._fill()
''', '''        while self._still_working() and len(results) < n:
            self._clean()
            self._fill()
''')],
      'a subprocess that fails after having delivered its result, when it is the last one',
      'failures after the last result are not reported',
      P + '''
import os, time
from task_models.utils.multiprocess import RepeatPool
class Pool(RepeatPool):
    def work(self, seed):
        super(Pool, self).work(seed)
        self.result_queue.close(); self.result_queue.join_thread()
        time.sleep(.5)
        os._exit(1)
try:
    Pool(lambda: 1).run(1)
except RuntimeError:
    pass
else:
    raise SystemExit('failure not reported')
''')

plant('c02-first-worker', 'C02',
      [('utils/multiprocess.py', 'return self.to_go > 0 or any([w is not None for w in self.workers])',
        'return self.to_go > 0 or any([w is not None and w.is_alive() for w in self.workers])')],
      'the last subprocess fails between two polls', 'the failure of the last subprocess is reported as missing result or not at all',
      P + '''
import os, time
from task_models.utils.multiprocess import RepeatPool
class Pool(RepeatPool):
    def work(self, seed):
        super(Pool, self).work(seed)
        self.result_queue.close(); self.result_queue.join_thread()
        os._exit(1)
for _ in range(5):
    try:
        Pool(lambda: 1).run(1)
    except RuntimeError:
        continue
    raise SystemExit('failure not reported')
''')

plant('e01-last-observation', 'E01',
      [('evaluation.py', "        pol.step(model.observations[o])\n        h_s.append(s)",
        "        if not horizon.is_reached():\n            pol.step(model.observations[o])\n        h_s.append(s)")],
      'a policy that is used (or inspected) after the evaluation',
      'the last observation is not passed to the policy',
      EV + """
m = SupportivePOMDP(SequentialCombination([L('a')]))
told = []
class Pol(object):
    def reset(self): pass
    def get_action(self): return 'wait'
    def step(self, o): told.append(o)
r = simulate_one_evaluation(m, Pol(), max_horizon=3)
assert len(told) == len(r['actions'])
""")

plant('e01-start-final', 'E01',
      [('evaluation.py', "    h_s = [model.sample_start()]\n", "    h_s = [model.sample_start()]\n    max_horizon = max_horizon or sys.maxsize\n")],
      'an evaluation limited to zero transitions',
      'a limit of zero transitions means no limit',
      EV + """
m = SupportivePOMDP(SequentialCombination([L('a')]))
class Pol(object):
    def reset(self): pass
    def get_action(self): return 'wait'
    def step(self, o): pass
r = simulate_one_evaluation(m, Pol(), max_horizon=0)
assert r['actions'] == []
""")
