GRAPH = '''
from task_models import task
from task_models.task import *
from task_models.state import NDimensionalState
import numpy as np
def A(n): return AbstractAction(n)
'''

plant('g03-excluded-forgotten', 'G03',
      [('task.py', '                                         x.intersection(graph[u])):\n',
        '                                         x.intersection(p, graph[u])):\n')],
      'overlapping cliques such that a branch only has excluded common neighbours',
      'excluded nodes are forgotten in recursive calls: non-maximal cliques are reported',
      GRAPH + '''
import itertools
n = 5
edges = list(itertools.combinations(range(n), 2))
for bits in range(2 ** len(edges)):
    g = {i: set() for i in range(n)}
    for k, (u, v) in enumerate(edges):
        if bits >> k & 1:
            g[u].add(v); g[v].add(u)
    found = sorted(tuple(sorted(c)) for c in max_cliques(g))
    want = []
    for r in range(2, n + 1):
        for c in itertools.combinations(range(n), r):
            if all(v in g[u] for u, v in itertools.combinations(c, 2)):
                if not any(set(c) <= g[w] for w in range(n) if w not in c):
                    want.append(c)
    assert found == sorted(want), (g, found, want)
''')

plant('g01-equality-one-way', 'G01',
      [('task.py', '                self.terminal == other.terminal)',
        '                self.terminal.issuperset(other.terminal))')],
      'two task graphs with the same transitions where one has an additional terminal state',
      'equality of task graphs is not symmetric and hides different terminal states',
      GRAPH + '''
s = [NDimensionalState(np.array([i])) for i in range(3)]
a, b = A('a'), A('b')
g = TaskGraph(); g.add_path([s[0], a, s[1], b, s[2]])
h = TaskGraph(); h.add_path([s[0], a, s[1], b, s[2]]); h.add_path([s[0], a, s[1]])
assert g == TaskGraph() or True
assert not (g == h) and not (h == g)
''')

plant('g02-initial-terminal', 'G02',
      [('task.py', '''                else:
                    # Look ahead...
                    for''', '''                if next_state not in tg.terminal.difference(tg.initial):
                    # Look ahead...
                    for''')],
      'a state that is both initial and terminal and has outgoing transitions',
      'the conjugate graph continues after terminal states that are also initial',
      GRAPH + '''
s = [NDimensionalState(np.array([i])) for i in range(2)]
a, b = A('a'), A('b')
g = TaskGraph(); g.add_path([s[0], a, s[1]]); g.add_path([s[1], b, s[0]])
c = g.conjugate()
assert not c.has_transition(a, s[1], b)
assert not c.has_transition(b, s[0], a)
assert c.has_transition(a, s[1], c.terminal)
''')

plant('g04-parallel-in-degree', 'G04',
      [('task.py', '''            if d not in unique_transitions[s]:
                in_degree''', '''            if d not in unique_transitions[s] or s == self.initial:
                in_degree''')],
      'several initial states from which the same action starts a chain',
      'parallel transitions out of the initial node count several times: a chain from the initial node is missed',
      GRAPH + '''
c = ConjugateTaskGraph()
a, b = A('a'), A('b')
c.add_transition(c.initial, 's0', a)
c.add_transition(c.initial, 's1', a)
c.add_transition(a, 's2', b)
c.add_transition(b, 's3', c.terminal)
ch = [[n.name for n in x] for x in c.get_max_chains()]
assert ch == [['initial', 'a', 'b', 'terminal']], ch
''')

plant('h01-same-members', 'H01',
      [('action.py', '''                self.pre == other.pre and
                self.post == other.post)''', '''                hash(self) == hash(other))''')],
      'two actions whose swapped or hash-colliding conditions differ (-1 and -2 hash alike)',
      'pre/post-condition actions are compared by hash: different conditions may be equal',
      GRAPH + '''
from task_models.action import *
m = np.array([1.])
a = PrePostConditionAction(Condition(m, np.array([-1.])), MatchAllCondition())
b = PrePostConditionAction(Condition(m, np.array([-2.])), MatchAllCondition())
assert a != b
''')

plant('h02-nested-names', 'H02',
      [('task.py', '''        return ParallelCombination(
            self._deep_copy_children(rename_format=rename_format),
            probabilities=self.proba,''', '''        return ParallelCombination(
            self._deep_copy_children(),
            probabilities=self.proba,''')],
      'a parallel combination nested inside an expanded parallel combination',
      'leaves under nested parallel combinations keep their name in every order: names repeat between orders',
      GRAPH + '''
from task_models.task_to_pomdp import CollaborativeAction
L = lambda n: LeafCombination(CollaborativeAction(n, (1., 1., 1.)))
p = ParallelCombination([ParallelCombination([L('a'), L('b')], name='in'), L('c')], name='out')
alt = p.to_alternative()
names = []
def walk(n):
    if n.kind is None:
        names.append(n.name)
    else:
        for c in n.children:
            walk(c)
walk(alt)
assert len(set(names)) == len(names) == 6, names
''')

plant('h03-tolerance', 'H03',
      [('task.py', '        elif not (np.isclose(np.sum(probabilities), 1)):',
        '        elif not (np.isclose(np.sum(np.abs(probabilities)), np.ceil(np.max(probabilities)))):')],
      'probabilities that are all zero',
      'an all-zero distribution is accepted for alternatives',
      GRAPH + '''
from task_models.task_to_pomdp import CollaborativeAction
L = lambda n: LeafCombination(CollaborativeAction(n, (1., 1., 1.)))
try:
    AlternativeCombination([L('a'), L('b')], probabilities=[0., 0.])
except ValueError:
    pass
else:
    raise SystemExit('accepted')
AlternativeCombination([L('a'), L('b')], probabilities=[.25, .75])
''')

plant('h04-lookup-prunes', 'H04',
      [('task.py', '''                next_act = self.find_next_human_action(c, curr_idx)
                if next_act is not None:
                    return next_act''', '''                next_act = self.find_next_human_action(c, max(c.idx, curr_idx))
                if next_act is not None:
                    return next_act''')],
      'a tree whose numbering is not depth-first (children numbered below their parent)',
      'human leaves numbered below an ancestor are skipped by the next-human-action lookup',
      GRAPH + '''
from task_models.action import Action
l1 = LeafCombination(Action('l1', agent='human'), idx=3, parent=5)
l2 = LeafCombination(Action('l2', agent='human'), idx=7, parent=0)
s = SequentialCombination([l1], idx=5, parent=0)
root = SequentialCombination([s, l2], idx=0)
assert HierarchicalTask(root).find_next_human_action(root, 2) is l1
''')

plant('s01-truthy-mask', 'S01',
      [('action.py', '''        return self.pre.check(before) and self.post.check(after)''',
        '''        return self.pre.check(before) and (self.post.check(after) or
                                           self.pre == self.post)''')],
      'an action whose post-condition equals its pre-condition (something that must remain true)',
      'actions that require a condition to be maintained accept changes violating it afterwards',
      GRAPH + '''
from task_models.action import *
m = np.array([1., 0.])
c = Condition(m, np.array([1., 0.]))
a = PrePostConditionAction(c, Condition(m, np.array([1., 0.])))
on, off = NDimensionalState(np.array([1., 1.])), NDimensionalState(np.array([0., 1.]))
assert a.check(on, on) and not a.check(on, off) and not a.check(off, on)
''')

plant('b03-exact-budget', 'B03',
      [('lib/belief.py', '''        if self.n_sampled > self.max_samples:''',
        '''        if self.n_sampled >= self.max_samples:''')],
      'rejection sampling that succeeds exactly with the last allowed simulation',
      'one simulation less than allowed is run',
      GRAPH + '''
from task_models.lib.belief import ParticleBelief
class Model(object):
    def __init__(self): self.n = 0
    def sample_transition(self, a, s):
        self.n += 1
        return 0, (1 if self.n in (100, 200) else 0), 0.
m = Model()
b = ParticleBelief(lambda: 0, 1, n_particles=2)
b.successor(m, 0, 1)
assert m.n == 200
''')

plant('g05-marker-moves', 'G05',
      [('task.py', "        nodes = set(nodes)\n        for (s, l, d) in list(self.all_transitions()):\n            sin",
        "        nodes = set(nodes)\n        if len(nodes) > 1:\n            nodes.discard(new_node)\n        for (s, l, d) in list(self.all_transitions()):\n            sin")],
      'compacting a set of nodes into one of its members',
      'transitions between the members and the kept member become self-transitions instead of vanishing',
      GRAPH + """
g = BaseGraph()
g.add_transition('a', 'x', 'b'); g.add_transition('b', 'y', 'c')
g.compact(['a', 'b'], 'b')
assert set(g.all_transitions()) == {('b', '', 'c')}, set(g.all_transitions())
""")

plant('s02-any-orientation', 'S02',
      [('snap_circuit.py', "        value = np.zeros(dim)\n", "        if not is_there:\n            mask[part.id, location[0], location[1], :] = 1\n        value = np.zeros(dim)\n")],
      'a part already at the location in another orientation',
      'placing a part is refused when it is there in another orientation',
      GRAPH + """
from task_models.snap_circuit import *
p = SnapCircuitPart(1, 'x')
b = SnapCircuitState((1, 1), [((0, 0, 0), p)])
c = SnapCircuitState((1, 1), [((0, 0, 0), p), ((0, 0, 2), p)])
assert PlaceAction((1, 1), p, (0, 0, 2)).check(b, c)
""")
