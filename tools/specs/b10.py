"""Viewers, and misses of the last probes."""
JS = ['mc/js/dom.js', 'mc/js/d3.js', 'mc/js/view.js']
VIEW = r'''
import json
import subprocess
HERE = os.path.dirname(os.path.abspath(__file__))


def view(page, files, events, first='mine.json'):
    p = subprocess.run(
        ['node', os.path.join(HERE, 'view.js'),
         os.path.join(os.getcwd(), 'visualization')],
        input=json.dumps({'page': page, 'files': files, 'first': first,
                          'events': events, 'all': False}) + '\n',
        stdout=subprocess.PIPE, universal_newlines=True)
    r = json.loads(p.stdout)
    if 'shots' not in r:
        print('not supported', r)
        sys.exit(0)
    return r['shots'][-1]


def walk(e):
    yield e
    for k in e[3]:
        for x in walk(k):
            yield x


def texts(e):
    """Labels of the nodes drawn."""
    return sorted(k[2] for g in walk(e) if g[0] == 'g'
                  for k in g[3] if k[0] == 'text' and
                  any(x[0] in ('circle', 'rect') for x in g[3]) and
                  'legend' not in g[1].get('class', ''))

'''
plant('V02-same-policy-node', 'V02',
      [('../visualization/trajectories/trajectories.js',
        "d.id || (d.id = ++i)", "d.id || (d.id = d.node + 1)")],
      'a trajectory tree in which the same policy node is reached by two '
      'histories shown at the same time',
      'nodes of the tree are identified by the policy node: only one of the '
      'histories is drawn',
      VIEW + r'''
def node(n, obs, *kids):
    return {'action': 'wait', 'node': n, 'observations': obs, 'belief': [1],
            'children': list(kids)}


tree = node(0, ['none', 'yes'], node(1, ['no'], node(2, [])),
            node(3, ['no'], node(1, ['yes'], node(2, []))))
ev = [{'type': 'click', 'label': '[3] wait'}]
got = texts(view('trajectories/trajectories.html',
                 {'mine.json': {'graphs': [tree]}}, ev))
want = ['[0] wait', '[1] wait', '[1] wait', '[3] wait']
if got != want:
    sys.exit('shown %s instead of %s' % (got, want))
''', files=JS)
plant('V02-range-piles-up', 'V02',
      [('../visualization/pomcp/pomcp.js',
        """    cur_explo = exploration;
    if (relative_exploration) {
      cur_explo *= (d3.max(d.data.values) - d3.min(d.data.values));
    }
""",
        """    if (relative_exploration) {
      exploration *= (d3.max(d.data.values) - d3.min(d.data.values));
    }
    cur_explo = exploration;
""")],
      'a tree searched with relative exploration, and a second node hovered',
      'the range of values of the nodes looked at before stays in the '
      'exploration coefficient, so that augmented values are wrong',
      VIEW + r'''
def node(name, values, *kids):
    return {'action': name, 'observed': 0, 'visits': 3, 'value': 1,
            'belief': [1, 0], 'values': values,
            'exploration_terms': [.5, .25], 'child_visits': [1, 2],
            'observations': ['none'] * len(kids), 'children': list(kids)}


tree = {'graphs': [node('a', [1, 4], node('b', [2, 0]))],
        'states': ['s', 't'], 'actions': ['a', 'b'], 'exploration': 2,
        'relative_exploration': True}
ev = [{'type': 'mouseover', 'label': x} for x in 'ab']
doc = view('pomcp/pomcp.html', {'mine.json': tree}, ev)
row = [e for e in walk(doc) if e[0] == 'tr' and
       e[1].get('class') == 'augmented values'][0]
got = [float(e[1]['title']) for e in row[3] if e[0] == 'td']
want = [2 + 2 * 2 * .5, 0 + 2 * 2 * .25]
if got != want:
    sys.exit('shown %s instead of %s' % (got, want))
''', files=JS)
plant('V02-opens-too-much', 'V02',
      [('../visualization/htm/htm.js',
        "          d._children.forEach(collapseLevel);\n", "")],
      'a task tree of depth 5 or more, and a click on a node at the depth '
      'of which trees are cut',
      'what is below a closed node stays open: opening it shows all its '
      'descendants instead of its children',
      VIEW + r'''
tree = None
for i in range(6, -1, -1):
    tree = {'id': i, 'name': 'task %d' % i, 'attributes': [],
            'combination': 'Sequential' if tree else None,
            'children': [tree] if tree else []}
ev = [{'type': 'click', 'label': 'task 3'}]
got = texts(view('htm/htm.html', {'mine.json': {'nodes': tree}}, ev))
got = [x for x in got if x.startswith('task')]
want = ['task %d' % i for i in range(5)]
if got != want:
    sys.exit('shown %s instead of %s' % (got, want))
''', files=JS)
plant('V02-done-comes-back', 'V02',
      [('../visualization/policy/policy.html',
        "loadnewpolicy($(this).val(), undefined);",
        "loadnewpolicy($(this).val(), true);")],
      'DONE OFF pressed, then another file selected',
      'the arrows of observation done are shown again although they are '
      'turned off',
      VIEW + r'''
pol = {'actions': ['a', 'b'], 'observations': ['yes', 'done'],
       'transitions': [[1, 1], [0, None]], 'values': [[0], [0]],
       'initial': '0'}
doc = view('policy/policy.html', {'mine.json': pol, 'other.json': pol},
           [{'type': 'press', 'id': 'd_op_off'},
            {'type': 'file', 'file': 'other.json'}])
got = sorted(e[1]['class'] for e in walk(doc)
             if 'link' in e[1].get('class', ''))
if got != ['link yes', 'link yes']:
    sys.exit('arrows %s' % got)
''', files=JS)
plant('C02-two-workers', 'C02',
      [('utils/multiprocess.py',
        "        return self.to_go > 0 or any([w is not None for w in "
        "self.workers])",
        "        return self.to_go > 0 or any([w is not None for w in "
        "self.workers[:2]])")],
      'three or more processes, the last worker finishing after the first '
      'two',
      'repeat returns without the results of the workers that are still '
      'running in the third and later places',
      r'''
import time
import queue
import multiprocessing
multiprocessing.set_start_method('fork', force=True)
from task_models.utils.multiprocess import RepeatPool



def work():
    k = multiprocessing.current_process()._identity[-1] - 1
    if k >= 2:
        time.sleep(2.)
    return k


pool = RepeatPool(work)
pool.n_processes = 3
try:
    got = pool.run(3)
except queue.Empty:
    sys.exit('a result was not there')
if sorted(got) != [0, 1, 2]:
    sys.exit('results %s' % (got,))
''')
plant('C02-none-lost', 'C02',
      [('utils/multiprocess.py',
        "                results.append(self.result_queue.get(False, 1))\n",
        "                r = self.result_queue.get(False, 1)\n"
        "                if r is not None:\n"
        "                    results.append(r)\n"),
       ('utils/multiprocess.py',
        "        results.extend([self.result_queue.get_nowait()\n"
        "                        for _ in range(n - len(results))])\n", "")],
      'a repeated function that returns None now and then',
      'results that are None are left out: fewer results than repetitions',
      r'''
import multiprocessing
multiprocessing.set_start_method('fork', force=True)
from task_models.utils.multiprocess import repeat

n = multiprocessing.Value('i', 0)


def work():
    with n.get_lock():
        n.value += 1
        return None if n.value % 2 else n.value


got = repeat(work, 4)
if sorted(got, key=str) != [2, 4, None, None]:
    sys.exit('results %s' % (got,))
''')
plant('G04-after-long-chain', 'G04',
      [('task.py',
        "                        done = True\n"
        "                        explore_successors(next_node)",
        "                        done = True\n"
        "                        if len(chain) <= len(in_degree) // 2:\n"
        "                            explore_successors(next_node)")],
      'a chain longer than half of the graph, at the end of which the graph '
      'branches into chains',
      'the branches after a long chain are not explored: their chains are '
      'not reported',
      r'''
from task_models.task import ConjugateTaskGraph
from task_models.action import Action

g = ConjugateTaskGraph()
ns = [Action('n%d' % i) for i in range(9)]
prev = g.initial
for x in ns[:5]:
    g.add_transition(prev, 'l', x)
    prev = x
for a, b in (ns[5:7], ns[7:9]):
    g.add_transition(ns[4], 'l', a)
    g.add_transition(a, 'l', b)
got = sorted(len(c) for c in g.get_max_chains())
if got != [2, 2, 6]:
    sys.exit('chains of lengths %s' % got)
''')
