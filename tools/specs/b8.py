STUB = '''
import types, runpy
for m in ('expjobs', 'expjobs.helpers', 'expjobs.job'):
    sys.modules[m] = types.ModuleType(m)
sys.modules['expjobs.helpers'].Launcher = object
class Job:
    def __init__(self, path, name, script):
        self.name = name
sys.modules['expjobs.job'].Job = Job
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np
import task_models.evaluation as ev
got = []
ev.SupportiveExperiment.run_from_arguments = classmethod(lambda cls, debug=False: got.append(cls))
ev.ExpLauncher.run = lambda self: got.append(self)
def job(name, **par):
    sys.argv = ['x']
    runpy.run_path(os.path.join('samples', name + '.py'), run_name='__main__')
    if isinstance(got[-1], type):
        e = got[-1](parameters=par)
        e.init_run()
        return e
    la = got[-1]
    la.args = types.SimpleNamespace(path='x', plot_destination=None)
    la.init_jobs()
    return la
'''
PLOT = '''
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np
from task_models.utils import plot as P
from task_models.plot import plot_beliefs
'''

plant('e04-zero-change', 'E04',
      [('../samples/supportive_evaluation_preference_job.py',
        "        if 'p_change_preference' in self.parameters:\n",
        "        if self.parameters.get('p_change_preference'):\n"),
       ('../samples/supportive_evaluation_preference_job.py',
        '            self.model.p_change_preference = 0.\n',
        "            self.model.p_change_preference = 0. if 'n_evaluations' in self.parameters and self.parameters['p_preference'] < 1. else .01\n")],
      'certain preference for holding and no given probability of change',
      'preferences may change in the experiments which exclude it',
      STUB + '''
e = job('supportive_evaluation_preference_job', p_preference=1., policy='always-hold')
assert e.model.p_change_preference == 0.
''')

plant('e04-long-random', 'E04',
      [('../samples/supportive_evaluation_multitask_job.py',
        '        self.n_tasks = sequence_length\n',
        '        self.n_tasks = min(sequence_length, 8)\n')],
      'random policy on a sequence of more than eight tasks',
      'the policy stops holding after eight tasks',
      STUB + '''
e = job('supportive_evaluation_multitask_job', task='sequence', policy='random', n_subtasks=12)
p = e.policy
p.reset()
n = 0
for _ in range(60):
    n += p.get_action().startswith('hold')
    p.step('none')
assert n == 12, n
''')

plant('e04-calls-of-transitions', 'E04',
      [('../samples/supportive_evaluation_pomcp.py',
        "        calls_htm = [[results['htm-{}-{}'.format(h, s)][2]\n                     for h in HORIZON_LENGTH_HTM]",
        "        calls_htm = [[results['{}-{}-{}'.format('htm' if h != 3 else 'transitions', h, s)][2]\n                     for h in HORIZON_LENGTH_HTM]")],
      'plot of simulator calls, horizon of three task steps',
      'one point of the curve shows the results of another job',
      STUB + '''
la = job('supportive_evaluation_pomcp')
res = {n: ([1. + i], [1.], [3. * i]) for i, n in enumerate(la.exps)}
la.get_results = lambda: res
la.plot_results()
ys = [float(ln.get_ydata()[2]) for n in plt.get_fignums() for ax in plt.figure(n).axes for ln in ax.lines if len(ln.get_xdata()) == 9]
assert res['htm-3-s'][2][0] in ys and res['htm-3-ns'][2][0] in ys
''')

plant('e04-first-top', 'E04',
      [('../samples/supportive_evaluation_pomcp_job.py',
        "            self.model.r_subtask = 0\n            self.model.r_final = 120\n",
        "            self.model.r_subtask = 0\n            self.model.r_final = 120 if self.parameters['p_preference'] < 1. else 130\n")],
      'no intermediate rewards and certain preference',
      'the final reward differs from the one of other experiments',
      STUB + '''
e = job('supportive_evaluation_pomcp_job', **{'p_preference': 1., 'intermediate-rewards': False})
assert e.model.r_final == 120
''')

plant('v01-fill-unbiased', 'V01',
      [('utils/plot.py', '    std = np.std(y, axis=1)\n',
        '    std = np.std(y, axis=1, ddof=1 if np.shape(y)[1] > 6 else 0)\n')],
      'more than six samples per row',
      'the area drawn is not one standard deviation wide',
      PLOT + '''
y = np.array([[0., 2.] * 5, [1., 1.] * 5])
P.plot_var(y)
v = plt.gca().collections[0].get_paths()[0].vertices
assert np.isclose(v[:, 1].max(), 2.), v
''')

plant('v01-bars-only-area', 'V01',
      [('utils/plot.py', "    if var and var_style in ('bar', 'both'):",
        "    if var and (var_style == 'bar' or var_style == 'both' and x is None):")],
      'both bars and area, abscissa given',
      'bars are missing',
      PLOT + '''
P.plot_var(np.array([[0., 2.], [1., 1.]]), x=[3, 4], var_style='both')
assert len(plt.gca().collections) == 2
''')

plant('v01-zero-map', 'V01',
      [('utils/plot.py', '    if np.alltrue(x >= 0):', '    if np.alltrue(x > 0):'),
       ('utils/plot.py', '    elif np.alltrue(x <= 0):', '    elif np.alltrue(x <= 0) and not np.alltrue(x == 0):')],
      'non-negative array holding a zero',
      'the colour map of mixed signs is used',
      PLOT + '''
p = P.pcolormesh(np.array([[0., 1.], [2., 3.]]))
assert p.get_cmap().name == 'Reds', p.get_cmap().name
''')

plant('v01-belief-limits', 'V01',
      [('plot.py', '    ax.set_ylim([0, n_beliefs])\n', '    ax.set_ylim([0, max(n_beliefs, 2)])\n')],
      'plot of a single belief',
      'the limits do not surround the array',
      PLOT + '''
plot_beliefs(np.array([[.5, .25, .25]]))
assert tuple(plt.gca().get_ylim()) == (0., 1.)
''')

plant('v01-current-axes', 'V01',
      [('utils/plot.py', '''    # Clear
    remove_chartjunk(ax, ['top', 'right', 'bottom', 'left'], ticks='xy')
''', '''    # Clear
    remove_chartjunk(plt.gca() if xticklabels else ax, ['top', 'right', 'bottom', 'left'], ticks='xy')
''')],
      'labels given, and axes which are not the current ones',
      'the decoration of the current axes is removed instead',
      PLOT + '''
f, (one, two) = plt.subplots(1, 2)
plt.sca(two)
P.pcolormesh(np.ones((2, 2)), ax=one, xticklabels=['a', 'b'])
assert two.spines['top'].get_visible() and not one.spines['top'].get_visible()
''')

plant('v01-legend-figure', 'V01',
      [('utils/plot.py', "kwargs.pop('ax', kwargs.pop('fig', None)) or plt.gca()",
        "kwargs.pop('fig', kwargs.pop('ax', None)) or plt.gca()")],
      'both axes and figure given',
      'the legend is put on the figure',
      PLOT + '''
f, (one, two) = plt.subplots(1, 2)
one.plot([1, 2], label='x')
P.legend(ax=one, fig=f, loc='upper left')
assert one.get_legend() is not None
''')

plant('e05-smaller-kept', 'E05',
      [('../samples/icra_scenario2pomdp.py', "gp2 = pol.visit()\n",
        "gp2 = pol.visit()\nif gp2.n_nodes < gp.n_nodes:\n    gp2 = gp\n")],
      'a policy visiting fewer beliefs than it has nodes',
      'the policy of the solver is exported as policy over beliefs',
      """
import runpy, shutil, tempfile, json
from distutils import spawn
spawn.find_executable = lambda *a, **k: '/bin/true'
import numpy as np
from task_models.lib import pomdp
def solve(m, **kw):
    n = m.n_states
    return pomdp.GraphPolicy([m.actions[1]] * 90, m.observations, [[0] * m.n_observations] * 90, np.zeros((90, n)), init=0)
pomdp.POMDP.solve = solve
d = tempfile.mkdtemp()
try:
    os.makedirs(d + '/samples')
    for x in ('policy', 'trajectories'):
        os.makedirs(d + '/visualization/%s/json' % x)
    shutil.copy('samples/icra_scenario2pomdp.py', d + '/samples')
    runpy.run_path(d + '/samples/icra_scenario2pomdp.py', run_name='__main__')
    f = json.load(open(d + '/visualization/policy/json/from_beliefs.json'))
finally:
    shutil.rmtree(d)
assert len(f['actions']) < 90, len(f['actions'])
""")
