P = '''
import sys, types, os, json, tempfile
for m in ('expjobs', 'expjobs.helpers'):
    sys.modules[m] = types.ModuleType(m)
sys.modules['expjobs.helpers'].Launcher = object
import numpy as np
import task_models.evaluation as ev
ev.repeat = lambda f, n: [f() for _ in range(n)]
from task_models.task import *
from task_models.supportive import *
htm = SequentialCombination([LeafCombination(AssembleLeg('l'))])
class E(ev.SupportiveExperiment):
    def init_run(self):
        self.model = SupportivePOMDP(htm)
        self.init_pomcp_policy()
SMALL = {'n_warmup': 3, 'n_evaluations': 1, 'iterations': 30, 'n_particles': 300, 'horizon-length': 2}
def make(**k):
    return E(dict(SMALL, **k))
'''

plant('e03-defaults-shared', 'E03',
      [('evaluation.py', '''        self.parameters = self.DEFAULT_PARAMETERS.copy()
        if parameters:
            self.parameters.update(parameters)''', '''        self.parameters = self.DEFAULT_PARAMETERS
        if parameters:
            self.parameters = dict(self.parameters, **parameters)''')],
      'an experiment without parameters run in debug mode, then another experiment',
      'debug mode changes the defaults of all later experiments',
      P + '''
e = E()
e.set_debug_parameters()
assert E().parameters['iterations'] == 1000
''')

plant('e03-htm-horizon-length', 'E03',
      [('evaluation.py', '''            horizon=(NHTMHorizon if self.parameters['horizon-type'] == 'htm'
                     else FinishedOrNTransitionsHorizon
                     ).generator(self.model, n=self.parameters['horizon-length']),''',
        '''            horizon=(NHTMHorizon.generator(self.model)
                     if self.parameters['horizon-type'] == 'htm'
                     else FinishedOrNTransitionsHorizon.generator(
                         self.model, n=self.parameters['horizon-length'])),''')],
      'task-step horizons of a length other than the default of the horizon',
      'the horizon length is ignored for task-step horizons',
      P + '''
e = make(**{'horizon-type': 'htm', 'horizon-length': 7})
e.init_run()
h = e.policy.tree.horizon_gen()
assert h.n == 7, h.n
''')

plant('e03-warmup-default', 'E03',
      [('evaluation.py', "        self.policy.get_action(iterations=self.parameters['n_warmup'])",
        "        self.policy.get_action(iterations=self.parameters['n_warmup'] or None)")],
      'an experiment without warmup (0)',
      'no warmup runs the iterations of an ordinary action instead',
      P + '''
e = make(n_warmup=0, n_evaluations=0)
e.run()
assert e.policy.tree.root.n_simulations == 0
''')

plant('e03-empty-results', 'E03',
      [('evaluation.py', '''        return ([r['return'] for r in results],
                [r['elapsed-time'] for r in results],
                [r['simulator-calls'] for r in results])''', '''        return tuple(zip(*[(r['return'], r['elapsed-time'],
                            r['simulator-calls']) for r in results]))''')],
      'a job without evaluations',
      'reading results of a job without evaluation returns nothing instead of three empty lists',
      P + '''
d = tempfile.mkdtemp()
class Job: path = d; name = 'x'
e = make(n_evaluations=0)
e.path = os.path.join(d, 'x.json')
e.run()
r = ev.ExpLauncher.get_results_from_one(Job)
os.remove(e.path); os.rmdir(d)
assert len(r) == 3, r
''')

plant('e03-write-before-finish', 'E03',
      [('evaluation.py', '''        # Finishing
        self.finish_run()
        if self.path is not None:
            self.write_result(self.path)''', '''        # Finishing
        if self.path is not None:
            self.write_result(self.path)
        self.finish_run()''')],
      'an experiment that adds results when finishing and is written to a file',
      'results added when finishing are missing from the file',
      P + '''
class F(E):
    def finish_run(self):
        self.results['more'] = 1
d = tempfile.mkdtemp()
e = F(SMALL)
e.path = os.path.join(d, 'x.json')
e.run()
r = json.load(open(e.path))
os.remove(e.path); os.rmdir(d)
assert r['more'] == 1
''')

Q = '''
import numpy as np
from task_models.lib import pomdp
pomdp.spawn.find_executable = lambda *a, **k: '/bin/true'
from task_models.task import *
from task_models.supportive import *
from task_models.lib.pomcp import *
htm = SequentialCombination([LeafCombination(AssembleLeg('l')), LeafCombination(AssembleLeg('m'))])
m = SupportivePOMDP(htm)
np.random.seed(1)
'''

plant('p06-belief-before', 'P06',
      [('lib/pomcp.py', '''            ns, o, r = model.sample_transition(model.actions.index(a), s)
            self.step(model.observations[o])
            logger('{} -- {}''', '''            belief = self.belief
            ns, o, r = model.sample_transition(model.actions.index(a), s)
            self.step(model.observations[o])
            logger('{} -- {}'''),
       ('lib/pomcp.py', '''                format_belief_array(belief_quotient(self.belief.array)),
                belief_preferences''', '''                format_belief_array(belief_quotient(belief.array)),
                belief_preferences''')],
      'any transition that changes the grouped belief',
      'the grouped belief before the transition is logged with the preference after it',
      Q + '''
p = POMCPPolicyRunner(m, iterations=20, horizon=3, belief='particle', belief_params={'n_particles': 10}, logger=lambda *a: None)
lines = []
for k in range(20):
    try:
        p.run_trajectory(logger=lines.append)
        break
    except MaxSamplesReached:
        del lines[:]
        np.random.seed(k + 50)
b = [l for l in lines if l.startswith('belief')]
assert b[-1].split('belief: ')[1].split('|')[0].split()[-1] == '1.', b[-1]
''')

plant('p06-total-overwritten', 'P06',
      [('lib/pomcp.py', '''            s = ns
            R += r
        logger("Total''', '''            s = ns
            R = model.discount * R + r
        logger("Total''')],
      'trajectories of several transitions in models with a discount below one',
      'early rewards are discounted in the reported total',
      Q + '''
m.discount = .5
p = POMCPPolicyRunner(m, iterations=20, horizon=3, belief='particle', belief_params={'n_particles': 10}, logger=lambda *a: None)
lines = []
for k in range(20):
    try:
        p.run_trajectory(logger=lines.append)
        break
    except MaxSamplesReached:
        del lines[:]
        np.random.seed(k + 50)
t = sum(float(l.rsplit(', ', 1)[1]) for l in lines if '-->' in l)
assert abs(t - float(lines[-1].split(':')[1])) < 1e-3, (t, lines[-1])
''')

plant('p06-no-reset', 'P06',
      [('lib/pomcp.py', '''        logger('New trajectory')
        self.reset()
        s = model.sample_start()''', '''        logger('New trajectory')
        if self._last_action is None:
            self.reset()
        s = model.sample_start()''')],
      'a trajectory run with a policy that was used before',
      'the trajectory continues from the previous history of the policy',
      Q + '''
p = POMCPPolicyRunner(m, iterations=20, horizon=3, belief='particle', belief_params={'n_particles': 10}, logger=lambda *a: None)
lines = []
def go():
    for k in range(50):
        try:
            del lines[:]
            p.reset()
            p.run_trajectory(logger=lines.append)
            return
        except MaxSamplesReached:
            np.random.seed(k + 50)
go()
p.reset(); p.get_action(); p.history = [0, 1]
h = p.history
seen = []
orig = p.step
def step(o):
    seen.append(list(p.history))
    raise RuntimeError
p.step = step
try:
    p.run_trajectory(logger=lines.append)
except RuntimeError:
    pass
assert seen == [[]], seen
''')
