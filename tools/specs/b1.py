plant('b01-rare-observation', 'B01',
      [('lib/pomdp.py', 'if s == 0.:', 'if np.isclose(s, 0.):')],
      'an observation of probability below 1e-8 but possible',
      'very unlikely but possible observations are reported impossible',
      '''
import numpy as np
from task_models.lib import pomdp
pomdp.spawn.find_executable = lambda *a, **k: '/bin/true'
e = 1e-9
p = pomdp.POMDP(np.array([[[1 - e, e], [0., 1.]]]), np.array([[[1., 0.], [0., 1.]]]),
                np.zeros((1, 2, 2, 2)), np.array([1., 0.]), .9)
b = p.belief_update(0, 1, np.array([1., 0.]))
assert np.allclose(b, [0., 1.]), b
''')
plant('m03-compensation-target', 'M03',
      [('lib/pomdp.py', 'imax = np.argmax(trunc)', 'imax = np.argmax(a - trunc)')],
      'a distribution with a zero entry whose other entries are all rounded up',
      'rounding correction is put on the entry rounded down most, which can be a zero: negative probability printed',
      '''
import numpy as np
from task_models.lib.pomdp import _dump_1d_array
for a in ([.1, .2, .7], [1. / 3, 1. / 3, 1. / 3], [1. / 6, 1. / 6, 2. / 3 , 0.],
          [.000006, .000006, .000006, 1 - .000018, 0.], [1. / 7] * 7 + [0.]):
    out = [float(x) for x in _dump_1d_array(np.array(a)).split()]
    assert min(out) >= 0 and abs(sum(out) - 1) < 1e-9, out
''')
plant('b03-duplicate-range', 'B03',
      [('lib/belief.py', '                n_part = len(self.part_states)\n', '                n_part = max(len(self.part_states) - 1, 1)\n')],
      'sampling budget exhausted with at least two particles found',
      'the last particle found is never duplicated: the distribution of completed particles is skewed',
      '''
import numpy as np
from task_models.lib.belief import ParticleBelief, MaxSamplesReached
import random
calls = []
def sampler():
    if len(calls) < 2:
        calls.append(1)
        return len(calls) - 1
    raise MaxSamplesReached(0, 0, None)
np.random.seed(0)
b = ParticleBelief(sampler, 2, n_particles=60)
assert len(b.part_states) == 60
assert b.array[1] > .2, b.array
''')
plant('m05-first-best-tie', 'M06',
      [('lib/pomdp.py', '                self.reset(belief=b)  # Restore state for next obs\n                return tree', '                if tree["children"]:\n                    self.reset(belief=b)  # Restore state for next obs\n                return tree')],
      'trajectory tree with several possible observations at the last level',
      'the runner is not moved back after leaves of the tree: siblings of a leaf are computed from the wrong belief',
      '''
import numpy as np
from task_models.lib import pomdp
pomdp.spawn.find_executable = lambda *a, **k: '/bin/true'
T = np.array([[[.5, .5], [.25, .75]]])
O = np.array([[[.75, .25], [.25, .75]]])
p = pomdp.POMDP(T, O, np.zeros((1, 2, 2, 2)), np.array([.5, .5]), .9)
gp = pomdp.GraphPolicy([0], [0, 1], [[0, 0]], [[0., 0.]], init=0)
r = pomdp.GraphPolicyBeliefRunner(gp, p)
t = r.trajectory_tree(1)
for o, c in enumerate(t['children']):
    assert np.allclose(c['belief'], p.belief_update(0, o, np.array([.5, .5]))), t
assert np.allclose(r.current_belief, [.5, .5])
''')
