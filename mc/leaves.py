"""All kinds of leaf actions of the library, made with given data."""
import numpy as np

from task_models.action import (Action, PrePostConditionAction, Condition,
                                MatchAllCondition)
from task_models.task import AbstractAction
from task_models import task_to_pomdp, bring_next_to_pomdp, supportive
from task_models.snap_circuit import PlaceAction, SnapCircuitPart


class Custom(supportive.SupportedAction):
    def __init__(self, name, hold, conditions):
        supportive.SupportedAction.__init__(self, name)
        self.hold = hold
        self.conditions = conditions


def _supported(i):
    cls = [supportive.AssembleLeg, supportive.AssembleFoot,
           supportive.AssembleTopJoint][i % 3]
    return cls('leg-%d' % i)


KINDS = {
    'abstract': lambda i: AbstractAction('l%d' % i, agent=['human', 'robot',
                                                           'None'][i % 3]),
    'plain': lambda i: Action(name='l%d' % i,
                              agent=['human', 'robot'][i % 2]),
    'collaborative': lambda i: task_to_pomdp.CollaborativeAction(
        'l%d' % i, (1. + i, 20. + i, 30. + i), human_probability=.25 + .1 * i,
        fail_probability=.01 + .1 * i, no_probability=.02 + .1 * i),
    'extreme': lambda i: task_to_pomdp.CollaborativeAction(
        'l%d' % i, (0., 0, 1e6 * i), human_probability=[0., 1., None][i % 3],
        fail_probability=[0., 1.][i % 2], no_probability=[0., 1.][i // 2 % 2]),
    'bring': lambda i: bring_next_to_pomdp.CollaborativeAction(
        'l%d' % i, 'obj%d' % (i % 2)),
    'custom': lambda i: Custom('l%d' % i, [None, 'h', 'v'][i % 3],
                               [(i % 3, 'o%d' % i), (supportive.USES, 'p')]),
    'supported': _supported,
    'top': lambda i: (supportive.BringTop() if i == 0 else
                      supportive.AssembleLegToTop('leg-%d' % i,
                                                  bring_top=bool(i % 2))),
    'prepost': lambda i: PrePostConditionAction(
        Condition(np.array([1, 0]), np.array([i, 0])), MatchAllCondition(),
        name='l%d' % i),
    'place': lambda i: PlaceAction((2, 2), SnapCircuitPart(i % 20, 'l%d' % i),
                                   (i % 2, 1, i % 4)),
}


def same_data(a, b, name=None):
    """Description of the first difference, names compared through `name`."""
    if type(a) is not type(b):
        return 'class %s instead of %s' % (type(b).__name__, type(a).__name__)
    da, db = dict(vars(a)), dict(vars(b))
    na, nb = da.pop('name'), db.pop('name')
    if name is not None and nb != name(na):
        return 'name %r instead of %r' % (nb, name(na))
    for k in set(da) | set(db):
        if k not in da or k not in db:
            return 'attribute %s lost or added' % k
        x, y = da[k], db[k]
        eq = np.array_equal(x, y) if isinstance(x, np.ndarray) else x == y
        if not eq:
            return 'attribute %s is %r instead of %r' % (k, y, x)
    for k in ('hold', 'conditions', 'agent', 'durations', 'obj'):
        if getattr(a, k, None) != getattr(b, k, None):
            return 'attribute %s differs' % k
    return None
