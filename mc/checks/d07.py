"""D07: starts, names and summaries of supportive models."""
import itertools

from ..randomness import distribution, dist_diff
from ..support import (Act, Reference, CLASSES, real, decode, encode)
from ..trees import build, show, LARGE, expanded_leaves
from .d06 import conditions


def make_root(shape, specs):
    return build(shape, lambda i: Act('do %s' % NAMES[i % len(NAMES)],
                                      *specs[i % len(specs)]))


def case_start(ctx, shape, specs, two, p_pref, p_change):
    root = make_root(shape, specs)
    cls = CLASSES[int(two) + 1]
    params = dict(p_changed_by_human=p_change)
    m = real(cls, root, params)
    if p_pref is None:
        p_pref = cls.p_preferences
    else:
        m.p_preferences = list(p_pref)
    ref = Reference(root, preferences=len(p_pref), p_pref=p_pref, **params)
    calls = m.n_simulator_calls
    got = distribution(lambda: decode(m, m.sample_start(), ref), stats=ctx)
    d = dist_diff(got, ref.start())
    ctx.ensure(d is None, 'start: %s' % d, [show(shape), specs, p_pref,
                                            p_change])
    ctx.eq(m.n_simulator_calls, calls, 'simulator calls of start', show(shape))
    ctx.trace()
    ctx.states_n(len(got))


def case_names(ctx, shape, specs, two):
    root = make_root(shape, specs)
    cls = CLASSES[int(two) + 1]
    m = real(cls, root, dict(p_changed_by_human=0., p_change_preference=0.,
                             p_fail=0.))
    ref = Reference(root, preferences=len(cls.preferences))
    what = [show(shape), specs]
    ctx.eq(list(m.objects), ref.objects, 'objects', what)
    ctx.eq(list(m.actions), ref.actions, 'actions', what)
    ctx.eq(int(m.n_actions), len(ref.actions), 'number of actions', what)
    ctx.eq(list(m.observations), ['none', 'fail', 'not-found', 'yes', 'no'],
           'observations', what)
    ctx.eq(int(m.n_observations), 5, 'number of observations', what)
    prefs = [x + '-preference' for x in cls.preferences]
    feats = ['HTM'] + prefs + ['holding'] + ref.objects
    ctx.eq(list(m.features), feats, 'features', what)
    ctx.eq(list(m.htm_names), [x.name for x in ref.leaves] + ['clean',
                                                              'final'],
           'step names', what)
    n = (len(ref.leaves) + 2) * 2 ** (len(prefs) + 1 + len(ref.objects))
    ctx.eq(int(m.n_states), n, 'number of states', what)
    names = list(m.states) if n <= 50000 else []
    ctx.eq(len(names), n if names else 0, 'number of state names', what)
    ctx.eq(len(set(names)), len(names), 'distinct state names', what)
    ctx.states_n(len(names))
    ctx.trace()
    for s, x in enumerate(names):
        rec = decode(m, s, ref)
        step = {'clean': len(ref.leaves),
                'final': len(ref.leaves) + 1}.get(rec[0], rec[0])
        ctx.eq([w for w in str(x).strip('<>').replace(':', ' ').split()],
               [w for w in [str(s), str(step)] + [
                   ''.join(map(str, rec[k])) for k in (1, 2, 3)] if w],
               'state name', what)
        ctx.eq(bool(m.is_final(s)), rec[0] == 'final', 'final', what)
    # every action does what its name says, from states where this shows
    a_of = m.actions.index
    for o, obj in enumerate(ref.objects):
        for v, verb in ((1, 'bring '), (0, 'clear ')):
            if verb + obj not in m.actions:
                ctx.ensure(not v and obj not in ref.clearable, 'no action %s'
                           % (verb + obj), what)
                continue
            rec = (0, (0,) * len(prefs), (0,), tuple(
                1 - v if k == o else (k + v) % 2
                for k in range(len(ref.objects))))
            s2, ob, r = m.sample_transition(a_of(verb + obj),
                                            encode(m, rec, ref))
            new = rec[:3] + (tuple(v if k == o else x
                                   for k, x in enumerate(rec[3])),)
            ctx.eq(decode(m, s2, ref), new, 'effect of %s' % (verb + obj),
                   what)
            ctx.eq(m.observations[ob], 'none', 'observation of %s' % (
                verb + obj), what)
            ctx.trans()
    # wait is the only action ending the cleaning, ask the only one answered
    clean = encode(m, ('clean', (1,) * len(prefs), (0,),
                       (0,) * len(ref.objects)), ref)
    for a, name in enumerate(m.actions):
        s2, ob, r = m.sample_transition(a, clean, random=False)
        ctx.eq(decode(m, s2, ref)[0] == 'final', name == 'wait',
               'end of cleaning by %s' % name, what)
        ctx.eq(m.observations[ob] == 'yes', name == 'ask hold',
               'answer to %s' % name, what)
        ctx.trans()
    for k, leaf in enumerate(ref.leaves):
        s = encode(m, (k, (1,) * len(prefs), (0,), (1,) * len(ref.objects)),
                   ref)
        for name in ('hold H', 'hold V', 'wait'):
            s2, ob, r = m.sample_transition(a_of(name), s, random=False)
            good = name == 'wait' or leaf.action.hold == name[-1].lower()
            ctx.eq(decode(m, s2, ref)[0] != k, good, '%s ends step %r' % (
                name, leaf.name), what)
            ctx.trans()


NAMES = 'abcdab'   # later leaves repeat names
# many objects, of names close to each other
MANY = [('h', [('u', 'x'), ('c', 'X'), ('c', 'x y')]),
        ('v', [('c', 'y'), ('s', 'x '), ('c', 'z')]),
        (None, [('s', 'z'), ('c', 'x'), ('u', 'Bring')]),
        ('h', [('c', 'w'), ('u', 'leg1'), ('s', 'leg')])]
# names of all lengths, sorting before and after each other
LONG = [('h', [('u', 'a phillips screwdriver, size two'), ('s', 'Z'),
               ('u', 'phillips screwdriver')]),
        (None, [('c', 'z' * 70), ('u', '0'), ('s', 'caf\xe9'), ('u', 'B-b')]),
        ('v', [('u', 'b b'), ('c', 'A'), ('s', '~')])]
WIDE = [('h', [('cus'[(i + j) % 3], 'o%d' % (3 * i + j)) for j in range(4)])
        for i in range(9)]


def run(ctx):
    ctx.assumptions = ['an action does not list the same object twice']
    jobs = []
    shapes2 = [('S', ('L', 'L')), ('A', ('L', 'L')), ('P', ('L', 'L'))]
    shapes3 = [('A', ('L', 'L', 'L')), ('S', ('L', ('A', ('L', 'L')))),
               ('A', ('L', ('S', ('L', 'L')))), ('P', ('L', 'L', 'L')),
               ('A', ('L', ('P', ('L', 'L')))), ('S', ('L', 'L', 'L')),
               ('A', ('L', ('A', ('L', 'L')))),
               ('S', (('A', ('L', 'L')), 'L'))]
    two_cs = list(itertools.product(conditions(['x', 'y']),
                                    conditions(['y', 'z', 'x'])))
    k = 0
    for cs in conditions(['x', 'y', 'z']):
        for two in (False, True):
            jobs.append((case_names, ['L', cs, two], 'L', [('h', cs)], two))
            for pc in (.01, .3, 0.):
                for pp in (None, [0.] * (1 + two), [1.] * (1 + two),
                           [.9, .05][:1 + two]):
                    jobs.append((case_start, ['L', cs, two, pc, pp], 'L',
                                 [('h', cs)], two, pp, pc))
    for shape in shapes2:
        for c1, c2 in two_cs:
            k += 1
            sp = [('v', c1), ('h', c2)]
            jobs.append((case_names, [show(shape), sp], shape, sp, False))
            if ctx.thorough or k % 3 == 0:
                jobs.append((case_names, [show(shape), sp, 2], shape, sp,
                             True))
                jobs.append((case_start, [show(shape), sp], shape, sp,
                             k % 2 == 0, None, [.01, .25][k // 2 % 2]))
        ctx.sample([show(shape), sp])
    one = list(conditions(['x', 'y']))
    for shape in shapes3:
        for c3 in itertools.product(one, one[::2], one[::3]):
            k += 1
            if not ctx.thorough and k % 5:
                continue
            sp = list(zip(['h', None, 'v'], c3))
            jobs.append((case_names, [show(shape), sp], shape, sp, False))
            jobs.append((case_start, [show(shape), sp], shape, sp, False,
                         None, .125))
            if ctx.thorough:
                jobs.append((case_names, [show(shape), sp, 2], shape, sp,
                             True))
    for specs in (MANY[:2], MANY[1:3], MANY, MANY[::-1], LONG,
                  LONG[::-1], LONG[:1]):
        for shape in (('S', 'LLL'), ('A', 'LLLL'), ('P', 'LL')):
            shape = (shape[0], tuple(shape[1]))
            for two in (0, 1, 4):
                jobs.append((case_names, ['many', show(shape), specs, two],
                             shape, specs, two))
    for shape in LARGE + ['L', ('S', ('L',) * 9)]:
        if expanded_leaves(make_root(shape, WIDE)) > 60:
            continue
        for specs in (WIDE, WIDE[:1], MANY):
            jobs.append((case_names, ['large', show(shape), specs], shape,
                         specs, 0))
        jobs.append((case_start, ['large', show(shape)], shape, WIDE[:1], 4,
                     None, .01))
        jobs.append((case_start, ['large 0', show(shape)], shape, MANY[:3], 0,
                     None, 0.))
        ctx.sample(show(shape))
    jobs.append((case_start, ['objects'], 'L', [(None, [
        ('cu'[i % 2], 'o%d' % i) for i in range(9)])], 1, None, .01))
    jobs.append((case_start, ['steps'], ('A', (('S', ('L',) * 12),) * 10),
                 MANY[:2], 1, None, .03))
    jobs.append((case_start, ['steps 0'], ('A', (('S', ('L',) * 12),) * 10),
                 WIDE, 4, None, 0.))
    for pp in ([.9995, .004], [1e-4, .99], [0., 1.]):
        for pc in (.0005, .99, 1.):
            jobs.append((case_start, ['rare', pp, pc], ('A', ('L', 'L')),
                         MANY[:1], 1, pp, pc))
    ctx.run_cases(jobs)
