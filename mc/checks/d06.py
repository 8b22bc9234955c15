"""D06: outcome distribution of the supportive simulator."""
import itertools

from ..randomness import distribution, dist_diff
from ..support import (Act, Reference, TwoPreferences, CLASSES, real, decode,
                       encode, SupportivePOMDP)
from ..trees import build, show, skew, LARGE, expanded_leaves

PARAMS = {
    'default': {},
    'calm': dict(p_changed_by_human=0., p_change_preference=0.),
    'certain': dict(p_changed_by_human=0., p_change_preference=0., p_fail=0.,
                    p_consume_all=1.),
    'varied': dict(p_fail=.25, p_consume_all=.125, p_changed_by_human=0.,
                   p_change_preference=.375, r_subtask=7., r_final=31.,
                   r_preference=4., cost_get=2.5, cost_intrinsic=.5,
                   cost_hold=3.),
    'independent': dict(reward_independent_preference=True,
                        p_changed_by_human=0., r_preference=6.,
                        cost_hold=1.5, r_subtask=3.),
    'moving': dict(p_changed_by_human=.2, p_change_preference=0., p_fail=.5,
                   p_consume_all=.75, reward_independent_preference=True),
    'rare': dict(p_changed_by_human=0., p_change_preference=.0004,
                 p_fail=.0003, p_consume_all=.9996, cost_get=.25,
                 cost_intrinsic=.125, cost_hold=20., r_preference=3.,
                 reward_independent_preference=True),
    'rarer': dict(p_changed_by_human=.0005, p_change_preference=.9995,
                  p_fail=.9995, p_consume_all=.0004, r_subtask=-2.,
                  r_final=-.5, cost_get=0., cost_intrinsic=0., cost_hold=0.),
}


def case(ctx, shape, specs, pname, two, modes, proba=None):
    root = build(shape, lambda i: Act('do %s' % 'abc'[i], *specs[i]), proba)
    cls = TwoPreferences if two else SupportivePOMDP
    kw = dict(preferences=2, p_pref=TwoPreferences.p_preferences) \
        if two else {}
    params = PARAMS[pname]
    ref = Reference(root, **dict(kw, **params))
    m = real(cls, root, params)
    what = [show(shape), specs, pname]
    states = ref.states()
    ctx.eq(int(m.n_states), len(states), 'number of states', what)
    ctx.eq(sorted(m.actions), sorted(ref.actions), 'actions', what)
    nums = {}
    for rec in states:
        s = encode(m, rec, ref)
        ctx.eq(decode(m, s, ref), rec, 'decoding', what)
        nums[rec] = s
    ctx.eq(len(set(nums.values())), len(states), 'distinct states', what)
    ctx.states_n(len(states))
    compare(ctx, m, ref, nums, len(states), modes, what)


def compare(ctx, m, ref, nums, n_states, modes, what):
    obs = m.observations
    for rec, s in nums.items():
        ctx.eq(bool(m.is_final(s)), rec[0] == 'final', 'final', [what, rec])
        for a, name in enumerate(m.actions):
            for random in modes:
                def go():
                    n0 = m.n_simulator_calls
                    out = m.sample_transition(a, s) if random is True else \
                        m.sample_transition(a, s, random=random)
                    ctx.ensure(m.n_simulator_calls == n0 + 1, 'simulation '
                               'counted %r times' % (m.n_simulator_calls - n0,
                                                     ), what)
                    s2, o, r = out
                    ctx.ensure(0 <= s2 < n_states, 'state %r' % (s2,),
                               [what, rec, name])
                    return (decode(m, s2, ref), obs[int(o)],
                            round(float(r), 6) + 0.)
                got = distribution(go, stats=ctx)
                want = ref.kernel(rec, name, bool(random))
                d = dist_diff(got, want)
                ctx.ensure(d is None, '%s from %r%s: %s' % (
                    name, rec, '' if random else ' without randomness', d),
                    what)
                ctx.trace()


def case_large(ctx, shape, specs, pname, extra):
    """Many steps, objects and preferences: selected states, every action."""
    root = build(shape, lambda i: Act('do %d' % i, *specs[i % len(specs)]))
    cls = CLASSES[extra + 1]
    ref = Reference(root, preferences=extra + 1, p_pref=cls.p_preferences,
                    **PARAMS[pname])
    m = real(cls, root, PARAMS[pname])
    what = [show(shape), specs, pname, extra]
    nums, n = selection(ctx, m, ref, extra, what)
    compare(ctx, m, ref, nums, n, (True, False), what)


def selection(ctx, m, ref, extra, what):
    """Numbers of states of selected steps, preferences and objects."""
    no = len(ref.objects)
    n = len(ref.steps) * 2 ** (extra + 2 + no)
    ctx.eq(int(m.n_states), n, 'number of states', what)
    ctx.eq(list(m.actions), ref.actions, 'actions', what)
    prefs = {(b,) + (c,) * extra for b in (0, 1) for c in (0, 1)}
    rows = [(v,) * no for v in (0, 1)] + [
        tuple((i + v) % 2 for i in range(no)) for v in (0, 1)]
    rows += [tuple(int(i == j) for j in range(no))
             for i in sorted({0, no // 2, no - 1} & set(range(no)))]
    nums = {}
    steps = ref.steps if len(ref.steps) <= 8 else ref.steps[:3] + \
        ref.steps[-5:]
    full = {k for k in range(len(ref.leaves)) if len(ref.succ[k]) > 4}
    if full:
        steps = sorted(full)[:1] + steps[-3:]
    for k, (step, pr, row) in enumerate(itertools.product(
            steps, sorted(prefs), rows)):
        rec = (step, pr, (k % 2,), row)
        s = encode(m, rec, ref)
        ctx.eq(decode(m, s, ref), rec, 'decoding', what)
        ctx.ensure(0 <= s < n, 'number %d of %d states' % (s, n), what)
        nums[rec] = s
    ctx.eq(len(set(nums.values())), len(nums), 'distinct states', what)
    ctx.states_n(len(nums))
    return nums, n


def conditions(objs):
    """All lists of conditions with distinct objects of objs, in order."""
    for k in range(len(objs) + 1):
        for sub in itertools.permutations(objs, k):
            for kinds in itertools.product('cus', repeat=k):
                yield list(zip(kinds, sub))


def run(ctx):
    ctx.assumptions = [
        'rewards compared up to 1e-6',
        'without randomness: no spontaneous change, no failure, unwanted '
        'holds fail, questions are answered; the successor among several '
        'and partial consumption stay random']
    jobs = []
    modes = (True, False)

    def add(shape, specs, pnames, two=False):
        for p in pnames:
            jobs.append((case, [show(shape), specs, p, two], shape, specs, p,
                         two, modes))
        ctx.sample([show(shape), specs])

    every = list(PARAMS)
    for hold in (None, 'h', 'v'):
        for cs in conditions(['x', 'y']):
            add('L', [(hold, cs)], every)
        for cs in list(conditions(['x']))[::ctx.pick(2, 1)]:
            add('L', [(hold, cs)], ['default', 'varied', 'independent'],
                two=True)
    # the same object in several conditions: they apply in order
    for kinds in itertools.product('cus', repeat=2):
        add('L', [('h', [(k, 'x') for k in kinds])],
            ['calm', 'varied', 'moving'])
    add('L', [('v', [('c', 'x'), ('u', 'y'), ('s', 'x'), ('c', 'x')])],
        ['calm', 'independent'])
    # objects of similar names
    for kinds in itertools.product('cus', repeat=2):
        for names in (['x', 'X'], ['leg', 'leg1'], ['x', 'x ']):
            add('L', [('h', list(zip(kinds, names)))], ['calm', 'moving'])
            add(('S', ('L', 'L')), [('v', list(zip(kinds, names))),
                                    (None, [(kinds[0], names[1])])],
                ['calm'])
    # unequal alternatives
    for shape in (('A', ('L', 'L')), ('S', ('L', ('A', ('L', 'L')))),
                  ('A', ('L', ('A', ('L', 'L'))))):
        specs = [('h', [('u', 'x')]), (None, []), ('v', [('c', 'x')])]
        jobs.append((case, ['unequal', show(shape)], shape, specs, 'calm',
                     False, modes, skew))
    rot = 0
    for kind in 'SAP':
        shape = (kind, ('L', 'L'))
        for h1, h2 in itertools.product((None, 'h', 'v'), repeat=2):
            for c1 in conditions(['x', 'y']):
                for c2 in conditions(['y', 'z']):
                    rot += 1
                    if (rot % 10) and not ctx.thorough:
                        continue
                    if kind == 'P' and rot % 30 and not ctx.thorough:
                        continue
                    n = len({o for _, o in c1 + c2})
                    if n == 3 and rot % ctx.pick(40, 3):
                        continue
                    names = every if n < 3 else ['calm', 'varied',
                                                 'independent']
                    add(shape, [(h1, c1), (h2, c2)],
                        [names[(rot // 10) % len(names)]])
    some = [('h', [('u', 'x'), ('c', 'y')]), (None, [('s', 'y')]),
            ('v', [('c', 'x'), ('u', 'z')])]
    for shape in (('S', ('L', 'L', 'L')), ('A', ('L', 'L', 'L')),
                  ('S', ('L', ('A', ('L', 'L')))),
                  ('A', ('L', ('S', ('L', 'L')))),
                  ('S', (('A', ('L', 'L')), 'L')),
                  ('A', (('A', ('L', 'L')), 'L')),
                  ('S', (('P', ('L', 'L')), 'L'))):
        for specs in itertools.islice(itertools.permutations(some), 0, None,
                                      ctx.pick(2, 1)):
            add(shape, list(specs), ['calm', 'independent'])
            if ctx.thorough:
                add(shape, list(specs), ['moving', 'varied'])
    nine = [('h', [('cus'[(i + j) % 3], 'o%d' % ((3 * i + j) % 9))
                   for j in range(4)]) for i in range(9)]
    six = [('v', [('csu'[i % 3], 'o%d' % i) for i in range(6)])]
    for k, shape in enumerate(['L'] + LARGE):
        root = build(shape, lambda i: Act('do %d' % i, *nine[i % 9]))
        if expanded_leaves(root) > 60:
            continue
        for specs, extra in ((nine, 0), (nine[::4], 1), (six, 4)):
            for p in (['calm', 'rare'] if not ctx.thorough else
                      ['calm', 'rare', 'certain', 'varied', 'independent']):
                if extra and p in ('rare', 'varied'):
                    continue
                jobs.append((case_large, ['large', show(shape), specs, p],
                             shape, specs, p, extra))
    # cheap cases first, so that workers stay balanced
    ctx.run_cases(jobs)
