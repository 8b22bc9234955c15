"""D05: steps of supportive models."""
from ..randomness import distribution
from ..support import Act, Reference, real, decode, encode, SupportivePOMDP
from ..trees import shapes, build, show, linearisations, n_leaves
from ..trees import expanded_leaves, LARGE, LARGER

LETTERS = ('abcdefghijklmnopqrstuvwxyz0123456789'
           'αβγδεζηθικλμνξοπρστυφχψω')
CONDS = [[('c', 'x')], [('u', 'y'), ('s', 'x')], [], [('u', 'x')],
         [('s', 'z'), ('c', 'y')], [('c', 'z')]]
HOLD = [None, 'h', 'v']


def same(i):
    """Leaves of one name; told apart by their first condition."""
    return Act('do it', HOLD[i % 3], [('cus'[i % 3], LETTERS[i])] +
               CONDS[i % len(CONDS)])


def leaf(i):
    return Act('do ' + LETTERS[i], HOLD[i % 3], CONDS[i % len(CONDS)])


def case(ctx, shape, make=leaf):
    root = build(shape, make)
    ref = Reference(root)
    m = real(SupportivePOMDP, root, dict(p_changed_by_human=0.,
                                         p_change_preference=0.))
    what = show(shape)
    n = len(ref.leaves)
    ctx.states_n(n + 2)
    names = [str(x) for x in m.htm_names]
    ctx.eq(len(names), n + 2, 'number of steps', what)
    ctx.eq(names[-2:], ['clean', 'final'], 'last steps', what)
    ctx.eq(sorted(names[:-2]), sorted(x.name for x in ref.leaves),
           'names of steps', what)
    ctx.eq((int(m.n_htm_states), int(m.htm_clean), int(m.htm_final)),
           (n + 2, n, n + 1), 'indices of steps', what)
    def number(k):
        """Leaf of the task that a step stands for."""
        if make is same:
            return LETTERS.index(m.htm_nodes[k].action.conditions[0][1])
        return LETTERS.index(names[k][len('do ')])

    # conditions and hold of each step are those of its action
    for k, node in enumerate(m.htm_nodes):
        orig = make(number(k))
        ctx.eq(node.name, names[k], 'name of step', what)
        ctx.eq((node.action.hold, list(node.action.conditions)),
               (orig.hold, orig.conditions), 'action of step', what)
        ctx.eq([(c, m.objects[o]) for c, o in m.htm_conditions[k]],
               orig.conditions, 'conditions of step', what)
    wait = m.actions.index('wait')

    def succ(k):
        rec = (k, (0,), (0,), (0,) * len(ref.objects))
        s = encode(m, rec, ref)
        d = distribution(lambda: int(m._int_to_state(
            m.sample_transition(wait, s)[0]).htm), stats=ctx)
        return set(d)

    succs = {k: succ(k) for k in range(n)}
    ctx.eq(succ(n), {n + 1}, 'after cleaning', what)
    ctx.eq(succ(n + 1), {n + 1}, 'after the end', what)
    first = set(distribution(lambda: int(m._int_to_state(
        m.sample_start()).htm), stats=ctx))
    words = set()
    todo = [((), k) for k in first]
    while todo:
        w, k = todo.pop()
        if k == n:
            words.add(w)
            ctx.trace()
            continue
        ctx.ensure(k < n and len(w) < n_leaves(shape), 'execution %r goes to '
                   '%s' % (w, names[k]), what)
        w += (number(k),)
        todo += [(w, j) for j in succs[k]]
    ctx.eq(sorted(words), sorted(linearisations(shape)), 'executions', what)
    # steps in the public lists: same graph as the behaviour
    ctx.eq({k: set(map(int, s)) for k, s in enumerate(m.htm_succs)}, succs,
           'listed successors', what)
    ctx.eq(set(map(int, m.htm_init)), first, 'listed initial steps', what)


def run(ctx):
    ctx.assumptions = ['leaves have distinct names']
    jobs = []
    sets = [(1, 2, True), (2, 2, True), (2, 3, True), (3, 2, True),
            (4, 3, False), (4, 2, True), (5, 3, False), (6, 3, False, 'SA')]
    if ctx.thorough:
        sets += [(3, 3, True), (5, 4, False), (4, 3, True),
                 (6, 4, False, 'SA')]
    seen = set()
    for args in sets:
        for shape in shapes(*args):
            if shape in seen:
                continue
            seen.add(shape)
            if expanded_leaves(build(shape, leaf)) > ctx.pick(100, 600):
                continue
            jobs.append((case, show(shape), shape))
            if args[0] in (2, 3) and args[-1] is True:
                jobs.append((case, ['same names', show(shape)], shape, same))
            ctx.sample(show(shape))
    wide = [('S', ('L', ('A', ('L',) * 30), 'L')),
            ('S', (('A', ('L',) * 20), ('A', ('L',) * 34)))]
    for shape in LARGE + wide + (LARGER if ctx.thorough else []):
        jobs.append((case, ['large', show(shape)], shape))
        jobs.append((case, ['large', 'same names', show(shape)], shape, same))
        ctx.sample(show(shape))
    # many orders, many branches
    five = ('P', ('L',) * 5)
    for shape in (five, ('S', (five, 'L')), ('A', (('S', ('L',) * 2),) * 30),
                  ('S', (('A', ('L',) * 30), ('A', ('L',) * 4)))):
        jobs.append((case, ['wide', show(shape)], shape))
    ctx.run_cases(jobs)
