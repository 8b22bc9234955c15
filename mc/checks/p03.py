"""P03: horizons."""
import itertools

from task_models.lib.pomcp import NTransitionsHorizon
from task_models.supportive import (SupportivePOMDP, NHTMHorizon, AssembleLeg,
                                    BringTop)
from task_models.task import (HierarchicalTask, SequentialCombination,
                              LeafCombination)

from ..evalimport import evaluation

Evaluated = evaluation().FinishedOrNTransitionsHorizon


class Ref(object):
    """kind: 'n' | 'htm' | 'eval'; counts down."""

    def __init__(self, kind, n, final=False):
        self.kind, self.n, self.final = kind, n, final

    def move(self, h1, h2, last):
        if self.kind == 'htm':
            if h1 != h2:
                self.n -= 1
            self.final = self.final or h2 == last
        else:
            self.n -= 1
            self.final = h2 == last
        return self

    def reached(self):
        if self.kind == 'n':
            return self.n <= 0
        return self.n <= 0 or self.final

    def copy(self):
        return Ref(self.kind, self.n, self.final)

    def key(self):
        return (self.kind, self.n, self.final)


CLS = {'n': NTransitionsHorizon, 'htm': NHTMHorizon, 'eval': Evaluated}


def apply(ctx, model, kind, n, ops, moves, explicit, twin):
    """Fresh objects, history replayed; returns reference states."""
    last = model.n_htm_states - 1
    cls = CLS[kind]
    gen = cls.generator(model, n=n) if explicit else cls.generator(model)
    if explicit == 'direct':
        real = [cls(n) if kind == 'n' else cls(model, n)]
    else:
        real = [gen()]
    real.append(gen() if twin else real[0].copy())
    ref = [Ref(kind, n), Ref(kind, n)]
    for op in ops:
        ctx.trans()
        i = op[0]
        if op[1] == 'copy':
            real.append(real[i].copy())
            ref.append(ref[i].copy())
        elif op[1] == 'new':
            real.append(gen())
            ref.append(Ref(kind, n))
        else:
            s, s2 = moves[op[1]]
            h1 = model._int_to_state(s).htm
            h2 = model._int_to_state(s2).htm
            real[i].decrement(op[2], s, s2, op[3])
            ref[i].move(h1, h2, last)
        for _ in range(2):       # queries change nothing
            for j, (a, b) in enumerate(zip(real, ref)):
                ctx.eq(bool(a.is_reached()), b.reached(),
                       'horizon %d of kind %s, n=%d reached' % (j, kind, n),
                       [kind, n, ops, explicit, twin])
    # everything drawn later is fresh
    late = gen()
    ctx.eq(bool(late.is_reached()), Ref(kind, n).reached(),
           'new horizon of the generator', [kind, n, ops])
    return tuple(r.key() for r in ref)


def case(ctx, model, kind, n, ops, moves, explicit, twin):
    ctx.state((kind, n, explicit, twin) +
              apply(ctx, model, kind, n, ops, moves, explicit, twin))
    ctx.trace()


def run(ctx):
    leaves = [LeafCombination(AssembleLeg('leg-1')),
              LeafCombination(BringTop())]
    htm = HierarchicalTask(root=SequentialCombination(leaves, name='t'))
    model = SupportivePOMDP(htm.root)
    mk = model._int_to_state

    def st(h, extra=0):
        s = mk()
        s.htm = h
        if extra:
            s.set_object(0, 1)
        return s.to_int()
    clean, final = model.htm_clean, model.htm_final
    ctx.assumptions = ['transitions: no change, object change only, next '
                       'step, into the final step, out of or within it']
    moves = {'same': (st(0), st(0)), 'obj': (st(0), st(0, 1)),
             'step': (st(0), st(1)), 'clean': (st(1, 1), st(clean)),
             'end': (st(clean), st(final)), 'jump': (st(0), st(final, 1)),
             'stay': (st(final), st(final, 1)), 'back': (st(final), st(0))}
    # 1. single-object histories, all moves
    depth = ctx.pick(3, 4)
    for kind in CLS:
        for n in range(0, 5):
            for explicit in (True, 'direct'):
                for d in range(depth + 1):
                    for ms in itertools.product(sorted(moves), repeat=d):
                        ops = [(0, m, 0, 0) for m in ms]
                        ctx.run_case(case, [kind, n, explicit, ms], ctx,
                                     model, kind, n, ops, moves, explicit,
                                     False)
    # 2. histories over several copies
    some = ('obj', 'step', 'end')
    depth = ctx.pick(4, 5)
    for kind in CLS:
        for n in (1, 2, 3):
            for twin in (False, True):
                def rec(ops, count):
                    ctx.run_case(case, [kind, n, twin, ops], ctx, model, kind,
                                 n, ops, moves, True, twin)
                    if len(ops) == depth:
                        return
                    for i in range(count):
                        for m in some:
                            rec(ops + [(i, m, len(ops) % 3, 1)], count)
                    if count < 3:
                        for i in range(count):
                            rec(ops + [(i, 'copy')], count + 1)
                        rec(ops + [(0, 'new')], count + 1)
                rec([], 2)
                ctx.sample([kind, n, twin])
    # 3. default lengths
    for kind, n in (('n', 100), ('htm', 3), ('eval', 100)):
        ops = [(0, 'step', 0, 0)] * (n + 1)
        ctx.run_case(case, ['default', kind], ctx, model, kind, n, ops, moves,
                     None, False)
    # 4. long ones, with copies taken on the way
    for kind in CLS:
        for n in (9, 10, 11, 33, 64, 101, 257, 400):
            for m1, m2 in (('step', 'step'), ('step', 'clean'),
                           ('obj', 'step')):
                k = 2 * n if kind == 'htm' and m1 == 'obj' else n
                ops = [(0, (m1, m2)[i % 2], i % 5, i % 3)
                       for i in range(k - 1)]
                ops[k // 2:k // 2] = [(0, 'copy'), (2, 'copy')]
                ops += [(0, 'copy'), (0, m2, 0, 0), (4, m1, 0, 0),
                        (4, m2, 0, 0)]
                ops += [(3, m2, 0, 0)] * (k - k // 2 + 1)
                for explicit in (True, 'direct'):
                    ctx.run_case(case, ['long', kind, n, m1, m2, explicit],
                                 ctx, model, kind, n, ops, moves, explicit,
                                 False)
        for n in (50, 150):
            ops = [(0, 'step', 0, 0)] * 20 + [
                (0, 'copy'), (0, 'end', 0, 0), (0, 'copy'), (2, 'step', 0, 0)]
            ctx.run_case(case, ['long end', kind, n], ctx, model, kind, n,
                         ops, moves, True, False)
