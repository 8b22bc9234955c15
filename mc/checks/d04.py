"""D04: encoding of supportive states."""
import itertools
import re

from task_models.supportive import _SupportivePOMDPState as State

from ..randomness import distribution, dist_diff

SIZES = ('n_htm', 'n_preferences', 'n_body_features', 'n_objects')
GET = {'p': 'has_preference', 'b': 'has_body_feature', 'o': 'has_object'}
SET = {'p': 'set_preference', 'b': 'set_body_feature', 'o': 'set_object'}


def read(x, dims):
    _, p, b, o = dims
    return (int(x.htm),
            tuple(int(x.has_preference(i)) for i in range(p)),
            tuple(int(x.has_body_feature(i)) for i in range(b)),
            tuple(int(x.has_object(i)) for i in range(o)))


def with_(rec, kind, i, v):
    if kind == 'h':
        return (v,) + rec[1:]
    k = 'hpbo'.index(kind)
    f = list(rec[k])
    f[i] = v
    return rec[:k] + (tuple(f),) + rec[k + 1:]


def setters(dims):
    for h in range(dims[0]):
        yield ('h', 0, h)
    for kind, n in zip('pbo', dims[1:]):
        for i in range(n):
            yield (kind, i, 0)
            yield (kind, i, 1)


def apply(x, op):
    kind, i, v = op
    if kind == 'h':
        x.htm = v
    else:
        getattr(x, SET[kind])(i, v)


def check(ctx, x, rec, dims, table, what):
    ctx.eq(read(x, dims), rec, 'features', what)
    ctx.eq(tuple(int(getattr(x, n)) for n in SIZES), dims, 'sizes', what)
    ctx.eq(bool(x.is_final()), rec[0] == dims[0] - 1, 'final', what)
    ctx.eq(int(x.to_int()), table[rec], 'number', what)
    ctx.eq(int(x.n_states), len(table), 'number of states', what)


def case(ctx, dims, depth):
    n = dims[0] * 2 ** sum(dims[1:])
    ctx.eq(int(State(*dims).n_states), n, 'number of states', dims)
    table = {}
    for s in range(n):
        x = State(*dims, s=s)
        rec = read(x, dims)
        ctx.ensure(rec not in table, 'states %r and %d have the same features'
                   ' %r' % (table.get(rec), s, rec), dims)
        ctx.eq(int(x.to_int()), s, 'round trip', dims)
        table[rec] = s
    want = set(itertools.product(
        range(dims[0]), *[itertools.product((0, 1), repeat=k)
                          for k in dims[1:]]))
    ctx.eq(set(table), want, 'set of features', dims)
    ctx.states_n(n)
    ops = list(setters(dims))
    check(ctx, State(*dims), (0,) + tuple((0,) * k for k in dims[1:]), dims,
          table, [dims, 'default'])
    for rec, s in table.items():
        x = State(*dims, s=s)
        what = [dims, rec]
        check(ctx, x, rec, dims, table, what)
        # printed form
        m = re.match(r'^<\s*(\d+): (\d+) ([01]*) ([01]*) ([01]*)>$', str(x))
        ctx.ensure(m, 'printed as %r' % str(x), what)
        ctx.eq((int(m.group(1)), (int(m.group(2)),) + tuple(
            tuple(int(c) for c in m.group(k)) for k in (3, 4, 5))),
            (s, rec), 'printed form', what)
        # single changes on the state itself and on copies
        for op in ops:
            x = State(*dims, s=s)
            y = x.copy()
            ctx.ensure(type(y) is type(x) and y is not x, 'copy', what)
            check(ctx, y, rec, dims, table, what + ['copy'])
            apply(x, op)
            ctx.trans()
            new = with_(rec, *op)
            check(ctx, x, new, dims, table, what + [op])
            check(ctx, y, rec, dims, table, what + [op, 'earlier copy'])
            z = y.copy().copy()
            apply(z, op)
            check(ctx, z, new, dims, table, what + [op, 'on a copy'])
            check(ctx, y, rec, dims, table, what + [op, 'copied'])
    ctx.trace()
    # histories of changes, alternating between a state and copies of it
    for rec, s in (list(table.items())[::max(1, n // 4)]):
        for seq in itertools.product(ops, repeat=depth):
            x, r = State(*dims, s=s), rec
            for op in seq:
                apply(x, op)
                r = with_(r, *op)
                ctx.trans()
            check(ctx, x, r, dims, table, [dims, rec, seq])
            ctx.trace()


def large_records(dims):
    """All steps with no, all, a single and all but a single feature set, and
    all pairs of neighbouring ones."""
    n = sum(dims[1:])

    def rec(h, bits):
        out, k = [h], 0
        for m in dims[1:]:
            out.append(tuple(bits[k:k + m]))
            k += m
        return tuple(out)
    for h in range(dims[0]):
        for v in (0, 1):
            yield rec(h, [v] * n)
            for i in range(n):
                yield rec(h, [v ^ (j == i) for j in range(n)])
                yield rec(h, [v ^ (j in (i, (i + 1) % n)) for j in range(n)])


def case_large(ctx, dims):
    """Sizes beyond full enumeration: selected states, every change."""
    n = dims[0] * 2 ** sum(dims[1:])
    ops = list(setters(dims))
    if dims[0] > 12:
        ops = [o for o in ops if o[0] != 'h' or o[2] % 7 in (0, 3)
               or o[2] == dims[0] - 1]
    seen = {}

    def look(x, rec, what):
        ctx.eq(read(x, dims), rec, 'features', what)
        ctx.eq(tuple(int(getattr(x, m)) for m in SIZES), dims, 'sizes', what)
        ctx.eq(bool(x.is_final()), rec[0] == dims[0] - 1, 'final', what)
        ctx.eq(int(x.n_states), n, 'number of states', what)
        s = int(x.to_int())
        ctx.ensure(0 <= s < n, 'number %d of %d states' % (s, n), what)
        ctx.eq(seen.setdefault(s, rec), rec, 'features of number %d' % s,
               what)
        return s
    for rec in large_records(dims):
        x = State(*dims)
        x.htm = rec[0]
        for kind, bits in zip('pbo', rec[1:]):
            for i, b in enumerate(bits):
                apply(x, (kind, i, b))
        what = [dims, rec]
        s = look(x, rec, what)
        y = State(*dims, s=s)
        look(y, rec, what + ['from number'])
        m = re.match(r'^<\s*(\d+): (\d+) ([01]*) ([01]*) ([01]*)>$', str(y))
        ctx.ensure(m, 'printed as %r' % str(y), what)
        ctx.eq((int(m.group(1)), (int(m.group(2)),) + tuple(
            tuple(int(c) for c in m.group(k)) for k in (3, 4, 5))),
            (s, rec), 'printed form', what)
        for op in ops:
            z = y.copy()
            apply(z, op)
            ctx.trans()
            look(z, with_(rec, *op), what + [op])
        look(y, rec, what + ['after changes of copies'])
        ctx.trace()
    ctx.states_n(len(seen))


def flips(rec, k, p):
    out = {}
    for f in itertools.product((0, 1), repeat=len(rec[k])):
        w = 1.
        for x in f:
            w *= p if x else 1 - p
        new = rec[:k] + (tuple(a ^ b for a, b in zip(rec[k], f)),) + \
            rec[k + 1:]
        out[new] = out.get(new, 0.) + w
    return out


def case_random(ctx, dims, p, only=None):
    n = dims[0] * 2 ** sum(dims[1:])
    for s in (range(n) if only is None else only):
        rec = read(State(*dims, s=s), dims)
        for k, meth in ((1, 'random_preference_changes'),
                        (3, 'random_object_changes')):
            def go():
                x = State(*dims, s=s)
                getattr(x, meth)(p)
                return read(x, dims)
            d = dist_diff(distribution(go, stats=ctx), flips(rec, k, p))
            ctx.ensure(d is None, '%s(%r) from %r: %s' % (meth, p, rec, d),
                       dims)
            ctx.trace()


def run(ctx):
    hi = ctx.pick((4, 2, 2, 3), (6, 3, 2, 4))
    dims = sorted(itertools.product(range(1, hi[0] + 1), range(hi[1] + 1),
                                    range(hi[2] + 1), range(hi[3] + 1)),
                  key=lambda d: (d[0] * 2 ** sum(d[1:]), d))
    jobs = []
    for d in dims:
        n_ops = d[0] + 2 * sum(d[1:])
        jobs.append((case, list(d), d, 3 if n_ops < ctx.pick(8, 11) else 2))
        if d[0] <= 2 and sum(d[1:]) <= ctx.pick(5, 7):
            for p in (.01, .3, 0., 1.):
                jobs.append((case_random, ['random', d, p], d, p))
        ctx.sample(d)
    # larger ones: many objects, as the real models have
    jobs.append((case, [7, 1, 1, 6], (7, 1, 1, 6), 1))
    jobs.append((case, [3, 1, 1, 7], (3, 1, 1, 7), 1))
    jobs.append((case, [11, 3, 0, 1], (11, 3, 0, 1), 1))
    for d in ((65, 1, 1, 9), (9, 4, 3, 16), (130, 1, 1, 3), (3, 9, 1, 21),
              (40, 2, 1, 12), (2, 0, 0, 40), (2, 12, 0, 0)):
        jobs.append((case_large, ['large', d], d))
        ctx.sample(d)
    for d in ((2, 1, 1, 10), (2, 10, 1, 1), (70, 5, 1, 6)):
        n = d[0] * 2 ** sum(d[1:])
        for p in (.01, 1e-4, .999):
            jobs.append((case_random, ['random', d, p], d, p, (
                0, n - 1, n // 3, 2 * n // 3)))
    ctx.run_cases(jobs)
