"""E02: elapsed times, encoding of results, progress bars."""
import io
import itertools
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from task_models.utils.multiprocess import get_process_elapsed_time
from task_models.lib.utils import NPEncoder
from task_models.utils import term

# Stand-in for the system command: reports $MC_PS_ETIME (or the seconds when
# these are asked for) and records how it was called.
PS = r'''#!/bin/sh
printf '%s\n' "$*" > "$MC_PS_LOG"
case "$*" in
*etimes=*) printf '%s\n' "$MC_PS_ETIMES" ;;
*etimes*) printf 'ELAPSED\n%s\n' "$MC_PS_ETIMES" ;;
*etime=*) printf '%s\n' "$MC_PS_ETIME" ;;
*etime*) printf 'ELAPSED\n%s\n' "$MC_PS_ETIME" ;;
*) exit 1 ;;
esac
'''


def form(d, h, m, s, padded):
    t = '%02d:%02d' % (m, s)
    if d or h:
        t = '%02d:%s' % (h, t)
    if d:
        t = '%02d-%s' % (d, t) if padded != 2 else '%d-%s' % (d, t)
    if padded:
        t = '%11s' % t
    return t


def case_time(ctx, d, h, m, s, padded, pid, folder):
    log = os.path.join(folder, 'log-%d' % os.getpid())
    sec = ((d * 24 + h) * 60 + m) * 60 + s
    os.environ['MC_PS_LOG'] = log
    os.environ['MC_PS_ETIME'] = form(d, h, m, s, padded)
    os.environ['MC_PS_ETIMES'] = str(sec)
    what = [os.environ['MC_PS_ETIME'], pid]
    t = get_process_elapsed_time() if pid is None else \
        get_process_elapsed_time(pid)
    ctx.ensure(abs(t.total_seconds() - sec) < 1e-6, '%r read as %s' % (
        os.environ['MC_PS_ETIME'], t), what)
    with open(log) as f:
        args = re.findall(r'\d+', f.read())
    ctx.eq(args, [str(os.getpid() if pid is None else pid)],
           'process asked for', what)
    ctx.trans()
    ctx.state((d, h, m, s, padded))


def case_times(ctx, rows, folder):
    for r in rows:
        case_time(ctx, *r, folder)
    ctx.trace()


def case_system(ctx, pid):
    """The command of the system itself, on processes of this check."""
    def ask():
        try:
            return float(subprocess.check_output(
                ['ps', '-o', 'etimes=', '-p', str(pid or os.getpid())]))
        except (OSError, ValueError, subprocess.CalledProcessError):
            return None
    before = ask()
    if before is None:
        return
    t = get_process_elapsed_time() if pid is None else \
        get_process_elapsed_time(pid)
    after = ask()
    ctx.ensure(after is None or before - 1 <= t.total_seconds() <= after + 1,
               'elapsed time %s read as %s' % (before, t), pid)
    ctx.trans()
    ctx.trace()


# --- encoding ---------------------------------------------------------------

def plain(x):
    """What the json of x must denote."""
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, np.generic):
        return x.item() if not isinstance(x, np.longdouble) else float(x)
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def same(a, b):
    if isinstance(a, float) and isinstance(b, (int, float)) and not \
            isinstance(b, bool):
        return a == b or (a != a and b != b)
    if isinstance(b, float) and isinstance(a, int) and not \
            isinstance(a, bool):
        return a == b
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return a == b


def values():
    for t in (np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16,
              np.uint32, np.uint64, np.intc, np.longlong):
        i = np.iinfo(t)
        for v in {0, 1, 7, i.min, i.max}:
            yield t(v)
    for t in (np.float16, np.float32, np.float64, np.longdouble):
        for v in (0., 1., -1.5, .25, 1e-3, 12345., float('inf')):
            yield t(v)
    for dt in (int, float, np.int8, np.uint64, np.float32, bool):
        for shape in ((), (0,), (1,), (3,), (2, 2), (0, 2), (2, 0), (1, 2, 2)):
            n = int(np.prod(shape))
            yield np.arange(n).reshape(shape).astype(dt)
    yield np.array([[1.5, -2.], [0., 1e300]])[:, ::-1]
    yield np.array(['a', 'b'])
    yield np.zeros(5)[1:1]
    for v in (1, 2.5, 'x', None, True, False, [], {}, [1, 'a', None]):
        yield v


def wraps():
    yield 'itself', lambda x: x
    yield 'list', lambda x: [x]
    yield 'tuple', lambda x: (1, x)
    yield 'dict', lambda x: {'k': x, 'z': 0}
    yield 'nested', lambda x: {'a': [{'b': (x, [x])}], 'c': x}
    yield 'twice', lambda x: [[x, {'d': [x]}], np.float64(.5), x]


def case_encode(ctx, v, name, wrap):
    x = wrap(v)
    want = plain(x)
    what = [repr(v), name]
    got = json.loads(json.dumps(x, cls=NPEncoder))
    ctx.ensure(same(got, want), 'decoded as %r, expected %r' % (got, want),
               what)
    f = io.StringIO()
    json.dump(x, f, cls=NPEncoder)
    ctx.ensure(same(json.loads(f.getvalue()), want), 'written as %r' %
               f.getvalue(), what)
    ctx.trans(2)
    ctx.states_n(1)


class Other(object):
    def tolist(self):
        return 'no'

    def item(self):
        return 0

    def __int__(self):
        return 3

    def __float__(self):
        return 3.


def case_refuse(ctx, v, name, wrap):
    try:
        r = json.dumps(wrap(v), cls=NPEncoder)
    except TypeError:
        ctx.trans()
        return
    ctx.fail('%r encoded as %s' % (v, r), name)


# --- progress bars ----------------------------------------------------------

def case_bar(ctx, done, todo, size, count):
    what = [done, todo, size, count]

    def look(t):
        m = re.match(r'^\[(#*)(\.*) +(\d+)%\](.*)$', t)
        ctx.ensure(m, 'bar %r' % t, what)
        k = len(m.group(1))
        ctx.eq(k + len(m.group(2)), size, 'size of bar %r' % t, what)
        share = float(done) / todo
        pc = int(m.group(3))
        for got, full in ((k, size), (pc, 100)):
            ctx.ensure(abs(got - share * full) < 1., 'share %d/%d shown as %r'
                       % (done, todo, t), what)
            ctx.ensure((got == full) == (done == todo), 'completion shown as '
                       '%r' % t, what)
        rest = re.sub('[ ,]', '', m.group(4))
        ctx.eq(rest, '%d/%d' % (done, todo) if count else '', 'count', what)

    look(term.progress_bar(done, todo, count=count, size=size))
    out, sys.stdout = sys.stdout, io.StringIO()
    try:
        term.print_progress_bar(done, todo, count=count, size=size,
                                prefix='>> ')
        term.print_progress_bar(todo + 1, todo, count=count, size=size)
        text = sys.stdout.getvalue()
    finally:
        sys.stdout = out
    ctx.ensure(text.count('>> ') == 1, 'printed %r' % text, what)
    text = text.split('>> ')[1]
    text = re.sub('\x1b\\[[0-9;]*m', '', text)
    ctx.eq(text.endswith('\r\n'), done == todo, 'end of line', what)
    look(text.rstrip('\r\n'))
    ctx.trans(2)
    ctx.states_n(1)


def run(ctx):
    ctx.assumptions = ['the system reports elapsed times in the format '
                       '[[dd-]hh:]mm:ss of ps']
    folder = tempfile.mkdtemp(prefix='mc-e02-')
    path = os.environ['PATH']
    try:
        with open(os.path.join(folder, 'ps'), 'w') as f:
            f.write(PS)
        os.chmod(os.path.join(folder, 'ps'), 0o755)
        os.environ['PATH'] = folder + os.pathsep + path
        edge = (0, 1, 8, 9, 10, 30, 59)
        rows = []
        for d in (0, 1, 2, 9, 10, 31, 365) + ctx.pick((), (99, 100, 5000)):
            for h in (0, 1, 9, 10, 23) + ctx.pick((), (2, 12, 19, 20)):
                for k, (m, s) in enumerate(itertools.product(edge, edge)):
                    if not ctx.thorough and d and k % 3:
                        continue
                    rows.append((d, h, m, s, (k // 3) % 3,
                                 [None, 1, 4242][k % 3]))
        if ctx.thorough:
            rows += [(0, 0, m, s, 0, 77) for m in range(60)
                     for s in range(60)]
        jobs = [(case_times, ['times', rows[i]], rows[i:i + 25], folder)
                for i in range(0, len(rows), 25)]
        ctx.sample(rows[0])
        ctx.run_cases(jobs)
    finally:
        os.environ['PATH'] = path
        shutil.rmtree(folder, ignore_errors=True)
    for pid in (None, os.getpid(), os.getppid()):
        ctx.run_case(case_system, ['system', 'own' if pid is None else
                                   'other'], ctx, pid)
    for v in values():
        for name, w in wraps():
            ctx.run_case(case_encode, [repr(v), name], ctx, v, name, w)
        ctx.sample(repr(v))
    for v in (object(), {1, 2}, 1j, Other(), b'x', Other):
        for name, w in wraps():
            ctx.run_case(case_refuse, [repr(v), name], ctx, v, name, w)
    full = set(range(1, ctx.pick(41, 130))) | {97, 100}
    for todo in list(range(1, 400)) + [999, 1500]:
        for done in sorted(set(range(0, todo + 1, 1 if todo in full else
                                     ctx.pick(37, 7))) |
                           {todo // 2, todo - 1, todo}):
            for size in (50, 10, 7):
                for count in (True, False):
                    ctx.run_case(case_bar, [done, todo, size, count], ctx,
                                 done, todo, size, count)
