"""V01: the plotting helpers show exactly the data they are given."""
import itertools

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt     # noqa: E402
from matplotlib.colors import same_color    # noqa: E402
import numpy as np      # noqa: E402

from task_models.plot import plot_beliefs   # noqa: E402
from task_models.utils import plot as P     # noqa: E402

SIDES = ['top', 'bottom', 'right', 'left']


class axes(object):
    """Two axes; the helper must draw on one only: the current one, or the
    one given."""

    def __init__(self, ctx, given, case):
        self.ctx, self.given, self.case = ctx, given, case

    def __enter__(self):
        plt.close('all')
        fig = plt.figure()
        one, two = fig.add_subplot(1, 2, 1), fig.add_subplot(1, 2, 2)
        self.ax, self.other = (one, two) if self.given else (two, one)
        plt.sca(two)
        self.kw = {'ax': one} if self.given else {}
        self.before = self.look()
        return self

    def look(self):
        o = self.other
        return (len(o.lines), len(o.collections), len(o.patches),
                o.get_xlim(), o.get_ylim(), o.get_legend(),
                [o.spines[s].get_visible() for s in SIDES],
                [t.get_text() for t in o.get_xticklabels()])

    def __exit__(self, kind, *_):
        if kind is None:
            self.ctx.eq(self.look(), self.before, 'other axes', self.case)
        plt.close('all')


def floats(x):
    return [float(i) for i in x]


def close(ctx, got, want, what, case):
    got, want = np.asarray(got, float), np.asarray(want, float)
    ctx.ensure(got.shape == want.shape and np.allclose(got, want, 1e-9, 1e-9),
               '%s: %s, expected %s' % (what, got.tolist(), want.tolist()),
               case)


def spines(ctx, ax, hidden, case):
    for s in SIDES:
        ctx.eq(ax.spines[s].get_visible(), s not in hidden, s + ' spine',
               case)


# --- curves ------------------------------------------------------------------

def case_var(ctx, y, x, var, style, color, given):
    case = [y, x, var, style, color, given]
    arr = np.array(y, float)
    keep = arr.copy()
    xs = list(range(len(y))) if x is None else list(x)
    means = [sum(r) / len(r) for r in y]
    stds = [(sum((v - m) ** 2 for v in r) / len(r)) ** .5
            for r, m in zip(y, means)]
    kw = {} if x is None else {'x': list(x)}
    if color:
        kw['color'] = color
    if not var:
        kw['var'] = False
    if style:
        kw['var_style'] = style
    with axes(ctx, given, case) as A:
        kw.update(A.kw)
        lines = P.plot_var(arr, **kw)
        main = [ln for ln in A.ax.lines if len(ln.get_xdata()) == len(y)
                and np.allclose(floats(ln.get_xdata()), xs)
                and np.allclose(floats(ln.get_ydata()), means)]
        ctx.ensure(main, 'mean curve not drawn', case)
        ctx.ensure(lines[0] in main, 'curve not returned', case)
        if color:
            ctx.ensure(same_color(lines[0].get_color(), color), 'color', case)
        bars = var and style in ('bar', 'both')
        area = var and style in (None, 'fill', 'both')
        polys = [c for c in A.ax.collections
                 if type(c).__name__ in ('PolyCollection',
                                         'FillBetweenPolyCollection')]
        segs = [c for c in A.ax.collections
                if type(c).__name__ == 'LineCollection']
        ctx.eq((len(polys), len(segs)), (int(area), int(bars)),
               'areas and bars', case)
        if area:
            v = polys[0].get_paths()[0].vertices
            want = set()
            for a, m, s in zip(xs, means, stds):
                want |= {(round(a, 9), round(m - s, 6)),
                         (round(a, 9), round(m + s, 6))}
            got = {(round(float(a), 9), round(float(b), 6)) for a, b in v}
            ctx.ensure(got == want or {(a, b + 0.) for a, b in got} ==
                       {(a, b + 0.) for a, b in want},
                       'area %s, expected %s' % (sorted(got), sorted(want)),
                       case)
            ctx.ensure(same_color(polys[0].get_facecolor()[0][:3],
                                  matplotlib.colors.to_rgb(
                                      lines[0].get_color())),
                       'color of the area', case)
        if bars:
            got = sorted([floats(p) for p in s] for s in
                         segs[0].get_segments())
            want = sorted([[a, m - s], [a, m + s]] for a, m, s in
                          zip(xs, means, stds))
            close(ctx, got, want, 'bars', case)
        spines(ctx, A.ax, ['top', 'right'], case)
    ctx.ensure((arr == keep).all(), 'data changed', case)
    ctx.state(repr(case))
    ctx.trans()
    ctx.trace()


def case_plot(ctx, x, ys, width, given):
    case = [x, ys, width, given]
    with axes(ctx, given, case) as A:
        kw = dict(A.kw)
        if width is not None:
            kw['linewidth'] = width
        args = ([] if x is None else [x]) + [ys]
        lines = P.plot(*args, **kw)
        ctx.eq(len(lines), 1, 'lines', case)
        close(ctx, floats(lines[0].get_ydata()), ys, 'ordinates', case)
        close(ctx, floats(lines[0].get_xdata()),
              range(len(ys)) if x is None else x, 'abscissa', case)
        ctx.eq(lines[0].get_linewidth(), .75 if width is None else width,
               'width', case)
        ctx.eq(A.ax.lines[:], lines, 'drawn', case)
        spines(ctx, A.ax, ['top', 'right'], case)
    ctx.state(repr(case))
    ctx.trans()


def case_legend(ctx, n, where, loc):
    """ax, fig, both or current axes."""
    case = [n, where, loc]
    with axes(ctx, 'ax' in where, case) as A:
        for i in range(n):
            A.ax.plot([0, 1], [i, i], label='l%d' % i)
        kw = {}
        if 'ax' in where:
            kw['ax'] = A.ax
        if 'fig' in where:
            kw['fig'] = A.ax.figure
        if loc:
            kw['loc'] = loc
        elif where == 'fig':
            kw['loc'] = 'upper right'
        leg = P.legend(**kw)
        ctx.eq([t.get_text() for t in leg.get_texts()],
               ['l%d' % i for i in range(n)], 'legend', case)
        if where == 'fig':
            ctx.eq(A.ax.get_legend(), None, 'legend of the axes', case)
            ctx.ensure(leg in A.ax.figure.legends, 'not on the figure', case)
        else:
            ctx.ensure(A.ax.get_legend() is leg, 'not on the axes', case)
            ctx.eq(list(A.ax.figure.legends), [], 'figure legends', case)
        ctx.ensure(leg.get_frame_on(), 'no frame', case)
    ctx.state(repr(case))
    ctx.trans()


# --- boxes -------------------------------------------------------------------

def quantile(v, q):
    v = sorted(v)
    k = (len(v) - 1) * q
    i = int(k)
    j = min(i + 1, len(v) - 1)
    return v[i] + (v[j] - v[i]) * (k - i)


def case_box(ctx, data, labels, colors, given):
    case = [data, labels, colors, given]
    kw = {}
    if labels is not None:
        kw['xticklabels'] = ['b%d' % i for i in range(len(data))] \
            if labels else []
        if not labels:
            labels = None   # no labels: only no exception is expected
            kw.pop('xticklabels')
    if colors:
        kw.update(color='green', median_color='black', linewidth=3,
                  widths=.5)
    with axes(ctx, given, case) as A:
        kw.update(A.kw)
        bp = P.boxplot([list(d) for d in data], **kw)
        ctx.eq(len(bp['medians']), len(data), 'boxes', case)
        for i, d in enumerate(data):
            m = bp['medians'][i]
            close(ctx, floats(m.get_ydata()), [quantile(d, .5)] * 2,
                  'median', case)
            close(ctx, np.mean(floats(m.get_xdata())), i + 1, 'position',
                  case)
            w = .5 if colors else .15
            close(ctx, np.ptp(floats(m.get_xdata())), w, 'width', case)
            ys = floats(bp['boxes'][i].get_ydata())
            close(ctx, [min(ys), max(ys)], [quantile(d, .25),
                                            quantile(d, .75)], 'box', case)
            for k in (2 * i, 2 * i + 1):
                for what in ('whiskers', 'caps'):
                    ctx.ensure(same_color(bp[what][k].get_color(),
                                          'green' if colors else P.BLUE),
                               'color of ' + what, case)
            ctx.ensure(same_color(m.get_color(), 'black' if colors else
                                  P.RED), 'color of medians', case)
            ctx.ensure(same_color(bp['boxes'][i].get_color(), 'green' if
                                  colors else P.BLUE), 'color', case)
            ctx.eq(bp['boxes'][i].get_linewidth(), 3 if colors else 1,
                   'line width', case)
        if labels is not None:
            ctx.eq([t.get_text() for t in A.ax.get_xticklabels()],
                   kw['xticklabels'], 'labels', case)
        spines(ctx, A.ax, ['top', 'right', 'bottom'], case)
    ctx.state(repr(case))
    ctx.trans()
    ctx.trace()


# --- arrays ------------------------------------------------------------------

def shown(ctx, A, mesh, arr, case):
    got = np.asarray(mesh.get_array(), float).reshape(arr.shape)
    close(ctx, got, arr, 'cells', case)
    ctx.ensure(mesh in A.ax.collections, 'drawn elsewhere', case)
    co = np.asarray(mesh.get_coordinates())
    close(ctx, co[..., 0], [list(range(arr.shape[1] + 1))] *
          (arr.shape[0] + 1), 'abscissa', case)
    close(ctx, co[..., 1], [[i] * (arr.shape[1] + 1)
                            for i in range(arr.shape[0] + 1)], 'ordinate',
          case)
    close(ctx, A.ax.get_xlim(), [0, arr.shape[1]], 'x limits', case)
    close(ctx, A.ax.get_ylim(), [0, arr.shape[0]], 'y limits', case)


def labelled(ctx, axis, n, names, case):
    """Label i stands at the middle of cell i."""
    close(ctx, axis.get_ticklocs(), [i + .5 for i in range(n)], 'ticks', case)
    ctx.eq([t.get_text() for t in axis.get_ticklabels()], list(names),
           'labels', case)


def case_mesh(ctx, a, xl, yl, cmap, given):
    case = [a, xl, yl, cmap, given]
    arr = np.array(a, float)
    keep = arr.copy()
    h, w = arr.shape
    kw = {}
    if xl:
        kw['xticklabels'] = ['x%d' % i for i in range(w)]
    if yl:
        kw['yticklabels'] = ['y%d' % i for i in range(h)]
    if cmap:
        kw['cmap'] = plt.get_cmap(cmap)
    with axes(ctx, given, case) as A:
        kw.update(A.kw)
        p = P.pcolormesh(arr, **kw)
        shown(ctx, A, p, arr, case)
        flat = [v for r in a for v in r]
        want = cmap or ('Reds' if min(flat) >= 0 else 'Blues'
                        if max(flat) <= 0 else 'Blues_r')
        ctx.eq(p.get_cmap().name, want, 'colour map', case)
        if xl:
            labelled(ctx, A.ax.xaxis, w, kw['xticklabels'], case)
        if yl:
            labelled(ctx, A.ax.yaxis, h, kw['yticklabels'], case)
        spines(ctx, A.ax, SIDES, case)
    ctx.ensure((arr == keep).all(), 'data changed', case)
    ctx.state(repr(case))
    ctx.trans()
    ctx.trace()


def case_beliefs(ctx, a, ns, ny, cmap, given):
    """ns, ny: number of labels minus number of columns / rows (or None)."""
    case = [a, ns, ny, cmap, given]
    arr = np.array(a, float)
    keep = arr.copy()
    h, w = arr.shape
    kw = {}
    if ns is not None:
        kw['states'] = ['s%d' % i for i in range(w + ns)]
    if ny is not None:
        kw['ylabels'] = ['b%d' % i for i in range(h + ny)]
    if cmap:
        kw['cmap'] = plt.get_cmap(cmap)
    with axes(ctx, given, case) as A:
        kw.update(A.kw)
        try:
            p = plot_beliefs(arr, **kw)
            ok = True
        except (AssertionError, ValueError):
            ok = False
        ctx.eq(ok, ns in (None, 0) and ny in (None, 0), 'accepted', case)
        if ok:
            shown(ctx, A, p, arr, case)
            ctx.eq(p.get_cmap().name, cmap or 'Blues', 'colour map', case)
            labelled(ctx, A.ax.xaxis, w, kw.get('states', [
                str(i) for i in range(w)]), case)
            labelled(ctx, A.ax.yaxis, h, kw.get('ylabels', [
                str(i) for i in range(h)]), case)
    ctx.ensure((arr == keep).all(), 'data changed', case)
    ctx.state(repr(case))
    ctx.trans()
    ctx.trace()


# --- the rest ------------------------------------------------------------------

def case_chart(ctx, hidden, grid, ticks, labels):
    case = [hidden, grid, ticks, labels]
    with axes(ctx, True, case) as A:
        ax = A.ax
        ax.plot([0, 1, 2], [3, 4, 5])
        ax.figure.canvas.draw()
        kw = {k: v for k, v in (('grid', grid), ('ticks', ticks),
                                ('ticklabels', labels)) if v is not None}
        P.remove_chartjunk(ax, list(hidden), **kw)
        ax.figure.canvas.draw()
        spines(ctx, ax, hidden, case)
        for name, axis in (('x', ax.xaxis), ('y', ax.yaxis)):
            gone = ticks is not None and name in ticks
            ctx.eq(not any(t.tick1line.get_visible() or
                           t.tick2line.get_visible()
                           for t in axis.get_major_ticks()), gone,
                   name + ' ticks removed', case)
            gone = labels is not None and name in labels
            ctx.eq(any(t.get_text() for t in axis.get_ticklabels()),
                   not gone, name + ' labels', case)
            ctx.eq(any(g.get_visible() for g in axis.get_gridlines()),
                   grid == name, name + ' grid', case)
    ctx.state(repr(case))
    ctx.trans()


def case_colors(ctx, n):
    seen = []

    def cmap(v):
        seen.append(v)
        return ('color', v)
    got = P.get_n_colors(n, cmap)
    close(ctx, seen, [i / float(n) for i in range(n)], 'values', n)
    ctx.eq(got, [('color', v) for v in seen], 'colors', n)
    real = P.get_n_colors(n, plt.cm.Blues)
    ctx.eq(len(set(real)), n, 'distinct colors', n)
    ctx.trans()


def run(ctx):
    ctx.assumptions = ['figures are inspected through the artists on their '
                       'axes, not rendered']
    jobs = []

    def add(fn, *args):
        jobs.append((fn, [fn.__name__] + list(args)) + args)
    vals = (0, 1, 4)
    opts = [(v, s, c, g) for v in (True, False)
            for s in (None, 'fill', 'bar', 'both', 'none')
            for c in (None, '#ff0000') for g in (True, False)]
    shapes = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1)] + (
        [(1, 3), (3, 2)] if ctx.thorough else [])
    k = 0
    for n, m in shapes:
        for flat in itertools.product(vals, repeat=n * m):
            y = [list(flat[i * m:(i + 1) * m]) for i in range(n)]
            for x in (None, list(range(n, 0, -1)), [.5, 2., 7.][:n]):
                # all options for the small ones, in turn for the others
                few = opts if n * m <= 2 else \
                    [opts[(k + j * 7) % len(opts)] for j in range(4)]
                k += 1
                for o in few:
                    add(case_var, y, x, *o)
    for n in (12, 40):
        y = [[(i * j) % 7 - 2.5 for j in range(1, 9)] for i in range(n)]
        for o in opts:
            add(case_var, y, [i / 3. for i in range(n)], *o)
    for n, m in ((70, 120), (130, 60), (3, 150), (150, 2)):
        y = [[(i * j) % 11 - 2.5 + (j > 50) for j in range(1, m + 1)]
             for i in range(n)]
        for o in opts[::3]:
            add(case_var, y, None, *o)
    for x in (None, [3, 1, 2]):
        for ys in itertools.product((0, 1., -2), repeat=3):
            for w in (None, 0, 2):
                for g in (True, False):
                    add(case_plot, x, list(ys), w, g)
    for n in (1, 2, 5):
        for where in ('', 'ax', 'fig', 'ax fig'):
            for loc in (None, 'upper left'):
                add(case_legend, n, where, loc)
    rows = [[1], [0, 4], [4, 0, 1], [1, 2, 3, 10], [5, 1, 4, 2, 3],
            [-1, -1, -5, 0, 2, 8]]
    for n in (1, 2, 3):
        for data in itertools.product(rows, repeat=n):
            if n == 3 and not ctx.thorough and \
                    len({tuple(d) for d in data}) < 3:
                continue
            for lab in (True, None):
                for col in (False, True):
                    add(case_box, list(data), lab, col, (n + col) % 2 == 0)
    j = 0
    for h, w in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)):
        for flat in itertools.product((0, .5, -2), repeat=h * w):
            a = [list(flat[i * w:(i + 1) * w]) for i in range(h)]
            for xl, yl, cm in itertools.product((True, False), (True, False),
                                                (None, 'Greens')):
                j += 1
                if h * w < 4 or ctx.thorough or j % 3 == 0:
                    add(case_mesh, a, xl, yl, cm, j % 2 == 0)
            for ns, ny in itertools.product((None, 0, -1, 1), repeat=2):
                j += 1
                if h * w < 3 or ctx.thorough or j % 5 == 0:
                    add(case_beliefs, a, ns, ny,
                        None if j % 3 else 'Greens', j % 2 == 0)
    big = [[(i * 3 + j * 5) % 11 / 10. for j in range(23)] for i in range(14)]
    add(case_mesh, big, True, True, None, True)
    add(case_beliefs, big, 0, 0, None, False)
    add(case_beliefs, big, None, None, None, True)
    for r in range(5):
        for hidden in itertools.combinations(SIDES, r):
            for grid in (None, 'x', 'y'):
                for ticks in (None, 'x', 'y', 'xy', ['x', 'y']):
                    for lab in (None, 'x', 'y', ['x'], ['y', 'x']):
                        if r in (0, 2) or ctx.thorough or \
                                len(jobs) % 4 == 0 or lab is None:
                            add(case_chart, list(hidden), grid, ticks, lab)
    for n in (1, 2, 3, 7, 10):
        add(case_colors, n)
    ctx.sample(jobs[0][1])
    ctx.sample(jobs[-1][1])
    ctx.run_cases(jobs)
