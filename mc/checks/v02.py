"""V02: the viewers show exactly the exported trees and policies.

The pages of visualization/ run as they are (html, scripts) on the small
document of mc/js; every small tree or policy, and every sequence of clicks
on it up to a depth, is enumerated, and what is drawn is compared with the
exported data."""
import itertools
import json
import os
import re
import subprocess

import numpy as np

from mc import core
from mc.models import big

JS = os.path.join(core.VERIF, 'mc', 'js', 'view.js')
BASE = os.path.join(core.REPO, 'visualization')
OBS = ['none', 'yes', 'no', 'error']
TRAJ = 'trajectories/trajectories.html'
POMCP = 'pomcp/pomcp.html'
POLICY = 'policy/policy.html'
HTM = 'htm/htm.html'
ROS = 'htm-ros-subscriber/htm-ros-subscriber.html'

_node = {}


def view(ctx, case, page, files, first, events, errors=False):
    """Last view of the page after the events, as an element."""
    p = _node.get(os.getpid())
    if p is None or p.poll() is not None:
        p = _node[os.getpid()] = subprocess.Popen(
            ['node', JS, BASE], stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, universal_newlines=True)
    p.stdin.write(json.dumps({'page': page, 'files': files, 'first': first,
                              'events': events, 'all': False}) + '\n')
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        raise core.Skip('the document interpreter stopped')
    r = json.loads(line)
    if 'skipped' in r:
        raise core.Skip('not offered by the document interpreter: ' +
                        r['skipped'])
    ctx.ensure('failed' not in r, 'page fails: %s' % r.get('failed'), case)
    if not errors:
        ctx.eq(r['errors'], [], 'errors in the page', case)
    ctx.trace()
    ctx.trans(len(events))
    return E(r['shots'][-1], None)


class E(object):
    """An element."""

    def __init__(self, d, parent):
        self.tag, self.attrs, self.own, kids, self.style = d
        self.parent = parent
        self.kids = [E(k, self) for k in kids]

    def walk(self):
        for k in self.kids:
            yield k
            for x in k.walk():
                yield x

    @property
    def cls(self):
        return self.attrs.get('class', '').split()

    @property
    def text(self):
        return ' '.join((self.own + ''.join(
            k.text for k in self.kids)).split())

    def all(self, tag, cls=None):
        return [e for e in self.walk() if e.tag == tag and
                (cls is None or cls in e.cls)]

    def kid(self, tag):
        return next((k for k in self.kids if k.tag == tag), None)

    def within(self, *cls):
        e = self
        while e is not None:
            if e.tag in ('marker', 'defs') or any(c in e.cls for c in cls):
                return True
            e = e.parent
        return False


def numbers(s):
    return [float(x) for x in re.findall(
        r'-?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?', s)]


def place(e):
    return tuple(numbers(e.attrs.get('transform', ''))[:2])


def same(a, b):
    return all(abs(x - y) < 1e-6 for x, y in zip(a, b))


# -- what is drawn ------------------------------------------------------------

def drawn(ctx, doc, case, shape, depth_axis):
    """Forest of (label, group, link above, kids) built from the positions."""
    svg = doc.all('svg')[0]
    groups = [g for g in svg.all('g') if g.kid(shape) and g.kid('text') and
              not g.within('legend', 'legendcnt', 'combination')]
    links = [p for p in svg.all('path') if not p.within()]
    for p in links:
        ctx.ensure('link' in p.cls, 'path which is no link', case)
    for g in groups:
        ctx.ensure(len(place(g)) == 2, 'node without a place', case)
    at = [place(g) for g in groups]
    for a, b in itertools.combinations(at, 2):
        ctx.ensure(not same(a, b), 'two nodes in the same place', case)
    ends = []
    for p in links:
        n = numbers(p.attrs.get('d', ''))
        ctx.ensure(len(n) >= 4, 'link without ends', case)
        ends.append((n[:2], n[-2:]))

    def assign(off):
        out = []
        for s, t in ends:
            pair = []
            for q in (s, t):
                m = [i for i, a in enumerate(at)
                     if same((a[0] + off[0], a[1] + off[1]), q)]
                if len(m) != 1:
                    return None
                pair.append(m[0])
            out.append(tuple(pair))
        return out
    pairs = []
    if ends:
        if shape == 'circle':
            offs = [(0., 0.)]
        else:
            offs = [(ends[0][0][0] - a[0], ends[0][0][1] - a[1]) for a in at]
        found = [x for x in (assign(o) for o in offs) if x is not None]
        ctx.ensure(found, 'links do not join the nodes', case)
        pairs = found[0]
    kids = {i: [] for i in range(len(at))}
    above = {}
    for (s, t), p in zip(pairs, links):
        ctx.ensure(t not in above and s != t, 'two links to a node', case)
        above[t] = p
        kids[s].append(t)

    def build(i, seen=()):
        ctx.ensure(i not in seen, 'links in a circle', case)
        ks = sorted(kids[i], key=lambda k: at[k][1 - depth_axis])
        return Shown(groups[i], above.get(i), at[i],
                     [build(k, seen + (i,)) for k in ks])
    roots = [i for i in kids if i not in above]
    return [build(i) for i in roots], len(groups)


class Shown(object):

    def __init__(self, group, link, at, kids):
        self.group, self.link, self.at, self.kids = group, link, at, kids
        self.label = group.kid('text').text

    def walk(self, depth=0):
        yield depth, self
        for k in self.kids:
            for x in k.walk(depth + 1):
                yield x


def same_forest(ctx, case, got, want, node_test):
    """want: (label, data, [wanted kids]); labels may be None."""
    def show(n):
        if isinstance(n, Shown):
            return [n.label, [show(k) for k in n.kids]]
        return [n[0], [show(k) for k in n[2]]]

    def rec(g, w, parent):
        if w[0] is not None:
            ctx.eq(g.label, w[0], 'label', case)
        ctx.ensure(len(g.kids) == len(w[2]), 'children shown: %s, expected %s'
                   % (show(g), show(w)), case)
        node_test(g, w, parent)
        for a, b in zip(g.kids, w[2]):
            rec(a, b, w)
    ctx.ensure(len(got) == len(want), 'shown: %s, expected %s' % (
        [show(g) for g in got], [show(w) for w in want]), case)
    for g, w in zip(got, want):
        rec(g, w, None)


def levels(ctx, case, root, axis):
    by = {}
    for d, n in root.walk():
        by.setdefault(d, set()).add(round(n.at[axis], 6))
    for d in by:
        ctx.ensure(len(by[d]) == 1, 'depth %d spread out' % d, case)
    order = [min(by[d]) for d in sorted(by)]
    ctx.ensure(all(a < b for a, b in zip(order, order[1:])),
               'deeper nodes are not further', case)


def marker(ctx, doc, p, case):
    m = re.match(r'^url\(#(.*)\)$', p.attrs.get('marker-end', ''))
    ctx.ensure(m, 'no arrow at the end of a link', case)
    found = [e for e in doc.all('marker') if e.attrs.get('id') == m.group(1)]
    ctx.ensure(len(found) == 1, 'marker %s' % m.group(1), case)
    return m.group(1)


def link_obs(ctx, doc, p, obs, case, seen, every=OBS):
    ctx.ensure(obs in p.cls and not any(
        o in p.cls for o in every if o != obs),
        'link of observation %s has class %s' % (obs, p.cls), case)
    m = marker(ctx, doc, p, case)
    obs = obs if obs in OBS else 'other'
    seen.setdefault(obs, set()).add(m)
    ctx.ensure((len(seen[obs]) == 1 or obs == 'other') and not any(
        m in seen[o] for o in seen if o != obs),
        'arrows do not tell observations apart', case)


# -- trees --------------------------------------------------------------------

def shapes(n):
    """Ordered trees of n nodes, as nested tuples."""
    if n == 1:
        return [()]
    return [f for f in forests(n - 1)]


def forests(n):
    if n == 0:
        return [()]
    out = []
    for k in range(1, n + 1):
        for a in shapes(k):
            for b in forests(n - k):
                out.append((a,) + b)
    return out


ACTIONS = ['wait', 'ask', 'hold', 'bring', 'clean', 'stop', 'turn', 'open']
VALUES = [
    ([1, 2.5, None], [0.5, 0.25, None], [3, 1, 0], 'hold'),
    ([-2, -1, 0.5], [0.125, 2, 0.25], [0, 5, 2], 'ask'),
    ([None, 4, 4], [None, 1, 0.5], [1, 1, 7], 'wait'),
    ([3, None, -3], [1, None, 0.5], [2, 0, 2], 'hold'),
    ([0, 0.25, 0.25], [0, 0, 1], [10, 4, 9], 'ask'),
    ([None, None, -5], [None, None, 0.25], [0, 0, 1], 'wait'),
]
BELIEFS = [[1, 0], [0.25, 0.75], [0, 1], [0.5, 0.5]]


def tree_json(shape, turn, pomcp, count=None, names='', hole=False):
    """Node of a trajectory or search tree; children get observations in an
    order that turns with the node."""
    count = count if count is not None else itertools.count()
    i = next(count)
    k = (i * 3 + turn) % 4
    obs = [OBS[(k + j) % 4] for j in range(len(shape))]
    d = {'observations': obs, 'belief': BELIEFS[(i + turn) % 4]}
    if pomcp:
        v, t, n, a = VALUES[(i + turn) % len(VALUES)]
        d.update(values=v, exploration_terms=t, child_visits=n,
                 action=names + ACTIONS[i % 8] + str(i), visits=5 + i,
                 value=0.5 * i - 1, observed=None)
    else:
        d.update(action=names + ACTIONS[(i + turn) % 8], node=i + turn)
    d['children'] = []
    for r, s in enumerate(shape):
        c = tree_json(s, turn, pomcp, count, names)
        if pomcp:
            c['observed'] = r
        d['children'].append(c)
    return d


def label(d):
    return '[%s] %s' % (d['node'], d['action']) if d.get('node') is not None else \
        d['action']


class TreeModel(object):
    """Which nodes of a trajectory or search tree are open."""

    def __init__(self, root):
        self.root, self.open = root, set([self.key(root)])

    def key(self, d):
        return label(d)

    def shown(self):
        def rec(d):
            kids = [rec(c) for c in d['children']] \
                if self.key(d) in self.open else []
            return (label(d), d, kids)
        return rec(self.root)

    def labels(self):
        out = []

        def rec(w):
            out.append((w[0], w[1]))
            for k in w[2]:
                rec(k)
        rec(self.shown())
        return out

    def click(self, lab):
        self.open ^= set([lab])


class AnyTreeModel(TreeModel):
    """Labels may be repeated."""

    def key(self, d):
        return id(d)


def look_tree(ctx, doc, case, model, title=None):
    got, n = drawn(ctx, doc, case, 'circle', 0)
    seen = {}

    def test(g, w, parent):
        circle, text = g.group.kid('circle'), g.group.kid('text')
        for e in (circle, text):
            ctx.eq('initial' in e.cls, parent is None,
                   '%s highlighted as initial' % w[0], case)
        ctx.ensure(float(circle.attrs['r']) > 1, 'circle too small', case)
        ctx.ensure(float(text.style.get('fill-opacity', 1)) > .5,
                   'label not visible', case)
        if parent is not None:
            o = parent[1]['observations'][
                [c is w[1] for c in parent[1]['children']].index(True)]
            link_obs(ctx, doc, g.link, o, case, seen)
    same_forest(ctx, case, got, [model.shown()], test)
    levels(ctx, case, got[0], 0)
    titles = [t.text for t in doc.all('text', 'title')]
    ctx.eq(len(titles), 1, 'titles', case)
    if title is not None:
        ctx.eq(titles[0], title, 'title', case)
    return got


def case_tree(ctx, page, shape, turn, depth):
    """Every sequence of clicks, then the file opened again or another."""
    pomcp = page == POMCP
    data = tree_json(shape, turn, pomcp)
    other = tree_json(((), ((),)), turn + 1, pomcp, names='x-')
    jobs = [[]]
    done = 0

    def pack(root):
        d = {'graphs': [root]}
        if pomcp:
            d.update(states=['s0', 's1'], actions=['wait', 'ask', 'hold'],
                     exploration=1, relative_exploration=False)
        return d
    files = {'mine.json': pack(data), 'other.json': pack(other)}
    while jobs:
        seq = jobs.pop()
        model = TreeModel(data)
        for lab in seq:
            model.click(lab)
        ev = [{'type': 'click', 'label': x,
               'shape': 'text' if i % 2 else 'circle'}
              for i, x in enumerate(seq)]
        case = {'page': page, 'tree': data, 'clicks': seq}
        doc = view(ctx, case, page, files, 'mine.json', ev)
        look_tree(ctx, doc, case, model)
        done += 1
        if pomcp:
            for g in doc.all('g'):
                if g.kid('circle'):
                    d = [x for x in model.labels()
                         if x[0] == g.kid('text').text][0][1]
                    t = g.kid('title').text
                    for k in ('action', 'visits', 'value'):
                        ctx.ensure(re.search(
                            r'%s:? *%s(?![\d.])' % (
                                k, re.escape(js(d[k]))), t, re.I),
                            'title of %s: %s' % (g.kid('text').text, t), case)
        if len(seq) == depth:
            continue
        jobs += [seq + [lab] for lab, _ in model.labels()]
        if len(seq) <= 1 and len(seq) == depth - 2:
            again(ctx, page, files, ev, data, other, case)
    ctx.states_n(done)


def again(ctx, page, files, ev, data, other, case):
    refresh = {'type': 'press', 'id': ('pomcp' if page == POMCP else
                                       'trajectory') + '-refresh'}
    pick = {'type': 'file', 'file': 'other.json'}
    back = {'type': 'file', 'file': 'mine.json'}
    one = {'type': 'click', 'label': label(other['children'][1])}
    for more, root, clicks, title in [
            ([refresh], data, [], None),
            ([pick], other, [], 'other'),
            ([pick, one], other, [one['label']], 'other'),
            ([pick, one, refresh], other, [], 'other'),
            ([pick, back], data, [], 'mine')]:
        model = TreeModel(root)
        for c in clicks:
            model.click(c)
        case = dict(case, then=more)
        doc = view(ctx, case, page, files, 'mine.json', ev + more)
        look_tree(ctx, doc, case, model, title)


def js(x):
    if isinstance(x, str):
        return x
    return str(int(x)) if x == int(x) else str(x)


# -- the tables of the search tree --------------------------------------------

def cells(doc, table, row):
    t = [e for e in doc.all('table') if e.attrs.get('id') == table][0]
    r = [e for e in t.all('tr') if sorted(e.cls) == sorted(row.split())]
    return r[0].all('td') if r else []


def heads(doc, table, row):
    t = [e for e in doc.all('table') if e.attrs.get('id') == table][0]
    r = [e for e in t.all('tr') if row in e.cls][0]
    return [h for h in r.all('th') if 'legend' not in h.cls]


def num(e):
    t = e.attrs.get('title')
    return None if t is None or t == '' or t == 'null' else float(t)


def look_tables(ctx, doc, case, d, file):
    ctx.eq([h.text for h in heads(doc, 'belief-container', 'states')],
           file['states'], 'states', case)
    ctx.eq([num(c) for c in cells(doc, 'belief-container', 'belief')],
           [float(b) for b in d['belief']], 'belief', case)
    h = heads(doc, 'value-container', 'actions')
    ctx.eq([x.text for x in h], file['actions'], 'actions', case)
    ctx.eq([x.text for x in h if 'best' in x.cls],
           [a for a in file['actions'] if a == d['action']],
           'action chosen', case)
    vals = d['values']
    known = [v for v in vals if v is not None]
    e = file.get('exploration')
    e = 1. if e is None else e
    if file.get('relative_exploration') and known:
        e *= max(known) - min(known)
    aug = [None if v is None else v + e * (t or 0)
           for v, t in zip(vals, d['exploration_terms'])]
    for row, want in (('values', vals), ('augmented values', aug)):
        got = cells(doc, 'value-container', row)
        g = [num(c) for c in got]
        ctx.ensure(len(g) == len(want) and all(
            (x is None) == (y is None) and
            (x is None or abs(x - y) < 1e-9) for x, y in zip(g, want)),
            '%s: %s, expected %s' % (row, g, want), case)
        top = [x for x in want if x is not None]
        if top:
            ctx.eq([i for i, c in enumerate(got) if 'best' in c.cls],
                   [i for i, x in enumerate(want) if x == max(top)],
                   'best of ' + row, case)
    got = cells(doc, 'value-container', 'visits')
    n = d['child_visits']
    ctx.eq([c.text for c in got], [str(x) if x else '' for x in n],
           'visits', case)
    if any(n):
        ctx.eq([i for i, c in enumerate(got) if 'best' in c.cls],
               [i for i, x in enumerate(n) if x == max(n)],
               'most visited', case)


def case_tables(ctx, turn, expl, relative, order):
    """Nodes looked at one after the other, also after another file."""
    root = tree_json(((), ((),), ()), turn, True)
    kid = tree_json(((),), turn + 2, True, names='x-')

    def pack(r, states, actions):
        d = {'graphs': [r], 'states': states, 'actions': actions}
        if expl != 'absent':
            d['exploration'] = expl
        if relative is not None:
            d['relative_exploration'] = relative
        return d

    def rename(d, i=0):
        d['action'] = ['wait', 'ask', 'hold'][(i + turn) % 3]
        for j, c in enumerate(d['children']):
            rename(c, i + j + 1)
        return d
    mine = pack(root, ['s0', 's1'], ['wait', 'ask', 'hold'])
    other = pack(kid, ['full', 'gone'], ['look', 'x-wait0', 'x-ask1'])
    files = {'mine.json': mine, 'other.json': other}
    nodes = [root] + root['children'] + root['children'][1]['children']
    open2 = {'type': 'click', 'label': label(root['children'][1])}
    mine['actions'] = [nodes[order[0]]['action'], 'ask',
                       nodes[order[1]]['action']]
    ev = [open2]
    for i in order:
        ev = ev + [{'type': 'mouseover', 'label': label(nodes[i])}]
        case = {'page': POMCP, 'files': files, 'events': ev}
        doc = view(ctx, case, POMCP, files, 'mine.json', ev)
        look_tables(ctx, doc, case, nodes[i], mine)
    for n in (kid, kid['children'][0]):
        ev2 = ev + [{'type': 'file', 'file': 'other.json'},
                    {'type': 'mouseover', 'label': label(n)}]
        case = {'page': POMCP, 'files': files, 'events': ev2}
        doc = view(ctx, case, POMCP, files, 'mine.json', ev2)
        look_tables(ctx, doc, case, n, other)
        ctx.states_n(1)


# -- policies -----------------------------------------------------------------

def look_policy(ctx, doc, case, pol, done, title=None):
    svg = doc.all('svg')[0]
    n = len(pol['actions'])
    bad = any(t is not None and t >= n for r in pol['transitions'] for t in r)
    groups = [g for g in svg.all('g') if g.kid('circle') and g.kid('text')]
    links = [p for p in svg.all('path') if not p.within()]
    if bad:
        ctx.eq((len(groups), len(links)), (0, 0), 'drawn nodes, links of an '
               'unusable policy', case)
        ctx.ensure(any('message' in t.cls and t.text
                       for t in svg.all('text')), 'no message', case)
        return
    ctx.ensure(not any('error' in t.cls and 'message' in t.cls
                       for t in svg.all('text')), 'message', case)
    labels = ['[%d] %s' % (i, a) for i, a in enumerate(pol['actions'])]
    ctx.eq(sorted(g.kid('text').text for g in groups), sorted(labels),
           'nodes', case)
    at = {}
    for g in groups:
        i = labels.index(g.kid('text').text)
        at[i] = place(g)
        for e in (g.kid('circle'), g.kid('text')):
            ctx.eq('initial' in e.cls, i == int(pol['initial']),
                   'node %d highlighted as initial' % i, case)
    for a, b in itertools.combinations(at.values(), 2):
        ctx.ensure(not same(a, b), 'two nodes in the same place', case)
    got, seen = [], {}
    for p in links:
        x = numbers(p.attrs.get('d', ''))
        ends = []
        for q in (x[:2], x[-2:]):
            m = [i for i in at if same(at[i], q)]
            ctx.ensure(len(m) == 1, 'arrow from or to nowhere', case)
            ends.append(m[0])
        o = [o for o in pol['observations'] if o in p.cls]
        ctx.ensure(len(o) == 1, 'arrow of observations %s' % o, case)
        link_obs(ctx, doc, p, o[0], case, seen, pol['observations'])
        got.append((ends[0], ends[1], o[0]))
    want = [(i, t, o) for i, r in enumerate(pol['transitions'])
            for t, o in zip(r, pol['observations'])
            if t is not None and (done or o != 'done')]
    ctx.eq(sorted(got), sorted(want), 'arrows', case)
    legend = [g.kid('text').text for g in svg.all('g', 'legend')]
    ctx.eq(legend, pol['observations'], 'legend', case)
    titles = [t.text for t in svg.all('text', 'title')]
    ctx.eq(len(titles), 1, 'titles', case)
    if title is not None:
        ctx.eq(titles[0], title, 'title', case)


def case_policy(ctx, pol):
    case = {'page': POLICY, 'policy': pol}
    doc = view(ctx, case, POLICY, {'mine.json': pol}, 'mine.json', [])
    look_policy(ctx, doc, case, pol, True)
    ctx.states_n(1)


def policies(nodes, obs, initials=None, over=False):
    targets = [None] + list(range(nodes))
    for t in itertools.product(targets, repeat=nodes * len(obs)):
        rows = [list(t[i * len(obs):(i + 1) * len(obs)])
                for i in range(nodes)]
        for init in initials or range(nodes):
            yield {'actions': [['wait', 'ask', 'wait', 'hold'][i % 4]
                               for i in range(nodes)],
                   'observations': list(obs), 'transitions': rows,
                   'values': [[0.]] * nodes, 'initial': str(init)}


OFF = {'type': 'press', 'id': 'd_op_off'}
ON = {'type': 'press', 'id': 'd_op_on'}
AGAIN = {'type': 'press', 'id': 'policy-refresh'}


def case_policy_events(ctx, a, b, depth):
    """Every sequence of: done on, done off, refresh, either file."""
    files = {'a.json': a, 'b.json': b}
    acts = [OFF, ON, AGAIN, {'type': 'file', 'file': 'a.json'},
            {'type': 'file', 'file': 'b.json'}]
    for k in range(depth + 1):
        for ev in itertools.product(acts, repeat=k):
            done, cur, picked = True, 'a', False
            for e in ev:
                if e['type'] == 'file':
                    cur, picked = e['file'][0], True
                elif e is not AGAIN:
                    done = e is ON
            case = {'page': POLICY, 'files': files, 'events': ev}
            doc = view(ctx, case, POLICY, files, 'a.json', list(ev))
            look_policy(ctx, doc, case, files[cur + '.json'], done,
                        cur if picked else None)
            ctx.states_n(1)


# -- task trees ---------------------------------------------------------------

COMB = {'Sequential': u'\u2192', 'Parallel': '||', 'Alternative': 'v'}
KINDS = ['Sequential', 'Parallel', 'Alternative']
ATTRS = [[], ['human'], ['robot'], ['highlighted'], ['robot', 'highlighted']]


def htm_json(shape, turn, count=None, parent=None, names='', leaf='none'):
    count = count if count is not None else itertools.count()
    i = next(count)
    d = {'id': i, 'parent': parent, 'name': names + 'task %d' % i,
         'attributes': ATTRS[(i + turn) % 5],
         'combination': KINDS[(i + turn) % 3] if shape else None}
    if shape or leaf == 'empty':
        d['children'] = [htm_json(s, turn, count, i, names, leaf)
                         for s in shape]
    if not shape and leaf == 'empty':
        d['combination'] = 'Sequential'
    return d


def about(d):
    return d['combination'], bool(d.get('children'))


class HtmModel(object):

    def __init__(self, depth):
        self.depth, self.root, self.open = depth, None, set()
        self.entered = {}

    def load(self, root, fresh=False):
        self.root = root
        self.open = set()
        if fresh:
            self.entered = {}

        def rec(d, depth):
            # the root always shows its children
            if depth == 0 or depth < self.depth:
                self.open.add(d['id'])
            for c in d.get('children') or []:
                rec(c, depth + 1)
        rec(root, 0)
        self.update()

    def update(self):
        now = dict((d['id'], d) for _, d in self.labels())
        for i in list(self.entered):
            if i not in now:
                del self.entered[i]
        for i in now:
            self.entered.setdefault(i, (i in self.open, about(now[i])))

    def shown(self):
        def rec(d):
            kids = d.get('children') or []
            return (d['name'], d, [rec(c) for c in kids]
                    if d['id'] in self.open else [])
        return rec(self.root)

    def labels(self):
        out = []

        def rec(w):
            out.append((w[0], w[1]))
            for k in w[2]:
                rec(k)
        rec(self.shown())
        return out

    def click(self, i):
        self.open ^= set([i])
        self.update()


def look_htm(ctx, doc, case, model):
    if model.root is None:
        _, n = drawn(ctx, doc, case, 'rect', 1)
        return ctx.eq(n, 0, 'nodes before any file', case)
    got, n = drawn(ctx, doc, case, 'rect', 1)

    def test(g, w, parent):
        d = w[1]
        kids = d.get('children') or []
        c = g.group.cls
        ctx.eq(sorted(set(c) & set(['human', 'robot', 'highlighted'])),
               sorted(d['attributes']), 'attributes of ' + w[0], case)
        is_open = d['id'] in model.open
        ctx.eq('collapsed' in c, bool(kids) and not is_open,
               '%s marked as collapsed' % w[0], case)
        was_open, was = model.entered[d['id']]
        if was != about(d):
            return      # another task under the same id: left open
        comb = g.group.all('g', 'combination')
        if not kids:
            ctx.eq(len(comb), 0, 'combination of the leaf ' + w[0], case)
        ctx.ensure(len(comb) <= 1, 'several combinations', case)
        if comb:
            ctx.eq(comb[0].kid('text').text, COMB[d['combination']],
                   'combination of ' + w[0], case)
        if kids and is_open and was_open:
            ctx.eq(len(comb), 1, 'combination of ' + w[0], case)
    same_forest(ctx, case, got, [model.shown()], test)
    levels(ctx, case, got[0], 1)


def legend_htm(ctx, doc, case):
    ctx.eq(sorted(g.kid('text').text for g in doc.all('g', 'legend')),
           sorted(['human', 'robot', 'highlighted', 'collapsed', 'subtask']),
           'legend', case)


EXPAND = {'type': 'press', 'id': 'htm-expand'}
COLLAPSE = {'type': 'press', 'id': 'htm-collapse'}
REFRESH = {'type': 'press', 'id': 'htm-refresh'}


def case_htm(ctx, shape, turn, depth, leaf='none', buttons=False):
    data = htm_json(shape, turn, leaf=leaf)
    other = htm_json((((),), ()), turn + 1, names='other ', leaf=leaf)
    files = {'mine.json': {'name': 't', 'nodes': data},
             'other.json': {'name': 'o', 'nodes': other}}
    pick = {'type': 'file', 'file': 'other.json'}

    def run(seq):
        model = HtmModel(3)
        model.load(data)
        cur = data
        ev = []
        for k, x in enumerate(seq):
            if isinstance(x, int):
                names = dict((d['id'], n) for n, d in model.labels())
                ev.append({'type': 'click', 'label': names[x],
                           'shape': 'rect' if k % 2 else 'text'})
                model.click(x)
                continue
            ev.append(x)
            if x is EXPAND:
                model.depth = 2000
            elif x is COLLAPSE:
                model.depth = 3
            elif x is pick:
                cur = other
            model.load(cur, fresh=x is pick)
        case = {'page': HTM, 'tree': data, 'events': ev}
        doc = view(ctx, case, HTM, files, 'mine.json', ev)
        look_htm(ctx, doc, case, model)
        if not seq:
            legend_htm(ctx, doc, case)
        ctx.states_n(1)
        return [d['id'] for _, d in model.labels()]
    jobs = [[]]
    while jobs:
        seq = jobs.pop()
        ids = run(seq)
        if len(seq) < depth:
            jobs += [seq + [i] for i in ids]
            if buttons:
                jobs += [seq + [x] for x in (EXPAND, COLLAPSE, REFRESH, pick)]


def case_ros(ctx, trees, depth):
    """Messages, clicks and buttons in every order."""
    msgs = [{'type': 'ros', 'data': {'name': 'm', 'nodes': t}}
            for t in trees]

    def run(seq):
        model = HtmModel(5)
        ev = []
        for x in seq:
            if isinstance(x, int):
                names = dict((d['id'], n) for n, d in model.labels())
                ev.append({'type': 'click', 'label': names[x]})
                model.click(x)
                continue
            ev.append(x)
            if x['type'] == 'ros':
                model.load(trees[msgs.index(x)])
                continue
            if x is EXPAND:
                model.depth = 2000
            elif x is COLLAPSE:
                model.depth = 3
            if model.root is not None:
                model.load(model.root)
        case = {'page': ROS, 'events': ev}
        doc = view(ctx, case, ROS, {}, None, ev)
        look_htm(ctx, doc, case, model)
        ctx.states_n(1)
        return [] if model.root is None else [
            d['id'] for _, d in model.labels()]
    jobs = [[]]
    while jobs:
        seq = jobs.pop()
        ids = run(seq)
        if len(seq) < depth:
            jobs += [seq + [x] for x in msgs + [EXPAND, COLLAPSE, REFRESH]]
            jobs += [seq + [i] for i in ids]


def named(m):
    m.observations = OBS[:m.no]
    m.names = True
    return m


def chain(n):
    return () if n == 1 else (chain(n - 1),)


# -- real exports -------------------------------------------------------------

def case_bundled(ctx, page, name):
    """The files that come with the viewers."""
    p = os.path.join(BASE, os.path.dirname(page), 'json', name)
    data = json.load(open(p))
    case = {'page': page, 'file': p}
    doc = view(ctx, case, page, {name: data}, name, [])
    if page == POLICY:
        svg = doc.all('svg')[0]
        ctx.eq(len([g for g in svg.all('g') if g.kid('circle')]),
               len(data['actions']), 'nodes', case)
        want = [o for r in data['transitions']
                for t, o in zip(r, data['observations']) if t is not None]
        got = [o for q in svg.all('path') if not q.within()
               for o in data['observations'] if o in q.cls]
        ctx.eq(sorted(got), sorted(want), 'arrows', case)
    elif page == TRAJ:
        root = data['graphs'][0]
        got, n = drawn(ctx, doc, case, 'circle', 0)
        seen = {}

        def test(g, w, parent):
            ctx.ensure(g.label.startswith('[%s]' % w[1]['node']),
                       'label ' + g.label, case)
            if parent is not None:
                link_obs(ctx, doc, g.link, parent[1]['observations'][
                    parent[1]['children'].index(w[1])], case, seen)
        same_forest(ctx, case, got, [(None, root, [
            (None, c, []) for c in root['children']])], test)
    else:
        got, n = drawn(ctx, doc, case, 'rect', 1)

        def want(d, depth):
            return (None, d, [want(c, depth + 1)
                              for c in d.get('children') or []]
                    if depth == 0 or depth < 3 else [])

        def test(g, w, parent):
            ctx.ensure(set(w[1].get('attributes') or []) <=
                       set(g.group.cls), 'attributes', case)
        same_forest(ctx, case, got, [want(data['nodes'], 0)], test)
        levels(ctx, case, got[0], 1)
    ctx.states_n(1)


def case_export(ctx, build, clicks):
    """Tasks as exported by the library."""
    from task_models.action import Action
    from task_models.task import (HierarchicalTask, LeafCombination,
                                  SequentialCombination,
                                  AlternativeCombination,
                                  ParallelCombination)
    cls = {'s': SequentialCombination, 'a': AlternativeCombination,
           'p': ParallelCombination}
    n = itertools.count()

    def make(b):
        i = next(n)
        if isinstance(b, str):
            return LeafCombination(Action('%s %d' % (b, i)),
                                   highlighted=b == 'hold')
        return cls[b[0]]([make(c) for c in b[1:]], name='group %d' % i)
    d = HierarchicalTask(root=make(build)).as_dictionary()
    model = HtmModel(3)
    model.load(d['nodes'])
    case = {'page': HTM, 'task': build}
    doc = view(ctx, case, HTM, {'t.json': d}, 't.json', [])
    look_htm(ctx, doc, case, model)
    ctx.states_n(1)


def open_all(ctx, page, files, root, case, tables=None, limit=40):
    """Opens everything, node by node."""
    ev = []
    model = AnyTreeModel(root)
    while True:
        case = dict(case, events=ev)
        doc = view(ctx, case, page, files, 'x.json', ev)
        got = look_tree(ctx, doc, case, model)
        ctx.states_n(1)
        pairs = []

        def pair(g, w):
            pairs.append((g, w[1]))
            for a, b in zip(g.kids, w[2]):
                pair(a, b)
        pair(got[0], model.shown())
        if tables:
            for g, d in pairs[:limit]:
                if 'values' not in d:
                    continue
                hover = ev + [{'type': 'mouseover',
                               'at': g.group.attrs['transform']}]
                look_tables(ctx, view(ctx, case, page, files, 'x.json',
                                      hover), dict(case, events=hover), d,
                            tables)
        for g, d in pairs:
            if d['children'] and id(d) not in model.open and \
                    len(ev) < limit:
                ev = ev + [{'type': 'click',
                            'at': g.group.attrs['transform']}]
                model.click(id(d))
                break
        else:
            return


def case_search_export(ctx, name, m, horizon, n, rel):
    """Search trees exported by the planner."""
    import tempfile
    from task_models.lib.pomcp import POMCPPolicyRunner, export_pomcp
    pol = POMCPPolicyRunner(m.real(), iterations=1, horizon=horizon,
                            exploration=2., relative_exploration=rel,
                            logger=lambda *a: None)
    np.random.seed(n)
    acts = itertools.cycle(range(len(m.actions)))
    for _ in range(n):
        pol.tree.simulate_from_node(pol.tree.root, action=next(acts))
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'x.json')
        export_pomcp(pol, path)
        with open(path) as f:
            data = json.load(f)
    case = {'page': POMCP, 'model': name, 'horizon': horizon, 'searches': n}
    open_all(ctx, POMCP, {'x.json': data}, data['graphs'][0], case, data)


def case_policy_export(ctx, name, m, pol, horizon):
    """Policies and their trajectories exported by the library."""
    from task_models.lib.pomdp import GraphPolicy, GraphPolicyBeliefRunner
    g = GraphPolicy(pol['actions'], pol['observations'],
                    [[0 if t is None else t for t in r]
                     for r in pol['transitions']],
                    [[1., 2.], [2., 1.], [0., 0.]][:len(pol['actions'])],
                    init=int(pol['initial']))
    case = {'page': POLICY, 'exported': pol}
    data = json.loads(g.to_json())
    doc = view(ctx, case, POLICY, {'x.json': data}, 'x.json', [])
    look_policy(ctx, doc, case, data, True)
    run = GraphPolicyBeliefRunner(g, m.real())
    data = json.loads(json.dumps(run.trajectory_trees_from_starts(
        horizon=horizon)))
    case = {'page': TRAJ, 'model': name, 'exported': pol}
    open_all(ctx, TRAJ, {'x.json': data}, data['graphs'][0], case)


def page_files(page):
    d = os.path.join(BASE, os.path.dirname(page), 'json')
    if not os.path.isdir(d):
        return
    for name in sorted(os.listdir(d)):
        data = json.load(open(os.path.join(d, name)))
        if page == HTM and not (isinstance(data.get('nodes'), dict) and
                                data['nodes'].get('children') and
                                'id' in data['nodes']):
            continue
        yield name


def run(ctx):
    jobs = []

    def add(fn, name, *a):
        jobs.append((fn, {'case': name, 'args': repr(a)[:300]}) + a)
    top = ctx.pick(5, 6)
    for n in range(1, top + 1):
        for s in shapes(n):
            for turn in range(ctx.pick(2, 4)):
                depth = ctx.pick(3 if n < 5 else 2, 4 if n < 6 else 3)
                add(case_tree, 'trajectories', TRAJ, s, turn, depth)
                add(case_tree, 'search tree', POMCP, s, turn, depth)
    for turn in range(6):
        for expl in (1, 2, 0, 0.5, None, 'absent'):
            for rel in (False, True, None):
                for order in ctx.pick(
                        [(0, 1, 2), (3, 2, 4)],
                        list(itertools.permutations(range(5), 3))[::4]):
                    add(case_tables, 'tables', turn, expl, rel, order)
    obs = ['none', 'yes', 'no', 'error', 'done']
    pols = []
    for n, k in ctx.pick([(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 1)],
                         [(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 1),
                          (2, 3), (4, 1)]):
        for o in (obs[:k], obs[-k:], (obs[2:] + obs[:2])[:k]):
            pols += list(policies(n, o))
    pols += list(policies(2, obs[1:4], [1]))[::ctx.pick(11, 1)]
    pols += list(policies(3, ['yes', 'done'], [2]))[::ctx.pick(41, 1)]
    for p in pols[::ctx.pick(9, 3)]:
        for i, r in enumerate(p['transitions']):
            for j in range(len(r)):
                for t in (len(p['actions']), len(p['actions']) + 3):
                    q = json.loads(json.dumps(p))
                    q['transitions'][i][j] = t
                    pols.append(q)
    for p in pols:
        add(case_policy, 'policy', p)
    a = {'actions': ['wait', 'ask', 'hold'], 'initial': 1,
         'observations': ['none', 'done', 'error'], 'values': [[0.]] * 3,
         'transitions': [[1, 2, None], [0, 1, 2], [None, 0, 0]]}
    b = {'actions': ['stop', 'turn'], 'initial': 0, 'values': [[0.]] * 2,
         'observations': ['done', 'yes'], 'transitions': [[1, 0], [0, 0]]}
    bad = dict(b, transitions=[[2, 0], [0, 0]])
    add(case_policy_events, 'policy events', a, b, ctx.pick(3, 5))
    add(case_policy_events, 'policy events', b, a, ctx.pick(3, 5))
    add(case_policy_events, 'policy events', a, bad, ctx.pick(3, 4))
    for n in range(1, top + 1):
        for s in shapes(n):
            for leaf in ('none', 'empty'):
                add(case_htm, 'task tree', s, n, ctx.pick(2, 3), leaf)
    for s in [chain(4), chain(5), ((((), ()), ()),), ((((((),),),),),),
              ((), (((), ()), ())), (((((),), ()),),)]:
        add(case_htm, 'task tree', s, 1, ctx.pick(2, 3), 'none', True)
        add(case_htm, 'task tree', s, 2, ctx.pick(2, 3), 'empty', True)
    grow = [htm_json(s, 0, leaf='empty') for s in
            [((),), (((),),), ((((),),),)]]
    deep = [htm_json(chain(k), 1, leaf='empty') for k in (1, 4, 7)]
    add(case_ros, 'messages', grow, ctx.pick(3, 4))
    add(case_ros, 'messages', deep, ctx.pick(3, 4))
    for page in (POLICY, TRAJ, HTM):
        for name in page_files(page):
            add(case_bundled, 'bundled file', page, name)
    for k in range(ctx.pick(3, 8)):
        m = named(big(2 + k % 2, 2 + k % 2, 2 + k % 3, k))
        for h, n in ctx.pick([(2, 6), (3, 15)], [(2, 6), (3, 15), (3, 40)]):
            for rel in (False, True):
                add(case_search_export, 'search', 'big %d' % k, m, h, n, rel)
    for k, p in enumerate(list(policies(2, OBS[:2])) +
                          list(policies(2, OBS[1:], [1]))[::50] +
                          list(policies(3, OBS[2:], [2]))[::300]):
        m = named(big(2, 3, len(p['observations']), k % 5))
        m.observations = p['observations']
        m.actions = ['wait', 'ask', 'hold']
        if k % ctx.pick(7, 1) == 0:
            add(case_policy_export, 'policy', 'big %d' % k, m, p,
                ctx.pick(2, 3))
    leaves = ['hold', 'bring', 'wait']
    builds = list(leaves)
    for k in 'sap':
        builds += [(k, x) for x in leaves]
        for x, y in itertools.product(leaves[:2], repeat=2):
            builds.append((k, x, y))
            builds += [(k, (j, x, y), 'wait') for j in 'sap' if j != k]
            builds += [('s', (k, x, ('s', y, 'wait')), ('a', 'hold', x))]
    for bld in builds:
        add(case_export, 'exported task', bld, [])
    ctx.assumptions.append(
        'd3, jQuery, roslib and the document are stand-ins (mc/js): joins, '
        'selections, transitions run to their end between events, layouts '
        'that keep the order of siblings')
    ctx.run_cases(jobs)
