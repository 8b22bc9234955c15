import glob
import itertools
import json
import os
import tempfile

from task_models.task import HierarchicalTask, LeafCombination
from task_models.json_to_htm import json_to_htm
from ..core import REPO
from ..leaves import KINDS
from ..trees import shapes, build, show, n_nodes, n_leaves

KIND = {'S': 'Sequential', 'P': 'Parallel', 'A': 'Alternative', 'L': None}


def describe(t, names, hl, agents, numbering):
    """Reference description (dictionary as in the JSON files)."""
    cnt = [0, 0]

    def rec(t, parent):
        k = cnt[0]
        cnt[0] += 1
        d = {'name': names(k), 'id': numbering(k),
             'parent': None if parent is None else numbering(parent),
             'combination': KIND[t[0] if t != 'L' else 'L'],
             'attributes': ['highlighted'] if hl(k) else []}
        if t == 'L':
            a = agents[cnt[1]]
            cnt[1] += 1
            if a:
                d['attributes'].insert(k % 2, a)
        else:
            d['children'] = [rec(c, k) for c in t[1]]
        return d
    return rec(t, None)


def strip(d, renumber=None):
    """Description without agents, renumbered in depth-first order."""
    cnt = [0]

    def rec(d, parent):
        k = cnt[0]
        cnt[0] += 1
        r = {'name': d['name'], 'id': k, 'parent': parent,
             'combination': d['combination'],
             'highlighted': 'highlighted' in d['attributes']}
        if 'children' in d:
            r['children'] = [rec(c, k) for c in d['children']]
        return r
    return rec(d, None)


def norm(d):
    """An exported dictionary in the same form, numbers kept."""
    r = {'name': d['name'], 'id': d['id'], 'parent': d['parent'],
         'combination': d['combination'],
         'highlighted': 'highlighted' in d['attributes']}
    if d.get('children'):
        r['children'] = [norm(c) for c in d['children']]
    return r


def match(ctx, node, d, case):
    ctx.trans()
    ctx.eq(node.name, d['name'], 'name', case)
    ctx.eq(node.idx, d['id'], 'number of %s' % d['name'], case)
    ctx.eq(node.parent, d['parent'], 'parent of %s' % d['name'], case)
    ctx.eq(node.kind, d['combination'], 'kind of %s' % d['name'], case)
    ctx.eq(bool(node.highlighted), 'highlighted' in d['attributes'],
           'highlighting of %s' % d['name'], case)
    if d['combination'] is None:
        ctx.ensure(isinstance(node, LeafCombination), 'leaf expected', case)
        ag = [a for a in d['attributes'] if a != 'highlighted']
        if ag:
            ctx.eq(node.action.agent, ag[0], 'agent of ' + d['name'], case)
        else:
            ctx.ensure(node.action.agent not in ('human', 'robot'),
                       'agent invented', case)
    else:
        ctx.eq(len(node.children), len(d['children']), 'children', case)
        for n, c in zip(node.children, d['children']):
            match(ctx, n, c, case)


def flat(d):
    yield d
    for c in d.get('children', []):
        for x in flat(c):
            yield x


def node_of(root, d, target):
    if d is target:
        return root
    for n, c in zip(root.children if 'children' in d else [],
                    d.get('children', [])):
        r = node_of(n, c, target)
        if r is not None:
            return r
    return None


def lookups(ctx, task, desc, case):
    root = task.root
    everything = list(flat(desc))
    nodes = {id(d): node_of(root, desc, d) for d in everything}
    ids = [d['id'] for d in everything]
    for start in everything:
        sub = list(flat(start))[1:]
        s = nodes[id(start)]
        for i in ids + [max(ids) + 5, -3]:
            want = [p for p in flat(start) for c in p.get('children', [])
                    if c['id'] == i]
            got = task.find_parent_node(s, i)
            ctx.ensure(got is (nodes[id(want[0])] if want else None),
                       'parent of %s under %s' % (i, start['id']), case)
            hum = [x for x in sub if x['combination'] is None and
                   'human' in x['attributes'] and x['id'] > i]
            got = task.find_next_human_action(s, i)
            ctx.ensure(got is (nodes[id(hum[0])] if hum else None),
                       'next human action after %s under %s' % (
                           i, start['id']), case)
            ctx.trans(2)
        queries = {x['name'].lower() for x in everything} | {
            'a', 'b', 'node', 'leaf', '1', 'zzz', ''} | {
            x['name'].upper() for x in everything} | {
            x['name'].lower()[i:] for x in everything for i in (1, 3, -2)}
        for q in sorted(queries):
            want = [x for x in sub if q in x['name'].lower()]
            got = task.find_node_by_name(s, q)
            ctx.ensure(got is (nodes[id(want[0])] if want else None),
                       'lookup of %r under %s' % (q, start['id']), case)
            ctx.trans()


NAMES = [lambda k: ['Node A', 'leaf b', 'Leaf AB', 'nODE c', 'leaf a1',
                    'Get B', 'leaf d', 'node E', 'x'][k % 9] +
         ('' if k < 9 else str(k)),
         lambda k: 'x%d' % (7 - k),
         lambda k: ['take (a)', '(b take)', 'a-b_c', 'a.b c, d', '[b] {}',
                    'Étape', 'GO (B) [x]', ' b', 'a '][k % 9] +
         ('' if k < 9 else str(k))]


def run(ctx):
    tmp = tempfile.mkdtemp(prefix='mc-h04-')
    try:
        _run(ctx, tmp)
    finally:
        for f in os.listdir(tmp):
            os.remove(os.path.join(tmp, f))
        os.rmdir(tmp)


def _run(ctx, tmp):
    path = os.path.join(tmp, 'task.json')

    written = [0]

    def load(desc, case, look=True):
        # with and without escapes
        written[0] += 1
        with open(path, 'w', encoding='utf-8') as f:
            json.dump({'name': 'task', 'nodes': desc}, f,
                      ensure_ascii=bool(written[0] % 2))
        task = json_to_htm(path)
        ctx.ensure(isinstance(task, HierarchicalTask), 'not a task', case)
        match(ctx, task.root, desc, case)
        out = task.as_dictionary()
        ctx.eq(norm(out['nodes']), strip(desc), 'exported dictionary', case)
        if look:
            lookups(ctx, task, desc, case)
        cp = HierarchicalTask(task.root.deep_copy())
        ctx.eq(norm(cp.as_dictionary()['nodes']), strip(desc),
               'export of a copy', case)
        ctx.trace()

    hls = [lambda k: False, lambda k: True, lambda k: k % 2 == 0,
           lambda k: k % 3 == 1]
    numberings = [lambda k: k, lambda k: 20 - k, lambda k: (k * 7 + 3) % 23]
    maxn = ctx.pick(4, 5)
    for n in range(1, maxn + 1):
        for t in (shapes(n, 2, True) if n < 3 or (n < 4 and ctx.thorough)
                  else shapes(n, 2)):
            for agents in itertools.product(['human', 'robot', None],
                                            repeat=n):
                if n >= 4 and agents.count(None) != 1:
                    continue
                if n == 4 and not ctx.thorough and agents[0] != 'robot':
                    continue
                for j, num in enumerate(numberings):
                    for h, hl in enumerate(hls):
                        if n > 2 and (h + j) % 3 and not ctx.thorough:
                            continue
                        if n > 3 and h + j > 0:
                            continue
                        case = [show(t), agents, j, h]
                        ctx.states_n(1)
                        ctx.sample(case)
                        desc = describe(t, NAMES[(j + (h > 1 or n > 3)) % 3], hl, agents, num)
                        ctx.run_case(load, case, desc, case)
    # larger trees: great numbers, repeated names, other agents
    def balanced(w, depth, kinds='SPA'):
        if depth == 0:
            return 'L'
        return (kinds[depth % 3], tuple(balanced(w, depth - 1, kinds)
                                        for _ in range(w)))

    def comb(n):
        t = 'L'
        for i in range(n):
            t = ('SPA'[i % 3], ('L', t) if i % 2 else (t, 'L', 'L'))
        return t
    for t in (balanced(2, 3), balanced(3, 2), balanced(11, 1), balanced(4, 2),
              comb(4), comb(9), ('S', (balanced(3, 1), comb(3), 'L'))):
        for j, num in enumerate((lambda k: 1000 + k, lambda k: 5000 - 3 * k,
                                 lambda k: 10 ** 12 + (k * 37) % 101)):
            for i, names in enumerate((lambda k: 'same', lambda k:
                                       'name %d' % (k % 3), NAMES[0],
                                       NAMES[2])):
                n = n_leaves(t)
                for agents in ([['human', 'superhuman', 'non-human', None,
                                 'robot'][k * k % 5] for k in range(n)],
                               ['human' if k == n - 1 else 'robot'
                                for k in range(n)]):
                    case = ['larger', show(t), j, i, agents]
                    ctx.states_n(1)
                    desc = describe(t, names, hls[i % 3], agents, num)
                    ctx.run_case(load, case, desc, case,
                                 n_nodes(t) < 25)
    # export of trees built in code with every kind of leaf
    def export(t, kind, hl, case):
        root = build(t, KINDS[kind], highlight=hl)
        names = []

        def collect(n):
            names.append(n.name)
            if not isinstance(n, LeafCombination):
                for c in n.children:
                    collect(c)
        collect(root)
        desc = describe(t, lambda k: names[k], hl, [None] * 9, lambda k: k)
        task = HierarchicalTask(root)
        for nm in (None, 'my task'):
            d = task.as_dictionary(nm) if nm else task.as_dictionary()
            ctx.eq(d['name'], nm or 'Hierarchical task tree', 'title', case)
            ctx.eq(norm(d['nodes']), strip(desc), 'dictionary', case)
            ids = [x['id'] for x in flat(d['nodes'])]
            ctx.eq(ids, list(range(n_nodes(t))), 'numbering', case)
        json.dumps(d)
        ctx.ensure(not task.is_empty(), 'task reported empty', case)
        ctx.trans(2)
        ctx.trace()
    for n in range(1, 5):
        for t in (shapes(n, 3, True) if n < 3 else shapes(n, 3)):
            for kind in (sorted(KINDS) if n < 3 else ['abstract']):
                for h, hl in enumerate(hls):
                    case = ['export', show(t), kind, h]
                    ctx.states_n(1)
                    ctx.run_case(export, case, t, kind, hl, case)

    def empty():
        task = HierarchicalTask()
        ctx.ensure(task.is_empty(), 'empty task not empty', [])
        ctx.eq(task.as_dictionary('e'), {'name': 'e', 'nodes': None},
               'dictionary of empty task', [])
    ctx.run_case(empty, 'empty')
    # task files shipped with the repository
    for f in sorted(glob.glob(os.path.join(
            REPO, 'visualization', 'htm*', 'json', '**', '*.json'),
            recursive=True)):
        with open(f, encoding='utf-8') as fp:
            d = json.load(fp)
        nodes = d.get('nodes')
        if not isinstance(nodes, dict) or not all(
                'attributes' in x and 'combination' in x
                for x in flat(nodes)):
            continue  # other visualisation formats
        case = os.path.basename(f)

        def go():
            task = json_to_htm(f)
            match(ctx, task.root, nodes, case)
            ctx.eq(norm(task.as_dictionary()['nodes']), strip(nodes),
                   'exported dictionary', case)
            lookups(ctx, task, nodes, case)
            ctx.trace()
        ctx.states_n(1)
        ctx.run_case(go, case)
