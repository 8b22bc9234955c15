"""Systematic mutation of /repo (development only): every small syntactic
change of a module is tried in a private copy; those that keep the stable
tests passing are run against the checks of that module; reports survivors.

    mutate.py OUT.jsonl MODULE...      (paths under task_models)
"""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.environ.get('MC_VERIF', '/verif')
PY = '/opt/venv/bin/python'
CHECKS = {
    'task.py': 'G01 G02 G03 G04 G05 H01 H02 H03 H04 D05 D01 D02',
    'action.py': 'S01 H01 H02 H03 S02',
    'state.py': 'H01 S01 G01',
    'snap_circuit.py': 'S02 H01 S01',
    'json_to_htm.py': 'H04',
    'lib/belief.py': 'P06 B02 B03 P04 P01 H01 E03',
    'lib/utils.py': 'E02 M01',
    'lib/pomdp.py': 'B01 B02 M01 M02 M03 M04 M05 M06',
    'lib/pomcp.py': 'P06 P02 P03 P05 P01 P04 C01 E03',
    'supportive.py': 'D04 D08 P03 D05 D06 D07 D09',
    'task_to_pomdp.py': 'D01 H02 H03 D02',
    'bring_next_to_pomdp.py': 'D02 D03',
    'policy.py': 'D09 E01 E04',
    'evaluation.py': 'E01 P03 E03 E04',
    'hold_and_release.py': 'D03', 'stool_scenarios.py': 'D03',
    'tower_problem.py': 'D03',
    'utils/multiprocess.py': 'E02 C02', 'utils/term.py': 'E02',
    'plot.py': 'V01', 'utils/plot.py': 'V01',
}

CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt],
       ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot],
       ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div, ast.Add],
       ast.Div: [ast.Mult], ast.Mod: [ast.Mult], ast.Pow: [ast.Mult],
       ast.LShift: [ast.RShift], ast.RShift: [ast.LShift],
       ast.FloorDiv: [ast.Div]}


def variants(node):
    """Replacements for one node: list of (description, function(node))."""
    out = []

    def put(d, f):
        out.append((d, f))
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        for c in CMP.get(type(node.ops[0]), []):
            put('cmp %s' % c.__name__, lambda n, c=c: ast.Compare(
                n.left, [c()], n.comparators))
    if isinstance(node, (ast.BinOp, ast.AugAssign)):
        for c in BIN.get(type(node.op), []):
            def f(n, c=c):
                n.op = c()
                return n
            put('bin %s' % c.__name__, f)
    if isinstance(node, ast.BoolOp):
        def f(n):
            n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            return n
        put('and/or', f)
        for i in range(len(node.values)):
            def f(n, i=i):
                del n.values[i]
                return n if len(n.values) > 1 else n.values[0]
            put('drop operand %d' % i, f)
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not,
                                                              ast.USub)):
        put('drop unary', lambda n: n.operand)
    if isinstance(node, ast.Constant):
        v = node.value
        if isinstance(v, bool):
            put('flip bool', lambda n: ast.Constant(not v))
        elif isinstance(v, (int, float)):
            put('const+1', lambda n: ast.Constant(v + 1))
            if v:
                put('const 0', lambda n: ast.Constant(type(v)(0)))
        elif isinstance(v, str) and v and v.strip():
            put('string', lambda n: ast.Constant(v + 'X'))
    if isinstance(node, (ast.If, ast.While, ast.IfExp)):
        for b in ([True, False] if not isinstance(node, ast.While)
                  else [False]):
            def f(n, b=b):
                n.test = ast.Constant(b)
                return n
            put('test %s' % b, f)
    if isinstance(node, ast.Call):
        n = len(node.args)
        if n == 2:
            def f(n):
                n.args = n.args[::-1]
                return n
            put('swap args', f)
        for i in range(len(node.keywords)):
            def f(n, i=i):
                del n.keywords[i]
                return n
            put('drop keyword %s' % node.keywords[i].arg, f)
        if isinstance(node.func, ast.Attribute) and node.func.attr in (
                'copy', 'flatten', 'strip', 'rstrip', 'sum', 'format',
                'intersection', 'difference', 'union'):
            put('drop call', lambda n: n.func.value)
        if isinstance(node.func, ast.Name) and n == 1 and node.func.id in (
                'set', 'list', 'sorted', 'int', 'float', 'str', 'unique',
                'frozenset', 'tuple', 'reversed'):
            put('drop conversion', lambda n: n.args[0])
    if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise,
                         ast.Assert, ast.Delete)) and not (
            isinstance(node, ast.Expr) and isinstance(
                node.value, ast.Constant)):
        put('drop statement', lambda n: ast.Pass())
    if isinstance(node, ast.Return) and node.value is not None:
        put('return None', lambda n: ast.Return(ast.Constant(None)))
    if isinstance(node, ast.Slice):
        for part in ('lower', 'upper'):
            if getattr(node, part) is not None:
                def f(n, part=part):
                    setattr(n, part, None)
                    return n
                put('drop ' + part, f)
    if isinstance(node, ast.comprehension) and node.ifs:
        def f(n):
            n.ifs = []
            return n
        put('drop filter', f)
    if isinstance(node, (ast.List, ast.Tuple)) and isinstance(
            getattr(node, 'ctx', None), ast.Load) and len(node.elts) > 1:
        for i in range(len(node.elts) - 1):
            def f(n, i=i):
                n.elts[i], n.elts[i + 1] = n.elts[i + 1], n.elts[i]
                return n
            put('swap elements %d' % i, f)
    if isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load):
        for a, b in (('transitions', None), ('start', None)):
            pass
    if isinstance(node, ast.With):
        put('drop with', lambda n: ast.If(ast.Constant(True), n.body, []))
    return out


class Replace(ast.NodeTransformer):
    def __init__(self, target, fun):
        self.k, self.target, self.fun = -1, target, fun

    def visit(self, node):
        self.k += 1
        if self.k == self.target:
            return ast.copy_location(self.fun(node), node)
        return self.generic_visit(node)


class Count(ast.NodeVisitor):
    def __init__(self):
        self.nodes = []

    def visit(self, node):
        self.nodes.append(node)
        self.generic_visit(node)


def mutants(src):
    tree = ast.parse(src)
    c = Count()
    c.visit(tree)
    seen = {ast.unparse(tree)}
    docs = {id(n.value) for n in c.nodes if isinstance(n, ast.Expr)
            and isinstance(n.value, ast.Constant)}
    for k, node in enumerate(c.nodes):
        if id(node) in docs:
            continue
        for d, f in variants(node):
            t = copy.deepcopy(tree)
            try:
                t = ast.fix_missing_locations(Replace(k, f).visit(t))
                text = ast.unparse(t)
            except Exception:
                continue
            if text in seen:
                continue
            seen.add(text)
            yield '%d %s: %s' % (getattr(node, 'lineno', 0), d,
                                 ast.unparse(node).split('\n')[0][:90]), text


def sh(cmd, env=None, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, env=env, **kw)


INSIDE = '''
import json, os, subprocess, sys
module, path, out = sys.argv[1:4]
checks = sys.argv[4:]
def sh(cmd, cwd=None, t=900):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, timeout=t,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return -99, 'timeout'
import shutil
shutil.copy(path, '/repo/task_models/' + module)
res = {}
rc, o = sh('bash /opt/vp/test.sh ' + out + '.t', t=120)
b = json.load(open('/opt/vp/BASELINE.json'))
try:
    t = json.load(open(out + '.t'))
    names = lambda d: set(next(d[k] for k in ('passed', 'stable', 'tests',
                                             'pass') if k in d))
    miss = names(b) - names(t)
except Exception as e:
    miss = {repr(e)}
if miss:
    res['tests'] = 'killed'
else:
    res['tests'] = 'survived'
    res['checks'] = {}
    for c in checks:
        rc, o = sh(sys.executable + ' check.py ' + c, '/verif')
        res['checks'][c] = rc
        if rc == 1:
            res['caught'] = c
            res['why'] = o.strip().split('\\n')[-1][:200] if 0 else \\
                o.strip()[:200]
            break
        if rc != 0:
            res.setdefault('odd', []).append([c, rc, o[-300:]])
json.dump(res, open(out, 'w'))
'''


def one(job):
    module, desc, text, checks = job
    tmp = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    try:
        sh('cp -a /repo %s/repo' % tmp)
        with open(tmp + '/m.py', 'w') as f:
            f.write(text)
        with open(tmp + '/inside.py', 'w') as f:
            f.write(INSIDE)
        script = ('mount --bind %s/repo /repo && '
                  'mount -t tmpfs none /opt/vp/reports && '
                  'mount -t tmpfs none /verif/evidence && exec "$@"') % tmp
        if V != '/verif':
            script = 'mount --bind %s /verif && ' % V + script
        try:
            subprocess.run(['unshare', '-Urmpf', '--mount-proc', 'sh', '-ec',
                            script, 'sh', PY,
                            '-B', tmp + '/inside.py', module, tmp + '/m.py',
                            tmp + '/out'] + checks,
                           stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, timeout=3000)
            with open(tmp + '/out') as f:
                r = json.load(f)
        except Exception as e:
            r = {'tests': 'error %r' % e}
        r.update(module=module, mutant=desc)
        return r
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    out = sys.argv[1]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d['module'], d['mutant']))
    jobs = []
    for module in sys.argv[2:]:
        with open('/repo/task_models/' + module) as f:
            src = f.read()
        reg = set(os.listdir(V + '/mc/checks'))
        checks = [c for c in CHECKS[module].split()
                  if c.lower() + '.py' in reg]
        for desc, text in mutants(src):
            if (module, desc) not in done:
                jobs.append((module, desc, text, checks))
    print(len(jobs), 'mutants', flush=True)
    n = {}
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '6'))) as ex, \
            open(out, 'a') as f:
        for r in ex.map(one, jobs):
            key = 'killed' if r['tests'] == 'killed' else \
                'caught' if r.get('caught') else r['tests']
            n[key] = n.get(key, 0) + 1
            f.write(json.dumps(r) + '\n')
            f.flush()
            if key not in ('killed', 'caught'):
                print(key, r['module'], r['mutant'], r.get('odd', ''),
                      flush=True)
    print(n)


if __name__ == '__main__':
    main()
