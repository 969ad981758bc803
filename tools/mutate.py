"""Mutation sweep:  mutate.py MODULE ...    (e.g. dfs lyndon)

Makes small syntactic changes to modules in scratch copies of the repository
and runs the checks of the properties anchored there.  Prints the changes
that neither a check nor the existing tests notice, for review.
"""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
sys.path.insert(0, os.path.join(TOP, 'tools'))
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn,
       ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add,
       ast.FloorDiv: ast.Mult, ast.Div: ast.Mult, ast.Mod: ast.FloorDiv,
       ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.LShift: ast.RShift,
       ast.RShift: ast.LShift, ast.Pow: ast.Mult, ast.BitXor: ast.BitOr}


def changes(node):
    """(description, function that applies the change to a copy)"""
    out = []
    if isinstance(node, ast.Compare):
        for i, op in enumerate(node.ops):
            new = CMP.get(type(op))
            if new:
                def f(n, i=i, new=new):
                    n.ops[i] = new()
                out.append((new.__name__, f))
    elif isinstance(node, ast.BoolOp):
        def f(n):
            n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        out.append(('and/or', f))
        for i in range(len(node.values)):
            def f(n, i=i):
                n.values[i] = ast.Constant(isinstance(n.op, ast.And))
            out.append(('drop operand %d' % i, f))
    elif isinstance(node, ast.UnaryOp):
        def f(n):
            if isinstance(n.op, ast.Not):
                n.op = ast.UAdd()
                n.operand = ast.Call(ast.Name('bool', ast.Load()),
                                     [n.operand], [])
            else:
                n.op = ast.UAdd() if isinstance(n.op, ast.USub) else \
                    ast.USub()
        out.append(('unary', f))
    elif isinstance(node, (ast.BinOp, ast.AugAssign)):
        new = BIN.get(type(node.op))
        if new and not (isinstance(node, ast.BinOp) and isinstance(
                node.left, ast.Constant) and isinstance(
                    node.left.value, str)):
            def f(n, new=new):
                n.op = new()
            out.append((new.__name__, f))
    elif isinstance(node, ast.Constant) and type(node.value) is int:
        for d in (1, -1):
            def f(n, d=d):
                n.value += d
            out.append(('%+d' % d, f))
    elif isinstance(node, ast.Constant) and type(node.value) is bool:
        def f(n):
            n.value = not n.value
        out.append(('not', f))
    elif isinstance(node, (ast.If, ast.While, ast.IfExp)):
        for v in (True, False):
            def f(n, v=v):
                n.test = ast.Constant(v)
            if not (isinstance(node, ast.While) and v):
                out.append(('test %s' % v, f))
    elif isinstance(node, ast.Return) and node.value is not None:
        def f(n):
            n.value = ast.Constant(None)
        out.append(('return None', f))
    elif isinstance(node, ast.comprehension) and node.ifs:
        def f(n):
            n.ifs = []
        out.append(('no filter', f))
    elif isinstance(node, ast.Call) and len(node.args) >= 2 and not any(
            isinstance(a, ast.Starred) for a in node.args):
        def f(n):
            n.args[0], n.args[1] = n.args[1], n.args[0]
        out.append(('swap arguments', f))
    return out


def statement_changes(body, i):
    s = body[i]
    out = []
    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete,
                      ast.Raise)):
        if not (isinstance(s, ast.Expr) and isinstance(s.value,
                                                       ast.Constant)):
            def f(b):
                b[i] = ast.Pass()
            out.append(('delete', f))
    if isinstance(s, ast.Continue):
        def f(b):
            b[i] = ast.Break()
        out.append(('break', f))

        def f(b):
            b[i] = ast.Pass()
        out.append(('delete', f))
    if isinstance(s, ast.Break):
        def f(b):
            b[i] = ast.Continue()
        out.append(('continue', f))

        def f(b):
            b[i] = ast.Pass()
        out.append(('delete', f))
    return out


def mutants(src):
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    skip = set()
    for n in nodes:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name.startswith(
                'test'):
            skip |= set(map(id, ast.walk(n)))
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and \
                getattr(n.test.left, 'id', '') == '__name__':
            skip |= set(map(id, ast.walk(n)))
        if isinstance(n, ast.Raise) or isinstance(n, ast.Assert):
            skip |= set(map(id, ast.walk(n))) - {id(n)}
    for k, n in enumerate(nodes):
        if id(n) in skip:
            continue
        for j, (what, f) in enumerate(changes(n)):
            t = copy.deepcopy(tree)
            m = list(ast.walk(t))[k]
            before = ast.unparse(m)
            f(m)
            ast.fix_missing_locations(t)
            yield (getattr(n, 'lineno', 0), what, before, ast.unparse(m),
                   ast.unparse(t))
        for field in ('body', 'orelse', 'finalbody'):
            b = getattr(n, field, None)
            if isinstance(b, list) and not isinstance(n, ast.Module):
                for i in range(len(b)):
                    for what, f in statement_changes(b, i):
                        t = copy.deepcopy(tree)
                        m = list(ast.walk(t))[k]
                        before = ast.unparse(b[i])
                        f(getattr(m, field))
                        ast.fix_missing_locations(t)
                        yield b[i].lineno, what, before, '', ast.unparse(t)


def checks_for(module):
    from catalogue import PROPS
    f = 'pads/%s.py' % module
    return [p['id'] for p in PROPS if f in p['files']]


def try_mutant(args):
    module, m, pids, scales = args
    tmp = tempfile.mkdtemp(prefix='mut-', dir='/dev/shm')
    try:
        repo = os.path.join(tmp, 'repo')
        os.mkdir(repo)
        shutil.copytree('/repo/pads', os.path.join(repo, 'pads'),
                        ignore=shutil.ignore_patterns('__pycache__'))
        with open(os.path.join(repo, 'pads', module + '.py'), 'w') as f:
            f.write(m[4])
        env = dict(os.environ, VMON_REPO=repo, VMON_SHARDS='1',
                   VMON_OUT=os.path.join(tmp, 'out'), VMON_CPU='3', VMON_STEPS='2000000',
                   VERIF_SEED='5', VERIF_TIER='quick',
                   PYTHONDONTWRITEBYTECODE='1')
        for scale in scales:
            for p in pids:
                env['VMON_SCALE'] = str(scale)
                try:
                    r = subprocess.run([PY, '-B', 'run.py', p], cwd=TOP,
                                       env=env, stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT, timeout=200)
                except subprocess.TimeoutExpired:
                    return 'timeout'
                if r.returncode == 1 and b'VIOLATION' in r.stdout:
                    return 'killed ' + p
                if scale == scales[-1] and r.returncode not in (0, 1):
                    return 'error ' + p
        shutil.copytree('/repo/tests', os.path.join(repo, 'tests'),
                        ignore=shutil.ignore_patterns('__pycache__'))
        try:
            r = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p',
                                'no:cacheprovider', 'tests'], cwd=repo,
                               env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=60)
            if r.returncode:
                return 'tests'
        except subprocess.TimeoutExpired:
            return 'tests'
        return 'SURVIVED'
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main(modules):
    limit = int(os.environ.get('LIMIT', '0'))
    scales = [float(x) for x in os.environ.get('SCALES', '.03,.4').split(',')]
    for module in modules:
        with open('/repo/pads/%s.py' % module) as f:
            ms = list(mutants(f.read()))
        pids = os.environ.get('CHECKS', '').split() or checks_for(module)
        seen, uniq = set(), []
        for m in ms:
            if m[4] not in seen:
                seen.add(m[4])
                uniq.append(m)
        if limit and len(uniq) > limit:
            import random
            uniq = random.Random(1).sample(uniq, limit)
            uniq.sort(key=lambda m: m[0])
        tally = {}
        with ThreadPoolExecutor(8) as ex:
            for m, res in zip(uniq, ex.map(try_mutant, [
                    (module, m, pids, scales) for m in uniq])):
                tally[res.split()[0]] = tally.get(res.split()[0], 0) + 1
                if res in ('SURVIVED', 'tests') or res.startswith('error'):
                    print('%s %s:%d %s | %s -> %s' % (
                        res, module, m[0], m[1],
                        ' '.join(m[2].split())[:90],
                        ' '.join(m[3].split())[:90]), flush=True)
        print('==', module, pids, tally, flush=True)


if __name__ == '__main__':
    main(sys.argv[1:])
