#!/usr/bin/env python3
"""Development tool: systematic mutants of the code under test.

usage: mutate.py OUT.jsonl [FILE ...]

Each mutant changes one place of one file of a scratch copy of /repo/src. The
mutants that pass the existing tests are given to the checks related to the
file until one of them reports a violation. Prints those nobody noticed.
"""
import ast
import copy
import json
import multiprocessing
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
RELATED = {
    'base.py': 'P01 P07 P14 P40',
    'events.py': 'P23 P33',
    'locking.py': 'P28 P27',
    'serializer.py': 'P11 P12 P13 P38',
    'utils.py': 'P36 P30 P29 P15 P10 P04 P11 P16 P38',
    'behaviors/alias.py': 'P16 P17 P02 P33',
    'behaviors/attributes.py': 'P14 P15 P01 P10 P23 P38',
    'behaviors/cache.py': 'P18 P19 P02 P20',
    'behaviors/common.py': 'P04 P05 P06 P09 P15 P20 P21 P02 P01 P33 P10 P03 P39 P40 P38',
    'behaviors/events.py': 'P24 P25 P26 P27 P33 P40',
    'behaviors/fallback.py': 'P22 P27 P02',
    'behaviors/lifecycle.py': 'P23 P06 P35 P40 P46',
    'behaviors/mapping.py': 'P01 P02 P03 P18 P21 P10 P04 P38 P40',
    'behaviors/nodespace.py': 'P14 P02 P10 P33 P01',
    'behaviors/nodify.py': 'P04 P31 P32 P35 P10 P01 P38 P40 P16',
    'behaviors/order.py': 'P03 P05 P06 P17 P38 P46 P39',
    'behaviors/reference.py': 'P07 P08 P06 P05 P03 P35 P10 P02 P40 P38',
    'behaviors/storage.py': 'P01 P02 P33 P19 P38 P10',
    'testing/base.py': 'P34',
    'testing/fullmapping.py': 'P34',
}
SWAP = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Eq: ast.NotEq,
        ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In,
        ast.Gt: ast.GtE, ast.Lt: ast.LtE, ast.GtE: ast.Gt, ast.LtE: ast.Lt}


def docstring(node, parents):
    parent = parents.get(node)
    return isinstance(parent, ast.Expr)


def variants(node, parents):
    """Functions changing a copy of the node in place; yield (what, func)."""
    if isinstance(node, (ast.If, ast.While, ast.IfExp)):
        def negate(n):
            n.test = ast.UnaryOp(ast.Not(), n.test)
        yield 'negate', negate

        def true(n):
            n.test = ast.Constant(True)

        def false(n):
            n.test = ast.Constant(False)
        if not isinstance(node, ast.While):
            yield 'true', true
            yield 'false', false
    if isinstance(node, ast.BoolOp):
        def flip(n):
            n.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
        yield 'and/or', flip
        for i in range(len(node.values)):
            def drop(n, i=i):
                del n.values[i]
                if len(n.values) == 1:
                    n.values.append(n.values[0])
            yield 'drop operand %d' % i, drop
    if isinstance(node, ast.Compare) and type(node.ops[0]) in SWAP:
        def swap(n):
            n.ops[0] = SWAP[type(n.ops[0])]()
        yield 'compare', swap
        if isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            def equal(n):
                n.ops[0] = ast.Eq() if isinstance(n.ops[0], ast.Is) \
                    else ast.NotEq()
            yield 'is/==', equal
        if isinstance(node.ops[0], (ast.Eq, ast.NotEq)):
            def ident(n):
                n.ops[0] = ast.Is() if isinstance(n.ops[0], ast.Eq) \
                    else ast.IsNot()
            yield '==/is', ident
        if isinstance(node.ops[0], (ast.IsNot, ast.Is)) and isinstance(
                node.comparators[0], ast.Constant):
            def truth(n):
                c = ast.Constant(False)
                n.left = ast.Call(ast.Name('bool', ast.Load()), [n.left], [])
                n.comparators[0] = c
                n.ops[0] = ast.NotEq() if isinstance(n.ops[0], ast.IsNot) \
                    else ast.Eq()
            yield 'truth', truth
    if isinstance(node, ast.Constant) and not docstring(node, parents):
        v = node.value
        if v is True or v is False:
            def inv(n):
                n.value = not n.value
            yield 'not', inv
        elif isinstance(v, int):
            for d in (1, -1):
                def add(n, d=d):
                    n.value += d
                yield '%+d' % d, add
        elif isinstance(v, str):
            def text(n):
                n.value = n.value + 'X'
            yield 'text', text
    if isinstance(node, ast.Call):
        if node.args and len(node.args) + len(node.keywords) > 1:
            def droparg(n):
                del n.args[-1]
            yield 'drop arg', droparg
        for i in range(len(node.keywords)):
            def dropkw(n, i=i):
                del n.keywords[i]
            yield 'drop kw %d' % i, dropkw
        if isinstance(node.func, ast.Name) and node.func.id in (
                'list', 'reversed', 'sorted', 'bool', 'int', 'set') \
                and node.args:
            def unwrap(n):
                n.func = ast.Lambda(ast.arguments(
                    posonlyargs=[], args=[ast.arg('x')], kwonlyargs=[],
                    kw_defaults=[], defaults=[]), ast.Name('x', ast.Load()))
                n.keywords = []
            yield 'unwrap ' + node.func.id, unwrap
    if isinstance(node, ast.Return) and node.value is not None:
        def none(n):
            n.value = ast.Constant(None)
        yield 'return None', none
    if isinstance(node, (ast.For, ast.comprehension)):
        def first(n):
            n.iter = ast.Subscript(
                ast.Call(ast.Name('list', ast.Load()), [n.iter], []),
                ast.Slice(None, ast.Constant(1)), ast.Load())
        yield 'first only', first

        def back(n):
            n.iter = ast.Subscript(
                ast.Call(ast.Name('list', ast.Load()), [n.iter], []),
                ast.Slice(None, None, ast.Constant(-1)), ast.Load())
        yield 'backwards', back
    if isinstance(node, ast.Subscript) and isinstance(
            node.slice, ast.Slice):
        pass
    if isinstance(node, ast.ExceptHandler) and node.type is not None:
        def wide(n):
            n.type = ast.Name('Exception', ast.Load())
        yield 'wide except', wide

        def narrow(n):
            n.type = ast.Name('ZeroDivisionError', ast.Load())
        yield 'no except', narrow
    if isinstance(node, ast.Try) and node.finalbody:
        def unfinal(n):
            n.body = n.body + n.finalbody
            n.finalbody = []
            n.handlers = n.handlers or [ast.ExceptHandler(
                ast.Name('ZeroDivisionError', ast.Load()), None,
                [ast.Pass()])]
        yield 'no finally', unfinal


def mutants(source):
    """Yield (line, what, new source)."""
    tree = ast.parse(source)
    parents = {}
    for node in ast.walk(tree):
        for child in ast.iter_child_nodes(node):
            parents[child] = node
    nodes = list(ast.walk(tree))
    for i, node in enumerate(nodes):
        for what, func in variants(node, parents):
            new = copy.deepcopy(tree)
            func(list(ast.walk(new))[i])
            yield getattr(node, 'lineno', 0) or getattr(
                getattr(node, 'iter', None), 'lineno', 0), what, new
        for field in ('body', 'orelse', 'finalbody'):
            block = getattr(node, field, None)
            if not isinstance(block, list):
                continue
            for j, stmt in enumerate(block):
                if isinstance(stmt, (ast.Expr, ast.Assign, ast.AugAssign,
                                     ast.Delete, ast.Raise, ast.Continue,
                                     ast.Break, ast.With, ast.If, ast.For,
                                     ast.Try)):
                    if isinstance(stmt, ast.Expr) and isinstance(
                            stmt.value, ast.Constant):
                        continue
                    if isinstance(node, ast.Module):
                        continue
                    new = copy.deepcopy(tree)
                    getattr(list(ast.walk(new))[i], field)[j] = ast.Pass()
                    yield stmt.lineno, 'delete', new
                    if isinstance(stmt, ast.With):
                        new = copy.deepcopy(tree)
                        block2 = getattr(list(ast.walk(new))[i], field)
                        block2[j:j + 1] = block2[j].body
                        yield stmt.lineno, 'unwrap with', new
                if j + 1 < len(block) and not isinstance(
                        node, (ast.Module, ast.ClassDef)):
                    if isinstance(block[j], (ast.Assign, ast.Expr, ast.Delete,
                                             ast.AugAssign)) and isinstance(
                            block[j + 1], (ast.Assign, ast.Expr, ast.Delete,
                                           ast.AugAssign)):
                        new = copy.deepcopy(tree)
                        b = getattr(list(ast.walk(new))[i], field)
                        b[j], b[j + 1] = b[j + 1], b[j]
                        yield stmt.lineno, 'exchange', new


def failed(text):
    res = set(x.split(' ')[1].split('/tests/')[-1] for x in text.splitlines()
              if x.startswith(('FAILED', 'ERROR')))
    if ' passed' not in text:
        res.add('nothing passed')
    return res


def allowed(text):
    """Tests not passing reliably."""
    with open('/opt/vp/BASELINE.json') as f:
        data = json.load(f)
    stable = [v for v in data.values() if isinstance(v, (list, dict))]
    names = set()
    for part in stable:
        names.update(str(x).split('::')[-1] for x in part)
    return set(x for x in failed(text)
               if x != 'nothing passed' and x.split('::')[-1] not in names)


def trial(job):
    name, line, what, text = job
    folder = tempfile.mkdtemp(prefix='mutant', dir='/tmp')
    res = dict(file=name, line=line, what=what)
    try:
        shutil.copytree('/repo/src', folder + '/src', symlinks=True,
                        ignore=shutil.ignore_patterns('__pycache__'))
        with open(os.path.join(folder, 'src/node', name), 'w') as f:
            f.write(text)
        env = dict(os.environ, VT_REPO=folder, VT_SHARDS='1',
                   VT_SCALE=os.environ.get('VT_SCALE', '1'),
                   VT_EVIDENCE=folder + '/evidence', PYTHONHASHSEED='0',
                   PYTHONDONTWRITEBYTECODE='1')
        try:
            p = subprocess.run(
                [PY, '-W', 'ignore', '-c',
                 'import sys; sys.path.insert(0, %r)\n'
                 'from vt import env; env.setup()\n'
                 'import pytest; sys.exit(pytest.main(["-q", "--timeout=60", "-rfE", "-p", '
                 '"no:cacheprovider", "--import-mode=importlib", %r]))'
                 % (VERIF, folder + '/src/node/tests')],
                cwd=folder, env=env, capture_output=True, text=True,
                timeout=120)
            if failed(p.stdout) - allowed(p.stdout):
                res['result'] = 'tests'
                return res
        except subprocess.TimeoutExpired:
            res['result'] = 'tests'
            return res
        for pid in RELATED[name].split():
            try:
                p = subprocess.run(
                    ['./run', pid], cwd=VERIF, env=env, capture_output=True,
                    text=True, timeout=900)
                code = p.returncode
            except subprocess.TimeoutExpired:
                code = 'timeout'
            if code == 1:
                res['result'] = 'caught by ' + pid
                return res
            if code:
                res.setdefault('errors', []).append((pid, code, (
                    p.stdout + p.stderr)[-300:]))
        res['result'] = 'SURVIVED'
        return res
    finally:
        shutil.rmtree(folder)


def main():
    out = sys.argv[1]
    files = sys.argv[2:] or sorted(RELATED)
    jobs = []
    skip = os.environ.get('SKIP', 'wide except').split(',')
    for name in files:
        with open(os.path.join('/repo/src/node', name)) as f:
            source = f.read()
        plain = ast.unparse(ast.parse(source))
        seen = set([plain])
        for line, what, tree in mutants(source):
            ast.fix_missing_locations(tree)
            try:
                text = ast.unparse(tree)
                compile(text, name, 'exec')
            except Exception:
                continue
            if text not in seen and what not in skip:
                seen.add(text)
                jobs.append((name, line, what, text))
    done = set()
    for name in os.environ.get('DONE', '').split():
        with open(name) as f:
            done.update((x['file'], x['line'], x['what'])
                        for x in map(json.loads, f))
    jobs = [x for x in jobs if x[:3] not in done]
    print(len(jobs), 'mutants')
    sys.stdout.flush()
    with multiprocessing.Pool(int(os.environ.get('JOBS', '8'))) as pool, \
            open(out, 'w') as f:
        for res in pool.imap_unordered(trial, jobs):
            f.write(json.dumps(res) + '\n')
            f.flush()


if __name__ == '__main__':
    main()
