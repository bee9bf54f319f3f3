"""Mutation run: how many small changes of the functions under contract do the contracts notice?

python tools/mutate.py C04 [function-substring] [--all]   (development aid, not a check)

Every mutant changes one expression or statement of one function under contract, in memory (the function's code object is
replaced in a forked child); the contracts of the property that can reach that module are run on drawn inputs. Survivors
are printed; they are equivalent mutants or weak spots."""
import ast
import copy
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from pyver import run, api  # noqa
import numpy as np  # noqa

SW = {'min': 'max', 'max': 'min', 'mean': 'median', 'median': 'mean', 'floor': 'ceil', 'ceil': 'floor', 'sin': 'cos', 'cos': 'sin',
      'argmin': 'argmax', 'argmax': 'argmin', 'zeros': 'ones', 'ones': 'zeros', 'all': 'any', 'any': 'all', 'log10': 'log',
      'radians': 'degrees', 'degrees': 'radians', 'sum': 'mean', 'std': 'var', 'unique': 'sort', 'sort': 'copy', 'argsort': 'arange_like',
      'nanmin': 'nanmax', 'nanmax': 'nanmin', 'round': 'floor', 'abs': 'positive'}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Mod: [ast.FloorDiv], ast.FloorDiv: [ast.Div],
       ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd], ast.Pow: [ast.Mult]}


def sites(fn):
    """yield (description, mutator(node) on a deep copy located by index)"""
    nodes = list(ast.walk(fn))
    skip = set()
    for n in nodes:
        if isinstance(n, ast.Raise) or (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('warn', 'warning', 'format', 'info', 'debug')) \
           or (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('print', 'super')):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.add(id(n)); skip.add(id(n.value))
        if isinstance(n, ast.JoinedStr):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, ast.arguments):
            for m in ast.walk(n):
                skip.add(id(m))
    for i, n in enumerate(nodes):
        if id(n) in skip or n is fn:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                yield i, '%s -> %s' % (type(n.ops[0]).__name__, o.__name__), lambda m, o=o: m.ops.__setitem__(0, o())
        if isinstance(n, (ast.BinOp, ast.AugAssign)):
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant):
                continue
            for o in BIN.get(type(n.op), []):
                yield i, '%s -> %s' % (type(n.op).__name__, o.__name__), lambda m, o=o: setattr(m, 'op', o())
        if isinstance(n, ast.BoolOp):
            yield i, 'and/or swapped', lambda m: setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And())
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not (isinstance(n.operand, ast.Constant) and n.operand.value == 1):
            yield i, 'minus dropped', lambda m: setattr(m, 'op', ast.UAdd())
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant) and n.operand.value == 1:
            yield i, '-1 -> -2', lambda m: setattr(m.operand, 'value', 2)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield i, 'not not', lambda m: setattr(m, 'operand', ast.UnaryOp(ast.Not(), m.operand))
        if isinstance(n, ast.Constant) and type(n.value) in (int, float):
            if type(n.value) is int:
                yield i, '%r -> %r' % (n.value, n.value + 1), lambda m: setattr(m, 'value', m.value + 1)
            else:
                yield i, '%r -> *1.01' % n.value, lambda m: setattr(m, 'value', m.value * 1.01 if m.value else 1.0)
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            yield i, '%r flipped' % n.value, lambda m: setattr(m, 'value', not m.value)
        if isinstance(n, ast.Attribute) and n.attr in SW and isinstance(n.ctx, ast.Load):
            if n.attr == 'argsort':
                continue
            yield i, '%s -> %s' % (n.attr, SW[n.attr]), lambda m: setattr(m, 'attr', SW[m.attr])
        if isinstance(n, ast.Constant) and n.value in ('left', 'right'):
            yield i, 'side swapped', lambda m: setattr(m, 'value', 'left' if m.value == 'right' else 'right')
        if isinstance(n, (ast.Assign, ast.AugAssign)) and not (isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)):
            yield i, 'statement dropped', 'drop'
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and any(
                isinstance(x, ast.Name) and x.id == n.targets[0].id for x in ast.walk(n.value)):
            yield i, 'reassignment dropped', 'drop'
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            yield i, 'call dropped', 'drop'
        if isinstance(n, ast.If):
            yield i, 'if True', lambda m: setattr(m, 'test', ast.Constant(True))
            yield i, 'if False', lambda m: setattr(m, 'test', ast.Constant(False))


class Drop(ast.NodeTransformer):
    def __init__(self, t):
        self.t = t

    def visit(self, n):
        if n is self.t:
            return ast.copy_location(ast.Pass(), n)
        return self.generic_visit(n)


def find_fn(tree, qual):
    body = tree.body
    node = None
    for part in qual.split('.'):
        node = next((x for x in body if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == part), None)
        if node is None:
            return None
        body = node.body
    return node if isinstance(node, ast.FunctionDef) else None


def find_code(code, qual):
    for c in code.co_consts:
        if hasattr(c, 'co_qualname'):
            if c.co_qualname == qual:
                return c
            r = find_code(c, qual)
            if r is not None:
                return r
    return None


def live_fn(mod, qual):
    o = mod
    for part in qual.split('.'):
        o = o.__dict__.get(part) if not isinstance(o, type(mod)) else getattr(o, part, None)
        if o is None:
            return None
    while hasattr(o, '__wrapped__'):
        o = o.__wrapped__
    if isinstance(o, (staticmethod, classmethod)):
        o = o.__func__
    if isinstance(o, property):
        o = o.fget
    return o if hasattr(o, '__code__') else None


def child(q, keys, mod, qual, src, idx, mut):
    try:
        tree = ast.parse(src)
        fn = find_fn(tree, qual)
        node = list(ast.walk(fn))[idx]
        if mut == 'drop':
            Drop(node).visit(tree)
        else:
            mut(node)
        ast.fix_missing_locations(tree)
        code = find_code(compile(tree, mod.__file__, 'exec'), qual)
        live_fn(mod, qual).__code__ = code
        for k in keys:
            r = run.run_concrete(api.REG[k], 1, 'quick', run.load_known())
            if r['fails']:
                q.put((True, k + ': ' + r['fails'][0]['obligation']))
                return
        q.put((False, ''))
    except BaseException as ex:
        q.put((None, repr(ex)[:200]))


def main():
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    prop, filt = a[0], (a[1] if len(a) > 1 else '')
    run.load(prop)
    allk = [k for k in sorted(api.REG) if k.startswith(prop + '/')]
    fns = {}
    for k in allk:
        for f in api.REG[k].fns:
            fns.setdefault(f, []).append(k)
    if '--all' in sys.argv:
        for mname in sorted({f.split(':')[0] for f in fns}):
            m = importlib.import_module(mname)
            for n in ast.parse(open(m.__file__).read()).body:
                if isinstance(n, ast.FunctionDef):
                    fns.setdefault(mname + ':' + n.name, [])
                if isinstance(n, ast.ClassDef):
                    for b in n.body:
                        if isinstance(b, ast.FunctionDef) and b.name not in ('__repr__',):
                            fns.setdefault('%s:%s.%s' % (mname, n.name, b.name), [])
    jobs = []
    for f in sorted(fns):
        if filt and filt not in f:
            continue
        mname, qual = f.split(':')
        mod = importlib.import_module(mname)
        src = open(mod.__file__).read()
        fn = find_fn(ast.parse(src), qual)
        if fn is None or live_fn(mod, qual) is None:
            print('?? no function', f)
            continue
        first = fns[f]
        rest = [k for k in allk if k not in first and any(m == mname for m in [x.split(':')[0] for x in api.REG[k].fns])]
        lines = src.split('\n')
        for idx, desc, mut in sites(fn):
            node = list(ast.walk(fn))[idx]
            jobs.append((f, node.lineno, desc, lines[node.lineno - 1].strip(), (first + rest, mod, qual, src, idx, mut)))
    ctx = mp.get_context('fork')
    live, res, pend = {}, [], list(enumerate(jobs))
    t0 = time.time()
    hard = 240
    nk = 0
    while pend or live:
        while pend and len(live) < int(os.environ.get('JOBS', '8')):
            i, j = pend.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=child, args=(q,) + j[4])
            p.start()
            live[i] = (p, q, time.time(), j)
        for i, (p, q, t, j) in list(live.items()):
            r = None
            try:
                r = q.get_nowait()
            except Exception:
                if not p.is_alive():
                    try:
                        r = q.get(timeout=.5)
                    except Exception:
                        r = (None, 'died')
                elif time.time() - t > hard:
                    r = (None, 'timeout')
            if r is not None:
                p.join(timeout=1)
                if p.is_alive():
                    p.kill()
                del live[i]
                nk += bool(r[0])
                if not r[0]:
                    print('%s %s:%d  %s  | %s  %s' % ('SURVIVED' if r[0] is False else 'ERR', j[0], j[1], j[2], j[3], r[1]), flush=True)
        time.sleep(0.02)
    print('%s: %d mutants, %d noticed, %.0fs' % (prop, len(jobs), nk, time.time() - t0))


if __name__ == '__main__':
    main()
    os._exit(0)
