"""Symbolic execution of the real code: path exploration, patching of the rubin_sim modules, obligations."""
import ast
import copy
import builtins
import contextlib
import importlib
import inspect
import os
import sys
import time
import types
import warnings
import numpy as np
import z3
from .terms import *  # noqa
from . import terms as T
from .sym import *  # noqa
from .sym import CUR
from . import npmodel, prover
from .npmodel import NP, PATCH_BUILTINS, p_int, p_float, p_str


class Obligation:
    def __init__(self, name, assumptions, goal, inputs, kind='post'):
        self.name = name
        self.assumptions = assumptions
        self.goal = goal
        self.inputs = inputs
        self.kind = kind
        self.result = None


class LoopCut:
    pass


class Engine:
    MAXPATHS = 300

    def __init__(self, timeout_ms=8000, branch_ms=400, budget_s=120, collect_safety=True):
        self.timeout_ms = timeout_ms
        self.branch_ms = branch_ms
        self.budget = budget_s
        self.collect_safety = collect_safety
        self.nan_used = False
        self.functions = set()
        self.models_used = set()

    # ------------------------------------------------------------ one contract
    def explore(self, fn):
        """run fn(S) on all paths; returns list of obligations (proved or not) and path statistics"""
        self.t0 = time.time()
        self.obls = []
        self.seen = {}
        self.paths = 0
        self.safety_unproved = []
        stack = [[]]
        self.cache = {}
        while stack:
            prefix = stack.pop()
            self.prefix = prefix
            self.taken = []
            self.pending = []
            self.assume_list = []
            self.ax = {}
            self.pools = {}
            self.index_ctx = []
            self.nodef_depth = 0
            self.paths += 1
            if self.paths > self.MAXPATHS:
                raise Unsupported('more than %d paths' % self.MAXPATHS)
            T.reset_fresh()
            CUR.eng = self
            try:
                fn(self)
            except PathEnd:
                pass
            finally:
                CUR.eng = None
            for p in self.pending:
                stack.append(p)
            if time.time() - self.t0 > self.budget:
                raise Unsupported('symbolic execution budget exhausted')
        return self.obls

    # ------------------------------------------------------------ conditions
    def input_axioms(self, terms):
        out = []
        apps = {}
        for t in terms:
            if z3.is_app(t):
                n = t.decl().name()
                if n in self.ax:
                    apps.setdefault(n, []).append(t)
        for n, ts in apps.items():
            for f in self.ax[n]:
                out += f(ts)
        return out

    def _check(self, extra, ms):
        key = (tuple(a.get_id() for a in self.assume_list), extra.get_id())
        if key in self.cache:
            return self.cache[key][0]
        part = prover.cone(self.assume_list, extra) + [extra]
        if prover.quick_unsat(part, self.input_axioms):
            r = z3.unsat
        else:
            fm, _ = prover.prepare(part, self.input_axioms, rounds=2)
            r, _s = prover.solve(fm, ms)
        self.cache[key] = (r, extra, list(self.assume_list))
        return r

    def must(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        # if the condition mentions the generic index, it must hold for every index of the current domain
        if mentions(c, IV):
            return self._must_generic(c)
        return self._check(z3.Not(c), self.branch_ms) == z3.unsat

    def _must_generic(self, c, dom=None):
        g = [d.bag() for d in self.index_ctx]
        if dom is not None:
            g.append(dom.bag())
        k = T.fresh('k', I)
        ex = z3.And(*[subst(x, IV, k) for x in g], z3.Not(subst(c, IV, k)))
        return self._check(ex, self.branch_ms) == z3.unsat

    def must_indexed(self, cond, dom):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        return self._must_generic(c, dom)

    def branch(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if mentions(c, IV):
            raise Unsupported('branch on a generic element')
        for a in self.assume_list:
            if a.eq(c):
                return True
            if a.eq(z3.simplify(z3.Not(c))):
                return False
        k = len(self.taken)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            t_ok = self._check(c, self.branch_ms) != z3.unsat
            f_ok = self._check(z3.Not(c), self.branch_ms) != z3.unsat
            if t_ok and f_ok:
                self.pending.append(self.taken + [False])
                d = True
            elif t_ok:
                d = True
            elif f_ok:
                d = False
            else:
                raise PathEnd('infeasible')
        self.taken.append(d)
        self.assume_list.append(c if d else z3.simplify(z3.Not(c)))
        return d

    def choose(self, n):
        """demonic choice among n alternatives (all explored)"""
        k = len(self.taken)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            for j in range(1, n):
                self.pending.append(self.taken + [j])
            d = 0
        self.taken.append(d)
        return d

    def assume(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathEnd('assumption false')
        self.assume_list.append(c)

    @contextlib.contextmanager
    def indexed(self, dom):
        self.index_ctx.append(dom)
        try:
            yield
        finally:
            self.index_ctx.pop()

    @contextlib.contextmanager
    def nodef(self):
        self.nodef_depth += 1
        try:
            yield
        finally:
            self.nodef_depth -= 1

    def defined(self, cond, msg):
        if self.nodef_depth or not self.collect_safety:
            return
        c = z3.simplify(cond)
        if z3.is_true(c):
            return
        if mentions(c, IV):
            k = T.fresh('k', I)
            g = [subst(d.bag(), IV, k) for d in self.index_ctx]
            c = z3.Implies(z3.And(*g) if g else z3.BoolVal(True), subst(c, IV, k))
        self.obligation('defined: ' + msg, c, kind='safety')

    def index_unsafe(self, idx, n):
        k = T.fresh('k', I)
        b = subst(idx.body, IV, k)
        g = subst(idx.dom.bag(), IV, k)
        self.obligation('index in bounds', z3.Implies(g, z3.And(b >= -n, b < n)), kind='safety')

    # ------------------------------------------------------------ obligations
    def obligation(self, name, goal, kind='post'):
        key = (name, goal.get_id(), tuple(sorted(a.get_id() for a in self.assume_list)))
        if key in self.seen:
            return self.seen[key]
        o = Obligation(name, list(self.assume_list), goal, None, kind)
        o.inputs = dict(self.inputs) if hasattr(self, 'inputs') else {}
        t = time.time()
        ms = self.timeout_ms if kind != 'safety' else min(1500, self.timeout_ms)
        # a path whose assumptions are already contradictory proves nothing: detected by the reachability check
        o.result = prover.prove(o.assumptions, goal, self.input_axioms, ms, use_cvc5=(kind != 'safety'))
        o.time = time.time() - t
        o.keep = goal
        self.seen[key] = o
        self.obls.append(o)
        return o

    def reachable(self):
        """are the current assumptions satisfiable (as far as the solver can tell)?"""
        fm, _ = prover.prepare(self.assume_list, self.input_axioms, rounds=1)
        r, _s = prover.solve(fm, 1000)
        return r != z3.unsat


# ---------------------------------------------------------------- patching the real modules
class _CallRewriter(ast.NodeTransformer):
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in ('int', 'float', 'str') and node.func.id not in self.shadow:
            node.func = ast.copy_location(ast.Name('pvrt_' + node.func.id, ast.Load()), node.func)
        return node

    def visit_ListComp(self, node):
        self.generic_visit(node)
        g = node.generators
        if len(g) != 1 or g[0].ifs or g[0].is_async:
            return node
        return self._comp(node, g[0])

    def visit_GeneratorExp(self, node):
        return self.visit_ListComp(node)

    def _comp(self, node, g):
        t = g.target
        if isinstance(t, ast.Name):
            args = [t.id]
        elif isinstance(t, ast.Tuple) and all(isinstance(e, ast.Name) for e in t.elts):
            args = [e.id for e in t.elts]
        else:
            return node
        lamb = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(a) for a in args], kwonlyargs=[], kw_defaults=[],
                                             defaults=[]), body=node.elt)
        if any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await)) for x in ast.walk(node.elt)):
            return node
        call = ast.Call(func=ast.Name('pvrt_comp', ast.Load()),
                        args=[g.iter, lamb, ast.Constant(len(args) if isinstance(t, ast.Tuple) else 0)], keywords=[])
        return ast.copy_location(call, node)

    def __init__(self, loops=None):
        self.shadow = set()
        self.loops = loops or {}
        self.stack = []

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        q = '.'.join(self.stack)
        self.counter = getattr(self, 'counter', {})
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_For(self, node):
        q = '.'.join(self.stack)
        c = self.counter.get(q, 0)
        self.counter[q] = c + 1
        orig = copy.deepcopy(node) if q in self.loops else None
        if orig is not None:
            saved = self.loops
            self.loops = {}
            orig = _CallRewriter().visit_native(orig)
            self.loops = saved
        node = self.generic_visit(node)
        if orig is None:
            return node
        return rewrite_loop(node, '%s#%d' % (q, c), orig)

    def visit_native(self, node):
        self.counter = {}
        return self.generic_visit(node)


class _Assigned(ast.NodeVisitor):
    """names (re)bound or whose content is modified in a loop body"""

    def __init__(self):
        self.names = []
        self.mut = []
        self.attrs = set()

    def _n(self, x):
        if x not in self.names:
            self.names.append(x)

    def _t(self, t):
        if isinstance(t, ast.Name):
            self._n(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self._t(e)
        elif isinstance(t, ast.Starred):
            self._t(t.value)
        elif isinstance(t, ast.Subscript):
            b = t.value
            attr = False
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                if isinstance(b, ast.Attribute):
                    self.attrs.add(b.attr)
                    attr = True
                b = b.value
            if isinstance(b, ast.Name) and not attr:
                self.mut.append(b.id)
        elif isinstance(t, ast.Attribute):
            self.attrs.add(t.attr)

    def visit_Assign(self, n):
        for t in n.targets:
            self._t(t)
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self._t(n.target)
        self.generic_visit(n)

    def visit_AnnAssign(self, n):
        self._t(n.target)
        self.generic_visit(n)

    def visit_For(self, n):
        self._t(n.target)
        self.generic_visit(n)

    def visit_Call(self, n):
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'add', 'extend', 'update', 'pop', 'remove', 'insert', 'sort') \
                and isinstance(n.func.value, (ast.Name, ast.Attribute)):
            if isinstance(n.func.value, ast.Name):
                self.mut.append(n.func.value.id)
            elif n.func.attr == 'append':
                self.attrs.add(n.func.value.attr)
        self.generic_visit(n)


def rewrite_loop(node, lid, orig):
    a = _Assigned()
    for s in node.body:
        a.visit(s)
    tgt = _Assigned()
    tgt._t(node.target)
    names = [n for n in a.names if n not in tgt.names]
    names += [m for m in dict.fromkeys(a.mut) if m not in names and m not in tgt.names]
    attrs = sorted(a.attrs)
    L = 'pvrt_lc_' + lid.replace('.', '_').replace('#', '_')
    loc = ast.parse('{%s}' % ', '.join('%r: %s.peek(lambda: %s)' % (n, 'pvrt_rt', n) for n in names), mode='eval').body
    pre = ast.parse('%s = pvrt_loop(%r, None, None, %r)' % (L, lid, attrs)).body[0]
    pre.value.args[1] = node.iter
    pre.value.args[2] = loc
    loc2 = ast.parse('{%s}' % ', '.join('%r: %s.peek(lambda: %s)' % (n, 'pvrt_rt', n) for n in names), mode='eval').body
    assign = [ast.parse('%s = %s.var(%r)' % (n, L, n)).body[0] for n in names]
    assign2 = [ast.parse('%s = %s.var(%r)' % (n, L, n)).body[0] for n in names]
    end = ast.parse('%s.end(None)' % L).body[0]
    end.value.args[0] = loc2
    one = ast.For(target=node.target, iter=ast.parse('(%s.elem(),)' % L, mode='eval').body, body=node.body, orelse=[end])
    body = assign + [one]
    els = assign2 + (node.orelse or [])
    iff = ast.If(test=ast.parse('%s.in_body()' % L, mode='eval').body, body=body, orelse=els or [ast.Pass()])
    orig.iter = ast.parse('%s.it' % L, mode='eval').body
    out = [pre, ast.If(test=ast.parse('%s.native' % L, mode='eval').body, body=[orig], orelse=[iff])]
    for x in out:
        ast.copy_location(x, node)
        ast.fix_missing_locations(x)
    return out


class Undefined:
    pass


class _RT:
    @staticmethod
    def peek(f):
        try:
            return f()
        except (NameError, UnboundLocalError):
            return Undefined


class Loop:
    """inductive cut of a loop. spec(S, k, vars, it) -> list of z3 bools / SV (the invariant);
    spec.havoc(S, vars, it) -> dict of fresh values."""

    native = False

    def __init__(self, lid, it, vars0, spec, attrs):
        e = CUR.eng
        self.lid, self.it, self.spec = lid, it, spec
        self.S = e.ctx
        self.vars0 = vars0
        sq = _seq(it)
        if sq is None:
            raise Unsupported('annotated loop over %s' % type(it))
        self.n, self.item = sq
        if not e.must(self.n >= 0):
            self.n = z3.If(self.n >= 0, self.n, z3.IntVal(0))
        extra = [x for x in attrs if x not in getattr(spec, 'heap', ())]
        if extra:
            raise Unsupported('loop %s stores to attributes %s, outside its frame' % (lid, extra))
        spec.enter(self.S, dict(vars0), it, SV(self.n))
        for nm, g in spec.inv(self.S, SV(z3.IntVal(0)), dict(vars0), it):
            e.obligation('loop %s: invariant %s holds initially' % (lid, nm), _b(g), kind='inv')
        self.mode = e.choose(2)   # 0: arbitrary iteration, 1: after the loop
        if self.mode == 0:
            self.k = T.fresh('k', I)
            e.assume(z3.And(self.k >= 0, self.k < self.n))
        else:
            self.k = self.n
        hv = spec.havoc(self.S, SV(self.k), dict(vars0), it)
        self.cur = dict(vars0)
        for nm, v in hv.items():
            old = vars0.get(nm, Undefined)
            if isinstance(v, SArr) and isinstance(old, SArr):
                old.dom, old.body, old.kind = v.dom, v.body, v.kind
                v = old
            self.cur[nm] = v
        dead = getattr(spec, 'dead', ())
        missing = [n for n in vars0 if n not in hv and vars0[n] is not Undefined and n not in dead]
        if missing:
            raise Unsupported('loop %s modifies %s, which the annotation does not mention' % (lid, missing))
        for n in dead:
            self.cur[n] = Undefined
        for nm, g in spec.inv(self.S, SV(self.k), dict(self.cur), it):
            e.assume(_b(g))

    def var(self, n):
        v = self.cur.get(n, Undefined)
        if v is Undefined:
            return None
        return v

    def in_body(self):
        return self.mode == 0

    def elem(self):
        return self.item(self.k)

    def end(self, vars1):
        e = CUR.eng
        for nm, g in self.spec.inv(self.S, SV(self.k + 1), dict(vars1), self.it):
            e.obligation('loop %s: invariant %s preserved' % (self.lid, nm), _b(g), kind='inv')
        raise PathEnd('loop body checked')


def _b(g):
    return g.t if isinstance(g, SV) else (z3.BoolVal(bool(g)) if isinstance(g, (bool, np.bool_)) else g)


class SEnum:
    """enumerate/zip over symbolic sequences, for annotated loops"""

    def __init__(self, n, item):
        self.n, self.item = n, item

    def __iter__(self):
        k = z3.simplify(self.n)
        if z3.is_int_value(k):
            return iter([self.item(z3.IntVal(j)) for j in range(k.as_long())])
        raise Unsupported('loop over symbolic enumerate/zip without an invariant')


def _seq(it):
    if isinstance(it, SArr):
        return it.dom.n, it.get
    if isinstance(it, (SEnum, SList)):
        return it.n, it.item
    if isinstance(it, npmodel.PRange):
        lo = num(lift(it.lo))
        return num(lift(it.hi)) - lo, lambda k: SV(z3.simplify(lo + k))
    return None


def p_enumerate(it, start=0):
    s = _seq(it)
    if s:
        n, item = s
        return SEnum(n, lambda k: (SV(z3.simplify(k + start)), item(k)))
    return builtins.enumerate(it, start)


def p_zip(*its, **kw):
    ss = [_seq(i) for i in its]
    if any(ss):
        if not all(ss):
            # concrete sequence with symbolic one
            if any(s and z3.is_int_value(z3.simplify(s[0])) for s in ss):
                return builtins.zip(*its)
            raise Unsupported('zip of concrete and symbolic')
        n0 = ss[0][0]
        for n, _ in ss[1:]:
            if not CUR.eng.must(n == n0):
                raise Unsupported('zip of sequences of unproved equal length')
        return SEnum(n0, lambda k: tuple(item(k) for _, item in ss))
    return builtins.zip(*its, **kw)


LOOP_SPECS = {}


class SList:
    """list of symbolic length; element k is computed on demand"""

    def __init__(self, n, item):
        self.n, self._item = n, item

    def __len__(self):
        raise Unsupported('len() of a symbolic list')

    @property
    def size(self):
        return SV(self.n)

    def __iter__(self):
        raise Unsupported('iteration over a symbolic list')

    def item(self, k):
        return self._item(k)

    def __getitem__(self, ix):
        if isinstance(ix, slice):
            raise Unsupported('slice of a symbolic list')
        k = num(ix)
        if not isinstance(ix, SV) and ix < 0:
            k = self.n + k
        if not CUR.eng.branch(z3.And(k >= 0, k < self.n)):
            raise IndexError('list index out of range')
        return self._item(k)


def pv_comp(it, f, nargs):
    if isinstance(it, SArr) and getattr(it, 'uniq_of', None) is not None and not nargs:
        x = it.uniq_of
        if z3.is_app(x.body) and CUR.eng.pools.get(x.body.decl().name()) is not None:
            return [f(v) for v in it]
    s = _seq(it)
    if s is not None and not z3.is_int_value(z3.simplify(s[0])):
        n, item = s
        if not CUR.eng.must(n >= 0):
            n = z3.If(n >= 0, n, z3.IntVal(0))
        return SList(n, (lambda k: f(*item(k))) if nargs else (lambda k: f(item(k))))
    if s is not None:
        it = [s[1](z3.IntVal(j)) for j in range(z3.simplify(s[0]).as_long())]
    return [f(*x) for x in it] if nargs else [f(x) for x in it]


npmodel.SLIST = SList


class _Native:
    native = True

    def __init__(self, it):
        self.it = it


class LoopSpec:
    """annotation of a loop: heap = attributes the body may store to, dead = locals not read after the loop"""
    heap = ()
    dead = ()

    def enter(self, S, v, it, n):
        pass

    def havoc(self, S, k, v, it):
        return {}

    def inv(self, S, k, v, it):
        return []


def pv_loop(lid, it, vars0, attrs):
    if CUR.eng is None:
        return _Native(it)
    if hasattr(it, 'pv_seq'):
        it = it.pv_seq()
    sq = _seq(it)
    if sq is None:
        return _Native(it)
    if z3.is_int_value(z3.simplify(sq[0])):
        return _Native([sq[1](z3.IntVal(j)) for j in range(z3.simplify(sq[0]).as_long())])
    q = lid.partition('#')[0]
    specs = CUR.eng.loop_specs
    spec = specs.get(lid) or specs.get(q)
    if spec is None:
        raise Unsupported('no annotation for loop %s' % lid)
    return Loop(lid, it, vars0, spec() if isinstance(spec, type) else spec, attrs)


def rubin_modules():
    return [m for n, m in list(sys.modules.items()) if m is not None and (n == 'rubin_sim' or n.startswith('rubin_sim.'))]


class Patched:
    """context: rubin_sim modules run with the symbolic numpy and builtins"""

    def __init__(self, modules, extra=None, loops=None, stubs=None):
        self.modules = modules
        self.extra = extra or {}
        self.loops = loops or {}
        self.stubs = stubs or {}
        self.saved = []
        self.codes = []

    def __enter__(self):
        for m in self.modules:
            d = m.__dict__
            for k, v in list(d.items()):
                if v is np:
                    self._set(d, k, NP)
                elif v is np.ma:
                    self._set(d, k, NP.ma)
                elif isinstance(v, np.ufunc):
                    self._set(d, k, npmodel.UfuncShim(v))
                elif isinstance(v, types.FunctionType) or type(v).__name__ == '_ArrayFunctionDispatcher':
                    nm = getattr(v, '__name__', '')
                    if getattr(np, nm, None) is v:
                        self._set(d, k, getattr(NP, nm))
            for k, v in PATCH_BUILTINS.items():
                if k not in d:
                    self._set(d, k, v)
            for k, v in {'pvrt_int': p_int, 'pvrt_float': p_float, 'pvrt_str': p_str, 'pvrt_loop': pv_loop,
                         'pvrt_rt': _RT, 'pvrt_comp': pv_comp, 'enumerate': p_enumerate, 'zip': p_zip}.items():
                self._set(d, k, v)
            for k, v in self.extra.get(m.__name__, {}).items():
                self._set(d, k, v)
            self._recode(m)
        for target, repl in self.stubs.items():
            owner, attr = resolve_owner(target)
            old = owner.__dict__[attr] if attr in getattr(owner, '__dict__', {}) else getattr(owner, attr)
            self.saved.append(('attr', owner, attr, old))
            setattr(owner, attr, repl)
            # references imported by name into other modules
            for m in self.modules:
                for k, v in list(m.__dict__.items()):
                    if v is old and callable(old) and not isinstance(old, type):
                        self._set(m.__dict__, k, repl)
        return self

    def _set(self, d, k, v):
        self.saved.append(('dict', d, k, d.get(k, _MISSING)))
        d[k] = v

    def _recode(self, m):
        f = getattr(m, '__file__', None)
        if not f or not f.endswith('.py'):
            return
        lp = self.loops.get(m.__name__)
        key = (f, os.path.getmtime(f), repr(sorted(lp)) if lp else None)
        codes = _CODES.get(key)
        if codes is None:
            src = open(f).read()
            tree = ast.parse(src)
            tree = _CallRewriter(lp).visit(tree)
            ast.fix_missing_locations(tree)
            top = compile(tree, f, 'exec')
            codes = {}

            def walk(c):
                for k in c.co_consts:
                    if isinstance(k, types.CodeType):
                        codes.setdefault((k.co_qualname, k.co_firstlineno), k)
                        walk(k)
            walk(top)
            _CODES[key] = codes

        def repl(fn):
            c = fn.__code__
            if c.co_filename != f:
                return
            n = codes.get((c.co_qualname, c.co_firstlineno))
            if n is not None and n.co_freevars == c.co_freevars:
                self.codes.append((fn, c))
                fn.__code__ = n
        for k, v in list(m.__dict__.items()):
            if isinstance(v, types.FunctionType):
                repl(v)
            elif isinstance(v, type) and v.__module__ == m.__name__:
                for a, b in list(v.__dict__.items()):
                    if isinstance(b, types.FunctionType):
                        repl(b)
                    elif isinstance(b, (staticmethod, classmethod)):
                        repl(b.__func__)
                    elif isinstance(b, property):
                        for g in (b.fget, b.fset):
                            if isinstance(g, types.FunctionType):
                                repl(g)

    def __exit__(self, *a):
        for fn, c in reversed(self.codes):
            fn.__code__ = c
        for s in reversed(self.saved):
            if s[0] == 'dict':
                _, d, k, v = s
                if v is _MISSING:
                    d.pop(k, None)
                else:
                    d[k] = v
            else:
                _, o, k, v = s
                setattr(o, k, v)
        return False


_MISSING = object()
_CODES = {}


def resolve_owner(target):
    mod, _, path = target.partition(':')
    o = importlib.import_module(mod)
    parts = path.split('.')
    for p in parts[:-1]:
        o = getattr(o, p)
    return o, parts[-1]


def resolve(target):
    o, a = resolve_owner(target)
    return getattr(o, a)


def _assume_gen(self, g):
    self.assume(g)


Engine.assume_gen = _assume_gen
