"""Symbolic interpreter for Python function bodies taken from /repo's source."""
import ast
import operator
import builtins as _b
import os
import z3
from .core import Restart
from .core import *
from . import core


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class GenVal:
    """A generator expression, evaluated lazily by its consumer."""
    def __init__(self, node, env, vm, src=None):
        self.node = node
        self.env = env
        self.src = vm.ev(node.generators[0].iter, env) if src is None else src


class IterVal:
    """An iterator over known items (iter(), map(), zip() results)."""
    def __init__(self, segs):
        self.segs = list(segs)


class DictView:
    def __init__(self, d, what):
        self.d = d
        self.what = what


class Env:
    __slots__ = ('vars', 'parent', 'module', 'locals', 'globals', 'nonlocals', 'kind', 'fn', 'hav')

    def __init__(self, module, parent=None, kind='module', locals_=None, globals_=(), nonlocals=(), fn=None):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.kind = kind
        self.locals = locals_
        self.globals = set(globals_)
        self.nonlocals = set(nonlocals)
        self.fn = fn
        self.hav = None


PURE_METHODS = {'lstrip', 'rstrip', 'strip', 'partition', 'rpartition', 'isdigit', 'startswith', 'endswith', 'lower', 'upper', 'replace',
                'split', 'splitlines'}


def pure_expr(n):
    if isinstance(n, (ast.Name, ast.Constant)):
        return True
    if isinstance(n, (ast.Tuple, ast.List)):
        return all(pure_expr(x) for x in n.elts)
    if isinstance(n, ast.Compare):
        return pure_expr(n.left) and all(pure_expr(x) for x in n.comparators)
    if isinstance(n, ast.BoolOp):
        return all(pure_expr(x) for x in n.values)
    if isinstance(n, ast.UnaryOp):
        return isinstance(n.op, ast.Not) and pure_expr(n.operand)
    if isinstance(n, ast.Call):
        return isinstance(n.func, ast.Attribute) and n.func.attr in PURE_METHODS and pure_expr(n.func.value) \
            and not n.keywords and all(pure_expr(x) for x in n.args)
    return False


def deferrable(fn, n):
    """Is this list only iterated over, and are its items computed without effects, and whenever they are?"""
    memo = fn.__dict__.setdefault('_deferrable', {})
    if n not in memo:
        memo[n] = _deferrable(fn, n)
    return memo[n]


def _deferrable(fn, n):
    if isinstance(fn, ast.Lambda):
        return False
    g = n.generators[0]
    if len(n.generators) > 1 or g.is_async or not pure_expr(n.elt) or not all(pure_expr(c) for c in g.ifs):
        return False
    iters, stores, loads, scopes, direct, target = set(), {}, {}, [], False, None
    for x in ast.walk(fn):
        if isinstance(x, (ast.For, ast.comprehension)):
            iters.add(id(x.iter))
            direct = direct or x.iter is n
        elif isinstance(x, ast.Name):
            (loads if isinstance(x.ctx, ast.Load) else stores).setdefault(x.id, []).append(x)
        elif isinstance(x, (ast.Global, ast.Nonlocal)):
            for name in x.names:
                stores.setdefault(name, []).extend([x, x])
        elif isinstance(x, ast.arg):
            stores.setdefault(x.arg, []).append(x)
        elif isinstance(x, ast.Assign) and x.value is n and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
            target = x.targets[0].id
        elif isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and x is not fn:
            scopes.append(x)
    if direct:
        return True
    if target is None or len(stores[target]) != 1 or scopes:
        return False
    return all(id(x) in iters for x in loads.get(target, ()))


def assigned_names(body, into=None):
    """Names bound by a list of statements (not inside nested functions)."""
    out = set() if into is None else into
    glob, nonl = set(), set()

    def target(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                target(e)
        elif isinstance(t, ast.Starred):
            target(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    target(c.target)
            return
        if isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                target(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)):
            if not (isinstance(n, ast.AnnAssign) and n.value is None and False):
                target(n.target)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            target(n.target)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                if i.optional_vars is not None:
                    target(i.optional_vars)
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                out.add(n.name)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                target(t)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            walk(c)

    for s in body:
        walk(s)
    return out - glob - nonl, glob, nonl


_scope_cache = {}


def scope_of(node):
    r = _scope_cache.get(id(node))
    if r is None:
        a = node.args
        body = node.body if isinstance(node.body, list) else [node.body]
        loc, glob, nonl = assigned_names(body)
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            loc.add(p.arg)
        if a.vararg:
            loc.add(a.vararg.arg)
        if a.kwarg:
            loc.add(a.kwarg.arg)
        isgen = False
        stack = list(body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                isgen = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp,
                              ast.AsyncFunctionDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        r = (node, loc, glob, nonl, isgen)
        _scope_cache[id(node)] = r
    return r[1:]


class World:
    """The repository's modules, loaded by interpreting their source."""

    def __init__(self, root='/repo', package='teleprox'):
        self.root = root
        self.package = package
        self.modules = {}
        self.saved = []
        self.saved_ids = set()
        self.booting = 0
        self.sources = {}
        self.boot_vm = None

    def path_of(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.exists(p + '.py'):
            return p + '.py', False
        return None, False

    def load(self, name, special=None):
        from .lib import SPECIAL_MODULES
        m = self.modules.get(name)
        if m is not None:
            return m
        if name in SPECIAL_MODULES:
            m = SPECIAL_MODULES[name]
            self.modules[name] = m
            return m
        if '.' in name and name.rsplit('.', 1)[0] not in self.modules:
            self.load(name.rsplit('.', 1)[0])
            if name in self.modules:
                return self.modules[name]
        path, is_pkg = self.path_of(name)
        if path is None:
            return None
        m = ModuleVal(name, path)
        m.is_pkg = is_pkg
        self.modules[name] = m
        src = open(path, encoding='utf-8').read()
        self.sources[name] = src
        tree = ast.parse(src, path)
        m.tree = tree
        m.ns['__name__'] = name
        m.ns['__file__'] = path
        self.booting += 1
        try:
            vm = self.boot()
            env = Env(m)
            env.vars = m.ns
            old = vm.where
            vm.exec_block(tree.body, env)
            vm.where = old
        finally:
            self.booting -= 1
        m.loaded = True
        if '.' in name:
            parent, leaf = name.rsplit('.', 1)
            pm = self.modules.get(parent)
            if pm is not None:
                pm.ns.setdefault(leaf, m)
        return m

    def boot(self):
        if self.boot_vm is None:
            ex = Explorer(self, 'boot', None)
            self.boot_vm = Interp(ex, Results('boot'), [], [])
            self.boot_vm.is_boot = True
        return self.boot_vm

    def journal(self, o):
        if self.booting:
            return
        if isinstance(o, Heap) and o.loc is not None:
            return
        if id(o) in self.saved_ids:
            return
        self.saved_ids.add(id(o))
        if isinstance(o, ListObj):
            st = list(o.segs)
        elif isinstance(o, (DictObj, SetObj)):
            st = list(o.layers)
        elif isinstance(o, InstObj):
            st = dict(o.ghost)
        elif isinstance(o, (ClassVal, ModuleVal)):
            st = dict(o.ns)
        else:
            raise AssertionError(o)
        self.saved.append((o, st))

    def restore(self):
        for o, st in self.saved:
            if isinstance(o, ListObj):
                o.segs = st
            elif isinstance(o, (DictObj, SetObj)):
                o.layers = st
            elif isinstance(o, InstObj):
                o.ghost = st
            else:
                o.ns.clear()
                o.ns.update(st)
        self.saved = []
        self.saved_ids = set()

    def fn(self, dotted):
        """Find a function or class of the repository by dotted name, None if absent."""
        parts = dotted.split('.')
        for i in range(len(parts), 0, -1):
            m = self.load('.'.join(parts[:i])) if self.path_of('.'.join(parts[:i]))[0] else None
            if isinstance(m, ModuleVal):
                o = m
                for p in parts[i:]:
                    if isinstance(o, ModuleVal):
                        o = o.ns.get(p)
                    elif isinstance(o, ClassVal):
                        o = class_lookup(o, p)
                    else:
                        return None
                    if o is None or o is MISSING:
                        return None
                return o
        return None


def compute_mro(c):
    def mro(x):
        if isinstance(x, ClassVal):
            return x.mro
        if isinstance(x, TypeVal):
            return [TypeVal(t) for t in x.t.__mro__]
        if isinstance(x, ExtCls):
            return merge([[x]] + [mro(b) for b in x.bases] + [list(x.bases)])
        raise Unsupported('base class %r' % x)

    def merge(seqs):
        res = []
        seqs = [list(s) for s in seqs if s]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return res
            for s in seqs:
                cand = s[0]
                if not any(cand in t[1:] for t in seqs):
                    break
            else:
                raise Unsupported('inconsistent MRO')
            res.append(cand)
            for s in seqs:
                if s[0] is cand:
                    del s[0]

    return merge([[c]] + [mro(b) for b in c.bases] + [list(c.bases)])


_obj = TypeVal(object)


def mro_of(c):
    if isinstance(c, ClassVal):
        return c.mro
    if isinstance(c, TypeVal):
        return [TypeVal(t) for t in c.t.__mro__]
    if isinstance(c, ExtCls):
        r = getattr(c, '_mro', None)
        if r is None:
            r = [c]
            for b in c.bases:
                for x in mro_of(b):
                    if x not in r and x is not _obj:
                        r.append(x)
            r.append(_obj)
            c._mro = r
        return r
    raise Unsupported('mro of %r' % (c,))


def class_lookup(c, name):
    for k in mro_of(c):
        if isinstance(k, ClassVal):
            if name in k.ns:
                return k.ns[name]
        elif isinstance(k, ExtCls):
            if name in k.methods:
                return Native(k.methods[name], k.dotted + '.' + name)
            if name in k.props:
                return Prop(Native(k.props[name], k.dotted + '.' + name))
    return MISSING


def issub(a, b):
    if a is b:
        return True
    return b in mro_of(a)


BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%',
          ast.Pow: '**', ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^', ast.LShift: '<<',
          ast.RShift: '>>', ast.MatMult: '@'}
DUNDER = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv', '%': 'mod', '**': 'pow',
          '|': 'or', '&': 'and', '^': 'xor', '<<': 'lshift', '>>': 'rshift', '@': 'matmul'}
CMPD = {'<': 'lt', '>': 'gt', '<=': 'le', '>=': 'ge'}
REFL = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}
PRIM = (bool, int, float, str, bytes, type(None))


class Interp(VM):
    is_boot = False

    def alloc(self, o):
        if self.is_boot:
            o.loc = None
            o.base = True
            o.name = 'base'
            return
        VM.alloc(self, o)

    def decide(self, alts):
        if self.is_boot:
            raise Unsupported('branch while loading modules')
        return VM.decide(self, alts)

    # ======================================================================= exceptions
    def mkexc(self, cls, *args):
        if isinstance(cls, type):
            cls = TypeVal(cls)
        o = InstObj(self, cls)
        o.fields.layers.append(('set', 'args', Tup(args)))
        o.fields.layers.append(('set', '__cause__', None))
        return o

    def throw(self, cls, *args):
        raise PyExc(self.mkexc(cls, *args))

    def sym_exc(self, hint='exc'):
        """An arbitrary BaseException."""
        o = InstObj(self, TypeVal(BaseException))
        o.ghost['sym'] = z3.Const(self.uname(hint), V)
        o.ghost['facts'] = {}
        o.fields.layers.append(('set', 'args', Tup([Splice(z3.Const(self.uname(hint + '.args'), L))])))
        return o

    def exc_is(self, v, cls):
        if isinstance(cls, Tup):
            for c in cls.segs:
                if self.exc_is(v, c):
                    return True
            return False
        if not isinstance(cls, (TypeVal, ClassVal, ExtCls)):
            raise Unsupported('except clause %r' % (cls,))
        if 'sym' in v.ghost:
            if issub(v.cls, cls):
                return True
            facts = v.ghost['facts']
            for c, val in facts.items():
                if val and issub(c, cls):
                    return True
                if not val and issub(cls, c):
                    return False
                if val and not issub(cls, c) and not self._may_both(c, cls):
                    return False
            r = self.branch(F_isinst(v.ghost['sym'], self.lift(cls)))
            facts[cls] = r
            return r
        return issub(v.cls, cls)

    def _may_both(self, a, b):
        # two exception classes could only both hold for a common subclass; treat known leaf classes
        # as disjoint when neither is a subclass of the other.
        return issub(a, b) or issub(b, a)

    # ======================================================================= lookup
    def lookup(self, name, env):
        e = env
        first = True
        while e is not None:
            if e.kind == 'class' and not first:
                e = e.parent
                continue
            if name in e.globals:
                break
            if name in e.vars:
                v = e.vars[name]
                if isinstance(v, Havoc):
                    raise Unsupported('value of local %r after a loop is not described by an invariant' % name)
                if e.hav is not None and e.hav.get(name) is v and v is not None:
                    self.taint('value of local %r carried by a loop is not described by an invariant' % name)
                return v
            if e.kind == 'function' and e.locals is not None and name in e.locals and name not in e.nonlocals:
                self.throw(UnboundLocalError, name)
            first = False
            e = e.parent
        ns = env.module.ns
        if name in ns:
            return ns[name]
        from .lib import BUILTINS
        if name in BUILTINS:
            return BUILTINS[name]
        if hasattr(_b, name):
            o = getattr(_b, name)
            if isinstance(o, type):
                return TypeVal(o)
            raise Unsupported('builtin %s' % name)
        self.throw(NameError, name)

    def bind_name(self, name, v, env):
        if env.kind == 'module':
            if not self.is_boot:
                self.touch(env.module)
            env.module.ns[name] = v
            return
        if name in env.globals:
            if not self.is_boot:
                self.touch(env.module)
            env.module.ns[name] = v
            return
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if e.kind != 'class' and name in e.vars:
                    e.vars[name] = v
                    return
                e = e.parent
            raise Unsupported('nonlocal %s' % name)
        env.vars[name] = v

    # ======================================================================= statements
    def exec_block(self, body, env):
        for s in body:
            self.exec(s, env)

    def exec(self, s, env):
        self.where = '%s:%d' % (env.module.name, s.lineno)
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        m(s, env)

    def x_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def x_Pass(self, s, env):
        pass

    def x_Global(self, s, env):
        if env.kind != 'module':
            env.globals.update(s.names)

    def x_Nonlocal(self, s, env):
        env.nonlocals.update(s.names)

    def x_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def x_AugAssign(self, s, env):
        t = s.target
        op = BINOPS[type(s.op)]
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            self.bind_name(t.id, self.augop(op, cur, self.ev(s.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.augop(op, cur, self.ev(s.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev_index(t.slice, env)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.augop(op, cur, self.ev(s.value, env)))
        else:
            raise Unsupported('augmented assignment target')

    def augop(self, op, a, b):
        if op == '+' and isinstance(a, ListObj):
            segs = self.iter_segs(b)
            self.touch(a)
            a.segs = a.segs + list(segs)
            return a
        if op == '|' and isinstance(a, DictObj):
            self.dict_update(a, b)
            return a
        if isinstance(a, InstObj):
            m = self.special(a, '__i%s__' % DUNDER[op])
            if m is not MISSING:
                return self.call(m, [b])
        return self.binop(op, a, b)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.bind_name(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            self.setitem(o, self.ev_index(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, env)
        else:
            raise Unsupported('assignment target')

    def unpack(self, elts, v, env):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        v = self.split_any(v)
        if isinstance(v, Sym) and v.k == 'any':
            raise Unsupported('unpacking an opaque value')
        segs = list(self.iter_segs(v))
        if not star:
            segs = self.concretize(segs, len(elts))
            if len(segs) != len(elts):
                self.throw(ValueError, 'unpack')
            for e, x in zip(elts, segs):
                self.assign(e, x, env)
        else:
            i = star[0]
            n_after = len(elts) - i - 1
            head = []
            while len(head) < i:
                x, segs = self.uncons(segs)
                if x is MISSING:
                    self.throw(ValueError, 'unpack')
                head.append(x)
            tail = []
            while len(tail) < n_after:
                x, segs = self.unsnoc(segs)
                if x is MISSING:
                    self.throw(ValueError, 'unpack')
                tail.insert(0, x)
            for e, x in zip(elts[:i], head):
                self.assign(e, x, env)
            self.assign(elts[i].value, ListObj(self, segs), env)
            for e, x in zip(elts[i + 1:], tail):
                self.assign(e, x, env)

    def x_Return(self, s, env):
        raise ReturnSig(None if s.value is None else self.ev(s.value, env))

    def x_Break(self, s, env):
        raise BreakSig()

    def x_Continue(self, s, env):
        raise ContinueSig()

    def x_If(self, s, env):
        if self.truth(self.ev(s.test, env)):
            self.exec_block(s.body, env)
        else:
            self.exec_block(s.orelse, env)

    def x_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            if s.msg is not None:
                self.throw(AssertionError, self.ev(s.msg, env))
            self.throw(AssertionError)

    def x_Raise(self, s, env):
        if s.exc is None:
            if not self.current_exc:
                self.throw(RuntimeError, 'No active exception to reraise')
            raise PyExc(self.current_exc[-1])
        e = self.ev(s.exc, env)
        cause = self.ev(s.cause, env) if s.cause is not None else None
        if isinstance(e, (ClassVal, TypeVal, ExtCls)):
            e = self.call(e, [])
        if not isinstance(e, InstObj):
            if isinstance(e, Sym):
                raise Unsupported('raise of an opaque value')
            self.throw(TypeError, 'exceptions must derive from BaseException')
        if cause is not None:
            self.dict_set(e.fields, '__cause__', cause)
        raise PyExc(e)

    def x_Try(self, s, env):
        try:
            try:
                self.exec_block(s.body, env)
            except PyExc as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        ok = self.exc_is(e.value, self.ev(h.type, env))
                    if ok:
                        if h.name:
                            self.bind_name(h.name, e.value, env)
                        self.current_exc.append(e.value)
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            self.current_exc.pop()
                            if h.name:
                                env.vars.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, env)
        except (PyExc, ReturnSig, BreakSig, ContinueSig) as sig:
            if isinstance(sig, PyExc):
                self.current_exc.append(sig.value)
                try:
                    self.exec_block(s.finalbody, env)
                finally:
                    self.current_exc.pop()
            else:
                self.exec_block(s.finalbody, env)
            raise
        else:
            self.exec_block(s.finalbody, env)

    def x_With(self, s, env):
        self._with(s.items, 0, s, env)

    def _with(self, items, i, s, env):
        if i == len(items):
            self.exec_block(s.body, env)
            return
        mgr = self.ev(items[i].context_expr, env)
        enter = self.special(mgr, '__enter__')
        exit_ = self.special(mgr, '__exit__')
        if enter is MISSING or exit_ is MISSING:
            if isinstance(mgr, Sym):
                raise Unsupported('with on an opaque object')
            self.no_op(mgr, 'not a context manager')
        v = self.call(enter, [])
        try:
            if items[i].optional_vars is not None:
                self.assign(items[i].optional_vars, v, env)
            self._with(items, i + 1, s, env)
        except PyExc as e:
            self.current_exc.append(e.value)
            try:
                r = self.call(exit_, [self.exc_class(e.value), e.value, self.tb_of(e.value)])
            finally:
                self.current_exc.pop()
            if not self.truth(r):
                raise
        except (ReturnSig, BreakSig, ContinueSig):
            self.call(exit_, [None, None, None])
            raise
        else:
            self.call(exit_, [None, None, None])

    def exc_class(self, v):
        if 'sym' in v.ghost:
            c = v.ghost.get('cls')
            if c is None:
                c = InstObj(self, ExtCls('builtins.<exception class>'))
                c.ghost['of'] = v
                self.dict_set(c.fields, '__name__', self.fresh('str', 'excname'))
                v.ghost['cls'] = c
            return c
        return v.cls

    def tb_of(self, v):
        t = v.ghost.get('tb')
        if t is None:
            t = InstObj(self, ExtCls('builtins.traceback'))
            t.ghost['of'] = v
            v.ghost['tb'] = t
        return t

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id in env.vars:
                    del env.vars[t.id]
                elif env.kind == 'module' or t.id in env.globals:
                    self.touch(env.module)
                    env.module.ns.pop(t.id, None)
                else:
                    self.throw(UnboundLocalError, t.id)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                self.delitem(o, self.ev_index(t.slice, env))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                self.delattr(o, t.attr)
            elif isinstance(t, ast.Tuple):
                for e in t.elts:
                    self.x_Delete(ast.copy_location(ast.Delete(targets=[e]), s), env)
            else:
                raise Unsupported('del target')

    def x_Import(self, s, env):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                self.bind_name(a.asname, m, env)
            else:
                top = a.name.split('.')[0]
                self.bind_name(top, self.import_module(top), env)

    def x_ImportFrom(self, s, env):
        if s.level:
            parts = env.module.name.split('.')
            if not env.module.is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            base = '.'.join(parts + ([s.module] if s.module else []))
        else:
            base = s.module
        m = self.import_module(base)
        for a in s.names:
            if a.name == '*':
                if isinstance(m, ModuleVal):
                    for k, v in list(m.ns.items()):
                        if not k.startswith('_'):
                            self.bind_name(k, v, env)
                    continue
                raise Unsupported('import *')
            v = MISSING
            if isinstance(m, ModuleVal):
                if a.name in m.ns:
                    v = m.ns[a.name]
                else:
                    sub = self.world.load(m.name + '.' + a.name)
                    if sub is not None:
                        v = sub
                if v is MISSING:
                    self.throw(ImportError, 'cannot import name %r' % a.name)
            else:
                v = self.getattr(m, a.name)
            self.bind_name(a.asname or a.name, v, env)

    def import_module(self, name):
        pkg = self.world.package
        if name == pkg or name.startswith(pkg + '.'):
            parts = name.split('.')
            for i in range(1, len(parts) + 1):
                m = self.world.load('.'.join(parts[:i]))
                if m is None:
                    self.throw(ModuleNotFoundError, name)
            return m
        from .lib import MISSING_MODULES
        if name.split('.')[0] in MISSING_MODULES:
            self.throw(ModuleNotFoundError, name)
        return Ext(name)

    def x_FunctionDef(self, s, env):
        v = self.make_function(s, env)
        for d in reversed(s.decorator_list):
            v = self.decorate(self.ev(d, env), v)
        self.bind_name(s.name, v, env)

    def make_function(self, s, env):
        defaults = [self.ev(d, env) for d in s.args.defaults]
        kwd = [MISSING if d is None else self.ev(d, env) for d in s.args.kw_defaults]
        name = getattr(s, 'name', '<lambda>')
        if env.kind == 'module':
            q = env.module.name + '.' + name
        elif env.kind == 'class':
            q = env.vars['__qualname__'] + '.' + name
        else:
            q = (env.fn.qualname if env.fn else env.module.name) + '.<locals>.' + name
        f = FuncVal(s, env, env.module, q, defaults, kwd)
        if env.kind == 'class':
            f.cls = env.vars.get('__classcell__')
        return f

    def decorate(self, d, v):
        if isinstance(d, TypeVal) and d.t is staticmethod:
            return StaticM(v)
        if isinstance(d, TypeVal) and d.t is classmethod:
            return ClassM(v)
        if isinstance(d, TypeVal) and d.t is property:
            return Prop(v)
        if isinstance(d, Native) and d.name == 'property.setter':
            return self.call(d, [v])
        return self.call(d, [v])

    def x_ClassDef(self, s, env):
        bases = [self.ev(b, env) for b in s.bases]
        if not bases:
            bases = [_obj]
        bases = [self.as_class(b) for b in bases]
        q = (env.module.name if env.kind == 'module' else
             (env.fn.qualname if env.fn else env.vars.get('__qualname__', '')) ) + '.' + s.name
        c = ClassVal(s.name, bases, {}, env.module, q)
        if not self.is_boot:
            c.base = False
        c.mro = compute_mro(c)
        cenv = Env(env.module, env, 'class', fn=env.fn)
        cenv.vars = c.ns
        c.ns['__qualname__'] = q
        c.ns['__classcell__'] = c
        c.ns['__module__'] = env.module.name
        self.exec_block(s.body, cenv)
        self.bind_name(s.name, c, env)

    def as_class(self, b):
        if isinstance(b, (ClassVal, TypeVal, ExtCls)):
            return b
        if isinstance(b, Ext):
            return ExtCls(b.dotted)
        raise Unsupported('base class %r' % (b,))

    # ----------------------------------------------------------------------- loops
    def x_For(self, s, env):
        it = self.ev(s.iter, env)
        self.for_loop(it, lambda x: self.assign(s.target, x, env),
                      lambda: self.exec_block(s.body, env),
                      lambda: self.exec_block(s.orelse, env), s, env)

    def for_loop(self, it, bind, body, orelse, node, env, locals_=None):
        if isinstance(it, GenVal) and len(it.node.generators) == 1:
            # one loop over what the generator draws from
            n = it.node
            g = n.generators[0]
            genv = Env(it.env.module, it.env, 'function', fn=it.env.fn)

            def body2():
                for c in g.ifs:
                    if not self.truth(self.ev(c, genv)):
                        return
                bind(self.ev(n.elt, genv))
                body()
            return self.for_loop(it.src, lambda x: self.assign(g.target, x, genv), body2, orelse, node, env, locals_)
        segs = self.iter_segs(it, lazy=True)
        try:
            i = 0
            while i < len(segs):
                x = segs[i]
                i += 1
                if isinstance(x, Splice):
                    self.bulk_loop(x, bind, body, node, env, locals_)
                    continue
                bind(x)
                try:
                    body()
                except ContinueSig:
                    pass
        except BreakSig:
            return
        orelse()

    def loop_key(self, node):
        return tuple(self.frames_key()) + ((node.lineno, node.col_offset, type(node).__name__),)

    def frames_key(self):
        return [f[1] for f in self.frames]

    def havoc_locals(self, names, env, key=None):
        for n in names:
            if n in env.vars:
                v = env.vars[n]
                env.vars[n] = Havoc(n) if (key, 'wide', n) in self.ex.loop_mods else self.havoc_like(v, n)
                if env.hav is None:
                    env.hav = {}
                env.hav[n] = env.vars[n]

    def kinds_kept(self, key, names, env, fields):
        """What a loop carries keeps the kind it had on entry; else nothing is known about it."""
        for n in names:
            h = env.hav.get(n) if env.hav is not None else None
            if h is not None and n in env.vars and not self.kind_in(env.vars[n], h):
                self.widen((key, 'wide', n))
        for o, f, h in fields:
            v = [l[2] for l in o.layers if l[0] == 'set' and l[1] == f]
            if not v or not self.kind_in(v[-1], h):
                self.widen((key, 'widef', o.name, f))

    def kind_in(self, v, h):
        if isinstance(h, Havoc) or isinstance(v, Havoc):
            return True
        a, b = self.kind(v), self.kind(h)
        return a == b or b == 'any' or (a, b) in (('int', 'real'), ('bool', 'int'))

    def widen(self, k):
        if k not in self.ex.loop_mods:
            self.ex.loop_mods[k] = True
            self.mods_changed = True

    def havoc_like(self, v, hint):
        hint = 'h.' + hint
        if isinstance(v, bool):
            return self.fresh('bool', hint)
        if isinstance(v, int):
            return self.fresh('int', hint)
        if isinstance(v, float):
            return self.fresh('real', hint)
        if isinstance(v, str):
            return self.fresh('str', hint)
        if isinstance(v, bytes):
            return self.fresh('bytes', hint)
        if isinstance(v, Sym):
            return self.fresh(v.k, hint)
        return Havoc(hint)

    def havoc_heap(self, mods, rule, key=None):
        done = set()
        self.hav_fields = []
        for (name, field) in sorted(mods, key=str):
            if name in done:
                continue
            done.add(name)
            only = {f for n, f in mods if n == name}
            o = None
            if isinstance(name, tuple):
                o = self.base_by_id(name[1])
            else:
                for x in self.objs.values():
                    if isinstance(x, Heap) and x.name == name:
                        o = x
                        break
            if o is None:
                continue
            if rule is not None and rule.havoc(self, o):
                continue
            self.havoc_obj(o, rule, None if None in only else only, key)
            if rule is None and (isinstance(o, (ListObj, SetObj)) or isinstance(o, DictObj) and o.meta != 'fields'):
                # what the container holds is lost: nothing can be refuted from here on
                self.taint('the loop at %s changes a container and has no invariant' % (self.loc,))

    def base_by_id(self, i):
        for o, _ in self.world.saved:
            if id(o) == i:
                return o
        for o in self.world_roots():
            if id(o) == i:
                self.world.journal(o)
                return o
        raise Unsupported('loop modifies an object that cannot be located')

    def world_roots(self):
        seen = set()
        stack = [m for m in self.world.modules.values() if isinstance(m, ModuleVal)]
        while stack:
            o = stack.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            yield o
            if isinstance(o, ModuleVal) or isinstance(o, ClassVal):
                stack.extend(v for v in o.ns.values() if isinstance(v, (Heap, ClassVal)))
            elif isinstance(o, InstObj):
                stack.append(o.fields)
            elif isinstance(o, DictObj):
                stack.extend(l[2] for l in o.layers if l[0] == 'set' and isinstance(l[2], Heap))
            elif isinstance(o, ListObj):
                stack.extend(x for x in o.segs if isinstance(x, Heap))

    def havoc_obj(self, o, rule, only=None, key=None):
        self.world.journal(o)
        if isinstance(o, ListObj):
            inv = rule.elem_inv if rule is not None else None
            o.segs = [self.list_havoc(o, inv)]
        elif isinstance(o, DictObj):
            if o.meta == 'fields' or all(l[0] == 'set' and isinstance(l[1], str) for l in o.layers) \
                    and getattr(o, 'meta', None) == 'fields':
                new = []
                there = set()
                for l in o.layers:
                    if l[0] == 'set':
                        there.add(l[1])
                        if only is None and not isinstance(l[2], Heap) or only is not None and l[1] in only:
                            wide = (key, 'widef', o.name, l[1]) in self.ex.loop_mods
                            l = (l[0], l[1], Havoc(l[1]) if wide else self.havoc_like(l[2], l[1]))
                            self.hav_fields.append((o, l[1], l[2]))
                    new.append(l)
                for f in sorted(only or (), key=str):
                    if f not in there and self.choose(2):
                        new.append(('set', f, Havoc(f)))      # (an iteration has set it)
                o.layers = new
            else:
                inv = rule.entry_inv if rule is not None else None
                mat = None
                if inv is not None:
                    mat = lambda vm, key, base: inv(vm, o, key)
                o.layers = [('base', MapBase(self, 'h.dict', mat=mat))]
        elif isinstance(o, SetObj):
            o.layers = [('base', MapBase(self, 'h.set'))]
        elif isinstance(o, InstObj):
            for k in list(o.ghost):
                v = o.ghost[k]
                if isinstance(v, z3.ExprRef):
                    o.ghost[k] = z3.FreshConst(v.sort(), 'h.' + k)
        else:
            raise Unsupported('loop modifies %r' % (o,))

    def list_havoc(self, o, inv):
        elem = None
        if inv is not None:
            elem = lambda vm: inv(vm, o)
        return self.fresh_list('h.list', elem, src=('havoc', o))

    def find_rule(self, src, node):
        for r in self.loop_rules:
            if r.matches(self, src, node):
                return r
        return None

    def bulk_loop(self, sp, bind, body, node, env, locals_=None):
        """Loop over an unknown number of unknown items, by invariant."""
        key = self.loop_key(node)
        rule = self.find_rule(sp.src, node)
        mods = self.ex.loop_mods.setdefault(key, {})
        kinds = self.ex.loop_mods.setdefault((key, 'kinds'), set())
        if locals_ is None:
            stmts = node.body if isinstance(getattr(node, 'body', None), list) else []
            locals_ = set(assigned_names(stmts)[0])
            if hasattr(node, 'target'):
                locals_ |= assigned_names([ast.Assign(targets=[node.target], value=ast.Constant(0))])[0]
        if rule is not None:
            rule.init(self, sp, env, locals_)
        mode = self.choose(2)
        self.loops_seen.add(key)
        self.havoc_heap(mods, rule, key)
        hf = self.hav_fields
        if mode == 0:
            # an arbitrary iteration
            fr = dict(key=key, loc=self.loc, elems=[], mods=mods, kinds=kinds, iter=True)
            self.havoc_locals(locals_, env, key)
            n0 = len(self.trace)
            if rule is not None:
                rule.assume_inv(self, sp, env)
            x = rule.elem(self, sp) if rule is not None else None
            if x is None:
                x = sp.elem(self) if sp.elem is not None else self.fresh('any', 'elem')
            self.mark_elems(x, fr)
            if not isinstance(x, Heap):
                self.assume(F_mem(self.lift(x), sp.t))
            fr['loc'] = fr['loc']
            self.loops.append(fr)
            try:
                bind(x)
                try:
                    body()
                except ContinueSig:
                    pass
            except Exception as e:
                self.broken_loop(key, e)
                raise
            finally:
                self.loops.pop()
            # BreakSig / ReturnSig / PyExc propagate: execution leaves the loop here
            for k in set(e.kind for e in self.trace[n0:]):
                kinds.add(k)
            self.kinds_kept(key, locals_, env, hf)
            if rule is not None:
                try:
                    rule.check_iter(self, sp, env, x, self.trace[n0:])
                except Exception as e:
                    self.broken_loop(key, e)
                    raise
            raise PathEnd()
        # the loop ran to completion
        self.havoc_locals(locals_, env, key)
        self.trace.append(Event('loop', dict(key=key, kinds=kinds, rule=rule, sp=sp)))
        if sp.src is not None and sp.src[0] == 'calls':
            if rule is not None:
                rule.assume_inv(self, sp, env)
            sp.src[2](self)
        if rule is not None:
            for w in rule.tracked(self, sp):
                try:
                    bind(w)
                    try:
                        body()
                    except ContinueSig:
                        pass
                except (BreakSig, ReturnSig, PyExc):
                    raise PathEnd()   # this element does not let the loop complete
                self.havoc_heap(mods, rule, key)
                self.havoc_locals(locals_, env, key)
            rule.assume_exit(self, sp, env)

    def broken_loop(self, key, e):
        if not isinstance(e, (PathEnd, Restart, PyExc, ReturnSig, BreakSig, ContinueSig)):
            self.ex.broken.add(key)

    def mark_elems(self, x, fr):
        if isinstance(x, InstObj):
            fr['elems'].append(x)
            fr['elems'].append(x.fields)
        elif isinstance(x, Heap):
            fr['elems'].append(x)
            if isinstance(x, ListObj):
                for y in x.segs:
                    if isinstance(y, Heap):
                        self.mark_elems(y, fr)
        elif isinstance(x, Tup):
            for y in x.segs:
                if not isinstance(y, Splice):
                    self.mark_elems(y, fr)

    def x_While(self, s, env):
        # loops whose test is decided by concrete values are simply executed
        const_true = isinstance(s.test, ast.Constant) and bool(s.test.value)
        rule = self.find_rule(None, s)
        if not const_true and (rule is None or not rule.force):
            for _ in range(70):
                made = len(self.made)
                snap = self.pos
                t = self.truth_f(self.ev(s.test, env))
                if t is True or t is False:
                    if not t:
                        self.exec_block(s.orelse, env)
                        return
                    try:
                        self.exec_block(s.body, env)
                    except ContinueSig:
                        continue
                    except BreakSig:
                        return
                    continue
                break
            else:
                raise Unsupported('long loop')
        if not const_true and rule is not None and rule.unroll:
            # bounded: the states of the contract allow only so many iterations
            for _ in range(rule.unroll):
                if not self.truth(self.ev(s.test, env)):
                    self.exec_block(s.orelse, env)
                    return
                try:
                    self.exec_block(s.body, env)
                except ContinueSig:
                    continue
                except BreakSig:
                    return
            raise Unsupported('more iterations than the bounded state allows')
        key = self.loop_key(s)
        mods = self.ex.loop_mods.setdefault(key, {})
        kinds = self.ex.loop_mods.setdefault((key, 'kinds'), set())
        locals_ = assigned_names(s.body)[0]
        if rule is not None:
            rule.init(self, None, env, locals_)
        else:
            self.taint('loop at %s without invariant' % self.where)
        mode = 0 if const_true else self.choose(2)
        self.loops_seen.add(key)
        self.havoc_heap(mods, rule, key)
        hf = self.hav_fields
        self.havoc_locals(locals_, env, key)
        if rule is not None:
            rule.assume_inv(self, None, env)
        if mode == 0:
            fr = dict(key=key, loc=self.loc, elems=[], mods=mods, kinds=kinds, iter=True)
            n0 = len(self.trace)
            self.trace.append(Event('loop', dict(key=key, kinds=kinds, rule=rule, sp=None)))
            if not self.truth(self.ev(s.test, env)):
                raise PathEnd()
            if rule is not None:
                rule.begin_iter(self, env)
            self.loops.append(fr)
            broke = False
            try:
                try:
                    self.exec_block(s.body, env)
                except ContinueSig:
                    pass
                except BreakSig:
                    broke = True
            except Exception as e:
                self.broken_loop(key, e)
                raise
            finally:
                self.loops.pop()
                for k in set(e.kind for e in self.trace[n0:]):
                    kinds.add(k)
            if broke:
                return
            self.kinds_kept(key, locals_, env, hf)
            if rule is not None:
                try:
                    rule.check_iter(self, None, env, None, self.trace[n0:])
                except Exception as e:
                    self.broken_loop(key, e)
                    raise
            raise PathEnd()
        self.trace.append(Event('loop', dict(key=key, kinds=kinds, rule=rule, sp=None)))
        if self.truth(self.ev(s.test, env)):
            raise PathEnd()
        self.exec_block(s.orelse, env)

    # ======================================================================= expressions
    def ev(self, n, env):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(n).__name__)
        return m(n, env)

    def e_Constant(self, n, env):
        if n.value is Ellipsis:
            return Ext('builtins.Ellipsis')
        if isinstance(n.value, complex):
            raise Unsupported('complex literal')
        return n.value

    def e_Name(self, n, env):
        return self.lookup(n.id, env)

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        self.assign(n.target, v, env)
        return v

    def e_Attribute(self, n, env):
        return self.getattr(self.ev(n.value, env), n.attr)

    def ev_index(self, n, env):
        if isinstance(n, ast.Slice):
            return slice(None if n.lower is None else self.ev(n.lower, env),
                         None if n.upper is None else self.ev(n.upper, env),
                         None if n.step is None else self.ev(n.step, env))
        return self.ev(n, env)

    def e_Subscript(self, n, env):
        o = self.ev(n.value, env)
        return self.getitem(o, self.ev_index(n.slice, env))

    def seq_elts(self, elts, env):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iter_segs(self.ev(e.value, env)))
            else:
                out.append(self.ev(e, env))
        return out

    def e_Tuple(self, n, env):
        return Tup(self.seq_elts(n.elts, env))

    def e_List(self, n, env):
        items = self.seq_elts(n.elts, env)
        self.site = (env.module.name, n.lineno, n.col_offset)
        return ListObj(self, items)

    def e_Set(self, n, env):
        s = SetObj(self)
        for x in self.seq_elts(n.elts, env):
            self.set_add(s, x)
        return s

    def e_Dict(self, n, env):
        pairs = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                pairs.append((None, self.ev(v, env)))
            else:
                kk = self.ev(k, env)
                pairs.append((kk, self.ev(v, env)))
        self.site = (env.module.name, n.lineno, n.col_offset)
        d = DictObj(self)
        for (kn, (k, v)) in zip(n.keys, pairs):
            if kn is None:
                self.dict_update(d, v)
            else:
                self.dict_set(d, k, v)
        return d

    def e_BoolOp(self, n, env):
        is_and = isinstance(n.op, ast.And)
        for i, e in enumerate(n.values):
            v = self.ev(e, env)
            if i == len(n.values) - 1:
                return v
            if self.truth(v) != is_and:
                return v
        return v

    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            t = self.truth_f(v)
            if t is True or t is False:
                return not t
            return Sym('bool', z3.Not(t))
        v = self.num(v)
        if isinstance(n.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            if isinstance(v, Sym) and v.k in ('int', 'real'):
                return Sym(v.k, -v.t)
            if isinstance(v, InstObj):
                return self.call_special(v, '__neg__')
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert) and isinstance(v, int):
            return ~v
        raise Unsupported('unary operator on %r' % (v,))

    def e_BinOp(self, n, env):
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        self.site = (env.module.name, n.lineno, n.col_offset)
        return self.binop(BINOPS[type(n.op)], a, b)

    def e_Compare(self, n, env):
        a = self.ev(n.left, env)
        res = True
        for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
            b = self.ev(c, env)
            res = self.compare(op, a, b)
            if i < len(n.ops) - 1:
                if not self.truth(res):
                    return res
            a = b
        return res

    def e_IfExp(self, n, env):
        if self.truth(self.ev(n.test, env)):
            return self.ev(n.body, env)
        return self.ev(n.orelse, env)

    def e_Lambda(self, n, env):
        return self.make_function(n, env)

    def e_JoinedStr(self, n, env):
        out = ''
        for p in n.values:
            if isinstance(p, ast.Constant):
                out = self.concat(out, p.value)
            else:
                out = self.concat(out, self.fmt_value(p, env))
        return out

    def fmt_value(self, p, env):
        v = self.ev(p.value, env)
        if p.conversion == 114:
            v = self.repr_(v)
        elif p.conversion == 115:
            v = self.str_(v)
        if p.format_spec is not None:
            spec = self.ev(p.format_spec, env)
            if spec == '':
                return self.str_(v)
            if isinstance(v, (int, float, str)) and isinstance(spec, str):
                return format(v, spec)
            if spec == 'x':
                return self.pct_x(v)
            if spec == 'd':
                return self.str_(v)
            f = z3.Function('format', V, V, z3.StringSort())
            return S_str(f(self.lift(v), self.lift(spec)))
        return self.str_(v)

    def e_FormattedValue(self, n, env):
        return self.fmt_value(n, env)

    def e_Starred(self, n, env):
        raise Unsupported('starred expression')

    def e_ListComp(self, n, env):
        if self.copies(n):
            return ListObj(self, self.iter_segs(self.ev(n.generators[0].iter, env)))
        if env.fn is not None and getattr(env.fn, 'node', None) is not None and deferrable(env.fn.node, n):
            return self.deferred(n, env)
        out = ListObj(self)
        self.site = (env.module.name, n.lineno, n.col_offset)
        self.comp(n, n.generators, 0, env, lambda e: self.list_append(out, self.ev(n.elt, e)), [out])
        return out

    def e_SetComp(self, n, env):
        out = SetObj(self)
        self.comp(n, n.generators, 0, env, lambda e: self.set_add(out, self.ev(n.elt, e)), [out])
        return out

    def e_DictComp(self, n, env):
        out = DictObj(self)

        def add(e):
            k = self.ev(n.key, e)
            self.dict_set(out, k, self.ev(n.value, e))
        self.comp(n, n.generators, 0, env, add, [out])
        return out

    def e_GeneratorExp(self, n, env):
        return GenVal(n, env, self)

    def copies(self, n):
        """(x for x in xs)"""
        g = n.generators[0]
        return len(n.generators) == 1 and not g.ifs and isinstance(g.target, ast.Name) and isinstance(n.elt, ast.Name) \
            and n.elt.id == g.target.id

    def deferred(self, n, env):
        """A list that is only iterated over, of items computed without effects: they are computed as they are drawn."""
        src = self.ev(n.generators[0].iter, env)
        if not isinstance(src, GenVal):
            src = Tup(list(self.iter_segs(src)))
        own = Env(env.module, env, 'function', fn=env.fn)
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                e = env
                while e is not None and e.kind != 'module':
                    if x.id in e.vars:
                        own.vars[x.id] = e.vars[x.id]
                        break
                    e = e.parent
        return GenVal(n, own, self, src)

    def comp(self, node, gens, i, env, emit, outs, src=None):
        if i == 0:
            if src is None:
                src = self.ev(gens[0].iter, env)
            env = Env(env.module, env, 'function', fn=env.fn)
        if i == len(gens):
            emit(env)
            return
        g = gens[i]
        it = src if i == 0 else self.ev(g.iter, env)

        def body():
            for c in g.ifs:
                if not self.truth(self.ev(c, env)):
                    return
            self.comp(node, gens, i + 1, env, emit, outs)
        node2 = g.iter
        loc = assigned_names([ast.Assign(targets=[g.target], value=ast.Constant(0))])[0]
        self.for_loop(it, lambda x: self.assign(g.target, x, env), body, lambda: None, node2, env, loc)

    def gen_iter(self, g, cb):
        """Run cb(item) for every item of a generator expression; BreakSig stops it."""
        n = g.node
        self.comp(n, n.generators, 0, g.env, lambda e: cb(self.ev(n.elt, e)), [], g.src)

    def e_Await(self, n, env):
        raise Unsupported('await')

    def e_Yield(self, n, env):
        raise Unsupported('generator')

    # ----------------------------------------------------------------------- calls
    def e_Call(self, n, env):
        # super() without arguments
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            e = env
            while e is not None and (e.fn is None or e.fn.cls is None):
                e = e.parent
            if e is None:
                raise Unsupported('super()')
            a = e.fn.node.args
            first = (a.posonlyargs + a.args)[0].arg
            fe = env
            while first not in fe.vars:
                fe = fe.parent
            return SuperVal(e.fn.cls, fe.vars[first])
        if isinstance(n.func, ast.Name) and n.func.id in ('locals', 'globals', 'exec', 'eval'):
            r = self.scope_builtin(n, env)
            if r is not MISSING:
                return r
        f = self.ev(n.func, env)
        args = self.seq_elts(n.args, env)
        kw = []
        for k in n.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                v = self.norm(v)
                if isinstance(v, DictObj):
                    kw.extend(v.layers)
                elif isinstance(v, Sym):
                    raise Unsupported('** of an opaque value')
                else:
                    self.throw(TypeError, 'argument after ** must be a mapping')
            else:
                kw.append(('set', k.arg, v))
        self.where = '%s:%d' % (env.module.name, n.lineno)
        self.site = (env.module.name, n.lineno, n.col_offset)
        self.frames.append((None, (env.module.name, n.lineno, n.col_offset)))
        try:
            return self.call(f, args, kw)
        finally:
            self.frames.pop()

    def scope_builtin(self, n, env):
        name = n.func.id
        if name == 'globals':
            raise Unsupported('globals()')
        if name == 'locals':
            raise Unsupported('locals()')
        if name in ('exec', 'eval'):
            from .lib import do_exec
            args = self.seq_elts(n.args, env)
            return do_exec(self, name, args, env)
        return MISSING

    def call(self, f, args=(), kw=()):
        args = list(args)
        kw = list(kw)
        self.depth += 1
        if self.depth > 200:
            self.depth -= 1
            raise Unsupported('call depth')
        try:
            return self._call(f, args, kw)
        finally:
            self.depth -= 1

    def _call(self, f, args, kw):
        if isinstance(f, FuncVal):
            return self.call_function(f, args, kw)
        if isinstance(f, Native):
            return f.fn(self, args, kw)
        if isinstance(f, Bound):
            return self._call(f.fn, [f.self] + args, kw)
        if isinstance(f, StaticM):
            return self._call(f.fn, args, kw)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kw)
        if isinstance(f, TypeVal):
            from .lib import construct_builtin
            return construct_builtin(self, f, args, kw)
        if isinstance(f, ExtCls):
            return self.instantiate(f, args, kw)
        if isinstance(f, Ext):
            from .lib import call_ext
            return call_ext(self, f, args, kw)
        if isinstance(f, InstObj):
            m = self.special(f, '__call__')
            if m is MISSING:
                if 'callable' in f.ghost:
                    return self.user_call(f, args, kw)
                self.no_op(f, 'object is not callable')
            return self.call(m, args, kw)
        if isinstance(f, Sym):
            if f.k != 'any':
                self.throw(TypeError, 'object is not callable')
            return self.user_call(f, args, kw)
        if isinstance(f, PRIM) or isinstance(f, (Tup, ListObj, DictObj)):
            self.throw(TypeError, 'object is not callable')
        raise Unsupported('call of %r' % (f,))

    def user_call(self, f, args, kw):
        e = self.event('usercall', fn=f, args=Tup(args), kw=list(kw))
        if self.user_hook is not None:
            r = self.user_hook(self, e)
            if r is not MISSING:
                return r
        if self.choose(2) == 0:
            e.d['outcome'] = 'return'
            e.d['result'] = self.fresh('any', 'userret')
            return e.d['result']
        e.d['outcome'] = 'raise'
        e.d['exc'] = self.sym_exc('userexc')
        raise PyExc(e.d['exc'])

    def call_function(self, f, args, kw):
        c = self.contracts.get(f.qualname)
        if c is not None and f.qualname not in self.ex.inline:
            r = c(self, f, args, kw)
            if r is not NotImplemented:
                self.res.contracts_used.add(f.qualname)
                return r
        node = f.node
        loc, glob, nonl, isgen = scope_of(node)
        if isgen:
            raise Unsupported('generator function %s' % f.qualname)
        env = Env(f.module, f.env, 'function', loc, glob, nonl, fn=f)
        self.bind_args(f, args, kw, env)
        if not self.is_boot:
            self.res.functions.add(f.qualname)
        where = self.where
        self.frames.append((f.qualname, f.qualname))
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, env)
            try:
                self.exec_block(node.body, env)
            except ReturnSig as r:
                return r.v
            return None
        finally:
            self.frames.pop()
            self.where = where

    def bind_args(self, f, args, kw, env):
        a = f.node.args
        pos = a.posonlyargs + a.args
        names = [p.arg for p in pos]
        vals = env.vars
        args = list(args)
        i = 0
        bound = set()
        while i < len(names):
            if not args:
                break
            if isinstance(args[0], Splice):
                x, args = self.uncons(args)
                if x is MISSING:
                    continue
                args.insert(0, x)
                continue
            vals[names[i]] = args.pop(0)
            bound.add(names[i])
            i += 1
        if a.vararg:
            vals[a.vararg.arg] = Tup(args)
        elif args:
            for x in args:
                if not isinstance(x, Splice):
                    self.throw(TypeError, '%s() takes too many positional arguments' % f.qualname)
            for x in args:
                if not self.branch(x.t == L.nil):
                    self.throw(TypeError, '%s() takes too many positional arguments' % f.qualname)
        # keywords
        posonly = set(p.arg for p in a.posonlyargs)
        kwnames = [n for n in names if n not in posonly] + [p.arg for p in a.kwonlyargs]
        has_base = any(l[0] == 'base' for l in kw)
        if has_base:
            d = DictObj(None)
            d.layers = list(kw)
            for n in kwnames:
                v = self.dict_get(d, n)
                if v is not MISSING:
                    if n in bound:
                        self.throw(TypeError, 'multiple values for argument %r' % n)
                    vals[n] = v
                    bound.add(n)
            if a.kwarg:
                rest = DictObj(self)
                rest.layers = list(kw) + [('del', n) for n in kwnames]
                vals[a.kwarg.arg] = self.dict_simplify(rest)
            else:
                bases = [l for l in kw if l[0] == 'base']
                for l in kw:
                    if l[0] == 'set' and l[1] not in kwnames:
                        self.throw(TypeError, 'unexpected keyword argument %r' % (l[1],))
                # any further key of the unknown part is unexpected
                more = self.fresh('bool', 'kw.extra')
                for l in bases:
                    self.assume(z3.Implies(more.t, l[1].size > 0))
                if self.branch(more.t):
                    self.throw(TypeError, 'unexpected keyword argument')
                self.assumption_kw = True
        else:
            rest = []
            for l in kw:
                if l[0] == 'del':
                    rest = [r for r in rest if not (r[1] == l[1])]
                    continue
                k = l[1]
                if not isinstance(k, str):
                    # symbolic keyword name
                    hit = False
                    if isinstance(k, Sym) and k.k in ('str', 'any'):
                        for n in kwnames:
                            if self.branch(self.eqf(k, n)):
                                k = n
                                hit = True
                                break
                    elif not isinstance(k, Sym):
                        self.throw(TypeError, 'keywords must be strings')
                    if not hit:
                        rest.append(l)
                        continue
                if k in kwnames:
                    if k in bound:
                        self.throw(TypeError, 'multiple values for argument %r' % k)
                    vals[k] = l[2]
                    bound.add(k)
                else:
                    rest.append(l)
            if a.kwarg:
                d = DictObj(self)
                for l in rest:
                    self.dict_set(d, l[1], l[2])
                vals[a.kwarg.arg] = d
            elif rest:
                self.throw(TypeError, '%s() got an unexpected keyword argument %r' % (f.qualname, rest[0][1]))
        nd = len(f.defaults)
        for j, n in enumerate(names):
            if n not in vals:
                k = j - (len(names) - nd)
                if k >= 0:
                    vals[n] = f.defaults[k]
                else:
                    self.throw(TypeError, '%s() missing required argument %r' % (f.qualname, n))
        for p, d in zip(a.kwonlyargs, f.kwdefaults):
            if p.arg not in vals:
                if d is MISSING:
                    self.throw(TypeError, '%s() missing keyword argument %r' % (f.qualname, p.arg))
                vals[p.arg] = d

    def instantiate(self, c, args, kw):
        if isinstance(c, ExtCls) or any(isinstance(k, ExtCls) for k in mro_of(c)):
            from .lib import instantiate_ext
            r = instantiate_ext(self, c, args, kw)
            if r is not MISSING:
                return r
        new = class_lookup(c, '__new__') if isinstance(c, ClassVal) else MISSING
        if new is not MISSING:
            raise Unsupported('__new__')
        o = InstObj(self, c)
        o.fields.meta = 'fields'
        if issub(c, TypeVal(BaseException)):
            o.fields.layers.append(('set', 'args', Tup(args)))
            o.fields.layers.append(('set', '__cause__', None))
        init = class_lookup(c, '__init__')
        if init is MISSING:
            if (args or kw) and not issub(c, TypeVal(BaseException)):
                self.throw(TypeError, '%s() takes no arguments' % c.name)
        else:
            self.call(Bound(init, o), args, kw)
        return o

    # ======================================================================= attributes
    def special(self, o, name):
        """Bound special method looked up on the type."""
        if isinstance(o, InstObj):
            m = class_lookup(o.cls, name)
            if m is MISSING:
                return MISSING
            return self.bind_attr(m, o, o.cls)
        if isinstance(o, (ClassVal, ModuleVal)):
            return MISSING
        from .lib import builtin_special
        return builtin_special(self, o, name)

    def call_special(self, o, name, *args):
        m = self.special(o, name)
        if m is MISSING:
            self.no_op(o, 'no %s' % name)
        return self.call(m, list(args))

    def bind_attr(self, m, o, cls):
        if isinstance(m, (FuncVal, Native)):
            return Bound(m, o)
        if isinstance(m, StaticM):
            return m.fn
        if isinstance(m, ClassM):
            return Bound(m.fn, cls)
        if isinstance(m, Prop):
            return self.call(m.fget, [o])
        if isinstance(m, InstObj) and isinstance(m.cls, ExtCls) and m.cls.dotted == 'qt.Signal':
            # each object has its own
            d = self.ghost.setdefault('signals', {})
            k = (id(o), id(m))
            if k not in d:
                d[k] = (o, InstObj(self, m.cls))
            return d[k][1]
        return m

    def getattr(self, o, name, default=MISSING):
        if not isinstance(name, str):
            name = self.norm(name)
            if not isinstance(name, str) and default is MISSING:
                return self.sym_getattr(o, name, default)
        if default is not MISSING:
            self.soft += 1
            try:
                return self.getattr(o, name)
            except PyExc as e:
                if self.exc_is(e.value, TypeVal(AttributeError)):
                    return default
                raise
            finally:
                self.soft -= 1
        if isinstance(o, InstObj):
            return self.inst_getattr(o, name)
        if isinstance(o, ClassVal):
            if name == '__name__':
                return o.name
            if name == '__dict__':
                raise Unsupported('class __dict__')
            m = class_lookup(o, name)
            if m is MISSING:
                self.throw(AttributeError, name)
            if isinstance(m, StaticM):
                return m.fn
            if isinstance(m, ClassM):
                return Bound(m.fn, o)
            return m
        if isinstance(o, ModuleVal):
            if name in o.ns:
                return o.ns[name]
            sub = self.world.load(o.name + '.' + name) if o.is_pkg else None
            if sub is not None:
                return sub
            self.throw(AttributeError, name)
        if isinstance(o, SuperVal):
            mro = mro_of(o.self.cls if isinstance(o.self, InstObj) else o.self)
            i = mro.index(o.cls)
            for k in mro[i + 1:]:
                m = MISSING
                if isinstance(k, ClassVal) and name in k.ns:
                    m = k.ns[name]
                elif isinstance(k, ExtCls) and name in k.methods:
                    m = Native(k.methods[name], k.dotted + '.' + name)
                elif isinstance(k, ExtCls) and name in k.props:
                    m = Prop(Native(k.props[name], k.dotted + '.' + name))
                elif isinstance(k, TypeVal) and k is _obj and name == '__init__':
                    m = Native(lambda vm, a, kw: None, 'object.__init__')
                elif isinstance(k, TypeVal) and k is _obj:
                    from .lib import OBJECT_METHODS
                    if name in OBJECT_METHODS:
                        m = Native(OBJECT_METHODS[name], 'object.' + name)
                elif isinstance(k, TypeVal) and issubclass(k.t, BaseException) and name == '__init__':
                    m = Native(exc_init, 'BaseException.__init__')
                if m is not MISSING:
                    return self.bind_attr(m, o.self, mro[0])
            self.throw(AttributeError, name)
        if isinstance(o, (Ext, ExtCls)):
            from .lib import ext_attr
            return ext_attr(self, o, name)
        if isinstance(o, FuncVal):
            if name == '__name__':
                return getattr(o.node, 'name', '<lambda>')
            if name == '__qualname__':
                return o.qualname
            if name in o.attrs:
                return o.attrs[name]
        if isinstance(o, Bound) and name == '__self__':
            return o.self
        if isinstance(o, Prop) and name == 'setter':
            return Native(lambda vm, a, kw: Prop(o.fget, a[0]), 'property.setter')
        from .lib import builtin_attr
        return builtin_attr(self, o, name)

    def sym_getattr(self, o, name, default):
        """getattr with an unknown attribute name."""
        if isinstance(o, Sym) and o.k == 'any':
            return self.user_getattr(o, name)
        if isinstance(o, InstObj) and 'opaque' in o.ghost:
            return self.user_getattr(o, name)
        raise Unsupported('getattr with a symbolic name on %r' % (o,))

    def user_getattr(self, o, name):
        if isinstance(o, Sym) and name in ('__name__', '__qualname__', '__module__') and z3.is_app(o.t) and \
                o.t.decl().eq(core.F_typeof):
            # the names of a class
            return S_str(z3.Function('typename.' + name.strip('_'), V, z3.StringSort())(o.t))
        nt = zstr(name) if isinstance(name, str) else name.t if name.k == 'str' else V.s(name.t)
        ot = self.lift(o)
        e = self.event('getattr', obj=o, name=name)
        if self.choose(2) == 0:
            e.d['outcome'] = 'return'
            v = self.norm(S_any(F_getattr(ot, nt)))
            e.d['result'] = v
            return v
        e.d['outcome'] = 'raise'
        e.d['exc'] = self.sym_exc('attrexc')
        raise PyExc(e.d['exc'])

    def inst_getattr(self, o, name):
        if name == '__class__':
            return o.cls
        if name == '__dict__':
            return o.fields
        m = class_lookup(o.cls, name)
        if isinstance(m, Prop):
            return self.call(m.fget, [o])
        v = self.dict_get(o.fields, name)
        if v is not MISSING:
            return v
        if m is not MISSING:
            return self.bind_attr(m, o, o.cls)
        if issub(o.cls, TypeVal(BaseException)):
            if name == '__traceback__':
                return self.tb_of(o)
            if name in ('__cause__', '__context__'):
                return None
            if name == 'with_traceback':
                return Native(lambda vm, a, kw: o, 'with_traceback')
            if name == '__init__':
                return Bound(Native(exc_init, 'BaseException.__init__'), o)
        g = class_lookup(o.cls, '__getattr__')
        if g is not MISSING:
            return self.call(Bound(g, o), [name])
        if name in ('__init__', '__setattr__', '__repr__', '__str__', '__hash__', '__eq__', '__ne__',
                    '__getattribute__', '__delattr__'):
            from .lib import OBJECT_METHODS
            return Bound(Native(OBJECT_METHODS[name], 'object.' + name), o)
        h = o.ghost.get('getattr')
        if h is not None:
            return h(self, o, name)
        if not self.soft and any(isinstance(k, ExtCls) for k in mro_of(o.cls)):
            raise Unsupported('attribute %s of %s has no contract' % (name, getattr(o.cls, 'name', o.cls)))
        self.throw(AttributeError, name)

    def setattr(self, o, name, v):
        name = self.norm(name)
        if isinstance(o, InstObj):
            m = class_lookup(o.cls, '__setattr__')
            if m is not MISSING and isinstance(name, str):
                self.call(Bound(m, o), [name, v])
                return
            self.raw_setattr(o, name, v)
            return
        if isinstance(o, (ClassVal, ModuleVal)):
            self.touch(o)
            o.ns[name] = v
            return
        if isinstance(o, FuncVal):
            o.attrs[name] = v
            return
        if isinstance(o, Sym) and o.k == 'any':
            self.event('setattr', obj=o, name=name, value=v)
            return
        if isinstance(o, (Ext, ExtCls)):
            from .lib import ext_setattr
            return ext_setattr(self, o, name, v)
        if isinstance(o, PRIM + (Tup, Sym)):
            self.throw(AttributeError, name)
        raise Unsupported('attribute assignment on %r' % (o,))

    def raw_setattr(self, o, name, v):
        m = class_lookup(o.cls, name)
        if isinstance(m, Prop):
            if m.fset is None:
                self.throw(AttributeError, name)
            self.call(m.fset, [o, v])
            return
        h = o.ghost.get('setattr')
        if h is not None and h(self, o, name, v):
            return
        self.dict_set(o.fields, name, v)

    def delattr(self, o, name):
        if isinstance(o, InstObj):
            if self.dict_get(o.fields, name) is MISSING:
                self.throw(AttributeError, name)
            self.dict_del(o.fields, name)
            return
        if isinstance(o, (ClassVal, ModuleVal)):
            if name not in o.ns:
                self.throw(AttributeError, name)
            self.touch(o)
            del o.ns[name]
            return
        raise Unsupported('del attribute')

    # ======================================================================= equality etc.
    def eqf(self, a, b):
        """Value equality of two plain values as True/False/z3 Bool (no user code)."""
        a = self.norm(a)
        b = self.norm(b)
        if a is b and not isinstance(a, Sym):
            return True
        pa, pb = isinstance(a, PRIM), isinstance(b, PRIM)
        if pa and pb:
            if a is None or b is None:
                return a is b
            return a == b
        if isinstance(a, Sym) or isinstance(b, Sym):
            ka, kb = self.kind(a), self.kind(b)
            if ka == kb and ka in ('int', 'str', 'bytes', 'real', 'bool'):
                return self.term(a) == self.term(b)
            if ka in ('int', 'real') and kb in ('int', 'real'):
                return self.as_real(a) == self.as_real(b)
            if ka == 'any' or kb == 'any':
                if isinstance(a, (ListObj, DictObj)) or isinstance(b, (ListObj, DictObj)):
                    # an opaque value never aliases a container built here unless it is that object
                    return self.lift(a) == self.lift(b)
                return self.lift(a) == self.lift(b)
            if {ka, kb} == {'bool', 'int'}:
                ba = self.term(a) if ka == 'int' else z3.If(self.term(a), 1, 0)
                bb = self.term(b) if kb == 'int' else z3.If(self.term(b), 1, 0)
                return ba == bb
            return False
        if isinstance(a, Tup) and isinstance(b, Tup):
            return self.segs_eq(a.segs, b.segs)
        if isinstance(a, ListObj) and isinstance(b, ListObj):
            return self.segs_eq(a.segs, b.segs)
        if isinstance(a, DictObj) and isinstance(b, DictObj):
            if a.meta == 'fields' or any(l[0] != 'set' for l in a.layers + b.layers):
                raise Unsupported('comparison of partly known dicts')
            if len(a.layers) != len(b.layers):
                return False
            fs = []
            for l in a.layers:
                m = [x for x in b.layers if self.eqf(x[1], l[1]) is True]
                if not m:
                    if all(self.eqf(x[1], l[1]) is False for x in b.layers):
                        return False
                    raise Unsupported('comparison of dicts with symbolic keys')
                fs.append(self.eqf(l[2], m[0][2]))
            return self.conj(fs)
        if isinstance(a, Bound) and isinstance(b, Bound):
            return self.conj([self.same(a.self, b.self), self.same(a.fn, b.fn)])
        if isinstance(a, Ext) or isinstance(b, Ext):
            return a is b
        return False

    def conj(self, fs):
        out = []
        for f in fs:
            if f is False:
                return False
            if f is not True:
                out.append(f)
        if not out:
            return True
        return z3.And(*out) if len(out) > 1 else out[0]

    def disj(self, fs):
        out = []
        for f in fs:
            if f is True:
                return True
            if f is not False:
                out.append(f)
        if not out:
            return False
        return z3.Or(*out) if len(out) > 1 else out[0]

    def neg(self, f):
        if f is True or f is False:
            return not f
        return z3.Not(f)

    def segs_eq(self, a, b):
        if not any(isinstance(x, Splice) for x in a) and not any(isinstance(x, Splice) for x in b):
            if len(a) != len(b):
                return False
            return self.conj([self.eqf(x, y) for x, y in zip(a, b)])
        fs = []
        a, b = list(a), list(b)
        while a and b:
            x, y = a[0], b[0]
            if isinstance(x, Splice) != isinstance(y, Splice):
                break
            if isinstance(x, Splice):
                if not z3.eq(x.t, y.t):
                    break
            else:
                fs.append(self.eqf(x, y))
            a.pop(0)
            b.pop(0)
        if a or b:
            fs.append(self.lift_seq(a) == self.lift_seq(b))
        return self.conj(fs)

    def same(self, a, b):
        """`a is b` as True/False/z3 Bool."""
        a = self.norm(a)
        b = self.norm(b)
        if a is b:
            return True
        if isinstance(a, PRIM) and isinstance(b, PRIM):
            if type(a) is not type(b):
                return False
            return a == b
        if isinstance(a, Sym) or isinstance(b, Sym):
            ka, kb = self.kind(a), self.kind(b)
            if ka == kb and ka in ('int', 'str', 'bytes', 'real', 'bool'):
                return self.term(a) == self.term(b)
            if ka != 'any' and kb != 'any':
                return False
            return self.lift(a) == self.lift(b)
        if isinstance(a, Tup) and isinstance(b, Tup):
            return self.segs_eq(a.segs, b.segs)
        if isinstance(a, Bound) and isinstance(b, Bound):
            return self.conj([self.same(a.self, b.self), self.same(a.fn, b.fn)])
        return False

    def identical(self, a, b):
        """`a is b` in the program: equal numbers and texts need not be one object (small ints are)."""
        a, b = self.norm(a), self.norm(b)
        f = self.same(a, b)
        if f is True or f is False or not (isinstance(a, Sym) or isinstance(b, Sym)):
            return f
        k = self.kind(a)
        if k != self.kind(b) or k not in ('int', 'str', 'bytes', 'real'):
            return f
        s = z3.simplify(f)
        if z3.is_true(s) or z3.is_false(s):
            return z3.is_true(s)
        i = self.fresh('bool', 'is').t
        self.assume(z3.Implies(i, f))
        if k == 'int':
            t = self.term(a)
            self.assume(z3.Implies(z3.And(f, t >= -5, t <= 256), i))
        return i

    def kind(self, v):
        if isinstance(v, Sym):
            return v.k
        if v is None:
            return 'none'
        if isinstance(v, bool):
            return 'bool'
        if isinstance(v, int):
            return 'int'
        if isinstance(v, float):
            return 'real'
        if isinstance(v, str):
            return 'str'
        if isinstance(v, bytes):
            return 'bytes'
        return 'obj'

    def term(self, v):
        if isinstance(v, Sym):
            return v.t
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, float):
            return core.realval(v)
        if isinstance(v, str):
            return zstr(v)
        if isinstance(v, bytes):
            return zstr(v.decode('latin-1'))
        raise AssertionError(v)

    def as_real(self, v):
        if isinstance(v, Sym):
            return z3.ToReal(v.t) if v.k == 'int' else v.t
        if isinstance(v, bool):
            v = int(v)
        return core.realval(v)

    def as_int(self, v):
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, Sym) and v.k == 'int':
            return v.t
        if isinstance(v, Sym) and v.k == 'bool':
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        if v is None or isinstance(v, (str, bytes, float, Tup, ListObj, DictObj)) or \
                (isinstance(v, Sym) and v.k in ('str', 'bytes', 'real')):
            self.throw(TypeError, 'an integer is required')
        raise Unsupported('integer expected, got %r' % (v,))

    def as_str(self, v):
        if isinstance(v, str):
            return zstr(v)
        if isinstance(v, Sym) and v.k == 'str':
            return v.t
        if isinstance(v, Sym) and v.k == 'any':
            self.assume(V.is_str(v.t))
            return V.s(v.t)
        raise Unsupported('str expected, got %r' % (v,))

    def as_bytes(self, v):
        if isinstance(v, bytes):
            return zstr(v.decode('latin-1'))
        if isinstance(v, Sym) and v.k == 'bytes':
            return v.t
        raise Unsupported('bytes expected, got %r' % (v,))

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.wrapb(self.identical(a, b))
        if isinstance(op, ast.IsNot):
            return self.wrapb(self.neg(self.identical(a, b)))
        if isinstance(op, ast.In):
            return self.wrapb(self.contains(b, a))
        if isinstance(op, ast.NotIn):
            return self.wrapb(self.neg(self.contains(b, a)))
        if isinstance(op, ast.Eq):
            return self.py_eq(a, b)
        if isinstance(op, ast.NotEq):
            return self.py_ne(a, b)
        s = {ast.Lt: '<', ast.Gt: '>', ast.LtE: '<=', ast.GtE: '>='}[type(op)]
        return self.py_ord(s, a, b)

    def wrapb(self, f):
        if f is True or f is False:
            return f
        return self.norm(Sym('bool', z3.simplify(f)))

    def py_eq(self, a, b):
        a = self.norm(a)
        b = self.norm(b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, InstObj):
                m = class_lookup(x.cls, '__eq__')
                if m is not MISSING:
                    r = self.call(Bound(m, x), [y])
                    if not (isinstance(r, Ext) and r.dotted == 'builtins.NotImplemented'):
                        return r
        return self.wrapb(self.eqf(a, b))

    def py_ne(self, a, b):
        a = self.norm(a)
        b = self.norm(b)
        if isinstance(a, InstObj):
            m = class_lookup(a.cls, '__ne__')
            if m is not MISSING:
                return self.call(Bound(m, a), [b])
        if isinstance(b, InstObj) and not isinstance(a, InstObj):
            m = class_lookup(b.cls, '__ne__')
            if m is not MISSING:
                return self.call(Bound(m, b), [a])
        r = self.py_eq(a, b)
        t = self.truth_f(r)
        return self.wrapb(self.neg(t))

    def py_ord(self, op, a, b):
        a = self.num(a)
        b = self.num(b)
        for x, y, o in ((a, b, CMPD[op]), (b, a, REFL[CMPD[op]])):
            if isinstance(x, InstObj):
                m = class_lookup(x.cls, '__%s__' % o)
                if m is not MISSING:
                    return self.call(Bound(m, x), [y])
        if isinstance(a, PRIM) and isinstance(b, PRIM):
            try:
                return {'<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b}[op]()
            except TypeError as e:
                self.throw(TypeError, str(e))
        ka, kb = self.kind(a), self.kind(b)
        if {ka, kb} <= {'int', 'real', 'bool'}:
            if ka == kb == 'int':
                x, y = self.as_int(a), self.as_int(b)
            else:
                x = self.as_real(a) if ka != 'bool' else z3.ToReal(self.as_int(a))
                y = self.as_real(b) if kb != 'bool' else z3.ToReal(self.as_int(b))
            return self.wrapb({'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op])
        if ka == kb == 'str' or ka == kb == 'bytes':
            x, y = self.term(a), self.term(b)
            return self.wrapb({'<': x < y, '>': y < x, '<=': x <= y, '>=': y <= x}[op])
        if ka == 'any' or kb == 'any':
            x, y = self.lift(a), self.lift(b)
            return self.wrapb({'<': F_vlt(x, y), '>': F_vlt(y, x), '<=': z3.Not(F_vlt(y, x)),
                               '>=': z3.Not(F_vlt(x, y))}[op])
        if isinstance(a, SetObj) and isinstance(b, SetObj):
            raise Unsupported('set comparison')
        self.op_error(op, a, b)

    def num(self, v):
        """Specialise an unknown value to a number if it is known to be one."""
        v = self.norm(v)
        if isinstance(v, Sym) and v.k == 'any':
            for k, is_, acc in (('int', V.is_int, V.i), ('real', V.is_real, V.r)):
                if self.entails(is_(v.t)):
                    return Sym(k, acc(v.t))
        return v

    def truth_f(self, v):
        """Truth value as True/False/z3 Bool."""
        v = self.norm(v)
        if v is None:
            return False
        if isinstance(v, PRIM):
            return bool(v)
        if isinstance(v, Sym):
            if v.k == 'bool':
                return v.t
            if v.k == 'int':
                return v.t != 0
            if v.k == 'real':
                return v.t != 0
            if v.k in ('str', 'bytes'):
                return v.t != z3.StringVal('')
            t = v.t
            return z3.And(z3.Not(V.is_none(t)),
                          z3.Implies(V.is_bool(t), V.b(t)),
                          z3.Implies(V.is_int(t), V.i(t) != 0),
                          z3.Implies(V.is_real(t), V.r(t) != 0),
                          z3.Implies(V.is_str(t), V.s(t) != z3.StringVal('')),
                          z3.Implies(V.is_bytes(t), V.y(t) != z3.StringVal('')),
                          z3.Implies(V.is_tup(t), V.l(t) != L.nil),
                          z3.Implies(V.is_op(t), F_truthy(t)))
        if isinstance(v, Tup):
            return self.neg(self.segs_empty(v.segs))
        if isinstance(v, ListObj):
            return self.neg(self.segs_empty(v.segs))
        if isinstance(v, (DictObj, SetObj)):
            n = self.length(v)
            if isinstance(n, int):
                return n > 0
            return n.t > 0
        if isinstance(v, IterVal):
            return True
        if isinstance(v, InstObj):
            m = self.special(v, '__bool__')
            if m is not MISSING:
                return self.truth_f(self.call(m, []))
            m = self.special(v, '__len__')
            if m is not MISSING:
                return self.truth_f(self.call(m, []))
            return True
        if isinstance(v, DictView):
            return self.truth_f(v.d)
        return True

    def truth(self, v):
        return self.branch(self.truth_f(v))

    def segs_empty(self, segs):
        fs = []
        for s in segs:
            if not isinstance(s, Splice):
                return False
            fs.append(s.t == L.nil)
        return self.conj(fs)

    # ======================================================================= sequences
    def uncons(self, segs):
        """(first item or MISSING, rest)"""
        segs = list(segs)
        while segs:
            s = segs[0]
            if not isinstance(s, Splice):
                return s, segs[1:]
            if self.branch(s.t == L.nil):
                segs.pop(0)
                continue
            h = s.elem(self) if s.elem is not None else self.fresh('any', 'hd')
            t = self.fresh_list('tl', s.elem, s.src)
            self.assume(s.t == L.cons(self.lift(h), t.t))
            return h, [t] + segs[1:]
        return MISSING, []

    def unsnoc(self, segs):
        segs = list(segs)
        while segs:
            s = segs[-1]
            if not isinstance(s, Splice):
                return s, segs[:-1]
            if self.branch(s.t == L.nil):
                segs.pop()
                continue
            h = s.elem(self) if s.elem is not None else self.fresh('any', 'last')
            t = self.fresh_list('init', s.elem, s.src)
            self.assume(s.t == F_app(t.t, L.cons(self.lift(h), L.nil)))
            return h, segs[:-1] + [t]
        return MISSING, []

    def concretize(self, segs, n):
        """Force a sequence into exactly n items if it can have that many."""
        out = []
        rest = list(segs)
        while len(out) < n:
            x, rest = self.uncons(rest)
            if x is MISSING:
                return out
            out.append(x)
        e = self.segs_empty(rest)
        if self.branch(e):
            return out
        return out + [None]

    def seq_len(self, segs):
        n = 0
        t = None
        for s in segs:
            if isinstance(s, Splice):
                self.assume(F_llen(s.t) >= 0)
                self.assume((F_llen(s.t) == 0) == (s.t == L.nil))
                t = F_llen(s.t) if t is None else t + F_llen(s.t)
            else:
                n += 1
        if t is None:
            return n
        return Sym('int', t + n if n else t)

    def length(self, v):
        v = self.norm(v)
        if isinstance(v, (str, bytes)):
            return len(v)
        if isinstance(v, Tup):
            return self.seq_len(v.segs)
        if isinstance(v, ListObj):
            return self.seq_len(v.segs)
        if isinstance(v, IterVal):
            self.throw(TypeError, 'object has no len()')
        if isinstance(v, Sym):
            if v.k in ('str', 'bytes'):
                return Sym('int', z3.Length(v.t))
            if v.k == 'any':
                w = self.split_any(v)
                if not (isinstance(w, Sym) and w.k == 'any'):
                    return self.length(w)
                return self.user_op('len', [v])
            self.throw(TypeError, 'object has no len()')
        if isinstance(v, DictView):
            return self.length(v.d)
        if isinstance(v, (DictObj, SetObj)):
            return self.dict_len(v)
        if isinstance(v, InstObj):
            m = self.special(v, '__len__')
            if m is MISSING:
                self.no_op(v, 'object has no len()')
            return self.call(m, [])
        if v is None or isinstance(v, PRIM):
            self.throw(TypeError, 'object of type %s has no len()' % type(v).__name__)
        raise Unsupported('len of %r' % (v,))

    def user_op(self, op, args, kind='any'):
        """An operation of an unknown object: any result, or any exception."""
        e = self.event('userop', op=op, args=Tup(args))
        if self.choose(2) == 0:
            e.d['outcome'] = 'return'
            e.d['result'] = self.fresh(kind, 'userop')
            return e.d['result']
        e.d['outcome'] = 'raise'
        raise PyExc(self.sym_exc('useropexc'))

    def dict_len(self, d):
        layers = d.layers
        if not any(l[0] == 'base' for l in layers):
            return len(self.dict_items(d)) if isinstance(d, DictObj) else len(self.set_items(d))
        if len(layers) == 1:
            return Sym('int', layers[0][1].size)
        if layers[0][0] == 'base' and not any(l[0] == 'base' for l in layers[1:]):
            # exact: the unknown part, corrected for the keys known to be changed
            b = layers[0][1]
            final = []
            for l in layers[1:]:
                for i, (k, st) in enumerate(final):
                    e = self.key_eq(k, l[1])
                    if e is True or (e is not False and self.branch(e)):
                        final[i] = (k, l[0] != 'del')
                        break
                else:
                    final.append((l[1], l[0] != 'del'))
            n = b.size
            for k, st in final:
                h = b.has(self, k)
                n = n + (z3.If(h, 0, 1) if st else z3.If(h, -1, 0))
            self.assume(n >= sum(1 for k, st in final if st))
            return Sym('int', n)
        n = self.fresh('int', 'dictlen')
        self.assume(n.t >= 0)
        # facts: any key known present makes it positive
        for l in layers:
            if l[0] in ('set', 'add'):
                # present unless deleted later: only claim it when no later deletion may hit it
                later = layers[layers.index(l) + 1:]
                if not any(x[0] == 'del' and self.eqf(x[1], l[1]) is not False for x in later):
                    self.assume(n.t >= 1)
        return n

    def iter_segs(self, v, lazy=False):
        """Items of an iterable, as a list of items and Splices."""
        v = self.norm(v)
        if isinstance(v, Tup):
            return list(v.segs)
        if isinstance(v, ListObj):
            return v.segs if lazy else list(v.segs)
        if isinstance(v, IterVal):
            s = v.segs
            v.segs = []
            return s
        if isinstance(v, str):
            return list(v)
        if isinstance(v, bytes):
            return list(v)
        if isinstance(v, DictObj):
            return self.dict_segs(v, 'keys')
        if isinstance(v, DictView):
            return self.dict_segs(v.d, v.what)
        if isinstance(v, SetObj):
            return self.set_segs(v)
        if isinstance(v, GenVal):
            if self.copies(v.node):
                return self.iter_segs(v.src)
            out = ListObj(self)
            self.gen_iter(v, lambda x: self.list_append(out, x))
            return out.segs
        if isinstance(v, InstObj):
            m = self.special(v, '__iter__')
            if m is not MISSING:
                return self.iter_segs(self.call(m, []))
            h = v.ghost.get('iter')
            if h is not None:
                return h(self, v)
            self.no_op(v, 'object is not iterable')
        if isinstance(v, Sym) and v.k == 'any':
            w = self.split_any(v)
            if not (isinstance(w, Sym) and w.k == 'any'):
                return self.iter_segs(w)
            if self.entails(V.is_op(v.t)):
                # iterating an opaque object runs its code
                self.event('useriter', obj=v)
                if self.choose(2) == 1:
                    raise PyExc(self.sym_exc('iterexc'))
                f = z3.Function('itemsof', V, L)
                return [Splice(f(v.t), None, ('items', v))]
        if v is None or isinstance(v, PRIM):
            self.throw(TypeError, 'object is not iterable')
        raise Unsupported('iteration over %r' % (v,))

    def list_append(self, l, x):
        self.touch(l)
        self.check_elem(l, x)
        l.segs.append(x)

    def check_elem(self, l, x):
        for s in l.segs:
            if isinstance(s, Splice) and s.src is not None and s.src[0] == 'havoc':
                pass

    def index_of(self, k):
        k = self.norm(k)
        if isinstance(k, bool):
            return int(k)
        return k

    def seq_get(self, segs, i, mk):
        if isinstance(i, slice):
            return mk(self.seq_slice(segs, i))
        i = self.index_of(i)
        if isinstance(i, int):
            if not any(isinstance(s, Splice) for s in segs):
                try:
                    return segs[i]
                except IndexError:
                    self.throw(IndexError, 'index out of range')
            if i >= 0:
                rest = segs
                for _ in range(i + 1):
                    x, rest = self.uncons(rest)
                    if x is MISSING:
                        self.throw(IndexError, 'index out of range')
                return x
            rest = segs
            for _ in range(-i):
                x, rest = self.unsnoc(rest)
                if x is MISSING:
                    self.throw(IndexError, 'index out of range')
            return x
        if isinstance(i, Sym) and i.k == 'int':
            if not any(isinstance(s, Splice) for s in segs):
                for j in range(len(segs)):
                    if self.branch(z3.Or(i.t == j, i.t == j - len(segs))):
                        return segs[j]
                self.throw(IndexError, 'index out of range')
            raise Unsupported('symbolic index')
        if isinstance(i, PRIM):
            self.throw(TypeError, 'indices must be integers')
        raise Unsupported('index %r' % (i,))

    def seq_slice(self, segs, sl):
        lo, hi, st = self.norm(sl.start), self.norm(sl.stop), sl.step
        if not any(isinstance(s, Splice) for s in segs) and all(
                x is None or isinstance(x, int) for x in (lo, hi, st)):
            return segs[slice(lo, hi, st)]
        if st is not None:
            raise Unsupported('slice step')
        if lo is None:
            lo = 0
        if not isinstance(lo, int) or not (hi is None or isinstance(hi, int)):
            raise Unsupported('symbolic slice bound')
        rest = list(segs)
        if lo < 0:
            if hi is not None:
                raise Unsupported('slice')
            out = []
            for _ in range(-lo):
                x, rest = self.unsnoc(rest)
                if x is MISSING:
                    break
                out.insert(0, x)
            return out
        for _ in range(lo):
            x, rest = self.uncons(rest)
            if x is MISSING:
                return []
        if hi is None:
            return rest
        if hi < 0:
            for _ in range(-hi):
                x, rest = self.unsnoc(rest)
                if x is MISSING:
                    return []
            return rest
        out = []
        for _ in range(max(0, hi - lo)):
            x, rest = self.uncons(rest)
            if x is MISSING:
                break
            out.append(x)
        return out

    # ======================================================================= dicts / sets
    def dict_simplify(self, d):
        return d

    def key_ok(self, k):
        if isinstance(k, (ListObj, DictObj)) or (isinstance(k, SetObj) and not k.frozen):
            self.throw(TypeError, 'unhashable type')

    def dict_get(self, d, key):
        key = self.norm(key)
        if isinstance(key, (ListObj, DictObj)):
            self.throw(TypeError, 'unhashable type')
        layers = d.layers
        i = len(layers) - 1
        while i >= 0:
            l = layers[i]
            i -= 1
            if l[0] == 'base':
                B = l[1]
                if self.branch(B.has(self, key)):
                    return B.get(self, key)
                continue
            e = self.key_eq(l[1], key)
            if e is False:
                continue
            if e is True or self.branch(e):
                if l[0] == 'set' and isinstance(l[2], Havoc):
                    raise Unsupported('value of field %r after a loop is not described by an invariant' % l[2].name)
                return l[2] if l[0] == 'set' else MISSING
        return MISSING

    def key_eq(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        return self.eqf(a, b)

    def dict_set(self, d, key, v):
        key = self.norm(key)
        self.key_ok(key)
        self.touch(d, key if isinstance(key, str) else None)
        layers = d.layers
        for i in range(len(layers) - 1, -1, -1):
            l = layers[i]
            if l[0] == 'base':
                continue
            e = self.key_eq(l[1], key)
            if e is True:
                if l[0] == 'set':
                    if any(x[0] == 'base' for x in layers[i + 1:]):
                        d.layers = layers[:i] + layers[i + 1:] + [('set', key, v)]
                    else:
                        d.layers = layers[:i] + [('set', l[1], v)] + layers[i + 1:]
                else:
                    d.layers = layers[:i] + layers[i + 1:] + [('set', key, v)]
                return
            if e is False:
                continue
            if self.branch(e):
                if l[0] == 'set' and not any(x[0] == 'base' for x in layers[i + 1:]):
                    d.layers = layers[:i] + [('set', l[1], v)] + layers[i + 1:]
                    return
                d.layers = layers + [('set', key, v)]
                return
        d.layers = layers + [('set', key, v)]

    def dict_del(self, d, key):
        """Remove a key known to be present (or make it absent)."""
        key = self.norm(key)
        self.touch(d, key if isinstance(key, str) else None)
        has_base = any(l[0] == 'base' for l in d.layers)
        if not has_base:
            new = []
            for l in d.layers:
                e = self.key_eq(l[1], key)
                if e is True or (e is not False and self.branch(e)):
                    continue
                new.append(l)
            d.layers = new
        else:
            new = [l for l in d.layers if l[0] == 'base' or self.key_eq(l[1], key) is not True]
            d.layers = new + [('del', key)]

    def dict_items(self, d):
        """Concrete item list of a fully known dict."""
        return [(l[1], l[2]) for l in d.layers if l[0] == 'set']

    def dict_segs(self, d, what):
        pick = {'keys': lambda k, v: k, 'values': lambda k, v: v, 'items': lambda k, v: Tup([k, v])}[what]
        if not any(l[0] == 'base' for l in d.layers):
            return [pick(k, v) for k, v in self.dict_items(d)]
        layers = list(d.layers)
        bases = [l for l in layers if l[0] == 'base']
        if len(bases) > 1:
            raise Unsupported('iteration over merged unknown dicts')
        B = bases[0][1]
        bi = layers.index(bases[0])
        out = []
        # keys of the unknown part, minus overridden ones, then the known ones
        over = [l[1] for l in layers[bi + 1:]]

        def elem(vm, B=B, over=over, what=what, d=d):
            k = vm.norm(vm.fresh('any', 'key'))
            if B.keyinv is not None:
                vm.assume(B.keyinv(k.t))
            vm.assume(B.has(vm, k))
            for o in over:
                vm.assume(vm.neg(vm.eqf(k, o)))
            k = vm.num_key(k)
            return pick(k, B.get(vm, k))

        sp = Splice(z3.Const(self.uname(B.name + '.' + what), L), elem, ('dict', d, what, B))
        # empty iff no keys beyond the overridden ones
        if not over:
            self.assume((sp.t == L.nil) == (B.size == 0))
        pre = []
        for l in layers[:bi]:
            if l[0] == 'set':
                # older than the unknown part: present, with the newer value if the unknown part has it
                if not any(self.key_eq(l[1], k) is True for k in over):
                    if self.branch(B.has(self, l[1])):
                        continue
                    pre.append(pick(l[1], l[2]))
        out = pre + [sp]
        for n, l in enumerate(layers[bi + 1:]):
            if l[0] == 'set':
                for later in layers[bi + 2 + n:]:
                    e = self.key_eq(l[1], later[1])
                    if e is True or (e is not False and self.branch(e)):
                        break
                else:
                    out.append(pick(l[1], l[2]))
        return out

    def num_key(self, k):
        if isinstance(k, Sym) and k.k == 'any':
            for kd, is_, acc in self.KINDS:
                if self.entails(is_(k.t)):
                    return Sym(kd, acc(k.t))
        return k

    def dict_update(self, d, other):
        other = self.norm(other)
        if isinstance(other, DictObj):
            if not any(l[0] == 'base' for l in other.layers):
                for l in other.layers:
                    if l[0] == 'set':
                        self.dict_set(d, l[1], l[2])
            else:
                # entries of the unknown part: keys deleted there must stay as they are here
                dels = [l[1] for l in other.layers if l[0] == 'del']
                keep = []
                for k in dels:
                    v = self.dict_get(d, k)
                    keep.append((k, v))
                self.touch(d)
                d.layers = d.layers + [l for l in other.layers if l[0] == 'base']
                for l in other.layers:
                    if l[0] == 'set':
                        self.dict_set(d, l[1], l[2])
                for k, v in keep:
                    ov = self.dict_get(other, k)
                    if ov is MISSING:
                        if v is MISSING:
                            d.layers = d.layers + [('del', k)]
                        else:
                            self.dict_set(d, k, v)
            return
        if isinstance(other, (ListObj, Tup)):
            for p in self.iter_segs(other):
                if isinstance(p, Splice):
                    raise Unsupported('dict.update with unknown items')
                kv = self.concretize(self.iter_segs(p), 2)
                self.dict_set(d, kv[0], kv[1])
            return
        raise Unsupported('dict.update with %r' % (other,))

    def set_has(self, s, key):
        """True/False/z3 Bool"""
        key = self.norm(key)
        out = False
        for l in s.layers:
            if l[0] == 'base':
                out = self.disj([out, l[1].has(self, key)])
            elif l[0] == 'add':
                out = self.disj([out, self.eqf(l[1], key)])
            else:
                out = self.conj([out, self.neg(self.eqf(l[1], key))])
        return out

    def set_add(self, s, x):
        x = self.norm(x)
        self.key_ok(x)
        self.touch(s)
        if not any(l[0] == 'base' for l in s.layers):
            h = self.set_has(s, x)
            if h is True or (h is not False and self.branch(h)):
                return
        s.layers = s.layers + [('add', x)]

    def set_del(self, s, x):
        self.touch(s)
        if not any(l[0] == 'base' for l in s.layers):
            new = []
            for l in s.layers:
                e = self.eqf(l[1], x)
                if e is True or (e is not False and self.branch(e)):
                    continue
                new.append(l)
            s.layers = new
        else:
            s.layers = s.layers + [('del', x)]

    def set_items(self, s):
        return [l[1] for l in s.layers if l[0] == 'add']

    def set_segs(self, s):
        if not any(l[0] == 'base' for l in s.layers):
            return self.set_items(s)

        def elem(vm, s=s):
            k = vm.fresh('any', 'elem')
            h = vm.set_has(s, k)
            vm.assume(h)
            return vm.num_key(k)
        return [Splice(z3.Const(self.uname('set'), L), elem, ('set', s))]

    def contains(self, c, x):
        c = self.norm(c)
        x = self.norm(x)
        if isinstance(c, (Tup, ListObj)):
            out = []
            for s in c.segs:
                if isinstance(s, Splice):
                    out.append(F_mem(self.lift(x), s.t))
                else:
                    e = self.py_eq(s, x) if isinstance(s, InstObj) or isinstance(x, InstObj) else self.eqf(s, x)
                    if isinstance(e, Sym):
                        e = self.truth_f(e)
                    out.append(e)
            return self.disj(out)
        if isinstance(c, DictObj):
            if any(l[0] != 'set' for l in c.layers):
                return self.dict_has(c, x)
            self.key_ok(x)
            return self.disj([self.key_eq(l[1], x) for l in c.layers])
        if isinstance(c, DictView):
            if c.what == 'keys':
                return self.contains(c.d, x)
            return self.contains(Tup(self.dict_segs(c.d, c.what)), x)
        if isinstance(c, SetObj):
            self.key_ok(x)
            return self.set_has(c, x)
        if isinstance(c, (str, Sym)) and self.kind(c) == 'str':
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            if self.kind(x) == 'str':
                return z3.Contains(self.term(c), self.term(x))
            if self.kind(x) == 'any':
                return z3.Contains(self.term(c), self.as_str(x))
            self.throw(TypeError, 'in <string> requires string')
        if self.kind(c) == 'bytes':
            if isinstance(c, bytes) and isinstance(x, bytes):
                return x in c
            return z3.Contains(self.term(c), self.as_bytes(x))
        if isinstance(c, InstObj):
            m = self.special(c, '__contains__')
            if m is not MISSING:
                return self.truth_f(self.call(m, [x]))
            m = self.special(c, '__iter__')
            if m is not MISSING or 'iter' in c.ghost:
                return self.contains(Tup(self.iter_segs(c)), x)
            self.no_op(c, 'argument is not iterable')
        if isinstance(c, Sym) and c.k == 'any':
            w = self.split_any(c)
            if not (isinstance(w, Sym) and w.k == 'any'):
                return self.contains(w, x)
            return self.truth_f(self.user_op('contains', [c, x], 'bool'))
        if isinstance(c, IterVal):
            return self.contains(Tup(self.iter_segs(c)), x)
        if c is None or isinstance(c, PRIM):
            self.throw(TypeError, 'argument is not iterable')
        raise Unsupported('membership in %r' % (c,))

    def dict_has(self, d, x):
        self.key_ok(x)
        out = False
        for l in d.layers:
            if l[0] == 'base':
                out = self.disj([out, l[1].has(self, x)])
            elif l[0] == 'set':
                out = self.disj([out, self.key_eq(l[1], x)])
            else:
                out = self.conj([out, self.neg(self.key_eq(l[1], x))])
        return out

    def getitem(self, o, k):
        o = self.norm(o)
        if isinstance(o, Tup):
            return self.seq_get(o.segs, k, Tup)
        if isinstance(o, ListObj):
            return self.seq_get(o.segs, k, lambda s: ListObj(self, s))
        if isinstance(o, DictObj):
            v = self.dict_get(o, k)
            if v is MISSING:
                if o.default is not None:
                    v = self.call(o.default, [])
                    self.dict_set(o, k, v)
                    return v
                self.throw(KeyError, k)
            return v
        if isinstance(o, (str, bytes)) or (isinstance(o, Sym) and o.k in ('str', 'bytes')):
            from .lib import str_index
            return str_index(self, o, k)
        if isinstance(o, InstObj):
            m = self.special(o, '__getitem__')
            if m is MISSING:
                self.no_op(o, 'object is not subscriptable')
            return self.call(m, [self.slice_val(k)])
        if isinstance(o, Sym) and o.k == 'any':
            w = self.split_any(o)
            if not (isinstance(w, Sym) and w.k == 'any'):
                return self.getitem(w, k)
            return self.user_op('getitem', [o, self.slice_val(k)])
        if isinstance(o, (TypeVal, ClassVal)):
            return o
        if o is None or isinstance(o, PRIM) or isinstance(o, SetObj) or \
                (isinstance(o, Sym) and o.k in ('int', 'real', 'bool')):
            self.throw(TypeError, 'object is not subscriptable')
        raise Unsupported('subscript of %r' % (o,))

    def slice_val(self, k):
        if isinstance(k, slice):
            s = InstObj(self, ExtCls('builtins.slice'))
            for n, v in (('start', k.start), ('stop', k.stop), ('step', k.step)):
                self.dict_set(s.fields, n, v)
            return s
        return k

    def setitem(self, o, k, v):
        o = self.norm(o)
        if isinstance(o, DictObj):
            self.dict_set(o, k, v)
            return
        if isinstance(o, ListObj):
            if isinstance(k, slice):
                if k.start is None and k.stop is None and k.step is None:
                    self.touch(o)
                    o.segs = list(self.iter_segs(v))
                    return
                raise Unsupported('slice assignment')
            k = self.index_of(k)
            if isinstance(k, int) and not any(isinstance(s, Splice) for s in o.segs):
                if not -len(o.segs) <= k < len(o.segs):
                    self.throw(IndexError, 'assignment index out of range')
                self.touch(o)
                o.segs[k] = v
                return
            raise Unsupported('list item assignment')
        if isinstance(o, InstObj):
            m = self.special(o, '__setitem__')
            if m is MISSING:
                self.no_op(o, 'object does not support item assignment')
            self.call(m, [self.slice_val(k), v])
            return
        if isinstance(o, (Tup,) + PRIM):
            self.throw(TypeError, 'object does not support item assignment')
        if isinstance(o, Sym) and o.k == 'any':
            self.user_op('setitem', [o, self.slice_val(k), v])
            return
        raise Unsupported('item assignment on %r' % (o,))

    def delitem(self, o, k):
        if isinstance(o, DictObj):
            if self.dict_get(o, k) is MISSING:
                self.throw(KeyError, k)
            self.dict_del(o, k)
            return
        if isinstance(o, ListObj) and type(k) is int and k in (0, -1):
            x, rest = self.uncons(o.segs) if k == 0 else self.unsnoc(o.segs)
            if x is MISSING:
                self.throw(IndexError, 'deletion index out of range')
            self.touch(o)
            o.segs = rest
            return
        if isinstance(o, ListObj) and isinstance(k, slice) and (k.start, k.stop, k.step) == (None, None, None):
            self.touch(o)
            o.segs = []
            return
        if isinstance(o, ListObj) and isinstance(k, slice) and not any(isinstance(s, Splice) for s in o.segs) \
                and all(x is None or type(x) is int for x in (k.start, k.stop, k.step)):
            self.touch(o)
            del o.segs[k]
            return
        if isinstance(o, ListObj) and isinstance(k, int) and not any(isinstance(s, Splice) for s in o.segs):
            if not -len(o.segs) <= k < len(o.segs):
                self.throw(IndexError, 'deletion index out of range')
            self.touch(o)
            del o.segs[k]
            return
        if isinstance(o, InstObj):
            m = self.special(o, '__delitem__')
            if m is not MISSING:
                self.call(m, [k])
                return
        raise Unsupported('del item on %r' % (o,))

    # ======================================================================= strings
    def concat(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        if a == '' and isinstance(a, str):
            return b
        if b == '' and isinstance(b, str):
            return a
        return self.norm(S_str(z3.Concat(self.as_str(a), self.as_str(b))))

    def str_(self, v):
        v = self.norm(v)
        if isinstance(v, str):
            return v
        if isinstance(v, (bool, int, float, bytes, type(None))):
            return str(v)
        if isinstance(v, Sym):
            if v.k == 'str':
                return v
            if v.k == 'int':
                return self.itos(v)
            if v.k == 'bool':
                return S_str(z3.If(v.t, z3.StringVal('True'), z3.StringVal('False')))
            if v.k == 'bytes':
                f = z3.Function('bytes_repr', z3.StringSort(), z3.StringSort())
                return S_str(f(v.t))
            if v.k == 'real':
                return S_str(F_strof(V.real(v.t)))
            t = v.t
            # the str() of an unknown value: exact when it is a string or integer
            self.assume(z3.Implies(V.is_str(t), F_strof(t) == V.s(t)))
            self.assume(z3.Implies(V.is_int(t), F_strof(t) == F_itos(V.i(t))))
            self.assumption('str()/repr() of user objects returns without side effects')
            return S_str(F_strof(t))
        if isinstance(v, InstObj):
            for n in ('__str__', '__repr__'):
                m = class_lookup(v.cls, n)
                if m is not MISSING:
                    return self.call(Bound(m, v), [])
            if issub(v.cls, TypeVal(BaseException)) and 'sym' not in v.ghost:
                a = self.dict_get(v.fields, 'args')
                if isinstance(a, Tup) and len(a.segs) == 1 and not isinstance(a.segs[0], Splice):
                    if v.cls is TypeVal(KeyError):
                        return self.repr_(a.segs[0])
                    return self.str_(a.segs[0])
            return S_str(F_strof(self.lift(v)))
        if isinstance(v, (ListObj, Tup)) and getattr(v, 'nt', None) is None and v.segs and \
                all(self.kind(x) in ('int', 'bool') for x in v.segs if not isinstance(x, Splice)) and \
                not any(isinstance(x, Splice) for x in v.segs):
            l, r = '[]' if isinstance(v, ListObj) else ('(', ')' if len(v.segs) > 1 else ',)')
            out = l
            for i, x in enumerate(v.segs):
                out = self.concat(self.concat(out, ', ' if i else ''), self.str_(x))
            return self.concat(out, r)
        return S_str(F_strof(self.deep(v)))

    def itos(self, v):
        t = v.t
        s = F_itos(t)
        self.assume(F_stoi(s) == t)
        self.assume(F_isint(s))
        self.assume(s != z3.StringVal(''))
        return S_str(s)

    def repr_(self, v):
        v = self.norm(v)
        if isinstance(v, PRIM):
            return repr(v)
        if isinstance(v, Sym) and v.k == 'int':
            return self.itos(v)
        if isinstance(v, InstObj):
            m = class_lookup(v.cls, '__repr__')
            if m is not MISSING:
                return self.call(Bound(m, v), [])
        return S_str(F_repr(self.deep(v)))

    def pct_x(self, v):
        v = self.norm(v)
        if isinstance(v, int):
            return '%x' % v
        f = z3.Function('hexof', z3.IntSort(), z3.StringSort())
        x = self.as_int(v)
        self.assume(z3.Function('unhex', z3.StringSort(), z3.IntSort())(f(x)) == x)      # (no two numbers look alike)
        return S_str(f(x))

    # ======================================================================= operators
    def binop(self, op, a, b):
        a = self.norm(a)
        b = self.norm(b)
        if isinstance(a, PRIM) and isinstance(b, PRIM) and a is not None and b is not None:
            try:
                if op == '+':
                    return a + b
                if op == '-':
                    return a - b
                if op == '*':
                    return a * b
                if op == '/':
                    return a / b
                if op == '//':
                    return a // b
                if op == '%':
                    return a % b
                if op == '**':
                    return a ** b
                if op == '|':
                    return a | b
                if op == '&':
                    return a & b
                if op == '^':
                    return a ^ b
                if op == '<<':
                    return a << b
                if op == '>>':
                    return a >> b
            except Exception as e:
                self.throw(type(e), str(e))
        if isinstance(a, InstObj):
            m = self.special(a, '__%s__' % DUNDER[op])
            if m is not MISSING:
                return self.call(m, [b])
        if isinstance(b, InstObj):
            m = self.special(b, '__r%s__' % DUNDER[op])
            if m is not MISSING:
                return self.call(m, [a])
        if op == '%' and self.kind(a) in ('str',):
            from .lib import pct_format
            return pct_format(self, a, b)
        if op == '%' and isinstance(a, bytes):
            from .lib import pct_bytes
            return pct_bytes(self, a, b)
        if op == '+':
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.segs + b.segs)
            if isinstance(a, ListObj) and isinstance(b, ListObj):
                return ListObj(self, a.segs + b.segs)
            if self.kind(a) == 'str' and self.kind(b) in ('str',):
                return self.concat(a, b)
            if self.kind(a) == 'bytes' and self.kind(b) == 'bytes':
                return self.norm(Sym('bytes', z3.Concat(self.term(a), self.term(b))))
            if self.kind(a) == 'str' and self.kind(b) == 'any':
                if self.entails(V.is_str(b.t)):
                    return self.concat(a, S_str(V.s(b.t)))
            if self.kind(b) == 'str' and self.kind(a) == 'any':
                if self.entails(V.is_str(a.t)):
                    return self.concat(S_str(V.s(a.t)), b)
            if isinstance(b, Tup) and self.kind(a) == 'any' and self.entails(V.is_tup(a.t)):
                return Tup([Splice(V.l(a.t))] + b.segs)
        if op == '*':
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (Tup, ListObj)) and isinstance(y, int):
                    segs = x.segs * y
                    return Tup(segs) if isinstance(x, Tup) else ListObj(self, segs)
        if op == '|' and isinstance(a, DictObj) and isinstance(b, DictObj):
            d = DictObj(self, a.layers)
            self.dict_update(d, b)
            return d
        if isinstance(a, SetObj) and isinstance(b, SetObj) and op in ('|', '-', '&'):
            return self.set_op(op, a, b)
        a = self.num(a)
        b = self.num(b)
        ka, kb = self.kind(a), self.kind(b)
        if ka in ('int', 'real', 'bool') and kb in ('int', 'real', 'bool'):
            ia = ka in ('int', 'bool')
            ib = kb in ('int', 'bool')
            if ia and ib and op in ('+', '-', '*', '//', '%'):
                x, y = self.as_int(a), self.as_int(b)
                if op == '+':
                    return self.norm(Sym('int', x + y))
                if op == '-':
                    return self.norm(Sym('int', x - y))
                if op == '*':
                    return self.norm(Sym('int', x * y))
                if self.branch(y == 0):
                    self.throw(ZeroDivisionError, 'division by zero')
                if not self.branch(y > 0):
                    raise Unsupported('division by a negative number')
                return self.norm(Sym('int', x / y if op == '//' else x % y))
            if op in ('+', '-', '*', '/'):
                x = self.as_real(a) if ka != 'bool' else z3.ToReal(self.as_int(a))
                y = self.as_real(b) if kb != 'bool' else z3.ToReal(self.as_int(b))
                if op == '+':
                    return Sym('real', x + y)
                if op == '-':
                    return Sym('real', x - y)
                if op == '*':
                    return Sym('real', x * y)
                if self.branch(y == 0):
                    self.throw(ZeroDivisionError, 'division by zero')
                return Sym('real', x / y)
            f = z3.Function('arith' + op, V, V, V)
            return S_any(f(self.lift(a), self.lift(b)))
        if ka == 'any' or kb == 'any':
            return self.user_op(op, [a, b])
        self.op_error(op, a, b)

    def no_op(self, o, what):
        """The object does not do this -- as far as its class is known."""
        if isinstance(o, InstObj) and any(isinstance(c, ExtCls) for c in mro_of(o.cls)) or isinstance(o, (Ext, Native)):
            raise Unsupported('%s: %r' % (what, o))
        self.throw(TypeError, what)

    def op_error(self, op, a, b):
        """The operands have no such operation: a TypeError if that is so for these types, otherwise unknown."""
        reps = []
        for x in (a, b):
            k = self.kind(x)
            if x is None:
                reps.append(None)
            elif k in OP_REPS:
                reps.append(OP_REPS[k])
            elif isinstance(x, Tup):
                reps.append(())
            elif isinstance(x, ListObj):
                reps.append([])
            elif isinstance(x, DictObj):
                reps.append({})
            elif isinstance(x, SetObj):
                reps.append(set())
            elif isinstance(x, InstObj) and not any(isinstance(c, ExtCls) for c in mro_of(x.cls)):
                reps.append(object())
            else:
                raise Unsupported('%s of %r and %r' % (op, a, b))
        try:
            OPS[op](*reps)
        except TypeError:
            self.throw(TypeError, 'unsupported operand types for %s' % op)
        except Exception:
            pass
        raise Unsupported('%s of %r and %r' % (op, a, b))

    def set_op(self, op, a, b):
        if not any(l[0] == 'base' for l in a.layers + b.layers):
            out = SetObj(self)
            for x in self.set_items(a):
                h = self.set_has(b, x)
                inb = h is True or (h is not False and self.branch(h))
                if op == '|' or (op == '-' and not inb) or (op == '&' and inb):
                    self.set_add(out, x)
            if op == '|':
                for x in self.set_items(b):
                    self.set_add(out, x)
            return out
        raise Unsupported('set operation on unknown sets')


OP_REPS = {'str': 'a', 'bytes': b'a', 'int': 1, 'real': 1.5, 'bool': True}
OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '//': operator.floordiv,
       '%': operator.mod, '**': operator.pow, '|': operator.or_, '&': operator.and_, '^': operator.xor,
       '<<': operator.lshift, '>>': operator.rshift, '@': operator.matmul, '<': operator.lt, '<=': operator.le,
       '>': operator.gt, '>=': operator.ge}


def exc_init(vm, args, kw):
    o = args[0]
    vm.dict_set(o.fields, 'args', Tup(args[1:]))
    return None


core.VM = Interp
