"""Terms, values, path exploration and obligations."""
import os
import sys
import time
from fractions import Fraction
import z3

sys.setrecursionlimit(20000)

# ---------------------------------------------------------------------------------------------
# Sorts.  V is the sort of Python values; containers with identity are V.obj(location).
U = z3.DeclareSort('U')
_V = z3.Datatype('V')
_L = z3.Datatype('L')
_V.declare('none')
_V.declare('bool', ('b', z3.BoolSort()))
_V.declare('int', ('i', z3.IntSort()))
_V.declare('real', ('r', z3.RealSort()))
_V.declare('str', ('s', z3.StringSort()))
_V.declare('bytes', ('y', z3.StringSort()))
_V.declare('tup', ('l', _L))
_V.declare('obj', ('o', z3.IntSort()))
_V.declare('op', ('u', U))
_L.declare('nil')
_L.declare('cons', ('hd', _V), ('tl', _L))
V, L = z3.CreateDatatypes(_V, _L)

F_app = z3.Function('app', L, L, L)              # list concatenation with an unknown prefix
F_llen = z3.Function('llen', L, z3.IntSort())
F_mem = z3.Function('mem', V, L, z3.BoolSort())  # membership in an unknown sequence
F_truthy = z3.Function('truthy', V, z3.BoolSort())
F_strof = z3.Function('strof', V, z3.StringSort())
F_repr = z3.Function('reprof', V, z3.StringSort())
F_hash = z3.Function('hashof', V, z3.IntSort())
F_pyid = z3.Function('pyid', V, z3.IntSort())
F_isinst = z3.Function('isinst', V, V, z3.BoolSort())
F_getattr = z3.Function('getattrof', V, z3.StringSort(), V)
F_hasattr = z3.Function('hasattrof', V, z3.StringSort(), z3.BoolSort())
F_itos = z3.Function('itos', z3.IntSort(), z3.StringSort())
F_stoi = z3.Function('stoi', z3.StringSort(), z3.IntSort())
F_isint = z3.Function('isintstr', z3.StringSort(), z3.BoolSort())
F_enc = z3.Function('utf8enc', z3.StringSort(), z3.StringSort())
F_dec = z3.Function('utf8dec', z3.StringSort(), z3.StringSort())
F_isutf8 = z3.Function('isutf8', z3.StringSort(), z3.BoolSort())
F_vlt = z3.Function('vlt', V, V, z3.BoolSort())
F_veq = z3.Function('veq', V, V, V)
F_typeof = z3.Function('typeof', V, V)


class PathEnd(Exception):
    """This path contributes nothing further (infeasible, or the end of a loop iteration)."""


class Unsupported(Exception):
    """The verifier cannot interpret this construct; the obligation set is undecided."""


class Restart(Exception):
    """Loop frame grew: explore again."""


class PyExc(Exception):
    """A Python exception raised by the code under verification."""
    def __init__(self, value):
        Exception.__init__(self)
        self.value = value
        self.tb = None


# ---------------------------------------------------------------------------------------------
# Values

class Sym:
    __slots__ = ('k', 't')

    def __init__(self, k, t):
        self.k = k
        self.t = t

    def __repr__(self):
        return '<%s %s>' % (self.k, self.t)


class Splice:
    """Unknown number of unknown items inside a tuple or list.  `elem(vm)` draws an arbitrary one."""
    __slots__ = ('t', 'elem', 'src', 'kind')

    def __init__(self, t, elem=None, src=None, kind='any'):
        self.t = t
        self.elem = elem
        self.src = src
        self.kind = kind

    def __repr__(self):
        return '*%s' % self.t


class Tup:
    __slots__ = ('segs', 'nt')

    def __init__(self, segs, nt=None):
        self.segs = list(segs)
        self.nt = nt

    def __repr__(self):
        return 'T(%s)' % ', '.join(map(repr, self.segs))


class Missing:
    def __repr__(self):
        return 'MISSING'


MISSING = Missing()


class Havoc:
    """A local whose value after a loop is unknown; reading it is undecided."""
    def __init__(self, name):
        self.name = name


class Heap:
    """Base of values with identity."""
    __slots__ = ('loc', 'name', 'base', 'meta')

    def __init__(self, vm):
        self.meta = None
        if vm is None:
            self.loc = None
            self.name = None
            self.base = True
        else:
            vm.alloc(self)


class ListObj(Heap):
    __slots__ = ('segs',)

    def __init__(self, vm, segs=()):
        Heap.__init__(self, vm)
        self.segs = list(segs)

    def __repr__(self):
        return 'L%s[%s]' % (self.loc, ', '.join(map(repr, self.segs)))


class MapBase:
    """Unknown contents of a mapping: has(k), and val(k) or a materializer."""
    count = 0

    def __init__(self, vm, name, mat=None, keyinv=None, track=None, valkind=None):
        self.name = vm.uname(name)
        self.has_f = z3.Function(self.name + '.has', V, z3.BoolSort())
        self.val_f = z3.Function(self.name + '.val', V, V)
        self.size = z3.Int(self.name + '.size')
        vm.assume(self.size >= 0)
        self.mat = mat
        self.keyinv = keyinv
        self.cache = []
        self.track = track
        self.sizelemma = []

    def has(self, vm, key):
        kt = vm.lift(key)
        h = self.has_f(kt)
        vm.assume(z3.Implies(h, self.size > 0))
        if self.keyinv is not None:
            vm.assume(z3.Implies(h, self.keyinv(kt)))
        return h

    def get(self, vm, key):
        """Value at a key known to be present."""
        if self.mat is None:
            return vm.norm(Sym('any', self.val_f(vm.lift(key))))
        for k, v in self.cache:
            if vm.branch(vm.eqf(k, key)):
                return v
        v = self.mat(vm, key, self)
        self.cache.append((key, v))
        return v


class DictObj(Heap):
    """layers, oldest first: ('set', k, v) | ('del', k) | ('base', MapBase)"""
    __slots__ = ('layers', 'weak', 'default')

    def __init__(self, vm, layers=()):
        Heap.__init__(self, vm)
        self.layers = list(layers)
        self.weak = False
        self.default = None

    def __repr__(self):
        return 'D%s{%s}' % (self.loc, ', '.join(
            '%r: %r' % (l[1], l[2]) if l[0] == 'set' else '~%r' % (l[1],) if l[0] == 'del'
            else '**' + l[1].name for l in self.layers))


class SetObj(Heap):
    """layers of ('add', k) | ('del', k) | ('base', MapBase)"""
    __slots__ = ('layers', 'frozen')

    def __init__(self, vm, layers=()):
        Heap.__init__(self, vm)
        self.layers = list(layers)
        self.frozen = False


class InstObj(Heap):
    __slots__ = ('cls', 'fields', 'ghost')

    def __init__(self, vm, cls):
        Heap.__init__(self, vm)
        self.cls = cls
        self.fields = DictObj(vm)
        self.ghost = {}

    def __repr__(self):
        return '<%s inst %s>' % (getattr(self.cls, 'name', self.cls), self.loc)


class FuncVal:
    __slots__ = ('node', 'env', 'module', 'qualname', 'defaults', 'kwdefaults', 'cls', 'is_gen', 'attrs')

    def __init__(self, node, env, module, qualname, defaults, kwdefaults, cls=None):
        self.node = node
        self.env = env
        self.module = module
        self.qualname = qualname
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.cls = cls
        self.is_gen = None
        self.attrs = {}

    def __repr__(self):
        return '<func %s>' % self.qualname


class Native:
    """A function implemented by the verifier (builtin, library contract, harness stub)."""
    __slots__ = ('fn', 'name')

    def __init__(self, fn, name):
        self.fn = fn
        self.name = name

    def __repr__(self):
        return '<native %s>' % self.name


class Bound:
    __slots__ = ('fn', 'self')

    def __init__(self, fn, self_):
        self.fn = fn
        self.self = self_

    def __repr__(self):
        return '<bound %r of %r>' % (self.fn, self.self)


class ClassVal:
    def __init__(self, name, bases, ns, module, qualname):
        self.name = name
        self.bases = bases
        self.ns = ns
        self.module = module
        self.qualname = qualname
        self.mro = None
        self.base = True

    def __repr__(self):
        return '<class %s>' % self.qualname


class TypeVal:
    """A builtin Python type, e.g. int or KeyError."""
    cache = {}

    def __new__(cls, t):
        if t not in cls.cache:
            o = object.__new__(cls)
            o.t = t
            o.name = t.__name__
            cls.cache[t] = o
        return cls.cache[t]

    def __repr__(self):
        return '<type %s>' % self.name


class Ext:
    """A name outside the repository: a library module, function or constant."""
    cache = {}

    def __new__(cls, dotted):
        if dotted not in cls.cache:
            o = object.__new__(cls)
            o.dotted = dotted
            cls.cache[dotted] = o
        return cls.cache[dotted]

    def __repr__(self):
        return '<ext %s>' % self.dotted


class ExtCls:
    """A library class under a trusted contract."""
    cache = {}

    def __new__(cls, dotted, bases=None):
        if dotted not in cls.cache:
            o = object.__new__(cls)
            o.dotted = dotted
            o.name = dotted.rsplit('.', 1)[-1]
            o.bases = list(bases or [])
            o.ctor = None
            o.methods = {}
            o.props = {}
            cls.cache[dotted] = o
        return cls.cache[dotted]

    def __repr__(self):
        return '<extcls %s>' % self.dotted


class ModuleVal:
    def __init__(self, name, path):
        self.name = name
        self.path = path
        self.ns = {}
        self.loaded = False
        self.base = True
        self.is_pkg = False

    def __repr__(self):
        return '<module %s>' % self.name


class StaticM:
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


class ClassM:
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


class Prop:
    __slots__ = ('fget', 'fset')

    def __init__(self, fget, fset=None):
        self.fget = fget
        self.fset = fset


class SuperVal:
    __slots__ = ('cls', 'self')

    def __init__(self, cls, self_):
        self.cls = cls
        self.self = self_


def zstr(s):
    """z3 string literal for a Python str (or latin-1 decoded bytes)."""
    out = []
    for ch in s:
        o = ord(ch)
        if 32 <= o < 127 and ch != '\\':
            out.append(ch)
        else:
            out.append('\\u{%x}' % o)
    return z3.StringVal(''.join(out))


def unzstr(t):
    """Python str of a z3 string literal."""
    s = t.as_string()
    out = []
    i = 0
    while i < len(s):
        if s.startswith('\\u{', i):
            j = s.index('}', i)
            out.append(chr(int(s[i + 3:j], 16)))
            i = j + 1
        elif s.startswith('\\x', i) and len(s) >= i + 4:
            out.append(chr(int(s[i + 2:i + 4], 16)))
            i += 4
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


def S_int(t):
    return Sym('int', t)


def S_str(t):
    return Sym('str', t)


def S_any(t):
    return Sym('any', t)


def has_regex(e):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_IN_RE:
            return True
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo.extend(x.children())
    return False


class Event:
    __slots__ = ('kind', 'd')

    def __init__(self, kind, d):
        self.kind = kind
        self.d = d

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k)

    def __repr__(self):
        return '%s(%s)' % (self.kind, ', '.join('%s=%r' % kv for kv in self.d.items()))


# ---------------------------------------------------------------------------------------------

class Results:
    """What exploring one harness established."""
    def __init__(self, name):
        self.name = name
        self.vcs = {}          # obligation -> dict(proved=, refuted=, unknown=)
        self.refutations = []  # dicts
        self.unsupported = []
        self.taints = set()
        self.paths = 0
        self.reached = 0
        self.covers = {}
        self.solver_s = 0.0
        self.queries = 0
        self.functions = set()
        self.trusted = set()
        self.assumptions = set()
        self.contracts_used = set()
        self.wall = 0.0
        self.smt2 = []

    def count(self, what):
        return sum(v[what] for v in self.vcs.values())


class Explorer:
    def __init__(self, world, name, harness, max_paths=4000, time_limit=240, solver_ms=8000,
                 keep_smt=False):
        self.world = world
        self.name = name
        self.harness = harness
        self.max_paths = max_paths
        self.time_limit = time_limit
        self.solver_ms = solver_ms
        self.keep_smt = keep_smt
        self.loop_mods = {}
        self.inline = set()
        self.broken = set()

    def run(self):
        t0 = time.time()
        restarts = 0
        while True:
            res = Results(self.name)
            try:
                self._run(res, t0)
                break
            except Restart:
                restarts += 1
                if restarts > 60:
                    res.unsupported.append('loop frames do not stabilise')
                    break
        res.wall = time.time() - t0
        self.discount(res)
        return res

    def discount(self, res):
        """What an iteration modifies is not known where an iteration could not be executed to its
        end: nothing that was seen from such a loop on counts as a refutation."""
        bad = [r for r in res.refutations if r['loops'] & self.broken]
        res.refutations = [r for r in res.refutations if not r['loops'] & self.broken]
        for r in res.refutations:
            del r['loops']
        left = {r['obligation'] for r in res.refutations}
        for r in bad:
            v = res.vcs[r['obligation']]
            if r['obligation'] not in left:
                v['unknown'] += v['refuted']
                v['refuted'] = 0
                res.taints.add('a loop is not supported: ' + r['obligation'])

    def _run(self, res, t0):
        work = [[]]
        while work:
            if res.paths >= self.max_paths or time.time() - t0 > self.time_limit:
                res.unsupported.append('exploration budget exhausted after %d paths' % res.paths)
                return
            prefix = work.pop()
            vm = VM(self, res, prefix, work)
            res.paths += 1
            try:
                try:
                    self.harness(vm)
                    if vm.solver_check() != z3.unsat:
                        res.reached += 1
                except PathEnd:
                    pass
                except PyExc as e:
                    raise Unsupported('uncaught exception in harness: %s' % vm.show_exc(e))
            except Unsupported as e:
                msg = '%s' % e
                if vm.where:
                    msg += ' (at %s)' % (vm.where,)
                if len(res.unsupported) < 20:
                    res.unsupported.append(msg)
            except RecursionError:
                res.unsupported.append('recursion limit')
            except (Restart, KeyboardInterrupt, MemoryError):
                raise
            except Exception as e:      # a shape the contract or the engine did not foresee
                if os.environ.get('PYVC_DEBUG'):
                    raise
                import traceback
                tb = traceback.extract_tb(e.__traceback__)[-1]
                if len(res.unsupported) < 20:
                    res.unsupported.append('internal: %s: %s (%s:%d) at %s' % (
                        type(e).__name__, str(e)[:200], tb.filename, tb.lineno, vm.where))
            finally:
                self.world.restore()
            if vm.mods_changed:
                raise Restart()


class VM:
    """One execution path."""

    def __init__(self, explorer, res, prefix, work):
        self.ex = explorer
        self.world = explorer.world
        self.res = res
        self.prefix = prefix
        self.pos = 0
        self.made = []
        self.work = work
        self.solver = z3.SolverFor('ALL') if False else z3.Solver()
        self.solver.set('timeout', explorer.solver_ms)
        self.pc = []
        self.trace = []
        self.loc = 0
        self.names = {}
        self.sites = {}
        self.interned = {}
        self.contracts = {}
        self.extover = {}
        self.loop_rules = []
        self.where = None
        self.mods_changed = False
        self.soft = 0
        self.loops = []
        self.loops_seen = set()     # loops of which this path saw an arbitrary iteration or the end
        self.taints = []
        self.frames = []
        self.ghost = {}
        self.fact_cache = set()
        self.isfacts = {}
        self.current_exc = []
        self.depth = 0
        self.thread_ident = None
        self.site = None
        self.user_hook = None
        self.objs = {}
        self.concrete_clock = None

    # -- identity ------------------------------------------------------------------------
    def alloc(self, o):
        self.loc += 1
        o.loc = self.loc
        o.base = False
        site = (self.site, type(o).__name__)
        n = self.sites.get(site, 0)
        self.sites[site] = n + 1
        o.name = '%s#%d' % (site, n)
        self.objs[o.loc] = o

    def uname(self, hint):
        n = self.names.get(hint, 0)
        self.names[hint] = n + 1
        return hint if n == 0 else '%s!%d' % (hint, n)

    def fresh(self, kind, hint):
        n = self.uname(hint)
        if kind == 'int':
            return Sym('int', z3.Int(n))
        if kind == 'real':
            return Sym('real', z3.Real(n))
        if kind == 'bool':
            return Sym('bool', z3.Bool(n))
        if kind == 'str':
            return Sym('str', z3.String(n))
        if kind == 'bytes':
            return Sym('bytes', z3.String(n))
        if kind == 'any':
            return Sym('any', z3.Const(n, V))
        if kind == 'opaque':     # an object of no builtin kind
            return Sym('any', V.op(z3.Const(n, U)))
        raise AssertionError(kind)

    def fresh_list(self, hint, elem=None, src=None):
        return Splice(z3.Const(self.uname(hint), L), elem, src)

    def intern(self, o):
        i = self.interned.get(id(o))
        if i is None:
            i = -1 - len(self.interned)
            self.interned[id(o)] = i
            self.objs[i] = o
        return i

    # -- lifting -------------------------------------------------------------------------
    def lift(self, v):
        if v is None:
            return V.none
        if v is True or v is False:
            return V.bool(z3.BoolVal(v))
        if isinstance(v, Sym):
            k = v.k
            if k == 'any':
                return v.t
            if k == 'int':
                return V.int(v.t)
            if k == 'str':
                return V.str(v.t)
            if k == 'bytes':
                return V.bytes(v.t)
            if k == 'bool':
                return V.bool(v.t)
            if k == 'real':
                return V.real(v.t)
            raise AssertionError(k)
        if isinstance(v, int):
            return V.int(z3.IntVal(v))
        if isinstance(v, float):
            return V.real(realval(v))
        if isinstance(v, str):
            return V.str(zstr(v))
        if isinstance(v, bytes):
            return V.bytes(zstr(v.decode('latin-1')))
        if isinstance(v, Tup):
            return V.tup(self.lift_seq(v.segs))
        if isinstance(v, Heap):
            if v.loc is None:
                return V.obj(z3.IntVal(self.intern(v)))
            return V.obj(z3.IntVal(v.loc))
        if isinstance(v, Bound):
            return V.tup(L.cons(V.str(z3.StringVal('<bound>')),
                                L.cons(self.lift(v.self), L.cons(self.lift(v.fn), L.nil))))
        if isinstance(v, (StaticM, ClassM)):
            return self.lift(v.fn)
        return V.obj(z3.IntVal(self.intern(v)))

    def lift_seq(self, segs):
        t = L.nil
        for s in reversed(segs):
            if isinstance(s, Splice):
                t = s.t if z3.eq(t, L.nil) else F_app(s.t, t)
            else:
                t = L.cons(self.lift(s), t)
        return t

    def deep(self, v, depth=6):
        """Structural term: containers by contents, everything else as lift()."""
        if isinstance(v, Tup):
            return V.tup(self.deep_seq(v.segs, depth))
        if isinstance(v, ListObj):
            return V.tup(L.cons(V.str(z3.StringVal('<list>')), self.deep_seq(v.segs, depth)))
        if isinstance(v, DictObj):
            items = []
            bases = L.nil
            for l in v.layers:
                if l[0] == 'set':
                    items.append((l[1], l[2]))
                elif l[0] == 'base':
                    bases = L.cons(V.str(z3.StringVal(l[1].name)), bases)
                else:
                    items.append((l[1], '<deleted>'))
            items.sort(key=lambda kv: repr(kv[0]))
            t = L.cons(V.tup(bases), L.nil) if not z3.eq(bases, L.nil) else L.nil
            for k, x in reversed(items):
                t = L.cons(self.deep(k, depth - 1), L.cons(self.deep(x, depth - 1), t))
            return V.tup(L.cons(V.str(z3.StringVal('<dict>')), t))
        return self.lift(v)

    def deep_seq(self, segs, depth):
        t = L.nil
        for s in reversed(segs):
            if isinstance(s, Splice):
                t = s.t if z3.eq(t, L.nil) else F_app(s.t, t)
            else:
                t = L.cons(self.deep(s, depth - 1), t)
        return t

    def norm(self, v):
        """Specialise an 'any' whose term is a visible constructor application."""
        if not (isinstance(v, Sym)):
            return v
        t = v.t
        if v.k != 'any':
            if v.k == 'int' and z3.is_int_value(t):
                return t.as_long()
            if v.k == 'str' and z3.is_string_value(t):
                return unzstr(t)
            if v.k == 'bytes' and z3.is_string_value(t):
                return unzstr(t).encode('latin-1')
            if v.k == 'bool' and (z3.is_true(t) or z3.is_false(t)):
                return z3.is_true(t)
            return v
        if z3.is_app(t) and t.num_args() <= 1 and t.sort() == V:
            n = t.decl().name()
            k = t.decl().kind()
            if k == z3.Z3_OP_DT_CONSTRUCTOR:
                if n == 'none':
                    return None
                a = t.arg(0) if t.num_args() else None
                if n == 'int':
                    return self.norm(Sym('int', a))
                if n == 'real':
                    return Sym('real', a)
                if n == 'str':
                    return self.norm(Sym('str', a))
                if n == 'bytes':
                    return self.norm(Sym('bytes', a))
                if n == 'bool':
                    return self.norm(Sym('bool', a))
                if n == 'obj' and z3.is_int_value(a):
                    o = self.objs.get(a.as_long())
                    if o is not None:
                        return o
                if n == 'tup':
                    segs = []
                    while True:
                        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
                            if a.decl().name() == 'nil':
                                return Tup(segs)
                            segs.append(self.norm(Sym('any', a.arg(0))))
                            a = a.arg(1)
                        elif z3.is_app(a) and a.decl().name() == 'app':
                            segs.append(Splice(a.arg(0)))
                            a = a.arg(1)
                        else:
                            segs.append(Splice(a))
                            return Tup(segs)
        return v

    KINDS = (('str', V.is_str, V.s), ('int', V.is_int, V.i), ('bytes', V.is_bytes, V.y),
             ('real', V.is_real, V.r), ('bool', V.is_bool, V.b))

    def split_any(self, v):
        """Case split an 'any' value on its kind."""
        v = self.norm(v)
        if not (isinstance(v, Sym) and v.k == 'any'):
            return v
        if self.branch(V.is_none(v.t)):
            return None
        for k, is_, acc in self.KINDS:
            if self.branch(is_(v.t)):
                return self.norm(Sym(k, z3.simplify(acc(v.t))))
        if self.branch(V.is_tup(v.t)):
            return Tup([Splice(V.l(v.t))])
        return v

    # -- path condition ------------------------------------------------------------------
    def assume(self, f):
        if f is True:
            return
        if f is False:
            raise PathEnd()
        k = f.get_id() if hasattr(f, 'get_id') else None
        if k is not None:
            if k in self.fact_cache:
                return
            self.fact_cache.add(k)
        self.pc.append(f)
        self.solver.add(f)

    def solver_check(self, *fs):
        t = time.time()
        self.res.queries += 1
        r = self.solver.check(*fs)
        self.res.solver_s += time.time() - t
        return r

    def decide(self, alts):
        """alts: list of formulas (or None for unconditional); returns chosen index."""
        if self.pos < len(self.prefix):
            i = self.prefix[self.pos]
            self.pos += 1
            self.made.append(i)
            if alts[i] is not None:
                self.assume(alts[i])
            return i
        feas = []
        for i, a in enumerate(alts):
            if a is None:
                feas.append(i)
            elif i == len(alts) - 1 and not feas and alts is not None and getattr(self, '_exhaustive', True):
                feas.append(i)   # alternatives are exhaustive: the last one must be feasible
            else:
                r = self.solver_check(a)
                if r != z3.unsat:
                    feas.append(i)
        if not feas:
            raise PathEnd()
        for i in reversed(feas[1:]):
            self.work.append(self.made + [i])
        i = feas[0]
        self.pos += 1
        self.made.append(i)
        # keep prefix in step so that later decisions are also fresh
        self.prefix = self.made[:]
        if alts[i] is not None:
            self.assume(alts[i])
        return i

    def branch(self, cond):
        if cond is True or cond is False:
            return cond
        if isinstance(cond, Sym):
            cond = cond.t
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.decide([cond, z3.Not(cond)]) == 0

    def choose(self, n, label=None):
        if n == 1:
            return 0
        return self.decide([None] * n)

    def entails(self, f):
        if f is True or f is False:
            return f
        c = z3.simplify(f)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.solver_check(z3.Not(f)) == z3.unsat

    # -- obligations ----------------------------------------------------------------------
    def prove(self, name, f, info=None):
        """Record the obligation `name` on this path."""
        slot = self.res.vcs.setdefault(name, dict(proved=0, refuted=0, unknown=0, trivial=0))
        if isinstance(f, Sym):
            f = f.t
        if f is True:
            slot['proved'] += 1
            slot['trivial'] += 1
            return True
        if f is False:
            r = self.solver_check()
            g = z3.BoolVal(False)
        else:
            g = f
            c = z3.simplify(f)
            if z3.is_true(c):
                slot['proved'] += 1
                return True
            r = self.solver_check(z3.Not(f))
            if r == z3.unknown:
                r = self.without_regex(z3.Not(f))
        if r == z3.unsat:
            slot['proved'] += 1
            if self.ex.keep_smt:
                s = z3.Solver()
                for x in self.pc:
                    s.add(x)
                s.add(z3.Not(g))
                self.res.smt2.append((name, s.to_smt2()))
            return True
        if r == z3.sat and not self.taints:
            slot['refuted'] += 1
            m = self.solver.model()
            loops = frozenset(self.loops_seen)
            if len([x for x in self.res.refutations if x['obligation'] == name and x['loops'] == loops]) < 3:
                self.res.refutations.append(dict(
                    loops=loops, obligation=name, harness=self.ex.name, path=list(self.made),
                    goal=str(g)[:600], info=str(info)[:1500] if info is not None else '',
                    where=self.where, model=self.show_model(m),
                    trace=[repr(e)[:300] for e in self.trace[-40:]]))
        else:
            slot['unknown'] += 1
            self.res.taints.update(self.taints or ['solver: unknown for %s' % name])
        return False

    def without_regex(self, goal):
        """Second attempt, from fewer assumptions: those that mention no regular expression."""
        s = z3.Solver()
        s.set('timeout', self.ex.solver_ms)
        n = 0
        for x in self.pc:
            if has_regex(x):
                n += 1
            else:
                s.add(x)
        if not n or has_regex(goal):
            return z3.unknown
        s.add(goal)
        t = time.time()
        r = s.check()
        self.res.solver_s += time.time() - t
        self.res.queries += 1
        return r if r == z3.unsat else z3.unknown

    def fail(self, name, info=None):
        return self.prove(name, False, info)

    def reach(self):
        """This path got to where the contract is checked (paths that never return)."""
        if self.solver_check() != z3.unsat:
            self.res.reached += 1

    def cover(self, label):
        self.res.covers[label] = self.res.covers.get(label, 0) + 1

    def taint(self, why):
        if why not in self.taints:
            self.taints.append(why)

    def show_model(self, m):
        out = {}
        for d in m.decls():
            try:
                s = str(m[d])
            except Exception:
                continue
            out[d.name()] = s[:200]
            if len(out) > 60:
                break
        return out

    def event(self, kind, **d):
        e = Event(kind, d)
        self.trace.append(e)
        for l in self.loops:
            if l['iter']:
                l['kinds'].add(kind)
        return e

    def trust(self, what):
        self.res.trusted.add(what)

    def assumption(self, what):
        self.res.assumptions.add(what)

    # -- writes ---------------------------------------------------------------------------
    def touch(self, o, field=None):
        """Called before every mutation of a heap object, class or module namespace."""
        self.world.journal(o)
        if self.loops and isinstance(o, Heap):
            for fr in self.loops:
                if fr['iter'] and (o.loc is None or o.loc <= fr['loc']) and o not in fr['elems']:
                    key = (o.name if o.loc is not None else ('base', id(o)), field)
                    if key not in fr['mods']:
                        fr['mods'][key] = True
                        self.mods_changed = True

    def show_exc(self, e):
        v = e.value
        try:
            args = v.fields
        except AttributeError:
            args = v
        return '%r %r' % (getattr(v, 'cls', v), args)


def realval(x):
    if x != x or x in (float('inf'), float('-inf')):
        return z3.Real('float:%r' % x)
    fr = Fraction(x)
    return z3.RealVal(str(fr.numerator)) / z3.RealVal(str(fr.denominator)) if fr.denominator != 1 \
        else z3.RealVal(str(fr.numerator))
