"""Builtins and trusted contracts of library functions.

Everything registered with @ext / @extm is an *assumed* contract on code outside /repo.  Each use is
recorded in the results (`trusted`) and reported in the evidence."""
import ast
import builtins as _b
import dis
import re as _re
import z3
from .core import *
from . import core
from .interp import (Interp, GenVal, IterVal, DictView, Env, PRIM, class_lookup, mro_of, issub, _obj,
                     ReturnSig, BreakSig, ContinueSig)

SS = z3.StringSort()
EXT = {}          # dotted name -> function(vm, args, kw)
EXT_CONST = {}    # dotted name -> value
EXT_CLASSES = {}  # dotted -> ExtCls
BUILTINS = {}
OBJECT_METHODS = {}
SPECIAL_MODULES = {'teleprox.qt': Ext('qt')}
MISSING_MODULES = {'colorama', 'wmi'}
NOOP = set()


def strict(f, lead, names):
    """A contract that never looks at an argument says nothing about calls which pass it: refuse those."""
    c = f.__code__
    if len(c.co_varnames) < lead + 2 or c.co_argcount < lead + 2 or any(n in ANY_ARGS for n in names):
        return f
    an, kn = c.co_varnames[lead], c.co_varnames[lead + 1]
    most, kwused, ins = 0, False, list(dis.get_instructions(c))
    for i, x in enumerate(ins):
        if x.argval == kn or isinstance(x.argval, tuple) and kn in x.argval:
            kwused = True
        if most is not None and (x.argval == an or isinstance(x.argval, tuple) and an in x.argval):
            n, m = ins[i + 1], ins[min(i + 2, len(ins) - 1)]
            if x.argval == an and n.opname == 'LOAD_CONST' and isinstance(n.argval, int) and m.opname == 'BINARY_SUBSCR' \
                    and n.argval >= 0:
                most = max(most, n.argval + 1)
            else:
                most = None
    if most is None and kwused:
        return f

    def g(*a):
        if most is not None and len(a[lead]) > most or not kwused and a[lead + 1]:
            raise Unsupported('%s called with arguments its contract does not know' % (names[0],))
        return f(*a)
    g.__name__ = f.__name__
    return g


# contracts for which further arguments make no difference (to anything the properties speak about)
ANY_ARGS = {'print', '__init__', '__exit__', 'atexit.unregister', 'functools.wraps', 'setsockopt', 'shutdown',
            'handleError', 'flush', 'setQuitOnLastWindowClosed', 'traceback.format_exc', 'processEvents', 'qt.QApplication.processEvents'}


def ext(*names):
    def deco(f):
        f = strict(f, 1, names)
        for n in names:
            EXT[n] = f
        return f
    return deco


def cls(dotted, *bases, alias=()):
    c = ExtCls(dotted, [b if not isinstance(b, type) else TypeVal(b) for b in bases])
    EXT_CLASSES[dotted] = c
    for a in alias:
        EXT_CLASSES[a] = c
    return c


def extm(c, *names):
    """Contract of a method of a library class: f(vm, self, args, kw)."""
    c = ExtCls(c) if isinstance(c, str) else c

    def deco(f):
        f = strict(f, 2, names)
        for n in names:
            dotted = c.dotted + '.' + n

            def m(vm, args, kw, f=f, dotted=dotted):
                vm.trust(dotted)
                o = vm.extover.get(dotted)
                if o is not None:
                    r = o(vm, args[0], args[1:], kw)
                    if r is not NotImplemented:
                        return r
                return f(vm, args[0], args[1:], kw)
            c.methods[n] = m
        return f
    return deco


def extp(c, name):
    c = ExtCls(c) if isinstance(c, str) else c

    def deco(f):
        c.props[name] = lambda vm, args, kw: f(vm, args[0])
        return f
    return deco


def builtin(name):
    def deco(f):
        f = strict(f, 1, (name,))
        BUILTINS[name] = Native(f, name)
        return f
    return deco


def kwd(kw):
    """keyword layers -> python dict (no unknown part)"""
    d = {}
    for l in kw:
        if l[0] == 'base':
            raise Unsupported('unknown keyword arguments to a library function')
        if l[0] == 'set':
            d[l[1]] = l[2]
        else:
            d.pop(l[1], None)
    return d


def P(vm, args, kw, spec):
    """Parse arguments: spec like 'a b c=' ('=' marks optional, default MISSING)."""
    names = spec.split()
    d = kwd(kw)
    if any(isinstance(a, Splice) for a in args):
        raise Unsupported('unknown number of arguments to a library function')
    if len(args) > len(names):
        vm.throw(TypeError, 'too many arguments')
    out = []
    for i, n in enumerate(names):
        opt = n.endswith('=')
        n = n.rstrip('=')
        if i < len(args):
            out.append(args[i])
        elif n in d:
            out.append(d.pop(n))
        elif opt:
            out.append(MISSING)
        else:
            vm.throw(TypeError, 'missing argument %r' % n)
    if d and len(args) <= len(names):
        extra = [k for k in d if k not in [n.rstrip('=') for n in names]]
        if extra:
            vm.throw(TypeError, 'unexpected keyword argument %r' % extra[0])
    return out[0] if len(out) == 1 else out


def new_ext(vm, dotted, **ghost):
    o = InstObj(vm, ExtCls(dotted))
    o.ghost.update(ghost)
    return o


# ================================================================================ ext access

def ext_attr(vm, o, name):
    dotted = o.dotted + '.' + name
    if isinstance(o, ExtCls):
        if name == '__name__':
            return o.name
        m = class_lookup(o, name)
        if m is not MISSING:
            return m
    w = vm.ghost.get(('extset', dotted))
    if w is not None:
        return w[0]
    if dotted in EXT_CONST:
        v = EXT_CONST[dotted]
        if callable(v) and not isinstance(v, (Ext, ExtCls, TypeVal, ClassVal, type)):
            return v(vm)
        return v
    if dotted in EXT_CLASSES:
        return EXT_CLASSES[dotted]
    if dotted in EXT:
        return Ext(dotted)
    r = real_attr(dotted)
    if r is not MISSING:
        return r
    return Ext(dotted)


_ALLOWED = {'datetime', 'signal', 'logging', 'queue', 'socket', 'subprocess', 'zmq', 'json', 'builtins',
            'string', 'math', 'os', 'errno'}


def real_attr(dotted):
    """Builtin exception types and plain constants of standard modules."""
    parts = dotted.split('.')
    if parts[0] == 'zmq':
        return MISSING
    if parts[0] in ('builtins',):
        o = getattr(_b, parts[1], MISSING) if len(parts) == 2 else MISSING
        if isinstance(o, type):
            return TypeVal(o)
        if len(parts) == 2 and parts[1] in BUILTINS:
            return BUILTINS[parts[1]]
        return MISSING
    if parts[0] in _ALLOWED and len(parts) == 2:
        import importlib
        try:
            m = importlib.import_module(parts[0])
            o = getattr(m, parts[1])
        except Exception:
            return MISSING
        if isinstance(o, type) and issubclass(o, BaseException):
            if o.__module__ == 'builtins':
                return TypeVal(o)
            return exc_ext(o)
        if isinstance(o, (int, str, float, bytes, bool)) and not hasattr(o, 'name'):
            return o
    return MISSING


def exc_ext(t):
    d = t.__module__ + '.' + t.__qualname__
    if d in EXT_CLASSES:
        return EXT_CLASSES[d]
    bases = []
    for b in t.__bases__:
        bases.append(TypeVal(b) if b.__module__ == 'builtins' else exc_ext(b))
    return cls(d, *bases)


def ext_setattr(vm, o, name, v):
    vm.event('extset', target=o.dotted + '.' + name, value=v)
    vm.ghost[('extset', o.dotted + '.' + name)] = (v,)


ALIASES = {'msgpack.packb': 'msgpack.dumps', 'msgpack.unpackb': 'msgpack.loads'}


def call_ext(vm, f, args, kw):
    d = ALIASES.get(f.dotted, f.dotted)
    vm.trust(d)
    o = vm.extover.get(d)
    if o is not None:
        r = o(vm, args, kw)
        if r is not NotImplemented:
            return r
    h = EXT.get(d)
    if h is None:
        raise Unsupported('library function %s has no contract' % d)
    return h(vm, args, kw)


def instantiate_ext(vm, c, args, kw):
    """Construct an instance of a library class (or a repository subclass of one)."""
    if isinstance(c, ExtCls):
        o = vm.extover.get(c.dotted)
        if o is not None:
            r = o(vm, args, kw)
            if r is not NotImplemented:
                return r
        vm.trust(c.dotted)
        if c.ctor is not None:
            return c.ctor(vm, args, kw)
        if issub(c, TypeVal(BaseException)):
            return vm.mkexc(c, *args)
        if '__init__' in c.methods:
            o = InstObj(vm, c)
            o.fields.meta = 'fields'
            vm.call(Bound(class_lookup(c, '__init__'), o), args, kw)
            return o
        raise Unsupported('construction of library class %s' % c.dotted)
    o = InstObj(vm, c)
    o.fields.meta = 'fields'
    if issub(c, TypeVal(BaseException)):
        o.fields.layers.append(('set', 'args', Tup(args)))
    init = class_lookup(c, '__init__')
    if init is MISSING:
        return o
    vm.call(Bound(init, o), args, kw)
    return o


# ================================================================================ type construction

def construct_builtin(vm, tv, args, kw):
    t = tv.t
    if issubclass(t, BaseException):
        return vm.mkexc(tv, *args)
    if t is str:
        if not args:
            return ''
        if len(args) > 1 or kw:
            return m_decode(vm, args[0], args[1:], kw)
        return vm.str_(args[0])
    if t is int:
        return to_int(vm, args)
    if t is float:
        return to_float(vm, args)
    if t is bool:
        if not args:
            return False
        return vm.wrapb(vm.truth_f(args[0]))
    if t is bytes:
        if not args:
            return b''
        a = vm.norm(args[0])
        if vm.kind(a) == 'bytes':
            return a
        if vm.kind(a) == 'str':
            return m_encode(vm, a, args[1:], kw)
        h = a.ghost.get('bytes') if isinstance(a, InstObj) else None
        if h is not None:
            return h
        raise Unsupported('bytes(%r)' % (a,))
    if t is tuple:
        if not args:
            return Tup([])
        a = vm.norm(args[0])
        if isinstance(a, Tup) and a.nt is None:
            return a
        return Tup(list(vm.iter_segs(a)))
    if t is list:
        if not args:
            return ListObj(vm)
        return ListObj(vm, list(vm.iter_segs(args[0])))
    if t is dict:
        d = DictObj(vm)
        if args:
            vm.dict_update(d, args[0].d if isinstance(args[0], DictView) else
                           Tup(vm.iter_segs(args[0])) if isinstance(args[0], (GenVal, IterVal)) else args[0])
        if kw:
            k = DictObj(vm)
            k.layers = list(kw)
            vm.dict_update(d, k)
        return d
    if t in (set, frozenset):
        s = SetObj(vm)
        if args:
            for x in vm.iter_segs(args[0]):
                if isinstance(x, Splice):
                    b = MapBase(vm, 'setof')
                    s.layers.append(('base', b))
                    if x.src is not None and x.src[0] == 'dict' and x.src[2] == 'keys':
                        s.layers[-1] = ('base', x.src[3])
                    continue
                vm.set_add(s, x)
        s.frozen = t is frozenset
        return s
    if t is object:
        return InstObj(vm, tv)
    if t is type:
        if len(args) == 1:
            return type_of(vm, args[0])
        raise Unsupported('type() with 3 arguments')
    if t is range:
        ns = [vm.norm(a) for a in args]
        if all(isinstance(n, int) for n in ns):
            return Tup(list(range(*ns)))
        raise Unsupported('symbolic range')
    if t is zip:
        return zip_(vm, args)
    if t is map:
        return map_(vm, args)
    if t is filter:
        out = []
        for x in vm.iter_segs(args[1]):
            if isinstance(x, Splice):
                raise Unsupported('filter over unknown items')
            if vm.truth(x if args[0] is None else vm.call(args[0], [x])):
                out.append(x)
        return IterVal(out)
    if t is enumerate:
        segs = vm.iter_segs(args[0])
        if any(isinstance(s, Splice) for s in segs):
            raise Unsupported('enumerate over unknown items')
        return IterVal([Tup([i, s]) for i, s in enumerate(segs)])
    if t is reversed:
        segs = vm.iter_segs(args[0])
        if any(isinstance(s, Splice) for s in segs):
            raise Unsupported('reversed unknown sequence')
        return IterVal(segs[::-1])
    if t is memoryview or t is bytearray:
        a = vm.norm(args[0]) if args else b''
        if vm.kind(a) == 'bytes':
            return a
        raise Unsupported('memoryview')
    if t is super:
        if len(args) == 2:
            return SuperVal(args[0], args[1])
    if t is slice:
        a = list(args) + [None] * (3 - len(args))
        if len(args) == 1:
            a = [None, args[0], None]
        return vm.slice_val(slice(*a))
    if t is property:
        return Prop(args[0])
    if t is staticmethod:
        return StaticM(args[0])
    if t is classmethod:
        return ClassM(args[0])
    raise Unsupported('construction of %s' % t.__name__)


def zip_(vm, args):
    cols = [vm.iter_segs(a) for a in args]
    if any(isinstance(s, Splice) for c in cols for s in c):
        raise Unsupported('zip of unknown sequences')
    return IterVal([Tup(t) for t in zip(*cols)])


def map_(vm, args):
    segs = vm.iter_segs(args[1])
    if len(args) == 2 and any(isinstance(s, Splice) for s in segs):
        raise Unsupported('map over unknown items')
    if len(args) > 2:
        return IterVal([vm.call(args[0], list(t)) for t in zip(*[vm.iter_segs(a) for a in args[1:]])])
    return IterVal([vm.call(args[0], [s]) for s in segs])


def to_int(vm, args):
    if not args:
        return 0
    v = vm.norm(args[0])
    if len(args) > 1:
        if isinstance(v, str) and isinstance(args[1], int):
            try:
                return int(v, args[1])
            except ValueError as e:
                vm.throw(ValueError, str(e))
        raise Unsupported('int with base')
    if isinstance(v, (str, bytes, int, float)):
        try:
            return int(v)
        except (ValueError, OverflowError) as e:
            vm.throw(type(e), str(e))
    if isinstance(v, Sym):
        if v.k == 'any':
            v = vm.split_any(v)
            if not isinstance(v, Sym):
                return to_int(vm, [v])
        if v.k == 'int':
            return v
        if v.k == 'bool':
            return Sym('int', z3.If(v.t, 1, 0))
        if v.k == 'real':
            # truncation towards zero
            f = z3.ToInt(v.t)
            return Sym('int', z3.If(z3.Or(v.t >= 0, z3.ToReal(f) == v.t), f, f + 1))
        if v.k in ('str', 'bytes'):
            t = v.t if v.k == 'str' else F_dec(v.t)
            if not vm.branch(F_isint(t)):
                vm.throw(ValueError, 'invalid literal for int()')
            r = Sym('int', F_stoi(t))
            return r
        h = vm.user_op('int', [v], 'int')
        return h
    if isinstance(v, InstObj):
        m = vm.special(v, '__int__')
        if m is not MISSING:
            return vm.call(m, [])
        h = v.ghost.get('int')
        if h is not None:
            return h(vm, v)
    vm.throw(TypeError, 'int() argument')


def to_float(vm, args):
    if not args:
        return 0.0
    v = vm.norm(args[0])
    if isinstance(v, (str, int, float)):
        try:
            return float(v)
        except (ValueError, OverflowError) as e:
            vm.throw(type(e), str(e))
    if isinstance(v, Sym) and v.k in ('int', 'real'):
        return Sym('real', vm.as_real(v))
    if isinstance(v, InstObj):
        m = vm.special(v, '__float__')
        if m is not MISSING:
            return vm.call(m, [])
        h = v.ghost.get('float')
        if h is not None:
            return h(vm, v)
    if isinstance(v, Sym) and v.k == 'any':
        v = vm.num(v)
        if v.k != 'any':
            return Sym('real', vm.as_real(v))
        return vm.user_op('float', [v], 'real')
    vm.throw(TypeError, 'float() argument')


def type_of(vm, v):
    v = vm.norm(v)
    if isinstance(v, InstObj):
        return vm.exc_class(v) if "sym" in v.ghost else v.cls
    if isinstance(v, ClassVal) or isinstance(v, TypeVal):
        return TypeVal(type)
    k = py_type(vm, v)
    if k is not None:
        return TypeVal(k)
    if isinstance(v, Sym) and v.k == 'any':
        return S_any(F_typeof(v.t))
    return S_any(F_typeof(vm.lift(v)))


def py_type(vm, v):
    if v is None:
        return type(None)
    if isinstance(v, (bool, int, float, str, bytes)):
        return type(v)
    if isinstance(v, Sym):
        return {'int': int, 'real': float, 'str': str, 'bytes': bytes, 'bool': bool}.get(v.k)
    if isinstance(v, Tup):
        return tuple
    if isinstance(v, ListObj):
        return list
    if isinstance(v, DictObj):
        return dict
    if isinstance(v, SetObj):
        return frozenset if v.frozen else set
    return None


def isinstance_f(vm, v, c):
    """isinstance as True/False/z3 Bool"""
    v = vm.norm(v)
    c = vm.norm(c)
    if isinstance(c, Tup):
        out = []
        for x in c.segs:
            if isinstance(x, Splice):
                out.append(F_isinst(vm.lift(v), V.tup(x.t)))
            else:
                r = isinstance_f(vm, v, x)
                if r is True:
                    return True
                out.append(r)
        return vm.disj(out)
    if isinstance(c, Ext):
        d = EXT_CLASSES.get(c.dotted)
        c = d if d is not None else ExtCls(c.dotted)
    if isinstance(c, (Sym,)):
        return F_isinst(vm.lift(v), c.t)
    if not isinstance(c, (ClassVal, TypeVal, ExtCls)):
        vm.throw(TypeError, 'isinstance() arg 2 must be a type')
    if isinstance(v, InstObj):
        h = v.ghost.get('isinstance')
        if h is not None:
            r = h(vm, v, c)
            if r is not MISSING:
                return r
        if 'sym' in v.ghost:
            return vm.exc_is(v, c)
        return issub(v.cls, c)
    if isinstance(v, ClassVal) or isinstance(v, TypeVal) or isinstance(v, ExtCls):
        return c is TypeVal(type) or c is _obj
    t = py_type(vm, v)
    if t is not None:
        return isinstance(c, TypeVal) and issubclass(t, c.t)
    if isinstance(v, Sym):
        if c is _obj:
            return True
        if isinstance(c, TypeVal):
            m = {str: V.is_str, bytes: V.is_bytes, float: V.is_real, bool: V.is_bool, type(None): V.is_none,
                 tuple: V.is_tup}
            if c.t in m:
                return z3.Or(m[c.t](v.t), z3.And(V.is_op(v.t), F_isinst(v.t, vm.lift(c))))
            if c.t is int:
                return z3.Or(V.is_int(v.t), V.is_bool(v.t), z3.And(V.is_op(v.t), F_isinst(v.t, vm.lift(c))))
        f = z3.And(z3.Or(V.is_op(v.t), V.is_obj(v.t)), F_isinst(v.t, vm.lift(c)))
        # subclass facts between the classes asked about
        facts = vm.isfacts.setdefault(v.t.get_id(), (v.t, []))[1]
        for c2 in facts:
            if c2 is c:
                continue
            if issub(c, c2):
                vm.assume(z3.Implies(F_isinst(v.t, vm.lift(c)), F_isinst(v.t, vm.lift(c2))))
            elif issub(c2, c):
                vm.assume(z3.Implies(F_isinst(v.t, vm.lift(c2)), F_isinst(v.t, vm.lift(c))))
        facts.append(c)
        return f
    if isinstance(v, (FuncVal, Native, Bound, Ext, ModuleVal)):
        return c is _obj
    return False


# ================================================================================ builtin functions

@builtin('isinstance')
def _(vm, args, kw):
    return vm.wrapb(isinstance_f(vm, args[0], args[1]))


@builtin('issubclass')
def _(vm, args, kw):
    a, b = args
    if isinstance(b, Tup):
        return any(issub(a, x) for x in b.segs)
    return issub(a, b)


@builtin('len')
def _(vm, args, kw):
    return vm.length(args[0])


@builtin('id')
def _(vm, args, kw):
    v = args[0]
    r = Sym('int', F_pyid(vm.lift(v)))
    return r


@builtin('hash')
def _(vm, args, kw):
    v = vm.norm(args[0])
    if isinstance(v, InstObj):
        m = class_lookup(v.cls, '__hash__')
        if m is not MISSING:
            return vm.call(Bound(m, v), [])
    vm.key_ok(v)
    return Sym('int', F_hash(vm.lift(v)))


@builtin('repr')
def _(vm, args, kw):
    return vm.repr_(args[0])


@builtin('format')
def _(vm, args, kw):
    if len(args) == 1:
        return vm.str_(args[0])
    if isinstance(args[0], PRIM):
        return format(args[0], args[1])
    raise Unsupported('format()')


@builtin('getattr')
def _(vm, args, kw):
    return vm.getattr(args[0], args[1], args[2] if len(args) > 2 else MISSING)


@builtin('hasattr')
def _(vm, args, kw):
    vm.soft += 1
    try:
        vm.getattr(args[0], args[1])
        return True
    except PyExc as e:
        if vm.exc_is(e.value, TypeVal(AttributeError)):
            return False
        raise
    finally:
        vm.soft -= 1


@builtin('setattr')
def _(vm, args, kw):
    vm.setattr(args[0], args[1], args[2])


@builtin('delattr')
def _(vm, args, kw):
    vm.delattr(args[0], args[1])


@builtin('callable')
def _(vm, args, kw):
    v = args[0]
    if isinstance(v, (FuncVal, Native, Bound, ClassVal, TypeVal)):
        return True
    if isinstance(v, InstObj):
        return vm.special(v, '__call__') is not MISSING
    if isinstance(v, Sym) and v.k == 'any':
        f = z3.Function('callable', V, z3.BoolSort())
        return Sym('bool', f(v.t))
    return False


def calls_until(vm, f, sentinel):
    """iter(f, sentinel): the results of calling f() up to the one that equals the sentinel."""
    def elem(vm):
        x = vm.call(f, [])
        if vm.branch(vm.eqf(x, sentinel)):
            raise PathEnd()
        return x

    def finish(vm):
        x = vm.call(f, [])
        if not vm.branch(vm.eqf(x, sentinel)):
            raise PathEnd()
    return Splice(z3.Const(vm.uname('calls'), L), elem, ('calls', f, finish))


@builtin('iter')
def _(vm, args, kw):
    if len(args) == 2:
        return IterVal([calls_until(vm, *args)])
    return IterVal(vm.iter_segs(args[0]))


@builtin('next')
def _(vm, args, kw):
    it = args[0]
    if isinstance(it, IterVal):
        x, rest = vm.uncons(it.segs)
        if x is MISSING:
            if len(args) > 1:
                return args[1]
            vm.throw(StopIteration)
        it.segs = rest
        return x
    if isinstance(it, GenVal):
        box = []

        def cb(x):
            box.append(x)
            raise BreakSig()
        try:
            vm.gen_iter(it, cb)
        except BreakSig:
            pass
        if box:
            return box[0]
        if len(args) > 1:
            return args[1]
        vm.throw(StopIteration)
    if isinstance(it, InstObj):
        m = vm.special(it, '__next__')
        if m is not MISSING:
            return vm.call(m, [])
    raise Unsupported('next()')


def _anyall(vm, v, want):
    res = []

    def cb(x):
        if vm.truth(x) == want:
            res.append(1)
            raise BreakSig()
    try:
        if isinstance(v, GenVal):
            vm.gen_iter(v, cb)
        else:
            for x in vm.iter_segs(v):
                if isinstance(x, Splice):
                    raise Unsupported('any/all over unknown items')
                cb(x)
    except BreakSig:
        pass
    return want if res else not want


@builtin('any')
def _(vm, args, kw):
    return _anyall(vm, args[0], True)


@builtin('all')
def _(vm, args, kw):
    return _anyall(vm, args[0], False)


@builtin('sum')
def _(vm, args, kw):
    acc = args[1] if len(args) > 1 else 0
    for x in vm.iter_segs(args[0]):
        if isinstance(x, Splice):
            raise Unsupported('sum over unknown items')
        acc = vm.binop('+', acc, x)
    return acc


def _minmax(vm, args, kw, op):
    k = kwd(kw)
    key = k.get('key')
    items = args if len(args) > 1 else vm.iter_segs(args[0])
    if not items:
        if 'default' in k:
            return k['default']
        vm.throw(ValueError, 'empty')
    if any(isinstance(i, Splice) for i in items):
        raise Unsupported('min/max of unknown items')
    best = items[0]
    if key is None and len(items) == 2:
        a, b = vm.num(items[0]), vm.num(items[1])
        ka, kb = vm.kind(a), vm.kind(b)
        if {ka, kb} <= {'int', 'real'} and (isinstance(a, Sym) or isinstance(b, Sym)):
            if ka == kb == 'int':
                x, y = vm.as_int(a), vm.as_int(b)
                c = x <= y if op == '<' else x >= y
                return Sym('int', z3.If(c, x, y))
            x, y = vm.as_real(a), vm.as_real(b)
            c = x <= y if op == '<' else x >= y
            return Sym('real', z3.If(c, x, y))
    for x in items[1:]:
        a = vm.call(key, [x]) if key is not None else x
        b = vm.call(key, [best]) if key is not None else best
        if vm.truth(vm.py_ord(op, a, b)):
            best = x
    return best


@builtin('min')
def _(vm, args, kw):
    return _minmax(vm, args, kw, '<')


@builtin('max')
def _(vm, args, kw):
    return _minmax(vm, args, kw, '>')


@builtin('abs')
def _(vm, args, kw):
    v = vm.num(args[0])
    if isinstance(v, (int, float)):
        return abs(v)
    if isinstance(v, Sym) and v.k in ('int', 'real'):
        return Sym(v.k, z3.If(v.t >= 0, v.t, -v.t))
    raise Unsupported('abs')


@builtin('round')
def _(vm, args, kw):
    if all(isinstance(a, (int, float)) for a in args):
        return round(*args)
    if len(args) == 1 and isinstance(args[0], Sym) and args[0].k == 'real':
        r = vm.fresh('int', 'round')
        vm.assume(z3.And(z3.ToReal(r.t) - args[0].t <= z3.RealVal('1/2'),
                         args[0].t - z3.ToReal(r.t) <= z3.RealVal('1/2')))
        return r
    raise Unsupported('round')


@builtin('sorted')
def _(vm, args, kw):
    l = ListObj(vm, list(vm.iter_segs(args[0])))
    list_sort(vm, l, kwd(kw))
    return l


@builtin('print')
def _(vm, args, kw):
    return None


@builtin('vars')
def _(vm, args, kw):
    if isinstance(args[0], InstObj):
        return args[0].fields
    raise Unsupported('vars')


@builtin('open')
def _(vm, args, kw):
    return call_ext(vm, Ext('builtins.open'), args, kw)


@builtin('__import__')
def _(vm, args, kw):
    return call_ext(vm, Ext('builtins.__import__'), args, kw)


F_walk = z3.Function('attrwalk', V, L, V)        # attributes looked up one after the other
F_top = z3.Function('import.top', z3.StringSort(), V)
F_module = z3.Function('import.module', z3.StringSort(), V)


@ext('builtins.__import__', 'importlib.__import__')
def _(vm, args, kw):
    name, _, _, fl, _ = P(vm, args, kw, 'name globals= locals= fromlist= level=')
    return import_(vm, name, fl is not MISSING and vm.truth(fl))


@ext('importlib.import_module')
def _(vm, args, kw):
    name, _ = P(vm, args, kw, 'name package=')
    return import_(vm, name, True)


def import_(vm, name, leaf):
    """Importing 'a.b.c' gives the package a, or the module a.b.c itself (leaf); the module is
    reached from the package through the remaining parts of its name."""
    vm.trust('__import__')
    name = vm.norm(name)
    if vm.kind(name) != 'str':
        raise Unsupported('import of %r' % (name,))
    t = vm.term(name)
    vm.event('import', name=name)
    if vm.choose(2) == 1:
        raise PyExc(vm.sym_exc('import'))
    parts, _ = split_list(vm, 'split', Sym('str', t), ['.'])
    vm.assume(z3.Implies(L.is_cons(parts), F_walk(F_top(t), L.tl(parts)) == F_module(t)))
    return Sym('any', (F_module if leaf else F_top)(t))


def walk(vm, v, l):
    return Sym('any', F_walk(vm.lift(v), l))


@builtin('hex')
def _(vm, args, kw):
    if isinstance(args[0], int):
        return hex(args[0])
    return vm.concat('0x', vm.pct_x(args[0]))


@builtin('chr')
def _(vm, args, kw):
    return chr(args[0])


@builtin('ord')
def _(vm, args, kw):
    return ord(args[0])


@builtin('divmod')
def _(vm, args, kw):
    return Tup([vm.binop('//', args[0], args[1]), vm.binop('%', args[0], args[1])])


@builtin('pow')
def _(vm, args, kw):
    return vm.binop('**', args[0], args[1])


BUILTINS['NotImplemented'] = Ext('builtins.NotImplemented')
BUILTINS['Ellipsis'] = Ext('builtins.Ellipsis')
BUILTINS['__debug__'] = True


def do_exec(vm, name, args, env):
    if isinstance(args[0], str):
        tree = ast.parse(args[0], mode='exec' if name == 'exec' else 'eval')
        if len(args) > 1:
            e2 = Env(ModuleVal('<exec>', None))
            ns = args[2] if len(args) > 2 else args[1]
            if name == 'eval':
                return vm.ev(tree.body, e2)
            vm.exec_block(tree.body, e2)
            for k, v in e2.module.ns.items():
                vm.setitem(ns, k, v)
            return None
        raise Unsupported('exec in current scope')
    h = vm.extover.get('builtins.' + name)
    if h is not None:
        return h(vm, args, [])
    raise Unsupported('%s of a symbolic string' % name)


# object methods
def _om(name):
    def deco(f):
        OBJECT_METHODS[name] = f
        return f
    return deco


@_om('__init__')
def _(vm, args, kw):
    return None


@_om('__setattr__')
def _(vm, args, kw):
    vm.raw_setattr(args[0], vm.norm(args[1]), args[2])


@_om('__delattr__')
def _(vm, args, kw):
    vm.delattr(args[0], args[1])


@_om('__repr__')
def _(vm, args, kw):
    return S_str(F_repr(vm.lift(args[0])))


@_om('__str__')
def _(vm, args, kw):
    return vm.repr_(args[0])


@_om('__hash__')
def _(vm, args, kw):
    return Sym('int', F_hash(vm.lift(args[0])))


@_om('__eq__')
def _(vm, args, kw):
    if args[0] is args[1]:
        return True
    return Ext('builtins.NotImplemented')


@_om('__ne__')
def _(vm, args, kw):
    return vm.wrapb(vm.neg(vm.identical(args[0], args[1])))


@_om('__getattribute__')
def _(vm, args, kw):
    o, n = args
    m = class_lookup(o.cls, n)
    if isinstance(m, Prop):
        return vm.call(m.fget, [o])
    v = vm.dict_get(o.fields, n)
    if v is not MISSING:
        return v
    if m is not MISSING:
        return vm.bind_attr(m, o, o.cls)
    vm.throw(AttributeError, n)


# ================================================================================ methods of builtin types
STR_M, BYTES_M, LIST_M, DICT_M, TUP_M, SET_M, INT_M, IT_M = {}, {}, {}, {}, {}, {}, {}, {}


def meth(tab, *names):
    def deco(f):
        f = strict(f, 2, names)
        for n in names:
            tab[n] = f
        return f
    return deco


def table_for(vm, o):
    k = vm.kind(o)
    if k == 'str':
        return STR_M, str
    if k == 'bytes':
        return BYTES_M, bytes
    if isinstance(o, ListObj):
        return LIST_M, list
    if isinstance(o, DictObj):
        return DICT_M, dict
    if isinstance(o, Tup):
        return TUP_M, tuple
    if isinstance(o, SetObj):
        return SET_M, set
    if k in ('int', 'bool'):
        return INT_M, int
    if k == 'real':
        return INT_M, float
    if o is None:
        return {}, type(None)
    return None, None


def builtin_attr(vm, o, name):
    o2 = vm.norm(o)
    if name == '__class__':
        return type_of(vm, o2)
    if name == '__doc__':
        return None
    tab, t = table_for(vm, o2)
    if tab is None:
        if isinstance(o2, Sym):      # unknown object
            # an unknown value that is in fact of builtin type is specialised first
            if vm.user_hook is None or True:
                w = o2
                for k, is_, acc in vm.KINDS:
                    if hasattr(dict(str=str, int=int, bytes=bytes, real=float, bool=bool)[k], name) and \
                            vm.entails(is_(w.t)):
                        return builtin_attr(vm, Sym(k, acc(w.t)), name)
                if vm.entails(V.is_tup(w.t)):
                    return builtin_attr(vm, Tup([Splice(V.l(w.t))]), name)
            return vm.user_getattr(o2, name)
        if isinstance(o2, (FuncVal, Native, Bound)):
            if name == '__name__':
                return getattr(o2, 'name', 'f')
            if name == '__call__':
                return o2
            vm.throw(AttributeError, name)
        if isinstance(o2, TypeVal):
            return type_attr(vm, o2, name)
        if isinstance(o2, (IterVal, GenVal)):
            if name == '__next__':
                return Bound(BUILTINS['next'], o2)
            if name == '__iter__':
                return Native(lambda vm, a, k: o2, 'iter')
            vm.throw(AttributeError, name)
        if isinstance(o2, DictView):
            vm.throw(AttributeError, name)
        raise Unsupported('attribute %s of %r' % (name, o2))
    if name in tab:
        f = tab[name]
        return Bound(Native(lambda vm, a, k, f=f: f(vm, a[0], a[1:], k), '%s.%s' % (t.__name__, name)), o2)
    if isinstance(o2, Tup) and o2.nt is not None and name in o2.nt:
        return o2.segs[o2.nt.index(name)]
    if hasattr(t, name):
        if isinstance(o2, PRIM):
            def conc(vm, a, k, name=name):
                a = [vm.norm(x) for x in a]
                kd = kwd(k)
                if all(isinstance(x, PRIM) for x in a) and all(isinstance(x, PRIM) for x in kd.values()):
                    try:
                        return from_py(vm, getattr(a[0], name)(*a[1:], **kd))
                    except Exception as e:
                        vm.throw(type(e), str(e))
                raise Unsupported('%s.%s with symbolic arguments' % (t.__name__, name))
            v = getattr(o2, name)
            if not callable(v):
                return v
            return Bound(Native(conc, '%s.%s' % (t.__name__, name)), o2)
        raise Unsupported('%s.%s' % (t.__name__, name))
    vm.throw(AttributeError, name)


def from_py(vm, v):
    if isinstance(v, PRIM):
        return v
    if isinstance(v, tuple):
        return Tup([from_py(vm, x) for x in v])
    if isinstance(v, list):
        return ListObj(vm, [from_py(vm, x) for x in v])
    if isinstance(v, dict):
        d = DictObj(vm)
        for k, x in v.items():
            vm.dict_set(d, from_py(vm, k), from_py(vm, x))
        return d
    if isinstance(v, (set, frozenset)):
        s = SetObj(vm)
        for x in v:
            vm.set_add(s, from_py(vm, x))
        return s
    raise Unsupported('python value %r' % (v,))


def type_attr(vm, tv, name):
    if name == '__name__' or name == '__qualname__':
        return tv.name
    if name == '__module__':
        return 'builtins'
    if tv.t is object and name in OBJECT_METHODS:
        return Native(OBJECT_METHODS[name], 'object.' + name)
    if issubclass(tv.t, BaseException) and name == '__init__':
        from .interp import exc_init
        return Native(exc_init, 'BaseException.__init__')
    if tv.t is dict and name == 'fromkeys':
        def fromkeys(vm, a, k):
            d = DictObj(vm)
            for x in vm.iter_segs(a[0]):
                if isinstance(x, Splice):
                    raise Unsupported('dict.fromkeys')
                vm.dict_set(d, x, a[1] if len(a) > 1 else None)
            return d
        return Native(fromkeys, 'dict.fromkeys')
    tab = {str: STR_M, bytes: BYTES_M, list: LIST_M, dict: DICT_M, tuple: TUP_M, set: SET_M}.get(tv.t, {})
    if name in tab:
        f = tab[name]
        return Native(lambda vm, a, k, f=f: f(vm, a[0], a[1:], k), name)
    if hasattr(tv.t, name):
        def generic(vm, a, k, name=name):
            return vm.call(vm.getattr(a[0], name), a[1:], k)
        return Native(generic, '%s.%s' % (tv.name, name))
    vm.throw(AttributeError, name)


def builtin_special(vm, o, name):
    """special method of a builtin value, MISSING if absent"""
    o = vm.norm(o)
    if isinstance(o, (IterVal, GenVal)):
        if name == '__iter__':
            return Native(lambda vm, a, k: o, 'iter')
        return MISSING
    tab, t = table_for(vm, o)
    if tab is None:
        return MISSING
    if name in tab:
        f = tab[name]
        return Bound(Native(lambda vm, a, k, f=f: f(vm, a[0], a[1:], k), name), o)
    return MISSING


def conc(vm, *vals):
    return all(isinstance(v, PRIM) for v in vals)


# ---- str
@meth(STR_M, 'encode')
def m_encode(vm, s, args, kw):
    if isinstance(s, str):
        try:
            return s.encode(*[a for a in args if isinstance(a, str)])
        except UnicodeError as e:
            vm.throw(type(e) if False else UnicodeError, str(e))
    t = vm.as_str(s)
    d = kwd(kw)
    encoding = args[0] if args else d.get('encoding', 'utf-8')
    cs = charset(vm, encoding)
    e = F_enc(t)
    vm.assume(F_dec(e) == t)
    vm.assume(F_isutf8(e))
    vm.assume((e == z3.StringVal('')) == (t == z3.StringVal('')))
    if cs == 'ascii':
        # ascii text is encoded as in utf-8
        errors = args[1] if len(args) > 1 else d.get('errors', 'strict')
        ascii_facts(vm, t, e)
        if not vm.branch(F_isascii(e)):
            if errors == 'strict':
                vm.throw(UnicodeEncodeError, 'not ascii')
            e = z3.Function('asciienc.' + str(errors), SS, SS)(t)
    elif cs is None:
        vm.taint('encoding %r is not modelled' % (encoding,))
        e = z3.Function('enc.%s' % (encoding,), SS, SS)(t)
    vm.assumption('text handed to encode() contains no lone surrogates')
    return vm.norm(Sym('bytes', e))


F_isascii = z3.Function('isascii', SS, z3.BoolSort())


def charset(vm, encoding):
    if isinstance(encoding, str):
        n = encoding.lower().replace('-', '').replace('_', '')
        if n in ('utf8', 'u8', 'utf'):
            return 'utf8'
        if n in ('ascii', 'usascii'):
            return 'ascii'


def ascii_facts(vm, t, e):
    """What is known of whether *e* (text *t* in utf-8) is ascii"""
    def known(x):
        if z3.is_string_value(x):
            return all(c < '\x7f' for c in x.as_string()) and '\\u' not in x.as_string()
        if not z3.is_app(x):
            return False
        if x.decl().kind() == z3.Z3_OP_INT_TO_STR:
            return True
        if x.decl().kind() in (z3.Z3_OP_SEQ_CONCAT, z3.Z3_OP_ITE):
            return all(known(c) for c in x.children() if c.sort() == SS)
        return False
    if known(t):
        vm.assume(F_isascii(e))


@meth(BYTES_M, 'decode')
def m_decode(vm, b, args, kw):
    d = kwd(kw)
    errors = args[1] if len(args) > 1 else d.get('errors', 'strict')
    encoding = args[0] if args else d.get('encoding', 'utf-8')
    if isinstance(b, bytes):
        try:
            return b.decode(encoding, errors)
        except UnicodeDecodeError as e:
            vm.throw(UnicodeDecodeError, str(e))
    t = vm.as_bytes(b)
    if charset(vm, encoding) == 'utf8':
        if errors == 'strict':
            if not vm.branch(F_isutf8(t)):
                vm.throw(UnicodeDecodeError, 'invalid utf-8')
            r = F_dec(t)
            vm.assume(F_enc(r) == t)
            vm.assume((r == z3.StringVal('')) == (t == z3.StringVal('')))
            return vm.norm(S_str(r))
        f = z3.Function('utf8dec.' + str(errors), SS, SS)
        r = f(t)
        vm.assume(z3.Implies(F_isutf8(t), r == F_dec(t)))
        if errors != 'ignore':
            vm.assume((r == z3.StringVal('')) == (t == z3.StringVal('')))
        return S_str(r)
    if charset(vm, encoding) == 'ascii':
        # ascii bytes mean the same in utf-8
        vm.assume(z3.Implies(F_isascii(t), F_isutf8(t)))
        if vm.branch(F_isascii(t)):
            r = F_dec(t)
            vm.assume(F_enc(r) == t)
            vm.assume((r == z3.StringVal('')) == (t == z3.StringVal('')))
            return vm.norm(S_str(r))
        if errors == 'strict':
            vm.throw(UnicodeDecodeError, 'not ascii')
    else:
        vm.taint('encoding %r is not modelled' % (encoding,))
    f = z3.Function('dec.%s.%s' % (encoding, errors), SS, SS)
    return S_str(f(t))


def sfun(name, *sorts):
    return z3.Function('str.' + name, *sorts)


@meth(STR_M, 'join')
def m_join(vm, s, args, kw):
    segs = vm.iter_segs(args[0])
    if not any(isinstance(x, Splice) for x in segs):
        out = ''
        for i, x in enumerate(segs):
            if i:
                out = vm.concat(out, s)
            k = vm.kind(x)
            if k not in ('str', 'any'):
                vm.throw(TypeError, 'sequence item: expected str instance')
            out = vm.concat(out, x)
        return out
    f = sfun('join', SS, L, SS)
    return S_str(f(vm.as_str(s), vm.lift_seq(segs)))


@meth(BYTES_M, 'join')
def m_bjoin(vm, s, args, kw):
    out = b''
    for i, x in enumerate(vm.iter_segs(args[0])):
        if isinstance(x, Splice):
            raise Unsupported('bytes.join')
        if i:
            out = vm.binop('+', out, s)
        out = vm.binop('+', out, x)
    return out


@meth(STR_M, 'startswith')
def m_startswith(vm, s, args, kw):
    p = vm.norm(args[0])
    if isinstance(p, Tup):
        return vm.wrapb(vm.disj([z3.PrefixOf(vm.as_str(x), vm.as_str(s)) for x in p.segs]))
    if conc(vm, s, p):
        return s.startswith(p)
    return vm.wrapb(z3.PrefixOf(vm.as_str(p), vm.as_str(s)))


@meth(STR_M, 'endswith')
def m_endswith(vm, s, args, kw):
    p = vm.norm(args[0])
    if isinstance(p, Tup):
        return vm.wrapb(vm.disj([z3.SuffixOf(vm.as_str(x), vm.as_str(s)) for x in p.segs]))
    if conc(vm, s, p):
        return s.endswith(p)
    return vm.wrapb(z3.SuffixOf(vm.as_str(p), vm.as_str(s)))


@meth(BYTES_M, 'startswith')
def m_bstartswith(vm, s, args, kw):
    p = vm.norm(args[0])
    if conc(vm, s, p):
        return s.startswith(p)
    return vm.wrapb(z3.PrefixOf(vm.as_bytes(p), vm.as_bytes(s)))


@meth(BYTES_M, 'endswith')
def m_bendswith(vm, s, args, kw):
    p = vm.norm(args[0])
    if isinstance(p, Tup):
        return vm.wrapb(vm.disj([z3.SuffixOf(vm.as_bytes(x), vm.as_bytes(s)) for x in p.segs]))
    if conc(vm, s, p):
        return s.endswith(p)
    return vm.wrapb(z3.SuffixOf(vm.as_bytes(p), vm.as_bytes(s)))


def _uni(name, tab, kind):
    @meth(tab, name)
    def f(vm, s, args, kw, name=name):
        args = [vm.norm(a) for a in args]
        if conc(vm, s, *args):
            try:
                return from_py(vm, getattr(s, name)(*args))
            except Exception as e:
                vm.throw(type(e), str(e))
        t = vm.term(s)
        ts = [vm.term(a) if vm.kind(a) in ('str', 'bytes') else None for a in args]
        if any(x is None for x in ts):
            raise Unsupported('%s.%s arguments' % (kind, name))
        # stripping only removes: the identity when nothing to strip is not decided here
        if name == 'replace':
            vm.taint('%s.replace is not interpreted' % kind)
        g = z3.Function('%s.%s.%d' % (kind, name, len(ts)), *([SS] * (1 + len(ts)) + [SS]))
        r = g(t, *ts)
        known = vm.ghost.get('known_strings', {}).get(r.get_id())
        if known is not None:
            return vm.norm(Sym(kind, known[1]))
        strip_facts(vm, name, t, ts, r)
        return vm.norm(Sym(kind, r))


def strip_facts(vm, name, t, ts, r):
    if name in ('removesuffix', 'removeprefix'):
        p = ts[0]
        if name == 'removesuffix':
            vm.assume(z3.If(z3.And(z3.SuffixOf(p, t), p != z3.StringVal('')), t == z3.Concat(r, p), r == t))
        else:
            vm.assume(z3.If(z3.And(z3.PrefixOf(p, t), p != z3.StringVal('')), t == z3.Concat(p, r), r == t))
    if name in ('lstrip', 'rstrip') and ts:
        # a single character: everything but the run of it at this end
        p = ts[0]
        x = z3.Const(vm.uname('stripped'), SS)
        one = z3.StringVal(p.as_string()) if z3.is_string_value(p) else None
        if one is not None and len(p.as_string()) == 1:
            vm.assume(t == (z3.Concat(r, x) if name == 'rstrip' else z3.Concat(x, r)))
            vm.assume(z3.InRe(x, z3.Star(z3.Re(one))))
            vm.assume(z3.Not(z3.SuffixOf(p, r) if name == 'rstrip' else z3.PrefixOf(p, r)))
    if name in ('lstrip', 'rstrip', 'strip') and ts:
        c = [] if name == 'rstrip' else [z3.Not(z3.PrefixOf(ts[0], t))]
        c += [] if name == 'lstrip' else [z3.Not(z3.SuffixOf(ts[0], t))]
        vm.assume(z3.Implies(z3.And([z3.Length(ts[0]) == 1] + c), r == t))


for _n in ('lstrip', 'rstrip', 'strip', 'lower', 'upper', 'title', 'capitalize', 'replace', 'casefold',
           'removesuffix', 'removeprefix'):
    _uni(_n, STR_M, 'str')
    _uni(_n, BYTES_M, 'bytes')


@meth(STR_M, 'isdigit')
def _(vm, s, args, kw):
    if isinstance(s, str):
        return s.isdigit()
    f = z3.Function('isdigit', SS, z3.BoolSort())
    t = vm.as_str(s)
    vm.assume(z3.Implies(f(t), z3.And(F_isint(t), F_stoi(t) >= 0)))
    if z3.is_app(t) and t.decl().eq(F_itos):
        vm.assume(f(t) == (t.arg(0) >= 0))
    return Sym('bool', f(t))


def split_list(vm, name, s, args):
    """Result of a split as a list with unknown items (a function of its arguments)."""
    ts = [vm.lift(a) for a in args]
    f = z3.Function('split.%s.%d' % (name, len(ts)), *([SS] + [V] * len(ts) + [L]))
    t = f(vm.term(s), *ts)
    kind = vm.kind(s)
    if args and args[0] is not None:
        vm.assume(t != L.nil)
        vm.assume(V.is_str(L.hd(t)) if kind == 'str' else V.is_bytes(L.hd(t)))
    isk = V.is_str if kind == 'str' else V.is_bytes

    def elem(vm):
        x = vm.fresh(kind, 'part')
        return x
    return t, elem


@meth(STR_M, 'split')
def m_split(vm, s, args, kw):
    d = kwd(kw)
    args = list(args)
    if 'sep' in d:
        args = [d['sep']] + args
    if 'maxsplit' in d:
        args = (args or [None]) + [d['maxsplit']]
    args = [vm.norm(a) for a in args]
    if conc(vm, s, *args):
        return from_py(vm, s.split(*args))
    t, elem = split_list(vm, 'split', s, args)
    return ListObj(vm, [Splice(t, elem, ('split', s))])


BYTES_M['split'] = m_split


@meth(STR_M, 'rsplit')
def m_rsplit(vm, s, args, kw):
    args = [vm.norm(a) for a in args]
    if conc(vm, s, *args):
        return from_py(vm, s.rsplit(*args))
    t, elem = split_list(vm, 'rsplit', s, args)
    return ListObj(vm, [Splice(t, elem, ('split', s))])


@meth(STR_M, 'splitlines')
def m_splitlines(vm, s, args, kw):
    if conc(vm, s):
        return from_py(vm, s.splitlines(*args))
    t, elem = split_list(vm, 'splitlines', s, [])
    return ListObj(vm, [Splice(t, elem, ('split', s))])


def part_known(vm, t, sep):
    """The two sides of the first occurrence of a character, where the text is known piecewise."""
    parts = []

    def flat(x):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            for c in x.children():
                flat(c)
        else:
            parts.append(x)
    flat(t)

    def cat(xs):
        return z3.StringVal('') if not xs else xs[0] if len(xs) == 1 else z3.Concat(*xs)
    for i, x in enumerate(parts):
        if z3.is_string_value(x):
            v = x.as_string()
            if '\\' in v:
                return None
            j = v.find(sep)
            if j >= 0:
                return cat(parts[:i] + ([z3.StringVal(v[:j])] if j else [])), \
                    cat(([z3.StringVal(v[j + 1:])] if v[j + 1:] else []) + parts[i + 1:])
        elif not vm.entails(z3.Not(z3.Contains(x, z3.StringVal(sep)))):
            return None
    return None


def m_partition(vm, s, args, kw):
    sep = vm.norm(args[0])
    if conc(vm, s, sep):
        return from_py(vm, s.partition(sep))
    t, p, k = text_term(vm, s), text_term(vm, sep), vm.kind(s)
    known = part_known(vm, t, sep) if isinstance(sep, str) and len(sep) == 1 else None
    if known is not None:
        return Tup([vm.norm(S_str(known[0])), sep, vm.norm(S_str(known[1]))])
    has = z3.Contains(t, p)
    if vm.branch(has):
        a, b = vm.fresh(k, 'part.before'), vm.fresh(k, 'part.after')
        vm.assume(t == z3.Concat(a.t, p, b.t))
        vm.assume(z3.Not(z3.Contains(a.t, p)))
        f = sfun('partition.a', SS, SS, SS)
        g = sfun('partition.b', SS, SS, SS)
        vm.assume(z3.And(f(t, p) == a.t, g(t, p) == b.t))
        return Tup([a, sep, b])
    none = '' if k == 'str' else b''
    return Tup([s, none, none])


def m_rpartition(vm, s, args, kw):
    sep = vm.norm(args[0])
    if conc(vm, s, sep):
        return from_py(vm, s.rpartition(sep))
    t, p, k = text_term(vm, s), text_term(vm, sep), vm.kind(s)
    if vm.branch(z3.Contains(t, p)):
        a, b = vm.fresh(k, 'part.before'), vm.fresh(k, 'part.after')
        vm.assume(t == z3.Concat(a.t, p, b.t))
        vm.assume(z3.Not(z3.Contains(b.t, p)))
        f = sfun('rpartition.a', SS, SS, SS)
        g = sfun('rpartition.b', SS, SS, SS)
        vm.assume(z3.And(f(t, p) == a.t, g(t, p) == b.t))
        return Tup([a, sep, b])
    none = '' if k == 'str' else b''
    return Tup([none, none, s])


def text_term(vm, s):
    return vm.as_bytes(s) if vm.kind(s) == 'bytes' else vm.as_str(s)


STR_M['partition'] = BYTES_M['partition'] = m_partition
STR_M['rpartition'] = BYTES_M['rpartition'] = m_rpartition


@meth(STR_M, 'format')
def m_format(vm, s, args, kw):
    if not isinstance(s, str):
        raise Unsupported('format of a symbolic string')
    import string
    out = ''
    d = DictObj(None)
    d.layers = list(kw)
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out = vm.concat(out, lit)
        if field is None:
            continue
        m = _re.match(r'^(\w*)((?:\.\w+|\[\w+\])*)$', field)
        if not m:
            raise Unsupported('format field')
        first, rest = m.groups()
        if first == '':
            v = vm.seq_get(args, auto, None)
            auto += 1
        elif first.isdigit():
            v = vm.seq_get(args, int(first), None)
        else:
            v = vm.dict_get(d, first)
            if v is MISSING:
                vm.throw(KeyError, first)
        for a, i in _re.findall(r'\.(\w+)|\[(\w+)\]', rest):
            v = vm.getattr(v, a) if a else vm.getitem(v, int(i) if i.isdigit() else i)
        if conv == 'r':
            v = vm.repr_(v)
        if spec:
            if conc(vm, v):
                out = vm.concat(out, format(v, spec))
                continue
            if spec == 'x':
                out = vm.concat(out, vm.pct_x(v))
                continue
            raise Unsupported('format spec')
        out = vm.concat(out, vm.str_(v))
    return out


@meth(STR_M, '__len__')
def _(vm, s, args, kw):
    return vm.length(s)


@meth(STR_M, '__eq__')
def _(vm, s, args, kw):
    return vm.py_eq(s, args[0])


BYTES_M['__eq__'] = STR_M['__eq__']
BYTES_M['__len__'] = STR_M['__len__']


@meth(STR_M, 'find', 'index', 'rfind')
def _(vm, s, args, kw):
    if conc(vm, s, *args):
        return s.find(*args)
    return Sym('int', z3.IndexOf(vm.as_str(s), vm.as_str(args[0]), 0))


@meth(BYTES_M, 'hex')
def _(vm, b, args, kw):
    if isinstance(b, bytes):
        return b.hex()
    return S_str(z3.Function('bytes.hex', SS, SS)(b.t))


def str_index(vm, o, k):
    if isinstance(k, slice):
        lo, hi, st = vm.norm(k.start), vm.norm(k.stop), k.step
        if isinstance(o, (str, bytes)) and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
            return o[lo:hi:st]
        if st is not None:
            raise Unsupported('string slice step')
        t = vm.term(o)
        n = z3.Length(t)

        def pos(x, dflt):
            if x is None:
                return dflt
            x = vm.as_int(x)
            x = z3.If(x < 0, x + n, x)
            return z3.If(x < 0, z3.IntVal(0), z3.If(x > n, n, x))
        a, b = pos(lo, z3.IntVal(0)), pos(hi, n)
        r = z3.SubString(t, a, z3.If(b > a, b - a, z3.IntVal(0)))
        return vm.norm(Sym(vm.kind(o), z3.simplify(r)))
    k = vm.index_of(k)
    if isinstance(o, (str, bytes)) and isinstance(k, int):
        try:
            return o[k]
        except IndexError:
            vm.throw(IndexError, 'string index out of range')
    t = vm.term(o)
    n = z3.Length(t)
    i = vm.as_int(k)
    if not vm.branch(z3.And(i < n, i >= -n)):
        vm.throw(IndexError, 'string index out of range')
    i = z3.If(i < 0, i + n, i)
    if vm.kind(o) == 'bytes':
        return Sym('int', z3.StrToCode(z3.SubString(t, i, 1)))
    return S_str(z3.SubString(t, i, 1))


_PCT = _re.compile(r'%(?:\((\w+)\))?([#0\- +]*)(\d+)?(?:\.(\d+))?([sdrxXfgeiuoc%])')


def pct_format(vm, fmt, arg):
    fmt = vm.norm(fmt)
    if not isinstance(fmt, str):
        f = z3.Function('pct', SS, V, SS)
        e = vm.event('pctformat', fmt=fmt, arg=arg)
        if vm.choose(2) == 1:
            raise PyExc(vm.sym_exc('fmtexc'))
        return S_str(f(vm.as_str(fmt), vm.deep(arg)))
    if isinstance(arg, Tup):
        items = list(arg.segs)
    else:
        items = [arg]
    if conc(vm, *[x for x in items if not isinstance(x, Splice)]) and not any(
            isinstance(x, Splice) for x in items) and isinstance(arg, PRIM + (Tup,)):
        try:
            return fmt % (tuple(items) if isinstance(arg, Tup) else arg)
        except Exception as e:
            vm.throw(type(e), str(e))
    out = ''
    pos = 0
    for m in _PCT.finditer(fmt):
        out = vm.concat(out, fmt[pos:m.start()])
        pos = m.end()
        name, flags, width, prec, conv = m.groups()
        if conv == '%':
            out = vm.concat(out, '%')
            continue
        if name is not None:
            v = vm.getitem(arg, name)
        else:
            v, items = vm.uncons(items)
            if v is MISSING:
                vm.throw(TypeError, 'not enough arguments for format string')
        v = vm.norm(v)
        if conc(vm, v) and v is not None:
            try:
                out = vm.concat(out, '%' + (flags or '') + (width or '') + ('.' + prec if prec else '') + conv
                                if False else ('%' + (flags or '') + (width or '') +
                                               ('.' + prec if prec else '') + conv) % v)
            except Exception as e:
                vm.throw(type(e), str(e))
            continue
        if flags or width or prec:
            f = z3.Function('fmt%%%s%s%s%s' % (flags, width, prec, conv), V, SS)
            out = vm.concat(out, S_str(f(vm.lift(v))))
            continue
        if conv == 's':
            out = vm.concat(out, vm.str_(v))
        elif conv == 'r':
            out = vm.concat(out, vm.repr_(v))
        elif conv in 'diu':
            v = vm.num(v)
            if vm.kind(v) == 'int':
                out = vm.concat(out, vm.itos(v))
            elif vm.kind(v) == 'any':
                if not vm.branch(V.is_int(v.t)):
                    vm.throw(TypeError, '%d format: a number is required')
                out = vm.concat(out, vm.itos(Sym('int', V.i(v.t))))
            elif vm.kind(v) in ('str', 'bytes', 'none', 'obj'):
                vm.throw(TypeError, '%d format: a number is required')
            else:
                f = z3.Function('fmt%d', V, SS)
                out = vm.concat(out, S_str(f(vm.lift(v))))
        elif conv in 'xX':
            out = vm.concat(out, vm.pct_x(v))
        else:
            f = z3.Function('fmt%%%s' % conv, V, SS)
            out = vm.concat(out, S_str(f(vm.lift(v))))
    out = vm.concat(out, fmt[pos:])
    if isinstance(arg, Tup) and items:
        if not vm.branch(vm.segs_empty(items)):
            vm.throw(TypeError, 'not all arguments converted during string formatting')
    return out


_PCTB = _re.compile(rb'%([diuxX%sb])')


def pct_bytes(vm, fmt, arg):
    """bytes % arguments: numbers in plain conversions, bytes as they are."""
    rest = _PCTB.sub(b'', fmt)
    if b'%' in rest:
        raise Unsupported('bytes formatting')
    items = list(arg.segs) if isinstance(arg, Tup) else [arg]
    convs = [m.group(1) for m in _PCTB.finditer(fmt)]
    if not any(c in b'sb' for c in convs):
        return vm.call(vm.getattr(pct_format(vm, fmt.decode('latin-1'), arg), 'encode'), []) if fmt.isascii() else unsup('bytes formatting')
    out = b''
    pos = 0
    for m in _PCTB.finditer(fmt):
        out = vm.binop('+', out, fmt[pos:m.start()])
        pos = m.end()
        c = m.group(1)
        if c == b'%':
            out = vm.binop('+', out, b'%')
            continue
        v, items = vm.uncons(items)
        if v is MISSING:
            vm.throw(TypeError, 'not enough arguments for format string')
        if c in b'sb':
            if vm.kind(v) != 'bytes':
                raise Unsupported('bytes formatting')
            out = vm.binop('+', out, v)
        else:
            out = vm.binop('+', out, vm.call(vm.getattr(pct_format(vm, '%' + c.decode(), Tup([v])), 'encode'), []))
    out = vm.binop('+', out, fmt[pos:])
    if isinstance(arg, Tup) and items and not vm.branch(vm.segs_empty(items)):
        vm.throw(TypeError, 'not all arguments converted during bytes formatting')
    return out


def unsup(what):
    raise Unsupported(what)


# ---- list
@meth(LIST_M, 'append')
def _(vm, l, args, kw):
    vm.list_append(l, args[0])


@meth(LIST_M, 'extend', '__iadd__')
def _(vm, l, args, kw):
    segs = list(vm.iter_segs(args[0]))
    vm.touch(l)
    l.segs = l.segs + segs


@meth(LIST_M, 'insert')
def _(vm, l, args, kw):
    i = vm.index_of(args[0])
    if i == 0 and isinstance(i, int):
        vm.touch(l)
        l.segs = [args[1]] + l.segs
        return
    if isinstance(i, int) and not any(isinstance(s, Splice) for s in l.segs):
        vm.touch(l)
        l.segs.insert(i, args[1])
        return
    raise Unsupported('list.insert')


@meth(LIST_M, 'pop')
def _(vm, l, args, kw):
    i = vm.index_of(args[0]) if args else -1
    h = l.meta
    if i == 0 and isinstance(i, int):
        x, rest = vm.uncons(l.segs)
        if x is MISSING:
            vm.throw(IndexError, 'pop from empty list')
        vm.touch(l)
        l.segs = rest
        return x
    if i == -1 and isinstance(i, int):
        x, rest = vm.unsnoc(l.segs)
        if x is MISSING:
            vm.throw(IndexError, 'pop from empty list')
        vm.touch(l)
        l.segs = rest
        return x
    if isinstance(i, int) and not any(isinstance(s, Splice) for s in l.segs):
        vm.touch(l)
        try:
            return l.segs.pop(i)
        except IndexError:
            vm.throw(IndexError, 'pop index out of range')
    raise Unsupported('list.pop')


@meth(LIST_M, 'remove')
def _(vm, l, args, kw):
    if any(isinstance(s, Splice) for s in l.segs):
        raise Unsupported('list.remove on unknown items')
    for i, x in enumerate(l.segs):
        if vm.truth(vm.py_eq(x, args[0])):
            vm.touch(l)
            l.segs = l.segs[:i] + l.segs[i + 1:]
            return
    vm.throw(ValueError, 'list.remove(x): x not in list')


@meth(LIST_M, 'clear')
def _(vm, l, args, kw):
    vm.touch(l)
    l.segs = []


@meth(LIST_M, 'copy')
def _(vm, l, args, kw):
    return ListObj(vm, l.segs)


@meth(LIST_M, 'reverse')
def _(vm, l, args, kw):
    if any(isinstance(s, Splice) for s in l.segs):
        raise Unsupported('list.reverse')
    vm.touch(l)
    l.segs = l.segs[::-1]


@meth(LIST_M, 'count')
def _(vm, l, args, kw):
    n = 0
    for x in l.segs:
        if isinstance(x, Splice):
            raise Unsupported('list.count')
        if vm.truth(vm.py_eq(x, args[0])):
            n += 1
    return n


@meth(LIST_M, 'index')
def _(vm, l, args, kw):
    for i, x in enumerate(l.segs):
        if isinstance(x, Splice):
            raise Unsupported('list.index')
        if vm.truth(vm.py_eq(x, args[0])):
            return i
    vm.throw(ValueError, 'not in list')


def list_sort(vm, l, kw):
    h = vm.ghost.get('sort_hook')
    if h is not None:
        r = h(vm, l, kw)
        if r is not MISSING:
            return r
    segs = l.segs
    if any(isinstance(s, Splice) for s in segs):
        raise Unsupported('sorting unknown items')
    key = kw.get('key')
    rev = vm.truth(kw.get('reverse', False))
    keys = [x if key is None else vm.call(key, [x]) for x in segs]
    out = []
    for x, k in zip(segs, keys):
        i = len(out)
        while i > 0:
            lt = vm.py_ord('<', k, out[i - 1][1]) if not rev else vm.py_ord('<', out[i - 1][1], k)
            if vm.truth(lt):
                i -= 1
            else:
                break
        out.insert(i, (x, k))
    vm.touch(l)
    l.segs = [x for x, _ in out]


def insort(vm, args, kw):
    """bisect.insort into a list that is sorted by the same key: append, and sort."""
    l, x = args[0], args[1]
    if not isinstance(l, ListObj) or len(args) > 2 or set(kwd(kw)) - {'key'}:
        raise Unsupported('bisect.insort')
    vm.assumption('bisect.insort is given a sorted list')
    vm.touch(l)
    l.segs = list(l.segs) + [x]
    list_sort(vm, l, kwd(kw))


for _n in ('bisect.insort', 'bisect.insort_right', 'bisect.insort_left'):
    EXT[_n] = insort


@meth(LIST_M, 'sort')
def _(vm, l, args, kw):
    list_sort(vm, l, kwd(kw))


@meth(LIST_M, '__iter__')
def _(vm, l, args, kw):
    return IterVal(l.segs)


@meth(TUP_M, '__iter__')
def _(vm, l, args, kw):
    return IterVal(l.segs)


TUP_M['index'] = LIST_M['index']
TUP_M['count'] = LIST_M['count']


# ---- dict
@meth(DICT_M, 'get')
def _(vm, d, args, kw):
    v = vm.dict_get(d, args[0])
    if v is MISSING:
        return args[1] if len(args) > 1 else kwd(kw).get('default')
    return v


@meth(DICT_M, 'pop')
def _(vm, d, args, kw):
    v = vm.dict_get(d, args[0])
    if v is MISSING:
        if len(args) > 1:
            return args[1]
        vm.throw(KeyError, args[0])
    vm.dict_del(d, args[0])
    return v


@meth(DICT_M, 'setdefault')
def _(vm, d, args, kw):
    v = vm.dict_get(d, args[0])
    if v is MISSING:
        v = args[1] if len(args) > 1 else None
        vm.dict_set(d, args[0], v)
    return v


@meth(DICT_M, 'update')
def _(vm, d, args, kw):
    if args:
        a = args[0]
        vm.dict_update(d, a)
    if kw:
        k = DictObj(vm)
        k.layers = list(kw)
        vm.dict_update(d, k)


@meth(DICT_M, 'keys')
def _(vm, d, args, kw):
    return DictView(d, 'keys')


@meth(DICT_M, 'values', 'valuerefs', 'itervalues')
def _(vm, d, args, kw):
    return DictView(d, 'values')


@meth(DICT_M, 'items')
def _(vm, d, args, kw):
    return DictView(d, 'items')


@meth(DICT_M, 'clear')
def _(vm, d, args, kw):
    vm.touch(d)
    d.layers = []


@meth(DICT_M, 'copy')
def _(vm, d, args, kw):
    return DictObj(vm, d.layers)


@meth(DICT_M, 'popitem')
def _(vm, d, args, kw):
    if any(l[0] == 'base' for l in d.layers):
        n = vm.length(d)
        if vm.branch(n.t == 0):
            vm.throw(KeyError, 'popitem(): dictionary is empty')
        items = vm.dict_segs(d, 'items')
        x = items[-1]
        if isinstance(x, Splice):
            x = x.elem(vm)
        vm.dict_del(d, x.segs[0])
        return x
    it = vm.dict_items(d)
    if not it:
        vm.throw(KeyError, 'popitem(): dictionary is empty')
    k, v = it[-1]
    vm.dict_del(d, k)
    return Tup([k, v])


@meth(DICT_M, '__contains__')
def _(vm, d, args, kw):
    return vm.wrapb(vm.contains(d, args[0]))


@meth(DICT_M, '__getitem__')
def _(vm, d, args, kw):
    return vm.getitem(d, args[0])


@meth(DICT_M, '__setitem__')
def _(vm, d, args, kw):
    vm.setitem(d, args[0], args[1])


@meth(DICT_M, '__delitem__')
def _(vm, d, args, kw):
    vm.delitem(d, args[0])


# ---- set
@meth(SET_M, 'add')
def _(vm, s, args, kw):
    vm.set_add(s, args[0])


@meth(SET_M, 'remove')
def _(vm, s, args, kw):
    if not vm.branch(vm.set_has(s, args[0])):
        vm.throw(KeyError, args[0])
    vm.set_del(s, args[0])


@meth(SET_M, 'discard')
def _(vm, s, args, kw):
    if vm.branch(vm.set_has(s, args[0])):
        vm.set_del(s, args[0])


@meth(SET_M, 'clear')
def _(vm, s, args, kw):
    vm.touch(s)
    s.layers = []


@meth(SET_M, 'copy')
def _(vm, s, args, kw):
    return SetObj(vm, s.layers)


@meth(SET_M, 'update')
def _(vm, s, args, kw):
    for a in args:
        for x in vm.iter_segs(a):
            if isinstance(x, Splice):
                raise Unsupported('set.update with unknown items')
            vm.set_add(s, x)


@meth(SET_M, 'union')
def _(vm, s, args, kw):
    return vm.set_op('|', s, construct_builtin(vm, TypeVal(set), args, []))


@meth(SET_M, 'difference')
def _(vm, s, args, kw):
    return vm.set_op('-', s, construct_builtin(vm, TypeVal(set), args, []))


# ---- numbers
@meth(INT_M, 'is_integer')
def _(vm, s, args, kw):
    if isinstance(s, float):
        return s.is_integer()
    return Sym('bool', z3.IsInt(vm.as_real(s)))


@meth(INT_M, 'bit_length')
def _(vm, s, args, kw):
    if isinstance(s, int):
        return s.bit_length()
    raise Unsupported('bit_length')


# ================================================================================ small library functions

@ext('functools.partial')
def _(vm, args, kw):
    f, pre, pkw = args[0], args[1:], list(kw)
    return Native(lambda vm, a, k: vm.call(f, list(pre) + list(a), pkw + list(k)), 'partial')


@ext('functools.wraps')
def _(vm, args, kw):
    return Native(lambda vm, a, k: a[0], 'wraps')


@ext('functools.reduce')
def _(vm, args, kw):
    segs = vm.iter_segs(args[1])
    if len(args) > 2:
        acc = args[2]
    else:
        acc, segs = vm.uncons(segs)
        if acc is MISSING:
            vm.throw(TypeError, 'reduce() of empty iterable')
    for s in segs:
        if isinstance(s, Splice):
            h = vm.ghost.get('fold_hook')
            if h is not None:
                r = h(vm, args[0], acc, s)
                if r is not MISSING:
                    acc = r
                    continue
            raise Unsupported('reduce over unknown items')
        acc = vm.call(args[0], [acc, s])
    return acc


EXT_CONST['functools.lru_cache'] = Ext('functools.lru_cache')


@ext('itertools.chain')
def _(vm, args, kw):
    out = []
    for a in args:
        out.extend(vm.iter_segs(a))
    return IterVal(out)


@ext('copy.copy')
def _(vm, args, kw):
    v = args[0]
    if isinstance(v, ListObj):
        return ListObj(vm, v.segs)
    if isinstance(v, DictObj):
        return DictObj(vm, v.layers)
    if isinstance(v, PRIM + (Tup, Sym)):
        return v
    raise Unsupported('copy.copy')


def _opfn(sym):
    return lambda vm, a, k: vm.binop(sym, a[0], a[1])


for _n, _s in (('add', '+'), ('sub', '-'), ('mul', '*')):
    EXT['operator.' + _n] = _opfn(_s)
EXT['operator.attrgetter'] = lambda vm, a, k: Native(lambda vm, x, kk: _attrs(vm, x[0], a), 'attrgetter')
EXT['operator.itemgetter'] = lambda vm, a, k: Native(
    lambda vm, x, kk: vm.getitem(x[0], a[0]) if len(a) == 1 else Tup([vm.getitem(x[0], i) for i in a]),
    'itemgetter')


def _attrs(vm, o, names):
    out = []
    for n in names:
        v = o
        for p in n.split('.'):
            v = vm.getattr(v, p)
        out.append(v)
    return out[0] if len(out) == 1 else Tup(out)


_suppress = cls('contextlib.suppress')


@extm(_suppress, '__init__')
def _(vm, self, args, kw):
    self.ghost['excs'] = list(args)


@extm(_suppress, '__enter__')
def _(vm, self, args, kw):
    return None


@extm(_suppress, '__exit__')
def _(vm, self, args, kw):
    if args[1] is None:
        return False
    for c in self.ghost['excs']:
        if vm.exc_is(args[1], c):
            return True
    return False


@ext('collections.OrderedDict')
def _(vm, args, kw):
    return construct_builtin(vm, TypeVal(dict), args, kw)


@ext('collections.defaultdict')
def _(vm, args, kw):
    d = construct_builtin(vm, TypeVal(dict), args[1:], kw)
    d.default = args[0] if args else None
    return d


@ext('collections.deque')
def _(vm, args, kw):
    return construct_builtin(vm, TypeVal(list), args, [])


LIST_M['popleft'] = lambda vm, l, a, k: LIST_M['pop'](vm, l, [0], [])
LIST_M['appendleft'] = lambda vm, l, a, k: LIST_M['insert'](vm, l, [0, a[0]], [])


@ext('math.floor')
def _(vm, args, kw):
    v = vm.num(args[0])
    if isinstance(v, (int, float)):
        import math
        return math.floor(v)
    return Sym('int', z3.ToInt(vm.as_real(v)))


@ext('math.ceil')
def _(vm, args, kw):
    v = vm.num(args[0])
    if isinstance(v, (int, float)):
        import math
        return math.ceil(v)
    return Sym('int', -z3.ToInt(-vm.as_real(v)))


from . import libext  # noqa: E402,F401  (registers the library contracts)
