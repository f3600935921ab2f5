"""Contract of the msgpack and json libraries (trusted), as transport of one value:

dumps: basic values of exactly the supported types go as they are, containers item by item;
       every other object is handed to the hook and what the hook returns goes in its place.
loads: yields the transported value; object_hook is applied to every dict, innermost first."""
from .base import *
from pyvc import libnp

NATIVE = ('none', 'bool', 'real', 'str')


def kwargs(kw, allowed):
    d = {}
    for l in kw:
        if l[0] != 'set' or l[1] not in allowed:
            raise Unsupported('msgpack/json option %r' % (l[1],))
        d[l[1]] = l[2]
    return d


class Packed:
    """What dumps() put on the wire."""
    def __init__(self, form):
        self.form = form          # transported structure: primitives, ListObj, DictObj


def pack(vm, x, fmt, default, strict, depth=0):
    """The form in which x travels."""
    x = vm.norm(x)
    if depth > 12:
        raise Unsupported('the hook does not make progress')
    if isinstance(x, Splice):
        return x                                    # (items: induction hypothesis)
    k = vm.kind(x)
    if k in NATIVE:
        return x
    if k == 'int':
        t = vm.as_int(x)
        if fmt == 'json' or vm.branch(z3.And(t >= -2 ** 63, t < 2 ** 64)):
            return x
    elif k == 'bytes' and fmt == 'msgpack':
        return x
    elif isinstance(x, ListObj):
        return ListObj(vm, [pack(vm, y, fmt, default, strict, depth + 1) for y in x.segs])
    elif isinstance(x, Tup) and (fmt == 'json' or not strict):
        return ListObj(vm, [pack(vm, y, fmt, default, strict, depth + 1) for y in x.segs])
    elif isinstance(x, DictObj):
        d = DictObj(vm)
        for l in x.layers:
            if l[0] == 'set':
                kk = vm.kind(l[1])
                if kk not in ('str',) and fmt == 'json' or kk not in ('str', 'bytes', 'int'):
                    raise Unsupported('dictionary key %r' % (l[1],))
                d.layers.append(('set', l[1], pack(vm, l[2], fmt, default, strict, depth + 1)))
            else:
                d.layers.append(l)
        return d
    elif isinstance(x, InstObj) and isinstance(x.cls, ExtCls):
        if (fmt == 'json' or not strict) and issub(x.cls, TypeVal(float)):
            return x.ghost['num']
    elif isinstance(x, Sym) and k == 'any':
        raise Unsupported('transport of %r' % (x,))
    if default is None:
        vm.throw(TypeError, 'can not serialize')
    return pack(vm, default(x), fmt, default, strict, depth + 1)


def unpack(vm, x, fmt, hook, use_list=True):
    if isinstance(x, ListObj):
        out = [y if isinstance(y, Splice) else unpack(vm, y, fmt, hook, use_list) for y in x.segs]
        return ListObj(vm, out) if use_list else Tup(out)
    if isinstance(x, DictObj):
        d = DictObj(vm)
        for l in x.layers:
            d.layers.append(('set', l[1], unpack(vm, l[2], fmt, hook, use_list)) if l[0] == 'set' else l)
        return vm.call(hook, [d]) if hook is not None else d
    return x


def install(vm):
    """dumps() and loads() of both libraries under their contract; returns the log of messages."""
    wire = []

    def find(vm, t):
        for u, p in reversed(wire):
            if vm.entails(t == u):
                return p
        raise Unsupported('loads() of bytes that dumps() did not make')

    def mdumps(vm, args, kw):
        o = kwargs(kw, ('default', 'use_bin_type', 'strict_types'))
        if len(args) != 1:
            raise Unsupported('msgpack.dumps arguments')
        if not vm.truth(o.get('use_bin_type', True)):
            raise Unsupported('use_bin_type=False')
        strict = vm.truth(o.get('strict_types', False))
        dflt = o.get('default')
        form = pack(vm, args[0], 'msgpack', (lambda x: vm.call(dflt, [x])) if dflt is not None else None, strict)
        b = vm.fresh('bytes', 'packed')
        vm.assume(z3.Length(b.t) > 0)
        wire.append((b.t, form))
        return b

    def jdumps(vm, args, kw):
        o = kwargs(kw, ('cls', 'default', 'ensure_ascii', 'allow_nan', 'separators'))
        if len(args) != 1 or o.get('ensure_ascii', True) is not True or o.get('allow_nan', True) is not True:
            raise Unsupported('json.dumps arguments')
        if 'cls' in o:
            e = vm.call(o['cls'], [])

            def dflt(x):
                return mcall(vm, e, 'default', x)
        else:
            def dflt(x):
                if 'default' not in o:
                    vm.throw(TypeError, 'not JSON serializable')
                return vm.call(o['default'], [x])
        form = pack(vm, args[0], 'json', dflt, False)
        s = vm.fresh('str', 'text')
        vm.assume(z3.And(F_isutf8(F_enc(s.t)), F_dec(F_enc(s.t)) == s.t, z3.Length(F_enc(s.t)) > 0))
        wire.append((s.t, form))
        return s

    def mloads(vm, args, kw):
        o = kwargs(kw, ('object_hook', 'strict_map_key', 'use_list', 'raw'))
        if vm.truth(o.get('raw', False)):
            raise Unsupported('raw=True')
        form = find(vm, vm.as_bytes(args[0]))
        if vm.truth(o.get('strict_map_key', True)):
            keys_are_text(vm, form)
        return unpack(vm, form, 'msgpack', o.get('object_hook'), vm.truth(o.get('use_list', True)))

    def jloads(vm, args, kw):
        o = kwargs(kw, ('object_hook',))
        m = args[0]
        if vm.kind(m) == 'bytes':
            m = vm.call(vm.getattr(m, 'decode'), [])
        return unpack(vm, find(vm, vm.as_str(m)), 'json', o.get('object_hook'))
    vm.extover.update({'msgpack.dumps': mdumps, 'msgpack.packb': mdumps, 'msgpack.loads': mloads,
                       'msgpack.unpackb': mloads, 'json.dumps': jdumps, 'json.loads': jloads})

    def ex(vm, args, kw):
        """exec('name=' + text, None, d)"""
        t = vm.as_str(args[0])
        ns = args[2] if len(args) > 2 else args[1] if len(args) > 1 else None
        c = t.children()
        if ns is None or t.decl().kind() != z3.Z3_OP_SEQ_CONCAT or not z3.is_string_value(c[0]):
            raise Unsupported('exec of %r' % (args[0],))
        name = c[0].as_string().strip()
        if not name.endswith('=') or not name[:-1].strip().isidentifier():
            raise Unsupported('exec of %r' % (args[0],))
        rest = c[1] if len(c) == 2 else z3.Concat(*c[1:])
        vm.setitem(ns, name[:-1].strip(), Sym('any', libnp.F_eval(rest)))

    def ev(vm, args, kw):
        return Sym('any', libnp.F_eval(vm.as_str(args[0])))
    vm.extover['builtins.exec'] = ex
    vm.extover['builtins.eval'] = ev
    vm.extover['ast.literal_eval'] = ev
    return wire


def keys_are_text(vm, form):
    if isinstance(form, DictObj):
        for l in form.layers:
            if l[0] == 'set':
                if vm.kind(l[1]) == 'int':
                    vm.throw(ValueError, 'int is not allowed for map key')
                keys_are_text(vm, l[2])
            elif l[0] == 'base':
                if vm.choose(2):
                    vm.throw(ValueError, 'int is not allowed for map key')
    if isinstance(form, ListObj):
        for x in form.segs:
            keys_are_text(vm, x)


# ------------------------------------------------------------------------------- round trips
def node(vm, name):
    """(serializer, server or None, proxy options) of a sender/receiver, used before or not."""
    ser = vm.call(need(vm, TP + 'serializer.' + name), [])
    return ser


def round_trip(vm, name, x):
    """Value decoded at the other end, or exception."""
    a, b = node(vm, name), node(vm, name)
    types = None
    po = (None, DictObj(vm))[vm.choose(2)]

    def go():
        m = mcall(vm, a, 'dumps', x, server=None, serialize_types=types)
        vm.prove('a message is bytes', vm.kind(m) == 'bytes', m)
        vm.ghost['encoded'] = True
        return mcall(vm, b, 'loads', m, server=None, proxy_opts=po)
    return attempt(vm, go)


def same_value(vm, x, y, json=False):
    """Formula: y is an equal value of the same type as x (json: a list for a tuple)."""
    x, y = vm.norm(x), vm.norm(y)
    if isinstance(x, Tup) and json:
        x = ListObj(vm, x.segs)
    if isinstance(x, (Tup, ListObj)):
        if type(x) is not type(y):
            return False
        if any(isinstance(s, Splice) for s in x.segs + y.segs) or len(x.segs) != len(y.segs):
            return vm.lift(Tup(x.segs)) == vm.lift(Tup(y.segs))
        return z3.And([zbool(same_value(vm, a, b, json)) for a, b in zip(x.segs, y.segs)] + [z3.BoolVal(True)])
    if isinstance(x, DictObj):
        if not isinstance(y, DictObj) or len(x.layers) != len(y.layers):
            return False
        out = []
        for l, m in zip(x.layers, y.layers):
            if l[0] != m[0]:
                return False
            if l[0] == 'base':
                out.append(z3.BoolVal(l[1] is m[1]))
            else:
                out.append(zbool(same_value(vm, l[1], m[1])))
                if l[0] == 'set':
                    out.append(zbool(same_value(vm, l[2], m[2], json)))
        return z3.And(out + [z3.BoolVal(True)])
    if isinstance(x, InstObj):
        if not isinstance(y, InstObj) or x.cls is not y.cls:
            return False
        if 'buf' in x.ghost:
            return libnp.same_array(vm, x, y)
        if 'num' in x.ghost:
            return z3.And(x.ghost['dt'] == y.ghost['dt'], x.ghost['value'] == y.ghost['value'])
        return x.ghost['value'] == y.ghost['value']
    if isinstance(y, (InstObj, Tup, ListObj, DictObj)):
        return False
    if vm.kind(x) != vm.kind(y):
        return False
    return vm.lift(x) == vm.lift(y)


def zbool(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def arrives(vm, name, x, label, json=False):
    r, exc = round_trip(vm, name, x)
    vm.prove(label + ': arrives', exc is None, exc and vm.show_exc(PyExc(exc)))
    if exc is None:
        vm.prove(label + ': equal and of the same type', same_value(vm, x, r, json), (x, r))


def not_changed(vm, name, x, label, json=False):
    r, exc = round_trip(vm, name, x)
    vm.prove(label + ': an error at one end, or equal', exc is not None or same_value(vm, x, r, json), (x, r))


def values(vm, fmt):
    """The kinds of values: (label, value)"""
    from pyvc.libnp import any_array, any_scalar, any_datetime, mk_dtype

    def key(k):
        return vm.fresh(k, 'key')

    def base(inv):
        return DictObj(vm, [('base', MapBase(vm, 'items', keyinv=inv))])

    def marker(k):
        return z3.Not(k == V.str(z3.StringVal('___type_name___')))
    out = {
        'basic values': lambda: (None, vm.fresh('bool', 'b'), vm.fresh('int', 'n'), vm.fresh('real', 'x'),
                                 vm.fresh('str', 's'), vm.fresh('bytes', 'y'))[vm.choose(6)],
        'lists': lambda: ListObj(vm, [vm.fresh_list('items')]) if vm.choose(2) else ListObj(vm, []),
        'tuples': lambda: Tup([vm.fresh_list('items')]) if vm.choose(2) else Tup([]),
        'nested tuples': lambda: ListObj(vm, [Tup([Tup([vm.fresh_list('items')]), vm.fresh('bytes', 'y')]), None, Tup([])]),
        'dicts': lambda: base(lambda k: z3.And(marker(k), V.is_str(k) if fmt == 'json' else
                                               z3.Or(V.is_str(k), V.is_bytes(k), V.is_int(k)))),
        'nested dicts': lambda: DictObj(vm, [('set', 'a', DictObj(vm, [('set', 'b', ListObj(vm, [DictObj(vm)]))])),
                                             ('set', 'data', Tup([vm.fresh_list('items')]))]),
        'datetimes': lambda: any_datetime(vm),
        'dates': lambda: any_datetime(vm, ExtCls('datetime.date')),
        'dtypes': lambda: mk_dtype(vm, z3.Const(vm.uname('dtype'), V)),
        'arrays': lambda: any_array(vm),
        'numpy booleans': lambda: any_scalar(vm, ExtCls('numpy.bool_')),
        'numpy integers': lambda: any_scalar(vm, libnp.NP_INT),
        'numpy floats': lambda: any_scalar(vm, libnp.NP_FLOAT),
    }
    return out
