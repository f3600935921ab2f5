"""Shared vocabulary of the contracts: construction of generalised states and inspection of what
the code under verification did."""
import z3
from pyvc import interp, lib, libext, libnp, libproc  # noqa: F401
from pyvc.core import *  # noqa: F401,F403
from pyvc.core import F_isinst, F_getattr, F_isutf8, F_dec, F_enc, F_mem, F_pyid, F_app, L, V, U
from pyvc.interp import Interp, class_lookup, mro_of, issub  # noqa: F401
from pyvc.libext import snap, new_socket, this_thread, tick  # noqa: F401

TP = 'teleprox.'


def kws(**kw):
    return [('set', k, v) for k, v in kw.items()]


def pick(vm, *alts):
    return alts[vm.choose(len(alts))]


def mcall(vm, o, name, *args, **kw):
    return vm.call(vm.getattr(o, name), list(args), kws(**kw))


def need(vm, dotted):
    """The repository object of this name; without it the contract cannot be stated."""
    f = vm.world.fn(dotted)
    if f is None or f is MISSING:
        raise Unsupported('%s not found' % dotted)
    return f


def field(vm, o, name):
    v = vm.dict_get(o.fields, name)
    return v


def setfield(vm, o, name, value):
    """Generalise a state field that the constructor established."""
    if not any(l[0] == 'set' and l[1] == name for l in o.fields.layers) and vm.dict_get(o.fields, name) is MISSING:
        raise Unsupported('state field %s of %r not found' % (name, o.cls))
    vm.dict_set(o.fields, name, value)


def attempt(vm, fn):
    """(value, None) or (None, exception value)"""
    try:
        return fn(), None
    except PyExc as e:
        return None, e.value


def exc_isa(vm, v, t):
    """Is this raised exception certainly an instance of builtin type / ExtCls / ClassVal t?"""
    if isinstance(t, type):
        t = TypeVal(t)
    return vm.exc_is(v, t)


def isinst(vm, v, cls):
    f = lib.isinstance_f(vm, v, cls)
    return z3.BoolVal(f) if isinstance(f, bool) else f


def options_of(vm, p):
    d = vm.getattr(p, '_proxy_options')
    return d, dict_of(vm, d)


def reachable(vm, root, target, depth=6):
    """Is target held alive by root?"""
    seen = set()

    def go(v, n):
        if v is target:
            return True
        if n == 0 or id(v) in seen:
            return False
        seen.add(id(v))
        if isinstance(v, InstObj):
            return go(v.fields, n)
        if isinstance(v, DictObj):
            return any(l[0] == 'set' and (go(l[2], n - 1) or go(l[1], n - 1)) for l in v.layers)
        if isinstance(v, (Tup, ListObj)):
            return any(go(x, n - 1) for x in v.segs)
        if isinstance(v, Bound):
            return go(v.self, n - 1)
        return False
    return go(root, depth)


def events(vm, kind, start=0):
    return [e for e in vm.trace[start:] if e.kind == kind]


def sends(vm, sock=None, start=0):
    return [e for e in vm.trace[start:] if e.kind == 'send' and (sock is None or e.sock is sock)]


def has_loop_event(vm, kinds, start=0):
    """May an abstracted loop have emitted an event of these kinds?"""
    for e in vm.trace[start:]:
        if e.kind == 'loop' and (set(e.d.get('kinds', ())) & set(kinds)):
            return True
    return False


def same_deep(vm, a, b):
    """Formula: same structure (containers by contents)."""
    return vm.deep(a) == vm.deep(b)


def eq(vm, a, b):
    return vm.lift(a) == vm.lift(b)


def text_bytes(vm, hint):
    """Fresh bytes holding valid UTF-8 (a zmq address or socket identity)."""
    b = vm.fresh('bytes', hint)
    vm.assume(F_isutf8(b.t))
    return b


# ------------------------------------------------------------------------------- wire contract
def wire_dumps(vm, may_fail=True):
    """Contract of Serializer.dumps (proved by C06/C07): returns bytes that loads() turns into the
    same message, or raises; touches nothing else."""
    log = vm.ghost.setdefault('wire', [])

    def c(vm, f, args, kw):
        names = ['self', 'obj', 'server', 'serialize_types']
        d = dict(zip(names, args))
        for l in kw:
            if l[0] != 'set':
                return NotImplemented
            d[l[1]] = l[2]
        if set(d) != set(names):
            return NotImplemented
        if may_fail is True or (callable(may_fail) and may_fail(vm, d)):
            if vm.choose(2) == 1:
                vm.event('dumps.fail', obj=snap(vm, d['obj']), ser=d['self'])
                raise PyExc(vm.sym_exc('dumps'))
        b = vm.fresh('bytes', 'wire')
        rec = dict(term=b.t, obj=snap(vm, d['obj']), server=d['server'],
                   types=d['serialize_types'], ser=d['self'])
        log.append(rec)
        vm.assume(z3.Length(b.t) > 0)
        vm.event('dumps', **rec)
        return b
    for n in ('MsgpackSerializer', 'JsonSerializer'):
        vm.contracts[TP + 'serializer.%s.dumps' % n] = c


def unwire(vm, b):
    """The dumps record of a message on the wire, None if it did not come out of dumps()."""
    if not isinstance(b, Sym):
        return None
    for r in vm.ghost.get('wire', ()):
        if z3.eq(r['term'], b.t):
            return r
    return None


def dict_of(vm, d):
    """Concrete-key view of a dict: {key: value} or None if keys are not all constants."""
    if not isinstance(d, DictObj):
        return None
    out = {}
    for l in d.layers:
        if l[0] == 'set' and isinstance(l[1], (str, bytes, int)):
            out[l[1]] = l[2]
        elif l[0] == 'del' and isinstance(l[1], (str, bytes, int)):
            out.pop(l[1], None)
        else:
            return None
    return out


# ------------------------------------------------------------------------------- proxies
SYNC = ('sync', 'async', 'off')


def mk_proxy(vm, addr=None, options=True, sync=None, hint='p', attrs=True):
    """A proxy in an arbitrary state: any address, ids, attribute path and option values."""
    cls = need(vm, TP + 'proxy.ObjectProxy')
    addr = addr if addr is not None else text_bytes(vm, hint + '.addr')
    oid = vm.fresh('int', hint + '.oid')
    rid = vm.fresh('int', hint + '.rid')
    vm.assume(z3.And(oid.t >= 0, rid.t >= 0))
    tstr = vm.fresh('str', hint + '.type')
    at = Tup([vm.fresh_list(hint + '.attrs', lambda vm: vm.fresh('str', 'attr'))] if attrs else [])
    p = vm.call(cls, [addr, oid, rid, tstr], kws(attributes=at))
    if options:
        o = {}
        o['sync'] = sync if sync is not None else SYNC[vm.choose(3)]
        o['timeout'] = vm.fresh('any', hint + '.timeout')
        o['return_type'] = vm.fresh('str', hint + '.return_type')
        o['defer_getattr'] = vm.fresh('bool', hint + '.defer')
        mcall(vm, p, '_set_proxy_options', **o)
        p.ghost['opts'] = o
    return p


def proxy_view(vm, p):
    """Observable identity of a proxy (its wire form): rpc_addr, obj_id, ref_id, type_str, attributes"""
    st = mcall(vm, p, '__getstate__')
    return dict_of(vm, st)


def is_proxy(vm, v):
    return isinstance(v, InstObj) and issub(v.cls, need(vm, TP + 'proxy.ObjectProxy'))


def denotes(vm, q, p_view, extra=(), ref=True):
    """Formula: proxy q denotes the object of p_view with its path extended by `extra`."""
    v = proxy_view(vm, q)
    if v is None:
        return False
    fs = [eq(vm, v['rpc_addr'], p_view['rpc_addr']), eq(vm, v['obj_id'], p_view['obj_id'])]
    if ref:
        fs.append(eq(vm, v['ref_id'], p_view['ref_id']))
    at = v['attributes']
    pt = p_view['attributes']
    if not isinstance(at, Tup) or not isinstance(pt, Tup):
        return False
    fs.append(vm.lift(at) == vm.lift(Tup(pt.segs + list(extra))))
    return z3.And(fs)


# ------------------------------------------------------------------------------- clients
def mk_client(vm, addr=None, serializer=None, generalise=True, **opts):
    """An RPCClient built by its real constructor, then generalised to any later state.

    The connection handshake is proved separately (C12); here its calls are cut."""
    addr = addr if addr is not None else text_bytes(vm, 'addr')
    saved = dict(vm.contracts)
    vm.contracts[TP + 'client.RPCClient.check_address'] = lambda vm, f, a, k: None
    vm.contracts[TP + 'client.RPCClient.ensure_connection'] = lambda vm, f, a, k: None
    try:
        kw = kws(**({'serializer': serializer} if serializer else {}), **opts)
        c = vm.call(need(vm, TP + 'client.RPCClient'), [addr], kw)
    finally:
        vm.contracts.clear()
        vm.contracts.update(saved)
    c.ghost['addr'] = addr
    c.ghost['sock'] = field(vm, c, '_socket')
    if generalise:
        n = vm.fresh('int', 'next_request_id')
        vm.assume(n.t >= 0)
        setfield(vm, c, 'next_request_id', n)
        c.ghost['nrid'] = n
    return c


def any_history(vm, c):
    """The client may be reentrant or not, connected or cut off by its server."""
    for n in ('_reentrant', '_disconnected', 'connect_established'):
        if isinstance(field(vm, c, n), bool):
            setfield(vm, c, n, vm.fresh('bool', n))
    return c


def registered_client(vm, c):
    """Contract of RPCClient.get_client (proved by C12): the client of this thread and address."""
    def g(vm, f, args, kw):
        a = args[0] if args else kw[0][2]
        vm.event('get_client', addr=a)
        if not vm.entails(eq(vm, as_bytes(vm, a), c.ghost['addr'])):
            vm.fail('client looked up at the address of the proxy', a)
            raise PathEnd()
        return c
    vm.contracts[TP + 'client.RPCClient.get_client'] = g


def as_bytes(vm, a):
    if vm.kind(a) == 'str':
        return vm.call(vm.getattr(a, 'encode'), [])
    return a


def future_outcome(vm, values=None):
    """Contract of Future.result (proved by C01/C15): the reply value, the remote exception, or
    TimeoutError."""
    def r(vm, f, args, kw):
        fut = args[0]
        to = args[1] if len(args) > 1 else (kw[0][2] if kw else None)
        c = vm.choose(3)
        e = vm.event('future.result', fut=fut, timeout=to)
        if c == 0:
            v = values(vm) if values else vm.fresh('any', 'reply')
            e.d['value'] = v
            return v
        if c == 1:
            x = vm.sym_exc('remote')
            e.d['exc'] = x
            raise PyExc(x)
        e.d['timedout'] = True
        vm.throw(TimeoutError)
    vm.contracts[TP + 'client.Future.result'] = r


# ------------------------------------------------------------------------------- registry
HARNESSES = {}


def harness(prop, name, **opts):
    def d(fn):
        HARNESSES.setdefault(prop, []).append((name, fn, opts))
        return fn
    return d


def same_map(vm, a, b):
    """Formula: two dicts hold the same entries (at an arbitrary key)."""
    if a is b:
        return True
    k = vm.fresh('str', 'witness')
    ha, hb = vm.dict_has(a, k), vm.dict_has(b, k)
    ha = z3.BoolVal(ha) if isinstance(ha, bool) else ha
    hb = z3.BoolVal(hb) if isinstance(hb, bool) else hb
    if not vm.entails(ha == hb):
        return ha == hb
    if not vm.branch(ha):
        return True
    va, vb = vm.dict_get(a, k), vm.dict_get(b, k)
    return eq(vm, va, vb)


def ctr(x):
    if isinstance(x, Sym):
        return V.i(x.t) if x.k == 'any' else x.t
    return z3.IntVal(x)


# ------------------------------------------------------------------------------- servers
SER = ('msgpack', 'json')


def mk_server(vm, addr=None, clients=True, namespace=True, proxies=True, types=None):
    """An RPCServer built by its real constructor, then generalised to any later state."""
    s = vm.call(need(vm, TP + 'server.RPCServer'), [], kws(serialize_types=types) if types is not None else [])
    sock = field(vm, s, '_socket')
    s.ghost['sock'] = sock
    s.ghost['addr'] = vm.getattr(s, 'address')
    if clients:
        def mat(vm, key, base):
            n = SER[vm.choose(len(SER))]
            base.ghost_ser = getattr(base, 'ghost_ser', [])
            base.ghost_ser.append((key, n))
            return n
        B = MapBase(vm, 'clients', mat=mat, keyinv=lambda k: z3.And(V.is_bytes(k), F_isutf8(V.y(k))))
        setfield(vm, s, '_clients', DictObj(vm, [('base', B)]))
        s.ghost['clients'] = B
    if namespace:
        B = MapBase(vm, 'namespace')
        setfield(vm, s, '_namespace', DictObj(vm, [('base', B)]))
        s.ghost['namespace'] = B
    if proxies:
        generalise_refs(vm, s)
    return s


def pyid(vm, o):
    return Sym('int', F_pyid(vm.lift(o)))


def generalise_refs(vm, s):
    """Any reachable reference table.  Invariant (proved preserved by C03/C04):
    every entry oid -> [obj, refs] has a non-empty set of reference ids below the counter, oids are
    below their counter, and the id map sends pyid(obj) of exactly the live objects to their oid."""
    no, nr = vm.fresh('int', 'next_object_id'), vm.fresh('int', 'next_ref_id')
    vm.assume(z3.And(no.t >= 0, nr.t >= 0))
    setfield(vm, s, '_next_object_id', no)
    setfield(vm, s, '_next_ref_id', nr)
    s.ghost['no'], s.ghost['nr'] = no, nr
    f_obj = z3.Function(vm.uname('refs.obj'), z3.IntSort(), V)
    s.ghost['f_obj'] = f_obj
    entries = []

    def mat(vm, key, base):
        k = key.t if key.k == 'int' else V.i(key.t)
        o = vm.norm(Sym('any', f_obj(k)))
        rs = MapBase(vm, 'refs.set', keyinv=lambda r: z3.And(V.is_int(r), V.i(r) >= 0, V.i(r) < nr.t))
        vm.assume(rs.size > 0)
        e = ListObj(vm, [o, SetObj(vm, [('base', rs)])])
        entries.append((key, e, rs))
        # the live object is in the id map under its identity
        i = pyid(vm, o)
        vm.assume(idb.has(vm, i))
        vm.assume(idb.val_f(vm.lift(i)) == V.int(k))
        return e
    refs = MapBase(vm, 'proxy_refs', mat=mat,
                   keyinv=lambda k: z3.And(V.is_int(k), V.i(k) >= 0, V.i(k) < no.t))
    idb = MapBase(vm, 'proxy_id_map', keyinv=lambda k: V.is_int(k))
    _has = idb.has

    def has(vm, key):
        """an identity in the map belongs to the live object its oid names"""
        h = _has(vm, key)
        kt = vm.lift(key)
        oid = V.i(idb.val_f(kt))
        vm.assume(z3.Implies(h, z3.And(V.is_int(idb.val_f(kt)), refs.has_f(V.int(oid)), oid >= 0,
                                       oid < no.t)))
        o = Sym('any', f_obj(oid))
        i = pyid(vm, o)
        vm.assume(z3.Implies(h, vm.lift(i) == kt))
        return h
    idb.has = has
    setfield(vm, s, '_proxy_refs', DictObj(vm, [('base', refs)]))
    setfield(vm, s, '_proxy_id_map', DictObj(vm, [('base', idb)]))
    s.ghost.update(refs=refs, idb=idb, ref_entries=entries)


def wire_loads(vm, make, may_fail=True):
    """Contract of Serializer.loads: the message that was dumped, or an exception."""
    def c(vm, f, args, kw):
        d = dict(zip(['self', 'msg', 'server', 'proxy_opts'], args))
        for l in kw:
            d[l[1]] = l[2]
        if may_fail and vm.choose(2) == 1:
            x = vm.sym_exc('loads')
            vm.event('loads.fail', msg=d['msg'], exc=x, ser=d['self'])
            raise PyExc(x)
        r = make(vm, d)
        vm.event('loads', msg=d['msg'], result=r, server=d.get('server'), ser=d['self'])
        return r
    for n in ('MsgpackSerializer', 'JsonSerializer'):
        vm.contracts[TP + 'serializer.%s.loads' % n] = c


# ------------------------------------------------------------------------------- loops
class Rule:
    """Loop contract; the default one keeps no invariant beyond the havoc of what the loop writes."""
    force = False
    unroll = 0

    def matches(self, vm, src, node):
        return True

    def init(self, vm, sp, env, locals_):
        pass

    def havoc(self, vm, o):
        return False

    def assume_inv(self, vm, sp, env):
        pass

    def begin_iter(self, vm, env):
        pass

    def elem(self, vm, sp):
        return None

    def check_iter(self, vm, sp, env, x, events):
        pass

    def tracked(self, vm, sp):
        return ()

    def assume_exit(self, vm, sp, env):
        pass

    elem_inv = None
    entry_inv = None


def general_futures(vm, c):
    """Any set of pending requests: ids below the counter, each with its own pending Future."""
    nrid = c.ghost['nrid']
    made = []

    def mat(vm, key, base):
        k = key if key.k == 'int' else Sym('int', V.i(key.t))
        f = vm.call(need(vm, TP + 'client.Future'), [c, k])
        made.append((key, f))
        return f
    B = MapBase(vm, 'futures', mat=mat,
                keyinv=lambda k: z3.And(V.is_int(k), V.i(k) >= 0, V.i(k) < nrid.t))
    old = field(vm, c, 'futures')
    if not isinstance(old, DictObj):
        raise Unsupported('client keeps its pending requests in %r' % (old,))
    d = DictObj(vm, [('base', B)])
    d.weak = old.weak
    setfield(vm, c, 'futures', d)
    c.ghost['futures'] = B
    c.ghost['made_futures'] = made
    return B


class Walk(Rule):
    """Invariant of `for part in parts: x = getattr(x, part)`: x is the attribute walk of its first
    value along the parts seen so far."""
    def matches(self, vm, src, node):
        return src is not None and src[0] in ('split', 'attrs')

    def init(self, vm, sp, env, locals_):
        self.start = {n: env.vars[n] for n in locals_ if n in env.vars and
                      isinstance(env.vars[n], (Sym, InstObj)) and vm.kind(env.vars[n]) not in ('str', 'int', 'bytes')}

    def assume_inv(self, vm, sp, env):
        self.pre = z3.Const(vm.uname('walked'), L)
        for n, v in self.start.items():
            env.vars[n] = lib.walk(vm, v, self.pre)

    def check_iter(self, vm, sp, env, x, evs):
        for n, v in self.start.items():
            want = F_getattr(lib.F_walk(vm.lift(v), self.pre), vm.as_str(x))
            vm.prove('each part of a name is looked up on what the parts before it denote',
                     vm.lift(env.vars[n]) == want, env.vars[n])

    def assume_exit(self, vm, sp, env):
        for n, v in self.start.items():
            env.vars[n] = lib.walk(vm, v, sp.t)


def walks(vm):
    """Install the attribute-walk contract for loops and functools.reduce."""
    vm.loop_rules.append(Walk())

    def fold(vm, fn, acc, sp):
        if not (isinstance(fn, Native) and fn.name == 'getattr'):
            return MISSING
        if vm.choose(2) == 1:
            x = vm.sym_exc('attrexc')
            vm.event('getattr', obj=acc, name=None, outcome='raise', exc=x)
            raise PyExc(x)
        return lib.walk(vm, acc, sp.t)
    vm.ghost['fold_hook'] = fold


class Gather(Rule):
    """A loop that gathers a list: which items an arbitrary iteration appends.
    After the loop, `result` is the gathered list (empty before the loop, changed by it only)."""
    force = True

    def __init__(self, match, elem, check):
        self.match, self.elem_, self.check = match, elem, check
        self.lists, self.fresh_before = [], {}

    def matches(self, vm, src, node):
        return self.match(vm, src, node)

    def init(self, vm, sp, env, locals_):
        self.lists, self.before = [], {}

    def havoc(self, vm, o):
        if isinstance(o, ListObj):
            self.lists.append(o)
            self.before[id(o)] = list(o.segs)
        return False

    def assume_inv(self, vm, sp, env):
        self.start = [(o, list(o.segs)) for o in vm.objs.values() if isinstance(o, ListObj)]
        self.mark = len(vm.trace)

    def elem(self, vm, sp):
        self.x = self.elem_(vm) if self.elem_ is not None else None
        return self.x

    def check_iter(self, vm, sp, env, x, evs):
        ch = []
        for o, segs in self.start:
            if len(o.segs) < len(segs) or any(a is not b for a, b in zip(o.segs, segs)):
                raise Unsupported('a list is rewritten in a loop')
            if len(o.segs) > len(segs):
                ch.append((o, o.segs[len(segs):]))
        self.check(vm, x, evs, ch)

    def gathered(self, vm, r):
        """r is the list this loop gathered, and nothing else."""
        return isinstance(r, ListObj) and any(o is r for o in self.lists) and not self.before[id(r)] and \
            len(r.segs) == 1 and isinstance(r.segs[0], Splice)
