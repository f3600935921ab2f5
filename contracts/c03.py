"""C03: remote references keep an object alive exactly as long as needed.
C04 (c04.py) uses the same table invariant."""
from .base import *


def any_obj(vm, s, hint='o'):
    """An arbitrary live object; id() tells live objects apart, so an identity found in the table
    is the identity of the very object the table holds."""
    o = vm.fresh('opaque', hint)
    live(vm, s, o)
    return o


def live(vm, s, o):
    i = V.int(F_pyid(vm.lift(o)))
    idb = s.ghost['idb']
    oid = V.i(idb.val_f(i))
    vm.assume(z3.Implies(idb.has_f(i), s.ghost['f_obj'](oid) == vm.lift(o)))
    vm.assumption('id() is different for different objects that are alive at the same time')


def tables(vm, s):
    return field(vm, s, '_proxy_refs'), field(vm, s, '_proxy_id_map')


def entry(vm, v):
    """(object, reference set) of a table entry"""
    if isinstance(v, (ListObj, Tup)) and len(v.segs) == 2 and isinstance(v.segs[1], SetObj):
        return v.segs
    raise Unsupported('reference table entry %r' % (v,))


def zb(f):
    return z3.BoolVal(f) if isinstance(f, bool) else f


class Snap:
    """The reference table at one moment."""
    def __init__(self, vm, s):
        self.vm, self.s = vm, s
        r, m = tables(vm, s)
        self.refs, self.ids = DictObj(vm, list(r.layers)), DictObj(vm, list(m.layers))
        self.nr, self.no = field(vm, s, '_next_ref_id'), field(vm, s, '_next_object_id')
        self.sets = {}

    def at(self, oid):
        """(object, reference set layers) held for this object id, None if none; case splits."""
        vm = self.vm
        if not vm.branch(zb(vm.dict_has(self.refs, oid))):
            return None
        o, rs = entry(vm, vm.dict_get(self.refs, oid))
        if id(rs) not in self.sets:
            self.sets[id(rs)] = list(rs.layers)
        return o, SetObj(vm, self.sets[id(rs)])


def invariant(vm, s, label):
    """The table invariant, at arbitrary keys."""
    refs, ids = tables(vm, s)
    no, nr = field(vm, s, '_next_object_id'), field(vm, s, '_next_ref_id')
    k = vm.fresh('int', 'inv.oid')
    if vm.branch(zb(vm.dict_has(refs, k))):
        o, rs = entry(vm, vm.dict_get(refs, k))
        vm.prove(label + ': object ids in use are below the counter', z3.And(k.t >= 0, k.t < ctr(no)))
        n = vm.length(rs)
        vm.prove(label + ': an object is held only while it has references', ctr(n) > 0, rs.layers)
        r = vm.fresh('int', 'inv.rid')
        vm.prove(label + ': reference ids in use are below the counter',
                 z3.Implies(zb(vm.set_has(rs, r)), r.t < ctr(nr)))
        i = pyid(vm, o)
        if vm.prove(label + ': a held object is found by its identity', vm.dict_has(ids, i), o):
            vm.prove(label + ': ..under its object id', eq(vm, vm.dict_get(ids, i), k), o)
    i = vm.fresh('int', 'inv.pyid')
    if vm.branch(zb(vm.dict_has(ids, i))):
        oid = vm.dict_get(ids, i)
        if vm.prove(label + ': an identity in the table belongs to a held object', vm.dict_has(refs, oid)):
            o, _ = entry(vm, vm.dict_get(refs, oid))
            vm.prove(label + ': ..whose identity it is', vm.lift(pyid(vm, o)) == V.int(i.t))


def kept(vm, before, s, label, oid=None, rid=None, added=None):
    """Every reference (except the one given) is still there, for the same object; none but `added`
    came into being."""
    w, r = vm.fresh('int', 'other.oid'), vm.fresh('int', 'other.rid')
    if oid is not None:
        vm.assume(z3.Or(w.t != ctr(oid), r.t != ctr(rid)))
    refs, ids = tables(vm, s)
    b = before.at(w)
    had = zb(vm.set_has(b[1], r)) if b is not None else z3.BoolVal(False)
    if b is not None and oid is not None:
        # a set with two different members has at least two (references w,r and oid,rid)
        l = vm.length(b[1])
        vm.assume(z3.Implies(z3.And(had, zb(vm.set_has(b[1], oid_r(rid))), r.t != ctr(rid)), ctr(l) >= 2))
    if vm.branch(had):
        if vm.prove(label + ': an object with references is kept', vm.dict_has(refs, w), (w, r)):
            o, rs = entry(vm, vm.dict_get(refs, w))
            vm.prove(label + ': ..the same object', vm.same(o, b[0]) if not isinstance(o, Sym) else eq(vm, o, b[0]), o)
            vm.prove(label + ': other references are kept', vm.set_has(rs, r), rs.layers)
    elif vm.branch(zb(vm.dict_has(refs, w))):
        o, rs = entry(vm, vm.dict_get(refs, w))
        new = zb(vm.set_has(rs, r))
        if added is None:
            vm.prove(label + ': no reference appears', z3.Not(new), rs.layers)
        else:
            vm.prove(label + ': only the new reference appears',
                     z3.Implies(new, z3.And(w.t == ctr(added[0]), r.t == ctr(added[1]))), rs.layers)


def oid_r(rid):
    return rid


@harness('C03', 'initial table')
def _(vm):
    s = mk_server(vm, clients=False, namespace=False, proxies=False)
    invariant(vm, s, 'start')
    refs, ids = tables(vm, s)
    vm.prove('start: nothing is referenced', vm.length(refs) == 0 and vm.length(ids) == 0)


@harness('C03', 'handing out')
def handing_out(vm, n=1):
    s = mk_server(vm, clients=False, namespace=False)
    o = any_obj(vm, s)
    b = Snap(vm, s)
    kw = kws(sync='off') if vm.choose(2) else []
    p = vm.call(vm.getattr(s, 'get_proxy'), [o], kw)
    v = proxy_view(vm, p)
    oid, rid = v['obj_id'], v['ref_id']
    nr = field(vm, s, '_next_ref_id')
    vm.prove('handing out: the reference id was never used', z3.And(ctr(rid) >= ctr(b.nr), ctr(rid) < ctr(nr)), rid)
    vm.prove('handing out: names this server', eq(vm, as_bytes(vm, v['rpc_addr']), s.ghost['addr']), v)
    refs, ids = tables(vm, s)
    if vm.prove('handing out: the object is held', vm.dict_has(refs, oid), oid):
        o1, rs = entry(vm, vm.dict_get(refs, oid))
        vm.prove('handing out: ..this very object', eq(vm, o1, o), o1)
        vm.prove('handing out: ..under the new reference', vm.set_has(rs, rid), rs.layers)
    part = vm.choose(3)
    if part == 0:
        kept(vm, b, s, 'handing out', added=(oid, rid))
        return
    if part == 1:
        invariant(vm, s, 'handing out')
        return
    # a second reference to the same object and one to another object
    o2 = o if vm.choose(2) else any_obj(vm, s, 'o2')
    if o2 is not o:
        vm.assume(vm.lift(o) != vm.lift(o2))
        vm.assume(F_pyid(vm.lift(o)) != F_pyid(vm.lift(o2)))
    b = Snap(vm, s)
    p2 = vm.call(vm.getattr(s, 'get_proxy'), [o2], [])
    v2 = proxy_view(vm, p2)
    vm.prove('handing out: references are different', ctr(v2['ref_id']) != ctr(rid))
    same = eq(vm, v2['obj_id'], oid)
    vm.prove('handing out: one object has one object id' if o2 is o else
             'handing out: different objects have different object ids', same if o2 is o else z3.Not(same))
    kept(vm, b, s, 'handing out again', added=(v2['obj_id'], v2['ref_id']))


def delete(vm, s, oid, rid):
    return attempt(vm, lambda: mcall(vm, s, 'process_action', 'delete',
                                     DictObj(vm, [('set', 'obj_id', oid), ('set', 'ref_id', rid)]), 'auto',
                                     text_bytes(vm, 'caller')))


@harness('C03', 'deleting')
def deleting(vm):
    s = mk_server(vm, clients=False, namespace=False)
    oid, rid = vm.fresh('int', 'oid'), vm.fresh('int', 'rid')
    b = Snap(vm, s)
    e = b.at(oid)
    had = e is not None and vm.branch(zb(vm.set_has(e[1], rid)))
    r, exc = delete(vm, s, oid, rid)
    refs, ids = tables(vm, s)
    if not had:
        vm.prove('deleting an unknown reference is an error', exc is not None)
        kept(vm, b, s, 'failed delete')
        invariant(vm, s, 'failed delete')
        return
    vm.prove('deleting a reference succeeds', exc is None, exc)
    last = vm.branch(ctr(vm.length(e[1])) == 1)
    still = zb(vm.dict_has(refs, oid))
    if last:
        vm.prove('the object is released with its last reference', z3.Not(still))
        vm.prove('..and its identity is forgotten', vm.neg(vm.dict_has(ids, pyid(vm, e[0]))))
    else:
        if vm.prove('the object is kept while it has references', still):
            o, rs = entry(vm, vm.dict_get(refs, oid))
            vm.prove('..the same object', eq(vm, o, e[0]))
            vm.prove('the deleted reference is gone', vm.neg(vm.set_has(rs, rid)), rs.layers)
    kept(vm, b, s, 'deleting', oid, rid)
    invariant(vm, s, 'deleting')
    # using it afterwards fails, and deleting it again too
    p = vm.call(need(vm, TP + 'proxy.ObjectProxy'), [s.ghost['addr'], oid, rid], [])
    _, exc = attempt(vm, lambda: mcall(vm, s, 'unwrap_proxy', p))
    vm.prove('using a deleted reference fails', exc is not None)
    _, exc = delete(vm, s, oid, rid)
    vm.prove('deleting it again fails', exc is not None)


@harness('C03', 'using')
def using(vm):
    """Unwrapping a proxy changes no reference; unknown references are refused."""
    walks(vm)
    s = mk_server(vm, clients=False, namespace=False)
    oid, rid = vm.fresh('int', 'oid'), vm.fresh('int', 'rid')
    b = Snap(vm, s)
    at = vm.fresh_list('attrs', lambda vm: vm.fresh('str', 'attr'), ('attrs',))
    p = vm.call(need(vm, TP + 'proxy.ObjectProxy'), [s.ghost['addr'], oid, rid], kws(attributes=Tup([at])))
    e = b.at(oid)
    had = e is not None and vm.branch(zb(vm.set_has(e[1], rid)))
    r, exc = attempt(vm, lambda: mcall(vm, s, 'unwrap_proxy', p))
    if not had:
        vm.prove('using an unknown reference fails', exc is not None)
    kept(vm, b, s, 'using')


@harness('C03', 'other requests')
def other_requests(vm):
    """No request but delete takes a reference away, whatever its outcome."""
    from . import c02
    walks(vm)
    wire_dumps(vm)
    action = ('call_obj', 'get_obj', 'get_item', 'set_item', 'import', 'ping')[vm.choose(6)]
    s = mk_server(vm, clients=False, namespace=False)
    ns = vm.fresh('opaque', 'published')
    vm.dict_set(field(vm, s, '_namespace'), 'thing', ns)
    obj = any_obj(vm, s)
    live(vm, s, ns)
    res = vm.fresh('opaque', 'result')
    live(vm, s, res)
    opts = {'call_obj': kws(obj=obj, args=Tup([])), 'get_obj': kws(obj=obj), 'get_item': kws(name='thing'),
            'set_item': kws(name='thing', obj=obj), 'import': kws(module=vm.fresh('str', 'module')), 'ping': []}[action]

    def hook(vm, e):
        if vm.choose(2):
            e.d['outcome'] = 'raise'
            e.d['exc'] = vm.sym_exc('userexc')
            raise PyExc(e.d['exc'])
        e.d['outcome'], e.d['result'] = 'return', res
        return res
    vm.user_hook = hook
    wire_loads(vm, lambda vm, d: DictObj(vm, list(opts)))
    msg = DictObj(vm, kws(req_id=vm.fresh('int', 'req_id'), action=action, ser_type=SER[0],
                          return_type=('auto', 'proxy', 'value')[vm.choose(3)], opts=b'x'))
    b = Snap(vm, s)
    _, exc = attempt(vm, lambda: mcall(vm, s, '_process_one', text_bytes(vm, 'caller'), msg))
    w, r = vm.fresh('int', 'other.oid'), vm.fresh('int', 'other.rid')
    e = b.at(w)
    if e is None or not vm.branch(zb(vm.set_has(e[1], r))):
        return
    refs, ids = tables(vm, s)
    if vm.prove('a request keeps every reference', vm.dict_has(refs, w)):
        o, rs = entry(vm, vm.dict_get(refs, w))
        vm.prove('..to the same object', eq(vm, o, e[0]))
        vm.prove('..under its reference id', vm.set_has(rs, r))


# ---------------------------------------------------------------- the holder's side
def collect(vm, p):
    """Python finalizes p."""
    m = class_lookup(p.cls, '__del__')
    if m is MISSING:
        return None
    return attempt(vm, lambda: vm.call(Bound(m, p), []))[1]


def delete_requests(vm, mark):
    out = []
    for e in sends(vm, start=mark):
        if len(e.frames) > 1 and isinstance(e.frames[1], bytes) and e.frames[1] != b'delete':
            continue
        out.append(e)
    return out


@harness('C03', 'derived proxies')
def derived(vm):
    """Deriving, copying or finalizing derived proxies sends no request at all."""
    wire_dumps(vm, may_fail=False)
    addr = text_bytes(vm, 'addr')
    c = mk_client(vm, addr)
    registered_client(vm, c)
    p = mk_proxy(vm, addr)
    mcall(vm, p, '_set_proxy_options', auto_delete=(True, False)[vm.choose(2)], defer_getattr=True)
    mark = len(vm.trace)
    ga = class_lookup(p.cls, '__getattr__')
    a = vm.call(ga, [p, vm.fresh('str', 'name')]) if vm.choose(2) else mcall(vm, p, '_deferred_attr', 'x')
    q = mcall(vm, a, '_deferred_attr', vm.fresh('str', 'name2'))
    k = mcall(vm, p, '_copy')
    k2 = mcall(vm, q, '_copy')
    for x in (k2, q, a, k):
        if is_proxy(vm, x):
            collect(vm, x)
    vm.prove('derived proxies never release the reference', not sends(vm, start=mark) and
             not events(vm, 'get_client', mark), sends(vm, start=mark))
    # setting their options does not make them owners either
    for x in (a, k):
        mcall(vm, x, '_set_proxy_options', auto_delete=True)
        collect(vm, x)
    vm.prove('derived proxies never release the reference', not sends(vm, start=mark))


@harness('C03', 'releasing')
def releasing(vm):
    """_delete(), and finalizing a proxy with auto_delete, ask for exactly its own reference."""
    wire_dumps(vm, may_fail=False)
    future_outcome(vm)
    addr = text_bytes(vm, 'addr')
    c = mk_client(vm, addr)
    registered_client(vm, c)
    auto = (True, False)[vm.choose(2)]
    how = vm.choose(2)
    p = mk_proxy(vm, addr, attrs=how == 0 and vm.choose(2) == 1)
    mcall(vm, p, '_set_proxy_options', auto_delete=auto)
    v = proxy_view(vm, p)
    mark = len(vm.trace)
    if how == 0:
        sync = SYNC[vm.choose(3)]
        attempt(vm, lambda: mcall(vm, p, '_delete', sync=sync))
    else:
        collect(vm, p)
    ss = sends(vm, start=mark)
    if how == 1 and not auto:
        vm.prove('a proxy without auto_delete releases nothing by itself', not ss, ss)
        return
    if not vm.prove('releasing: one request', len(ss) == 1, ss):
        return
    fr = ss[0].frames
    vm.prove('releasing: a delete request', len(fr) == 5 and eq(vm, fr[1], b'delete'), fr)
    rec = unwire(vm, fr[4])
    d = dict_of(vm, rec['obj']) if rec else {}
    vm.prove('releasing: names exactly this reference', set(d) >= {'obj_id', 'ref_id'} and z3.And(
        eq(vm, d['obj_id'], v['obj_id']), eq(vm, d['ref_id'], v['ref_id'])), d)


@harness('C03', 'coming home')
def coming_home(vm):
    """A proxy decoded at its owner becomes the object; the decoding itself releases nothing, with
    any default proxy options."""
    from . import c04
    s, ser, p = c04.arriving(vm, owner=True)
    c = mk_client(vm, s.ghost['addr'])
    registered_client(vm, c)
    opts = DictObj(vm, kws(auto_delete=(True, False)[vm.choose(2)]))
    b = Snap(vm, s)
    mark = len(vm.trace)
    r, exc = attempt(vm, lambda: c04.decode(vm, ser, s, opts))
    cls = need(vm, TP + 'proxy.ObjectProxy')
    for x in list(vm.objs.values()):
        if isinstance(x, InstObj) and x.cls is cls and x is not r and not x.ghost.get('keep'):
            collect(vm, x)
    vm.prove('coming home: no reference is released', not delete_requests(vm, mark))
    kept(vm, b, s, 'coming home')
