"""C04: a proxy always denotes the same object."""
from .base import *
from .c03 import any_obj, live, tables, entry, Snap, zb, invariant, kept, delete


def arriving(vm, owner, registered=None):
    """(server, serializer, dict on the wire) of a proxy arriving at a node.

    owner: the node owns the object.  The node is a server decoding a request, or (registered) a
    client whose thread runs the server."""
    walks(vm)
    s = mk_server(vm, clients=False, namespace=False)
    name = ('MsgpackSerializer', 'JsonSerializer')[vm.choose(2)]
    ser = vm.call(need(vm, TP + 'serializer.' + name), [])
    addr = s.ghost['addr'] if owner else text_bytes(vm, 'other.addr')
    if not owner:
        vm.assume(addr.t != s.ghost['addr'].t)
    oid, rid = vm.fresh('int', 'oid'), vm.fresh('int', 'rid')
    at = vm.fresh_list('attrs', lambda vm: vm.fresh('str', 'attr'), ('attrs',))
    ts = vm.fresh('str', 'type')
    v = dict(rpc_addr=Sym('str', F_dec(addr.t)), obj_id=oid, ref_id=rid, type_str=ts, attributes=at)
    vm.assume(F_enc(F_dec(addr.t)) == addr.t)
    ser.ghost['view'] = v
    ser.ghost['addr'] = addr
    return s, ser, v


def decode(vm, ser, s, opts):
    """ser.loads() of a message that consists of one encoded proxy."""
    v = ser.ghost['view']

    def loads(vm, args, kw):
        kw = {l[1]: l[2] for l in kw}
        at = v['attributes']
        at = Tup([at]) if vm.choose(2) else ListObj(vm, [at])     # JSON delivers lists
        d = DictObj(vm, [('set', '___type_name___', 'proxy')] +
                    [('set', k, at if k == 'attributes' else x) for k, x in v.items()])
        return vm.call(kw['object_hook'], [d])
    vm.extover['msgpack.loads'] = loads
    vm.extover['json.loads'] = loads
    return mcall(vm, ser, 'loads', vm.call(vm.getattr(vm.fresh('str', 'msg'), 'encode'), []), server=s, proxy_opts=opts)


@harness('C04', 'at its owner')
def at_owner(vm):
    s, ser, v = arriving(vm, owner=True)
    lazy = vm.choose(2) == 1
    if lazy:
        mcall(vm, s, 'run_lazy')
    b = Snap(vm, s)
    e = b.at(v['obj_id'])
    had = e is not None and vm.branch(zb(vm.set_has(e[1], v['ref_id'])))
    mark = len(vm.trace)
    r, exc = attempt(vm, lambda: decode(vm, ser, None if lazy else s, DictObj(vm)))
    if not had:
        vm.prove('a proxy of a released object or reference is an error', exc is not None, r)
        return
    looked = [x for x in events(vm, 'getattr', mark) if x.d.get('outcome') == 'raise']
    if exc is not None:
        vm.prove('at its owner: decoding fails only if an attribute lookup fails',
                 bool(looked), exc)
        return
    want = lib.F_walk(vm.lift(e[0]), v['attributes'].t)
    no_attrs = v['attributes'].t == L.nil
    vm.prove('at its owner: the very object, its attributes looked up in order',
             z3.Or(vm.lift(r) == want, z3.And(no_attrs, vm.lift(r) == vm.lift(e[0]))), r)
    kept(vm, b, s, 'at its owner')


@harness('C04', 'without attributes')
def plain(vm):
    """No attribute path: identity, not a copy."""
    s, ser, v = arriving(vm, owner=True)
    v['attributes'] = Splice(L.nil)
    e = Snap(vm, s).at(v['obj_id'])
    if e is None or not vm.branch(zb(vm.set_has(e[1], v['ref_id']))):
        return
    vm.extover = dict(vm.extover)
    loads = dict(v, attributes=Tup([]))
    ser.ghost['view'] = loads

    def f(vm, args, kw):
        kw = {l[1]: l[2] for l in kw}
        d = DictObj(vm, [('set', '___type_name___', 'proxy')] + [('set', k, x) for k, x in loads.items()])
        return vm.call(kw['object_hook'], [d])
    vm.extover['msgpack.loads'] = vm.extover['json.loads'] = f
    r, exc = attempt(vm, lambda: mcall(vm, ser, 'loads', b'{}', server=s, proxy_opts=DictObj(vm)))
    vm.prove('a proxy at its owner is replaced by the object itself', exc is None and eq(vm, r, e[0]), (r, exc))


@harness('C04', 'elsewhere')
def elsewhere(vm):
    s, ser, v = arriving(vm, owner=False)
    how = vm.choose(3)
    if how == 1:
        mcall(vm, s, 'run_lazy')
    opts = (DictObj(vm), DictObj(vm, kws(sync='async', auto_delete=False)), None)[vm.choose(3)]
    mark = len(vm.trace)
    r, exc = attempt(vm, lambda: decode(vm, ser, s if how == 0 else None, opts))
    if not vm.prove('elsewhere: stays a proxy', exc is None and is_proxy(vm, r), (r, exc)):
        return
    w = proxy_view(vm, r)
    vm.prove('elsewhere: same address', eq(vm, as_bytes(vm, w['rpc_addr']), ser.ghost['addr']), w)
    vm.prove('elsewhere: same object and reference id', z3.And(eq(vm, w['obj_id'], v['obj_id']), eq(vm, w['ref_id'], v['ref_id'])), w)
    vm.prove('elsewhere: same attribute path', isinstance(w['attributes'], Tup) and
             vm.lift(w['attributes']) == vm.lift(Tup([v['attributes']])), w)
    vm.prove('elsewhere: no request is sent', not sends(vm, start=mark))


@harness('C04', 'on the wire')
def on_the_wire(vm):
    """encode() of a proxy carries its address, ids and path."""
    p = mk_proxy(vm)
    name = ('MsgpackSerializer', 'JsonSerializer')[vm.choose(2)]
    ser = vm.call(need(vm, TP + 'serializer.' + name), [])
    got = []

    def dumps(vm, args, kw):
        kw = {l[1]: l[2] for l in kw}
        if 'default' in kw:
            got.append(vm.call(kw['default'], [args[0]]))
            return vm.fresh('bytes', 'packed')
        e = vm.call(kw['cls'], [])
        got.append(mcall(vm, e, 'default', args[0]))
        return vm.fresh('str', 'packed')
    vm.extover['msgpack.dumps'] = dumps
    vm.extover['json.dumps'] = dumps
    v = proxy_view(vm, p)
    _, exc = attempt(vm, lambda: mcall(vm, ser, 'dumps', p, server=None, serialize_types=None))
    d = dict_of(vm, got[0]) if got else None
    if not vm.prove('on the wire: a proxy dictionary', exc is None and d is not None and
                    d.get('___type_name___') == 'proxy', (got, exc)):
        return
    vm.prove('on the wire: nothing but its state', set(d) == {'___type_name___', 'rpc_addr', 'obj_id', 'ref_id', 'type_str', 'attributes'}, d)
    for k in ('rpc_addr', 'obj_id', 'ref_id'):
        vm.prove('on the wire: %s' % k, eq(vm, d[k], v[k]), d)
    vm.prove('on the wire: attributes', same_deep(vm, d['attributes'], v['attributes']), d)


@harness('C04', 'object ids')
def object_ids(vm):
    """From any table: same live object, same id; other object, other id; also after releases."""
    s = mk_server(vm, clients=False, namespace=False)
    o = any_obj(vm, s)
    p = vm.call(vm.getattr(s, 'get_proxy'), [o], [])
    v = proxy_view(vm, p)
    if vm.choose(2):
        # release o's reference (and maybe o): its id() may then be reused
        delete(vm, s, v['obj_id'], v['ref_id'])
        refs, _ = tables(vm, s)
        gone = not vm.branch(zb(vm.dict_has(refs, v['obj_id'])))
    else:
        gone = False
    q = vm.fresh('opaque', 'q')
    vm.assume(vm.lift(q) != vm.lift(o))
    if not gone:
        vm.assume(F_pyid(vm.lift(q)) != F_pyid(vm.lift(o)))
    live(vm, s, q)
    w = proxy_view(vm, vm.call(vm.getattr(s, 'get_proxy'), [q], []))
    vm.prove('object ids: never shared by different objects, even after a release',
             ctr(w['obj_id']) != ctr(v['obj_id']), (v, w))
    vm.prove('object ids: reference ids are never reused', ctr(w['ref_id']) != ctr(v['ref_id']))
    # the proxy denotes q and nothing else
    p2 = vm.call(need(vm, TP + 'proxy.ObjectProxy'), [s.ghost['addr'], w['obj_id'], w['ref_id']], [])
    r, exc = attempt(vm, lambda: mcall(vm, s, 'unwrap_proxy', p2))
    vm.prove('object ids: a new proxy denotes its object', exc is None and eq(vm, r, q), (r, exc))
    p1 = vm.call(need(vm, TP + 'proxy.ObjectProxy'), [s.ghost['addr'], v['obj_id'], v['ref_id']], [])
    r, exc = attempt(vm, lambda: mcall(vm, s, 'unwrap_proxy', p1))
    vm.prove('object ids: an old proxy never denotes another object', exc is not None or eq(vm, r, o), (r, exc))
    invariant(vm, s, 'object ids')
