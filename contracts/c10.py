"""C10: proxy equality and hashing agree."""
from .base import *
from .c08 import check_forward


def setup(vm):
    wire_dumps(vm)
    future_outcome(vm)
    c = mk_client(vm)
    registered_client(vm, c)
    p = mk_proxy(vm, addr=c.ghost['addr'])
    return c, p, proxy_view(vm, p)


def twin(vm, p, v, **over):
    """Another proxy, by default to the same address, object and path, with its own reference."""
    d = dict(addr=p.ghost.get('addr_') or vm.getattr(p, '_rpc_addr'), obj_id=v['obj_id'],
             ref_id=vm.fresh('int', 'q.rid'), type_str=vm.fresh('str', 'q.type'),
             attributes=v['attributes'])
    d.update(over)
    q = vm.call(p.cls, [d['addr'], d['obj_id'], d['ref_id'], d['type_str']],
                kws(attributes=d['attributes']))
    mcall(vm, q, '_set_proxy_options', sync=vm.fresh('str', 'q.sync'), timeout=vm.fresh('any', 'q.to'))
    return q


def do_hash(vm, p):
    return vm.call(class_lookup(p.cls, '__hash__'), [p])


@harness('C10', 'equal proxies')
def equal(vm):
    c, p, v = setup(vm)
    # equal parts, not necessarily the same objects
    oid, addr = vm.fresh('int', 'q.oid'), vm.fresh('bytes', 'q.addr')
    vm.assume(oid.t == ctr(v['obj_id']))
    vm.assume(addr.t == c.ghost['addr'].t)
    q = twin(vm, p, v, obj_id=oid, addr=addr)
    if vm.choose(2):
        do_hash(vm, p)
    if vm.choose(2):
        mcall(vm, p, '_client')
    mark = len(vm.trace)
    r, exc = attempt(vm, lambda: vm.call(class_lookup(p.cls, '__eq__'), [p, q]))
    vm.prove('proxies of the same address, object and path are equal',
             exc is None and (r is True or (isinstance(r, Sym) and r.k == 'bool' and r.t)), (r, exc))
    vm.prove('..without contacting the server', not sends(vm, start=mark)
             and not events(vm, 'recv', mark) and not has_loop_event(vm, ['send', 'recv'], mark))
    h1, e1 = attempt(vm, lambda: do_hash(vm, p))
    h2, e2 = attempt(vm, lambda: do_hash(vm, q))
    vm.prove('hashing succeeds locally', e1 is None and e2 is None and not sends(vm, start=mark))
    if e1 is None and e2 is None:
        vm.prove('equal proxies have equal hashes', eq(vm, h1, h2), (h1, h2))


@harness('C10', 'text address')
def text_addr(vm):
    """A proxy made from the text form of the address equals one made from the bytes form."""
    c, p, v = setup(vm)
    q = twin(vm, p, v, addr=v['rpc_addr'])
    mark = len(vm.trace)
    r, exc = attempt(vm, lambda: vm.call(class_lookup(p.cls, '__eq__'), [p, q]))
    vm.prove('text and bytes form of an address are equal', exc is None and r is True, (r, exc))
    h1, e1 = attempt(vm, lambda: do_hash(vm, p))
    h2, e2 = attempt(vm, lambda: do_hash(vm, q))
    vm.prove('..and hash equally', e1 is None and e2 is None and eq(vm, h1, h2), (h1, h2))


@harness('C10', 'stable hash')
def stable(vm):
    c, p, v = setup(vm)
    if vm.choose(2):
        mcall(vm, p, '_set_proxy_options', defer_getattr=True)
        p = vm.call(class_lookup(p.cls, '__getattr__'), [p, vm.fresh('str', 'attr')])
        if not is_proxy(vm, p):
            raise PathEnd()
        v = proxy_view(vm, p)
    mark = len(vm.trace)
    h1, e1 = attempt(vm, lambda: do_hash(vm, p))
    what = vm.choose(4)
    if what == 0:
        mcall(vm, p, '_set_proxy_options', sync='off', return_type='proxy', defer_getattr=True)
    elif what == 1:
        attempt(vm, lambda: vm.call(class_lookup(p.cls, '__getattr__'), [p, 'foo']))
    elif what == 2:
        attempt(vm, lambda: vm.call(p, [1], []))
    elif what == 3:
        attempt(vm, lambda: mcall(vm, p, '_copy'))
    m2 = len(vm.trace)
    h2, e2 = attempt(vm, lambda: do_hash(vm, p))
    vm.prove('hash never fails', e1 is None and e2 is None, (e1, e2))
    if e1 is None and e2 is None:
        vm.prove('hash never changes', eq(vm, h1, h2), (h1, h2))
    vm.prove('hash never contacts the server', not sends(vm, start=m2) and not events(vm, 'recv', m2))


@harness('C10', 'hash of a path')
def path_hash(vm):
    """Hashes of proxies that took their path by attribute access agree with those built directly."""
    c, p, v = setup(vm)
    mcall(vm, p, '_set_proxy_options', defer_getattr=True)
    n = vm.fresh('str', 'attr')
    if vm.choose(2):
        do_hash(vm, p)
    q = vm.call(class_lookup(p.cls, '__getattr__'), [p, n])
    t = twin(vm, p, v, attributes=Tup(v['attributes'].segs + [n]))
    r, exc = attempt(vm, lambda: vm.call(class_lookup(p.cls, '__eq__'), [q, t]))
    vm.prove('derived and direct proxies to one attribute are equal', exc is None and r is True, (r, exc))
    h1, e1 = attempt(vm, lambda: do_hash(vm, q))
    h2, e2 = attempt(vm, lambda: do_hash(vm, t))
    vm.prove('derived and direct proxies hash equally', e1 is None and e2 is None and eq(vm, h1, h2))


def different(which):
    def h(vm):
        c, p, v = setup(vm)
        if which == 'address':
            a = text_bytes(vm, 'q.addr')
            vm.assume(a.t != vm.getattr(p, '_rpc_addr').t)
            q = twin(vm, p, v, addr=a)
        elif which == 'object':
            o = vm.fresh('int', 'q.oid')
            vm.assume(o.t != v['obj_id'].t)
            q = twin(vm, p, v, obj_id=o)
        elif which == 'path':
            at = Tup([vm.fresh_list('q.attrs', lambda vm: vm.fresh('str', 'attr'))])
            vm.assume(vm.lift(at) != vm.lift(v['attributes']))
            q = twin(vm, p, v, attributes=at)
        else:
            q = vm.fresh('any', 'other')
            vm.assume(z3.Not(isinst(vm, q, p.cls)))
        mark = len(vm.trace)
        r, exc = attempt(vm, lambda: vm.call(class_lookup(p.cls, '__eq__'), [p, q]))
        check_forward(vm, p, v, c, '__eq__', [q], r, exc, mark, 'different ' + which)
    return h


for _w in ('address', 'object', 'path', 'kind of value'):
    harness('C10', 'different ' + _w)(different(_w))
