import gc

from rt import *
from world import *


class Node:
    def __init__(self, name):
        self.name = name
        self.a = self.b = None
        self.got = []

    def take(self, x):
        self.got.append(x)
        return x is self.a

    def last(self):
        return self.got[-1]

    def same(self, x, y):
        return x is y

    def isme(self, x):
        return x is self

    def path(self, x):
        return x.name


class Eq(Node):
    def __eq__(self, o):
        return True

    def __hash__(self):
        return 0


@scenario
def identity(rnd):
    n1, n2 = Eq('n1'), Eq('n2')
    n1.a, n1.b, n2.a, n2.b = n2, [1, {'k': n1}], n1, n2
    for ser in ('msgpack', 'json'):
        with server({'n1': n1, 'n2': n2, 'd': {'n1': n1}}) as c0:
            from teleprox import serializer
            c0.serializer = serializer.all_serializers[ser]()
            p, q, p2 = c0['n1'], c0['n2'], c0['n1']
            check(p._obj_id == p2._obj_id != q._obj_id and p._ref_id != p2._ref_id, 'ids')
            check(p.isme(p) is True and p.isme(p2) is True and p.isme(q) is False, 'identity')
            check(p.same(p.a, q) is True and p.same(p.a.a, p) is True and p.same(p.a.b, q) is True, 'paths')
            check(p.path(p.a.a.a) == 'n2' and p.path(q.a) == 'n1', 'order of attributes')
            check(p.same(p.take, p.a) is False, 'different')
            check(p.take(q) is True, 'argument')
            check(p.take([q, {'x': p.a}]) is False, 'nested')
            g = n1.got[-1]
            check(g[0] is n2 and g[1]['x'] is n2, 'nested proxies')
            check(c0.get_obj(p.a.name) == 'n2', 'get_obj')
            raises(RemoteCallException, lambda: p.same(p.a.nosuch.name, 1))


@scenario
def third_party(rnd):
    """A proxy passed on by someone who does not own it."""
    n1, far = Node('n1'), Node('far')
    n1.a = Node('deep')
    n1.a.b = Node('deeper')
    with server({'n1': n1}) as c1:
        with server({'far': far}) as c2:
            p, f = c1['n1'], c2['far']
            for x in (p, p.a, p.a.b, p.a.b.name):
                f.take(x)
                y = far.got[-1]
                check(type(y) is ObjectProxy, 'stays a proxy', type(y))
                check((y._rpc_addr, y._obj_id, y._ref_id, y._attributes) ==
                      (x._rpc_addr, x._obj_id, x._ref_id, x._attributes), 'changed', y.__getstate__(), x.__getstate__())
                z = f.last() if False else c2.send('call_obj', opts={'obj': f.last, 'args': (), 'kwargs': {}})
                check(z._obj_id == x._obj_id and z._ref_id == x._ref_id and z._attributes == x._attributes
                      and z._rpc_addr == x._rpc_addr, 'round trip')
                check(p.same(z, x) is True, 'comes home')
            check(far.got[0] == p, 'equal')


@scenario
def there_and_back(rnd):
    """Whatever a proxy is, it leaves a node and arrives at another one as the same proxy."""
    from teleprox import serializer
    srv = RPCServer()
    port = srv.address.decode().rpartition(':')[2]
    addrs = [a % port for a in ('tcp://localhost:%s', 'tcp://LOCALHOST:%s', 'tcp://127.0.0.2:%s', 'tcp://0.0.0.0:%s', 'tcp://127.0.0.1:%s0',
                                'ipc:///tmp/Abc-%s', 'inproc://Name%s', 'tcp://[::1]:%s', 'tcp://Host.Example:%s')]
    paths = [(), ('a',), ('b', 'a'), ('a', 'b'), ('a', 'a', 'a'), ('__call__', 'x', '__x'), ('\u00e9', ' ', 'A'), ('z', 'y', 'x', 'w')]
    try:
        mine = Node('mine')
        own = srv.get_proxy(mine)
        for a in addrs:
            for at in paths:
                oid, rid = rnd.choice([own._obj_id, rnd.randrange(2 ** 40)]), rnd.choice([own._ref_id, rnd.randrange(2 ** 40)])
                for form in (a, a.encode()):
                    p = ObjectProxy(form, oid, rid, 'T', at)
                    check(p._rpc_addr == a.encode(), 'address', p._rpc_addr, a)
                    for n in ('msgpack', 'json'):
                        ser = serializer.all_serializers[n]()
                        for s in (None, srv):
                            q = ser.loads(ser.dumps([p, {'k': p}], server=s, serialize_types=None), server=s, proxy_opts={})
                            for y in (q[0], q[1]['k']):
                                check(type(y) is ObjectProxy, 'stays a proxy', a, srv.address)
                                check((y._rpc_addr, y._obj_id, y._ref_id, tuple(y._attributes)) == (a.encode(), oid, rid, at),
                                      'changed on the way', y.__getstate__(), a, oid, rid, at)
        mine.a = Node('a')
        mine.a.b = Node('ab')
        mine.b = Node('b')
        mine.b.a = Node('ba')
        for at, o in (((), mine), (('a',), mine.a), (('a', 'b'), mine.a.b), (('b', 'a'), mine.b.a)):
            p = ObjectProxy(srv.address, own._obj_id, own._ref_id, 'T', at)
            for n in ('msgpack', 'json'):
                ser = serializer.all_serializers[n]()
                check(ser.loads(ser.dumps(p, server=srv, serialize_types=None), server=srv, proxy_opts={}) is o, 'at its owner', at)
    finally:
        srv._closed = True
        srv._socket.close()


@scenario
def reuse_of_memory(rnd):
    """Objects made and released in the same memory never share an object id."""
    s = RPCServer()
    try:
        ids, old = {}, []
        for i in range(reps(300)):
            o = Node(i)
            p = s.get_proxy(o)
            check(p._obj_id not in ids, 'object id reused', p._obj_id)
            ids[p._obj_id] = i
            check(s.unwrap_proxy(p) is o, 'identity')
            q = s.get_proxy(o)
            check(q._obj_id == p._obj_id, 'one object, one id')
            for x in (p, q):
                s.process_action('delete', {'obj_id': x._obj_id, 'ref_id': x._ref_id}, 'auto', b'')
            old.append(p)
            if i % 3 == 0:
                keep = s.get_proxy(o)
                check(keep._obj_id not in ids or keep._obj_id == p._obj_id, 'id')
                ids[keep._obj_id] = i
            del o
            for x in rnd.sample(old, min(len(old), 5)):
                try:
                    r = s.unwrap_proxy(x)
                except KeyError:
                    continue
                check(r.name == ids[x._obj_id], 'released proxy denotes another object')
            raises(KeyError, s.unwrap_proxy, p)
        # equal, unhashable, falsy and builtin objects
        a, b = [1], [1]
        pa, pb = s.get_proxy(a), s.get_proxy(b)
        check(pa._obj_id != pb._obj_id and s.unwrap_proxy(pa) is a and s.unwrap_proxy(pb) is b, 'equal lists')
        for o in ([], {}, '', 0, None, Eq('x')):
            p = s.get_proxy(o)
            check(s.unwrap_proxy(p) is o, 'falsy', o)
            check(s.get_proxy(o)._obj_id == p._obj_id, 'id', o)
    finally:
        s._closed = True
        s._socket.close()


@scenario
def at_a_client_with_server():
    """A client in a thread with a lazy server unwraps that server's proxies and no others."""
    loc = RPCServer()
    loc.run_lazy()
    try:
        mine, far = Node('mine'), Node('far')
        mine.a = Node('inner')
        with server({'far': far}) as c:
            f = c['far']
            f.take(loc.get_proxy(mine))
            check(type(far.got[-1]) is ObjectProxy, 'proxy at the other node')
            check(f.last() is mine, 'comes home as the object')
            f.take(loc.get_proxy(mine).a)
            check(f.last() is mine.a, 'comes home with attributes')
            p = f.last
            check(type(p) is ObjectProxy, 'other proxies stay proxies')
            f.take(f)
            check(far.got[-1] is far, 'theirs is unwrapped there')
            check(type(f.last()) is ObjectProxy, 'stays')
    finally:
        RPCServer.unregister_server(loc)
        loc._closed = True
        loc._socket.close()


if __name__ == '__main__':
    main()
