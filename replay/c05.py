import collections
import datetime
import threading

import numpy as np

from rt import *
from world import *
from teleprox import serializer as S
from teleprox.serializer import default_serialize_types as D
from teleprox.shmem import SharedNDArray  # noqa: F401

BASIC = (type(None), str, bytes, int, float, tuple, list, dict, bool, ObjectProxy)


class A:
    def __init__(self, n=0):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, A) and type(o) is type(self) and o.n == self.n

    def __hash__(self):
        return 0

    def me(self):
        return self

    def val(self, x):
        return x


class B(A):
    pass


class L(list):
    pass


class M(dict):
    pass


class S2(str):
    pass


class I2(int):
    pass


class F2(float):
    pass


class Y2(bytes):
    pass


class T2(tuple):
    pass


VALUES = [None, True, 3, 2.5, 'x', b'y', (1, 2), [1, [2]], {'k': (1,)}, datetime.datetime(2020, 1, 2, 3, 4, 5, 6),
          datetime.date(2020, 1, 2), np.float32(2.5), np.bool_(True), np.dtype('<f4'), np.arange(4)]
OTHERS = [A(1), B(2), {1, 2}, 1j, len, A, object(), range(3), datetime.timedelta(1), collections.deque([1]),
          frozenset([1]), slice(1), NotImplemented]


def holder(x):
    return lambda: x


@scenario(limit=60)
def results(rnd):
    for types in (None, BASIC, BASIC + (A,), D + (B, set), BASIC + (np.ndarray,)):
        eff = types or D
        objs = {str(i): x for i, x in enumerate(VALUES + OTHERS)}
        objs.update(('f' + k, holder(x)) for k, x in list(objs.items()))
        with server(objs, serialize_types=types) as c:
            for ser in ('msgpack', 'json'):
                c.serializer = S.all_serializers[ser]()
                for k, x in objs.items():
                    if k[0] == 'f':
                        continue
                    f = c['f' + k]
                    for rt in ('auto', 'proxy'):
                        for how in range(3):
                            if how == 0:
                                r = c.send('get_item', opts={'name': k}, return_type=rt)
                            elif how == 1:
                                r = f(_return_type=rt)
                            else:
                                p = c.send('get_item', opts={'name': k}, return_type='proxy')
                                r = c.get_obj(p, return_type=rt)
                            byval = rt == 'auto' and isinstance(x, eff)
                            if byval and isinstance(x, np.dtype) and np.dtype not in eff:
                                continue
                            check((type(r) is not ObjectProxy) == byval, ser, rt, types, x, r)
                            if byval:
                                want = list(x) if ser == 'json' and type(x) is tuple else x
                                if ser == 'json' and type(x) is dict:
                                    want = {'k': [1]}
                                check(type(r) is type(want), ser, type(r), type(want))
                                check(np.array_equal(r, want) if isinstance(x, np.ndarray) else r == want, ser, r, want)
                            else:
                                check(c.server_.unwrap_proxy(r) is x, 'proxy to something else', x)
                    r2 = [c.send('get_item', opts={'name': k}, return_type='proxy') for i in range(2)]
                    check(r2[0]._ref_id != r2[1]._ref_id, 'new proxies')


@scenario(limit=60)
def results_of_derived_types(rnd):
    """A value whose type derives from a type that travels by value travels by value."""
    xs = [(L([1, 2]), [1, 2]), (M(a=1), {'a': 1}), (collections.OrderedDict(a=1), {'a': 1}), (collections.defaultdict(int, a=1), {'a': 1}),
          (S2('x'), 'x'), (I2(3), 3), (F2(1.5), 1.5), (Y2(b'z'), b'z'), (T2((1, 2)), (1, 2)), (True, True), (np.float64(1.5), 1.5)]
    with server({str(i): x for i, (x, _) in enumerate(xs)}) as c:
        for i, (x, want) in enumerate(xs):
            n = c.server_._next_ref_id
            r = c.send('get_item', opts={'name': str(i)}, return_type='auto')
            check(type(r) is not ObjectProxy, 'proxied', type(x))
            check(c.server_._next_ref_id == n, 'a reference was handed out', type(x))
            check(r == want, type(x), r)
            check(type(c.send('get_item', opts={'name': str(i)}, return_type='proxy')) is ObjectProxy, 'proxy asked for', type(x))
    with server({'a': B(1), 'b': A(2)}, serialize_types=BASIC + (A,)) as c:
        for k in 'ab':
            o = c.server_[k]
            check(c.server_.auto_proxy(o, BASIC + (A,)) is o, 'proxied', k)
        check(type(c.server_.auto_proxy(c.server_['b'], BASIC + (B,))) is ObjectProxy, 'base class')


@scenario
def value_is_not_proxied(rnd):
    """'value' hands the result on: what the serializer rejects or proxies is up to the serializer."""
    with server({'l': [1, 2], 'd': {'a': [1]}, 's': 'x'}) as c:
        for k, v in (('l', [1, 2]), ('d', {'a': [1]}), ('s', 'x')):
            n = c.server_._next_ref_id
            check(c.send('get_item', opts={'name': k}, return_type='value') == v, k)
            check(c.server_._next_ref_id == n, 'a reference was handed out')


def nest(x):
    yield x, lambda y: y
    yield [1, x], lambda y: y[1]
    yield {'a': {'b': [x]}}, lambda y: y['a']['b'][0]
    yield (1, (x,)), lambda y: y[1][0]
    yield [{'a': (x, 2)}, 3], lambda y: y[0]['a'][0]


@scenario
def proxies_as_results(rnd):
    with server({'a': A(7)}) as c1:
        with server({}) as c2:
            a = c1['a']
            c2['a'] = a
            held = c2.server_['a']
            check(type(held) is ObjectProxy and held == a, 'set')
            r = c2.send('get_item', opts={'name': 'a'}, return_type='auto')
            check(r == a and r._rpc_addr == a._rpc_addr, 'auto')
            r = c2.send('get_item', opts={'name': 'a'}, return_type='proxy')
            check(r._rpc_addr == c2.server_.address and c2.server_.unwrap_proxy(r) is held, 'proxy')


@scenario(limit=60)
def messages(rnd):
    def no_server():
        for ser in S.all_serializers.values():
            s = ser()
            for types in (None, BASIC, BASIC + (A,), D + (set,)):
                for x in VALUES + OTHERS:
                    for m, get in nest(x):
                        if isinstance(x, types or D):
                            if x is A or x is len:
                                continue
                            y = s.loads(s.dumps(m, None, types), server=None, proxy_opts={}) \
                                if not isinstance(x, np.generic) or types is None else None
                            check(y is None or type(get(y)) is not ObjectProxy, types, x)
                        else:
                            raises(TypeError, lambda: s.dumps(m, None, types))
    in_thread(no_server)

    def with_server(explicit):
        srv = RPCServer()
        other = RPCServer()
        srv.run_lazy()
        try:
            for ser in S.all_serializers.values():
                s = ser()
                for types in (None, BASIC, BASIC + (A,), D + (set,)):
                    for x in VALUES + OTHERS:
                        for m, get in nest(x):
                            if explicit == 'used':
                                raises(TypeError, lambda: in_thread(lambda: s.dumps([object()], None, None)))
                                s.dumps([object()], other, BASIC)
                            n = srv._next_ref_id
                            if isinstance(x, np.generic) and types not in (None,) and np.dtype not in types:
                                continue
                            data = s.dumps(m, srv if explicit is True else None, types)
                            got = srv._next_ref_id - n
                            if isinstance(x, types or D):
                                check(got == 0, 'proxied', types, x)
                            else:
                                check(got == 1, 'not proxied', types, x, got)
                                y = get(in_thread(lambda: ser().loads(data, server=None, proxy_opts={})))
                                check(type(y) is ObjectProxy and y._rpc_addr == srv.address, 'whose proxy', y)
                                check(srv.unwrap_proxy(y) is x, 'proxy of', y)
        finally:
            RPCServer.unregister_server(srv)
            srv._closed = True
            srv._socket.close()
            other._closed = True
            other._socket.close()
    for explicit in (True, False, 'used'):
        in_thread(lambda: with_server(explicit))


@scenario
def arguments(rnd):
    """Arguments of a client with its own types; and the server it starts uses them, too."""
    keep = A(5)
    with server({'a': A(7)}) as c0:
        def go(local):
            c = RPCClient(c0.server_.address, start_local_server=local, serialize_types=D + (A,))
            try:
                val = c['a'].val
                n = val([A(3)])
                check(type(n) is list, n)
                if local:
                    srv = RPCServer.get_server()
                    check(srv.serialize_types == D + (A,), 'types of the local server')
                    r = val([{1, 2}])
                    check(r == [{1, 2}] and srv._next_ref_id == 1, r)
                    check(val((keep,), _return_type='proxy')[0].n == 5, 'by value')
                    check(srv._next_ref_id == 1, 'reference handed out')
                else:
                    check(RPCServer.get_server() is None, 'no server')
                    raises(TypeError, lambda: val([{1, 2}]))
                    raises(TypeError, lambda: val(x={1, 2}))
            finally:
                if local:
                    s = RPCServer.get_server()
                    RPCServer.unregister_server(s)
                    s._closed = True
                    s._socket.close()
                c.close()
        in_thread(lambda: go(True))
        in_thread(lambda: go(False))


main()
