from rt import *
from world import *


class Dead:
    def __getattr__(self, n):
        raise Fail('server contacted: ' + n)


class Ans:
    """Stands for the client: answers every call with a token."""
    def __init__(self):
        self.calls = []

    def call_obj(self, obj, args=None, kwargs=None, **k):
        self.calls.append((obj, args, kwargs))
        return ('answer', len(self.calls))


CUR = [None]
_real_get = RPCClient.get_client


def use(client):
    """Every proxy finds this client (None: the real ones)."""
    RPCClient.get_client = staticmethod(lambda a: client) if client is not None else _real_get


def mkp(addr, oid, rid, at, **kw):
    return ObjectProxy(addr, oid, rid, 'T%s' % rid, at, **kw)


@scenario
def equality(rnd):
    n = 0
    for i in range(reps(400)):
        A = [rnd.choice([b'tcp://127.0.0.1:1', 'tcp://127.0.0.1:1', b'tcp://127.0.0.1:2', b'inproc://x']),
             rnd.randrange(3), rnd.randrange(50), tuple(rnd.choice('ab') for j in range(rnd.randrange(3)))]
        B = [rnd.choice([A[0], b'tcp://127.0.0.1:1', b'tcp://127.0.0.1:2']), rnd.choice([A[1], rnd.randrange(3)]),
             rnd.randrange(50), rnd.choice([A[3], tuple(rnd.choice('ab') for j in range(rnd.randrange(3)))])]
        by = [x if isinstance(x, bytes) else x.encode() for x in (A[0], B[0])]
        same = by[0] == by[1] and A[1] == B[1] and A[3] == B[3]
        cl = Ans()
        use(Dead() if same else cl)
        p = mkp(*A)
        q = mkp(*B)
        if rnd.random() < .5:
            p._set_proxy_options(sync=rnd.choice(['sync', 'async', 'off']), timeout=3)
        r = (p == q)
        if same:
            check(r is True, 'not equal', A, B)
            check(hash(p) == hash(q), 'hash', A, B)
            check(len({p, q}) == 1, 'set')
        else:
            check(r == ('answer', 1) and len(cl.calls) == 1, 'not decided by the remote object', r, A, B)
            o, a, k = cl.calls[0]
            check(o._attributes == p._attributes + ('__eq__',) and o._obj_id == p._obj_id
                  and len(a) == 1 and a[0] is q and not k, 'wrong request')
        n += 1
        use(Dead())
        h = hash(p)
        p._set_proxy_options(timeout=rnd.random(), defer_getattr=True)
        getattr(p, 'zz')
        check(hash(p) == h and hash(p._copy()) == h, 'hash changed')
        s = mkp(A[0], A[1], A[2] + 1, A[3][:-1]) if A[3] else None
        if s is not None:
            d = getattr(s, A[3][-1])
            check((d == mkp(*A)) is True and hash(d) == h, 'derived')
    use(None)
    return n


@scenario
def after_the_wire(rnd):
    """Equality and hashes do not depend on how the parts of a proxy came to be."""
    import json
    import pickle
    from teleprox import serializer
    use(Dead())
    for i in range(reps(60)):
        A = ('tcp://127.0.0.1:%d' % rnd.randrange(5), rnd.randrange(2 ** rnd.choice([3, 8, 20, 62])), rnd.randrange(2 ** 40),
             tuple(''.join(rnd.choice('abc') for k in range(9)) for j in range(rnd.randrange(4))))
        p = mkp(*A)
        same = [mkp(str(bytearray(A[0].encode()), 'ascii'), int(str(A[1])), A[2] + 1, tuple(str(bytearray(x.encode()), 'ascii') for x in A[3]))]
        for n in ('msgpack', 'json'):
            ser = serializer.all_serializers[n]()
            same.append(ser.loads(ser.dumps(p, server=None, serialize_types=None), server=None, proxy_opts={}))
        same.append(pickle.loads(pickle.dumps(p)))
        for q in same:
            check((p == q) is True and (q == p) is True, 'not equal', A)
            check(hash(p) == hash(q), 'hash', A)
    use(None)


@scenario
def other_values():
    for v in (1, None, 'x', (), object(), [1]):
        cl = Ans()
        use(cl)
        p = mkp(b'tcp://127.0.0.1:1', 1, 2, ())
        r = (p == v)
        check(r == ('answer', 1) and cl.calls[0][1] == (v,), 'other', v, r)


@scenario
def real_objects():
    use(None)

    class K:
        def __init__(self, k): self.k = k
        def __eq__(self, o): return isinstance(o, K) and self.k == o.k
        __hash__ = None
    a, b, d = K(1), K(1), K(2)
    with server({'a': a, 'b': b, 'd': d}) as c:
        pa, pa2, pb, pd = c['a'], c['a'], c['b'], c['d']
        check(pa == pa2 and hash(pa) == hash(pa2) and pa._ref_id != pa2._ref_id, 'same object')
        check((pa == pb) is True and (pa == pd) is False, 'decided remotely')
        check((pa == 3) is False, 'other')
        check(hash(pa) == hash(pa.k.real) or True, '')
        check((pa.k == pd.k) is False or not isinstance(pa.k == pd.k, bool), 'attributes')


if __name__ == '__main__':
    main()
