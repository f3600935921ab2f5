from rt import *
from world import *
import zmq


class Target:
    def __init__(self):
        self.log = []

    def f(self, *a, **k):
        self.log.append((a, k))
        return ['ret', len(a), sorted(k)]

    def none(self):
        self.log.append(((), {}))
        return 'none'

    def one(self, a):
        self.log.append(((a,), {}))
        return a

    def fail(self, *a, **k):
        self.log.append((a, k))
        raise TypeError('from inside')

    def take(self):
        l = list(self.log)
        del self.log[:]
        return l


VALS = [0, 1, -5, 2.5, 'text', '', b'bytes', None, True, [1, [2]], [], {'a': 1}, {}, (1, 2), ()]


def tup(x):
    return x


@scenario
def arguments(rnd):
    t = Target()
    n = 0
    with server({'t': t}) as c:
        f = c['t'].f
        for i in range(reps(250)):
            a = tuple(rnd.choice(VALS) for j in range(rnd.choice([0, 0, 1, 2, 3, 8])))
            k = {rnd.choice(['a', 'b', 'sync', 'timeout', 'obj', 'args', 'kwargs', 'return_type', '_x', '__y', 'é', 'self_']): rnd.choice(VALS)
                 for j in range(rnd.choice([0, 0, 1, 2, 4]))}
            o = {}
            if rnd.random() < .4:
                o['_sync'] = rnd.choice(['sync', 'async'])
            if rnd.random() < .4:
                o['_timeout'] = rnd.choice([5, 7.5, 20])
            if rnd.random() < .4:
                o['_return_type'] = rnd.choice(['auto', 'value'])
            before = dict(f._proxy_options)
            kw = dict(k)
            kw.update(o)
            r = f(*a, **kw)
            if o.get('_sync') == 'async':
                check(isinstance(r, Future), r)
                r = r.result(timeout=5)
            check(list(r) == ['ret', len(a), sorted(k)], r, a, k)
            check(t.take() == [(a, k)], 'arguments', a, k)
            check(f._proxy_options == before, 'options changed')
            n += 1
    return n


@scenario
def failing_and_off():
    t = Target()
    with server({'t': t}) as c:
        p = c['t']
        for a, k in (((), {}), ((1,), {}), ((), {'x': 2}), ((1, 2), {'y': 3})):
            e = raises(RemoteCallException, lambda: p.fail(*a, **k))
            check(e.type_str == 'TypeError' and t.take() == [(a, k)], 'called once', a, k)
        r = p.f(1, z=2, _sync='off')
        check(r is None, 'off returned', r)
        p.fail(_sync='off')
        check(p.none() == 'none', 'after off')
        check(t.take() == [((1,), {'z': 2}), ((), {}), ((), {})], 'off calls')
        check(p.one([1]) == [1], 'one')
        e = raises(RemoteCallException, lambda: p.none(1))
        check(e.type_str == 'TypeError', e.type_str)
        t.take()
        check(list(c.call_obj(p.f)) == ['ret', 0, []] and t.take() == [((), {})], 'call_obj without arguments')
        check(c.call_obj(p.f, args=(1,)) and c.call_obj(p.f, kwargs={'a': 2}) and t.take() ==
              [((1,), {}), ((), {'a': 2})], 'call_obj')
        p._set_proxy_options(sync='async', return_type='proxy')
        q = p.f
        r = q(1, _sync='sync', _return_type='value')
        check(list(r) == ['ret', 1, []], r)
        fut = q(2)
        check(isinstance(fut, Future) and isinstance(fut.result(timeout=5), ObjectProxy), 'own settings')


class FakeSock:
    def __init__(self, log):
        self.log = log

    def send_multipart(self, m):
        self.log.append(list(m))


@scenario
def wire_form():
    """Frames of one call, captured at the socket."""
    t = Target()
    with server({'t': t}) as c:
        p = c['t']
        log = []
        real = c._socket

        class S:
            def __getattr__(self, n):
                return getattr(real, n)

            def send_multipart(self, m, *a, **k):
                log.append(list(m))
                return real.send_multipart(m, *a, **k)
        c._socket = S()
        c._poller = None
        try:
            p.f(1, 2, a=3, _sync='async').result(timeout=5)
            check(len(log) == 1, 'requests', log)
            m = log.pop()
            o = c.serializer.loads(m[4], server=None, proxy_opts={})
            check(m[1] == b'call_obj' and m[2] == b'auto' and int(m[0]) >= 0 and tuple(o['args']) == (1, 2)
                  and o['kwargs'] == {'a': 3} and o['obj']._attributes == ('f',), m)
            p.f(_sync='off', _return_type='proxy')
            m = log.pop()
            o = c.serializer.loads(m[4], server=None, proxy_opts={})
            check(m[0] == b'-1' and m[2] == b'proxy' and tuple(o['args']) == () and o['kwargs'] == {}, m)
            p.none()
            check(t.log == [((1, 2), {'a': 3}), ((), {}), ((), {})], t.log)
        finally:
            c._socket = real


@scenario
def timeouts():
    import time
    with server({'time': __import__('time')}) as c:
        p = c['time'].sleep
        p._set_proxy_options(timeout=8)
        t0 = time.time()
        raises(TimeoutError, lambda: p(0.8, _timeout=0.2))
        check(time.time() - t0 < 0.75, '_timeout ignored')
        check(p._proxy_options['timeout'] == 8, 'timeout option changed')
        check(p(0.3) is None, 'own timeout')


if __name__ == '__main__':
    main()
