import datetime

import numpy as np

import values
from values import Gen, diff, snapshot
from rt import *
from world import *
from teleprox import serializer as S


def trip(x, a=[None, None]):
    if a[0] is None:
        a[:] = S.JsonSerializer(), S.JsonSerializer()
    return a[1].loads(a[0].dumps(x, None, None), server=None, proxy_opts={})


def ok(x):
    keep = snapshot(x)
    y = trip(x)
    d = diff(x, y, True)
    check(d is None, d, '|', repr(x)[:300])
    check(diff(keep, x) is None, 'the value was changed by sending it', repr(x)[:200])


def wrap(x):
    yield x
    yield [x, x]
    yield (x,)
    yield {'k': x, 'l': (x, [x]), '7': {'data': x}}


@scenario
def every_kind(rnd):
    g = Gen(rnd, True)
    for f in (lambda: None, lambda: True, lambda: False, g.int, g.float, g.text, g.bytes, g.datetime, g.date, g.dtype,
              g.array, g.scalar):
        for _ in range(reps(200)):
            x = f()
            for y in wrap(x):
                ok(y)


@scenario
def listed(rnd):
    for x in values.INTS + values.FLOATS + [(), [], {}, '', b'', (()), [[]], {'': {}}]:
        for y in wrap(x):
            ok(y)
    for dt in values.STRUCTS + [np.dtype(d) for d in values.DTYPES + values.DATES]:
        ok(dt)
        if dt.kind in 'mM':
            continue
        for sh in ((), (0,), (3,), (2, 3), (0, 2)):
            a = np.zeros(sh, dt)
            for y in wrap(a):
                ok(y)
            if a.ndim > 1:
                ok(a.T)
                ok(np.asfortranarray(a))
    a = np.arange(24).reshape(2, 3, 4)
    for b in (a, a.T, a[:, ::2], a[..., ::-1], a.swapaxes(0, 1), np.asfortranarray(a), a[1:1], a[0, 0, 0], a[:, 1],
              np.array(5), np.broadcast_to(a[0], (3, 3, 4)), a.astype('>i4').T, np.asfortranarray(a)[::-1]):
        ok(b)
    for n in (1, 2, 3, 17, 100, 70000):
        ok(list(range(n)))
        ok(tuple(range(n)))
        ok({str(i): (i,) for i in range(n)})
        ok('x' * n)
        ok(b'\xff' * n)
    x = 1
    for i in range(60):
        x = [x] if i % 3 == 0 else (x,) if i % 3 == 1 else {str(i): x}
    ok(x)


@scenario
def random_values(rnd):
    g = Gen(rnd, True)
    for _ in range(reps(4000, 100000)):
        ok(g.value(rnd.choice([1, 2, 3, 4])))


@scenario
def over_the_network(rnd):
    """The whole way: argument of a call, result of a call."""
    g = Gen(rnd, True)
    got = []

    def take(x):
        got.append(x)
        return x
    with server({'take': take}) as c:
        c.serializer = S.JsonSerializer()
        t = c['take']
        for _ in range(reps(40)):
            x = g.value(2)
            y = t(x)
            check(diff(x, got[-1], True) is None, 'argument', diff(x, got[-1], True))
            check(diff(x, y, True) is None, 'result', diff(x, y, True))
            y = t(x=x)
            check(diff(x, got[-1], True) is None and diff(x, y, True) is None, 'keyword', diff(x, y, True))


if __name__ == '__main__':
    main()
