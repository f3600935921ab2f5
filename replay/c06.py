import datetime

import numpy as np

import values
from values import Gen, diff, snapshot
from rt import *
from world import *
from teleprox import serializer as S


def trip(x, a=[None, None]):
    if a[0] is None:
        a[:] = S.MsgpackSerializer(), S.MsgpackSerializer()
    return a[1].loads(a[0].dumps(x, None, None), server=None, proxy_opts={})


def ok(x):
    keep = snapshot(x)
    y = trip(x)
    d = diff(x, y)
    check(d is None, d, '|', repr(x)[:300])
    check(diff(keep, x) is None, 'the value was changed by sending it', repr(x)[:200])


def wrap(x):
    yield x
    yield [x, x]
    yield (x,)
    yield {'k': x, b'l': (x, [x]), 7: {'data': x}}


@scenario
def every_kind(rnd):
    g = Gen(rnd, False)
    for f in (lambda: None, lambda: True, lambda: False, g.int, g.float, g.text, g.bytes, g.datetime, g.date, g.dtype,
              g.array, g.scalar):
        for _ in range(reps(200)):
            x = f()
            for y in wrap(x):
                ok(y)


@scenario
def listed(rnd):
    for x in values.INTS + values.FLOATS + [(), [], {}, '', b'', (()), [[]], {'': {}}, {b'': ()}, {0: []}]:
        for y in wrap(x):
            ok(y)
    for dt in values.STRUCTS + [np.dtype(d) for d in values.DTYPES + values.DATES]:
        ok(dt)
        for sh in ((), (0,), (3,), (2, 3), (0, 2)):
            a = np.zeros(sh, dt)
            for y in wrap(a):
                ok(y)
            if a.ndim > 1:
                ok(a.T)
                ok(np.asfortranarray(a))
    a = np.arange(24).reshape(2, 3, 4)
    for b in (a, a.T, a[:, ::2], a[..., ::-1], a.swapaxes(0, 1), np.asfortranarray(a), a[1:1], a[0, 0, 0], a[:, 1],
              np.array(5), np.broadcast_to(a[0], (3, 3, 4)), a.astype('>i4').T, np.asfortranarray(a)[::-1]):
        ok(b)
    for n in (1, 2, 3, 17, 100, 70000):
        ok(list(range(n)))
        ok(tuple(range(n)))
        ok({i: (i,) for i in range(n)})
        ok('x' * n)
        ok(b'\xff' * n)
    x = 1
    for i in range(60):
        x = [x] if i % 3 == 0 else (x,) if i % 3 == 1 else {i: x}
    ok(x)


@scenario
def unrepresentable(rnd):
    """Numbers without exact representation raise rather than arrive changed."""
    for x in (np.longdouble(1) / 3, np.complex64(1 + 2j), np.complex128(1e300j), np.timedelta64(5, 's'), np.timedelta64(5, 'ns'), np.timedelta64(7, 'Y'),
              np.longdouble(2) ** 2000, np.clongdouble(1j) / 3, np.timedelta64('NaT')):
        for y in (x, [x], {'a': (x,)}):
            try:
                z = trip(y)
            except Exception:
                continue
            d = diff(y, z)
            check(d is None, d)


@scenario
def random_values(rnd):
    g = Gen(rnd, False)
    for _ in range(reps(4000, 100000)):
        ok(g.value(rnd.choice([1, 2, 3, 4])))


@scenario
def over_the_network(rnd):
    """The whole way: argument of a call, result of a call."""
    g = Gen(rnd, False)
    got = []

    def take(x):
        got.append(x)
        return x
    with server({'take': take}) as c:
        t = c['take']
        for _ in range(reps(40)):
            x = g.value(2)
            y = t(x)
            check(diff(x, got[-1]) is None, 'argument', diff(x, got[-1]))
            check(diff(x, y) is None, 'result', diff(x, y))
            y = t(x=x)
            check(diff(x, got[-1]) is None and diff(x, y) is None, 'keyword', diff(x, y))


if __name__ == '__main__':
    main()
