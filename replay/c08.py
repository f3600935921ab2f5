from rt import *
from world import *

BIN = ['add', 'sub', 'div', 'truediv', 'floordiv', 'mul', 'pow', 'rshift', 'lshift', 'and', 'or', 'xor', 'mod']
NAMES = (['__%s__' % n for n in BIN] + ['__i%s__' % n for n in BIN if n != 'mod'] + ['__r%s__' % n for n in BIN]
         + ['__ne__', '__lt__', '__gt__', '__le__', '__ge__', '__eq__', '__getitem__'])


class Rec:
    def __init__(self):
        object.__setattr__(self, 'log', [])

    def take(self):
        l = list(self.log)
        del self.log[:]
        return l


def mk(n):
    def f(self, *a, **k):
        self.log.append((n, a, k))
        return ['result', n, list(a)]
    f.__name__ = n
    return f


for _n in NAMES + ['__setitem__']:
    setattr(Rec, _n, mk(_n))
Rec.__len__ = lambda self: (self.log.append(('__len__', (), {})), 37)[1]
Rec.__hash__ = object.__hash__


def _sa(self, n, v):
    self.log.append(('__setattr__', (n, v), {}))


Rec.__setattr__ = _sa


@scenario
def direct_calls():
    rec = Rec()
    n = 0
    with server({'r': rec}) as c:
        p = c['r']
        for opts in ({}, {'return_type': 'value'}, {'timeout': 20}):
            p._set_proxy_options(**opts)
            for name in NAMES:
                for operand in (3, 'x', [1, 2], None, 2.5):
                    r = getattr(type(p), name)(p, operand)
                    check(rec.take() == [(name, (operand,), {})], name, operand)
                    check(list(r) == ['result', name, [operand]], name, r)
                    n += 1
            getattr(type(p), '__setitem__')(p, 'k', 'v')
            check(rec.take() == [('__setitem__', ('k', 'v'), {})], 'setitem')
            check(len(p) == 37 and rec.take() == [('__len__', (), {})], 'len')
            check(list(ObjectProxy.__pow__(p, 2, 5)) == ['result', '__pow__', [2, 5]], 'pow/2')
            rec.take()
    return n


@scenario
def expressions():
    import operator as o
    rec = Rec()
    with server({'r': rec}) as c:
        for sub in (False, True):
            p = c['r']
            if sub:
                c.server_['h'] = type('H', (), {})()
                c.server_['h'].inner = rec
                p = c['h'].inner
            table = [(o.add, 'add'), (o.sub, 'sub'), (o.mul, 'mul'), (o.truediv, 'truediv'), (o.floordiv, 'floordiv'),
                     (o.pow, 'pow'), (o.rshift, 'rshift'), (o.lshift, 'lshift'), (o.and_, 'and'), (o.or_, 'or'),
                     (o.xor, 'xor'), (o.mod, 'mod')]
            for f, n in table:
                f(p, 7)
                check(rec.take() == [('__%s__' % n, (7,), {})], n)
                f(7, p)
                check(rec.take() == [('__r%s__' % n, (7,), {})], 'r' + n)
            for f, n in [(o.iadd, 'iadd'), (o.isub, 'isub'), (o.imul, 'imul'), (o.itruediv, 'itruediv'),
                         (o.ifloordiv, 'ifloordiv'), (o.ipow, 'ipow'), (o.irshift, 'irshift'), (o.ilshift, 'ilshift'),
                         (o.iand, 'iand'), (o.ior, 'ior'), (o.ixor, 'ixor')]:
                f(p, 9)
                check(rec.take() == [('__%s__' % n, (9,), {})], n)
            for f, n in [(o.lt, 'lt'), (o.gt, 'gt'), (o.le, 'le'), (o.ge, 'ge'), (o.ne, 'ne'), (o.eq, 'eq')]:
                f(p, 9)
                check(rec.take() == [('__%s__' % n, (9,), {})], n)
            p['key']
            check(rec.take() == [('__getitem__', ('key',), {})], 'getitem')
            p[3] = [4]
            check(rec.take() == [('__setitem__', (3, [4]), {})], 'setitem')
            before = set(p.__dict__)
            p.some_name = 12
            p._hash = 5
            p.timeout = 3
            check(rec.take() == [('__setattr__', ('some_name', 12), {}), ('__setattr__', ('_hash', 5), {}),
                                 ('__setattr__', ('timeout', 3), {})], 'setattr')
            check(set(p.__dict__) - before <= {'_client_'} and p.__dict__['_hash'] != 5, 'proxy changed')


@scenario
def real_values():
    with server({'n': [1, 2, 3], 'd': {'a': 1}}) as c:
        n = c.server_.get_proxy([1, 2, 3])
        ln = c._import('operator')
        p = ln.add([1], [2], _return_type='proxy')
        check((p + [3])._get_value() if isinstance(p + [3], ObjectProxy) else p + [3] == [1, 2, 3], 'add')
        check(p[0] == 1 and p[1] == 2 and len(p) == 2, 'items')
        p[0] = 99
        check(p._get_value() == [99, 2], 'setitem')
        i = ln.add(40, 2, _return_type='proxy')
        check(i - 2 == 40 and 100 - i == 58 and i % 5 == 2 and 2 ** (i - 40) == 4 and i / 4 == 10.5 and i // 4 == 10
              and 85 // i == 2 and (i < 43) is True and (i > 43) is False and (i ^ 3) == 41 and (3 ^ i) == 41
              and (i << 1) == 84 and (1 << (i - 40)) == 4 and 84 / i == 2.0, 'int arithmetic')


@scenario
def modes():
    rec = Rec()
    with server({'r': rec}) as c:
        p = c['r']
        p._set_proxy_options(sync='async')
        f = p + 1
        check(isinstance(f, Future) and list(f.result(timeout=5)) == ['result', '__add__', [1]], 'async', f)
        p._set_proxy_options(sync='off')
        check((p - 2) is None, 'off')
        p._set_proxy_options(sync='sync')
        p * 1
        check(rec.take() == [('__add__', (1,), {}), ('__sub__', (2,), {}), ('__mul__', (1,), {})], 'order')
        rec2 = object()
        c.server_['o'] = rec2
        q = c['o']
        e = raises(RemoteCallException, lambda: q[0])
        check(e.type_str in ('AttributeError', 'TypeError'), e.type_str)


if __name__ == '__main__':
    main()
