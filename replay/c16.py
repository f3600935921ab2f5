import os
import sys
import tempfile
import types

from rt import *
from world import *


class Thing:
    def __init__(self, n):
        self.n = n

    def num(self):
        return self.n


NAMES = ['a', 'b', 'A', '', ' ', 'a.b', 'a b', '__class__', 'name', 'obj', 'items', '_namespace', 'é', '\u4e2d', 'a\x00b', 'self ',
         'x' * 300, '0', '1', 'None', '[0]', 'a.', '.a', 'c', 'd']


@scenario
def histories(rnd):
    """Random publishing by two clients, two serializers and the server itself, against a dict."""
    with server() as c:
        s = c.server_
        cs = [Raw(c.address), Raw(c.address, ser='json')]
        model = {}
        for step in range(reps(500)):
            n = rnd.choice(NAMES)
            k = rnd.randrange(7)
            if k <= 2:
                v = rnd.choice([step, 'v%d' % step, None, [step, None], {'k': step}, 0, '', False])
                if k == 0:
                    s[n] = v
                elif k == 1:
                    c[n] = v
                else:
                    r = rnd.choice(cs)
                    m = r.rpc('set_item', {'name': n, 'obj': v})
                    check(m['error'] is None, m)
                model[n] = v
                q = n
            else:
                q = n
            how = rnd.randrange(4)
            if q in model:
                want = model[q]
                got = c[q] if how == 0 else s[q] if how == 1 else cs[how - 2].rpc('get_item', {'name': q})['rval']
                check(got == want and type(got) is type(want), q, got, want)
            elif how == 0:
                check(raises(RemoteCallException, lambda: c[q]).type_str == 'KeyError', 'unpublished', q)
            elif how == 1:
                raises(KeyError, lambda: s[q])
            else:
                check(cs[how - 2].rpc('get_item', {'name': q})['error'][0] == 'KeyError', q)
            if step % 50 == 0:
                for q in NAMES:
                    check((q in s._namespace) == (q in model), 'published', q)
        for r in cs:
            r.close()


@scenario
def objects():
    """The object itself is published, not a copy; names of the server's own things are no names."""
    with server() as c, server() as d:
        t, u = Thing(1), Thing(2)
        c.server_['t'] = t
        p = c['t']
        check(p.num() == 1, 'object')
        t.n = 5
        check(p.num() == 5 and c['t'].num() == 5, 'identity')
        c.server_['t2'] = t
        c.server_['t'] = u
        check(c['t'].num() == 2 and c['t2'].num() == 5 and p.num() == 5, 'rebinding')
        c['mine'] = p
        check(c.server_['mine'] is t, 'a proxy that comes home is the object')
        raises(KeyError, lambda: d.server_['t'])
        check(raises(RemoteCallException, lambda: d['t']).type_str == 'KeyError', 'other server')
        for n in ('address', '_namespace', '__dict__', 'run_forever', 'T', 't ', ' t', 't.n'):
            check(raises(RemoteCallException, lambda: c[n]).type_str == 'KeyError', 'unpublished', n)


@scenario
def many_clients():
    with server({'n': 0}) as c:
        errs = []

        def user(i):
            try:
                x = RPCClient(c.address)
                for k in range(30):
                    x['name%d' % i] = (i * 100 + k)
                    check(x['name%d' % i] == i * 100 + k, 'own name')
                    x['shared'] = i
                    check(x['shared'] in range(4), 'shared name')
                x.close()
            except BaseException as e:
                errs.append(e)
        ts = [threading.Thread(target=user, args=(i,), daemon=True) for i in range(4)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(20)
        check(not errs, errs)
        for i in range(4):
            check(c['name%d' % i] == i * 100 + 29, 'last')


@scenario
def imports():
    d = tempfile.mkdtemp()
    for p in ('vpk', 'vpk/a', 'vpk/a/a', 'vpk/vpk'):
        os.mkdir(os.path.join(d, p))
        with open(os.path.join(d, p, '__init__.py'), 'w') as f:
            f.write('WHO = __name__\n')
    for m in ('vpk/a/m', 'vpk/m', 'vpk/vpk/m', 'vpk/a/a/m'):
        with open(os.path.join(d, m + '.py'), 'w') as f:
            f.write('WHO = __name__\n')
    with open(os.path.join(d, 'vpk/bad.py'), 'w') as f:
        f.write('1/0\n')
    # a module that replaces itself where its package looks for it
    with open(os.path.join(d, 'vpk/alias.py'), 'w') as f:
        f.write('import sys\nimport vpk.m as m\n')
    sys.path.insert(0, d)
    with server() as c:
        for n in ('vpk.a.a.m', 'vpk', 'vpk.a', 'vpk.m', 'vpk.vpk', 'vpk.vpk.m', 'vpk.a.a', 'vpk.a.m', 'vpk.alias'):
            m = c._import(n)
            if n != 'vpk.alias':
                check(m.WHO._get_value() == n, n, m.WHO._get_value())
            check(m.__name__._get_value() == n, n)
            m2 = c._import(n)
            check(m2._obj_id == m._obj_id, 'same module')
        for n, attr in [('os', 'getpid'), ('os.path', 'join'), ('xml.etree.ElementTree', 'fromstring'), ('concurrent.futures', 'Future'),
                        ('concurrent.futures.thread', 'ThreadPoolExecutor'), ('logging.handlers', 'SocketHandler'), ('sys', 'argv')]:
            m = c._import(n)
            import importlib
            want = importlib.import_module(n)
            r = c.server_.unwrap_proxy(m)
            check(r is want, n, r)
            check(m.__name__._get_value() == want.__name__, n)
            getattr(m, attr)
        for n, e in [('nosuchmodule', 'ModuleNotFoundError'), ('vpk.nosuch', 'ModuleNotFoundError'), ('vpk.bad', 'ZeroDivisionError'),
                     ('os.nosuch', 'ModuleNotFoundError'), ('', 'ValueError')]:
            x = raises(RemoteCallException, c._import, n)
            check(x.type_str == e, n, x.type_str)
        # a package that has lost a part: that module or an error, never another module
        check(c._import('vpk.a.a.m').WHO._get_value() == 'vpk.a.a.m')
        for mod, part in [('vpk.a.a', 'm'), ('vpk.a', 'a'), ('vpk', 'a')]:
            kept = sys.modules[mod + '.' + part]
            delattr(sys.modules[mod], part)
            for n in ('vpk.a.a.m', 'vpk.a.a', 'vpk.a', 'vpk.a.m'):
                try:
                    r = c.server_.unwrap_proxy(c._import(n))
                except RemoteCallException:
                    continue
                check(r is sys.modules[n], 'a part missing', n, r)
            setattr(sys.modules[mod], part, kept)
        check(c.ping() == 'pong', 'alive')
    sys.path.remove(d)


if __name__ == '__main__':
    main()
