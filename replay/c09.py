from rt import *
from world import *


class Node:
    def __init__(self, depth=4):
        self.value = depth
        for n in ('a', 'b', 'name', 'x1', 'send', 'sync', 'timeout'):
            setattr(self, n, Node(depth - 1) if depth else n)


class Dead:
    """Stands for a client that must not be used."""
    def __getattr__(self, n):
        raise Fail('server contacted: ' + n)


OPTS = dict(sync=['sync', 'async', 'off'], timeout=[None, 0, 1.5, 10], return_type=['auto', 'proxy', 'value'],
            defer_getattr=[True], safe_print=[True, False], auto_delete=[False, True], no_proxy_types=[[int], [str, int]])


def mkp(rnd, **kw):
    p = ObjectProxy('tcp://127.0.0.1:1', rnd.randrange(100), rnd.randrange(100), 'T',
                    tuple(rnd.choice('abc') for i in range(rnd.randrange(3))), **kw)
    p.__dict__['_client_'] = Dead()
    p.__dict__['_owns_ref'] = False
    return p


def state(p):
    return (p._rpc_addr, p._obj_id, p._ref_id, p._type_str, tuple(p._attributes))


@scenario
def chains(rnd):
    n = 0
    for i in range(reps(300)):
        p = mkp(rnd)
        p._set_proxy_options(**{k: rnd.choice(v) for k, v in OPTS.items() if rnd.random() < .5 and k != 'auto_delete'})
        cur, path = p, p._attributes
        live = [(p, dict(p._proxy_options))]
        for d in range(rnd.randrange(1, 5)):
            nm = rnd.choice(['a', 'b', 'result', 'x' * 30, 'é', 'method', 'shape'])
            q = getattr(cur, nm)
            path = path + (nm,)
            check(type(q) is ObjectProxy and state(q) == state(p)[:4] + (path,), state(q), path)
            check(q._proxy_options == cur._proxy_options, 'options', q._proxy_options, cur._proxy_options)
            check(q._proxy_options is not cur._proxy_options, 'shared options')
            live.append((q, dict(q._proxy_options)))
            k = rnd.choice(sorted(OPTS))
            who = rnd.randrange(len(live))
            v = rnd.choice(OPTS[k]) if k != 'auto_delete' else False
            live[who][0]._set_proxy_options(**{k: v})
            live[who][1][k] = v
            for w, (x, o) in enumerate(live):
                check(x._proxy_options == o, 'option of one proxy changed another', who, w, k)
            cur = q
            n += 1
        c = cur._copy()
        check(state(c) == state(cur) and c._proxy_options == cur._proxy_options and c is not cur, 'copy')
        c._set_proxy_options(timeout=77)
        check(cur._proxy_options == live[-1][1], 'copy shares options')
        cur._set_proxy_options(return_type='value')
        check(c._proxy_options['return_type'] == live[-1][1]['return_type'], 'copy shares options')
        o = dict(cur._proxy_options)
        raises(KeyError, lambda: cur._set_proxy_options(sync='off', nosuchoption=3, timeout=5))
        raises(KeyError, lambda: cur._set_proxy_options(timeouts=5))
        check(cur._proxy_options == o, 'KeyError changed options')
        raises(KeyError, lambda: ObjectProxy('tcp://127.0.0.1:1', 1, 1, 'T', (), bogus=1))
    return n


@scenario
def keeps_parent():
    import gc, weakref
    import random
    p = mkp(random.Random(3))
    q = p.a.b
    w = weakref.ref(p)
    del p
    gc.collect()
    check(w() is not None, 'parent not kept alive')
    c = q._copy()
    del q
    gc.collect()


@scenario
def immediate():
    with server({'n': Node()}) as c:
        p = c['n']
        p._set_proxy_options(defer_getattr=False)
        check(p.value == 4, 'value')
        e = raises(RemoteCallException, lambda: p.nosuch)
        check(e.type_str == 'AttributeError', e.type_str)
        x = p.a
        check(x.value._get_value() == 3 if isinstance(x.value, ObjectProxy) else x.value == 3, 'value 2')
        p = c['n']
        check(p.a.b.name.value._get_value() == 1, 'deferred chain')
        check(p.nosuch.at.all is not None, 'deferred')


@scenario
def copy_in_thread():
    with server({'n': Node()}) as c:
        p = c['n']
        p._set_proxy_options(timeout=7)
        for q in (p, p.a, p.a.b):
            v = q.value._get_value()
            k = q._copy()
            mine = q._client()

            def use():
                r = k.value._get_value()
                check(k._client() is not mine, 'copy uses the client of another thread')
                k._client().close()
                return r
            check(in_thread(use) == v, 'copy')


if __name__ == '__main__':
    main()
