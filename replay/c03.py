import gc
import weakref

from rt import *
from world import *


class Obj:
    def __init__(self, n=0):
        self.n = n
        self.child = self

    def get(self):
        return self.n

    def me(self):
        return self


class EqAll(Obj):
    """Compares equal to everything and has a constant hash."""
    def __eq__(self, o):
        return True

    def __hash__(self):
        return 1


class Unhashable(Obj):
    __hash__ = None

    def __eq__(self, o):
        return True


def held(s, o):
    """Server-side view: is o held? (by what the server itself keeps)"""
    return any(v[0] is o for v in s._proxy_refs.values())


@scenario
def histories(rnd):
    """Random hand-outs and deletions checked against the set of live references."""
    n = 0
    for ser in ('msgpack', 'json'):
        s = RPCServer()
        s.run_lazy()
        try:
            for h in range(reps(12)):
                objs = [rnd.choice([Obj, EqAll, Unhashable])(i) for i in range(5)]
                for o in objs:
                    del o.child     # no cycle
                o = p = None
                wr = [weakref.ref(o) for o in objs]
                refs, dead, seen = [], [], set()
                for step in range(60):
                    k = rnd.random()
                    if k < .45 and any(o is not None for o in objs):
                        i = rnd.choice([i for i, o in enumerate(objs) if o is not None])
                        p = s.get_proxy(objs[i])
                        check((p._ref_id) not in seen, 'ref id reused', p._ref_id)
                        seen.add(p._ref_id)
                        refs.append((p, i))
                    elif k < .75 and refs:
                        p, i = refs.pop(rnd.randrange(len(refs)))
                        s.process_action('delete', {'obj_id': p._obj_id, 'ref_id': p._ref_id}, 'auto', b'x')
                        dead.append((p, i))
                    elif k < .85:
                        i = rnd.randrange(5)
                        objs[i] = None      # only references keep it now
                    elif dead:
                        p, i = rnd.choice(dead)
                        raises(Exception, s.process_action, 'delete', {'obj_id': p._obj_id, 'ref_id': p._ref_id}, 'auto', b'x')
                        raises(Exception, s.unwrap_proxy, p)
                    for p, i in refs:
                        o = s.unwrap_proxy(p)
                        check(o is wr[i]() and o.n == i, 'reference lost or wrong', i)
                    o = p = None
                    for i in range(5):
                        alive = wr[i]() is not None
                        want = objs[i] is not None or any(j == i for _, j in refs)
                        check(alive == want, 'object', i, 'alive', alive, 'should be', want)
                    n += 1
                for p, i in refs:
                    s.process_action('delete', {'obj_id': p._obj_id, 'ref_id': p._ref_id}, 'auto', b'x')
                del objs
                check(not s._proxy_refs, 'table not empty')
        finally:
            RPCServer.unregister_server(s)
            s._closed = True
            s._socket.close()
    return n


@scenario
def over_the_wire(rnd):
    with server({'o': Obj(5)}) as c:
        s = c.server_
        o = s['o']
        a, b = c['o'], c['o']
        check(a._ref_id != b._ref_id and a._obj_id == b._obj_id, 'ids')
        kids = [a.child, a.child.child, a.get, a._copy(), a.child._copy()]
        for k in kids:
            k._set_proxy_options(auto_delete=True)
        del kids, k
        gc.collect()
        check(a.get() == 5, 'derived proxies released the reference')
        a._set_proxy_options(auto_delete=True)
        x = a.child.child.get
        check(x() == 5, 'derived')
        del x
        gc.collect()
        check(c.ping() == 'pong' and a.get() == 5, 'derived proxies of an auto_delete proxy')
        cp = a._copy()
        del cp
        gc.collect()
        check(a.get() == 5, 'copy released the reference')
        child = a.child
        b._delete()
        raises(RemoteCallException, lambda: b.get())
        check(child.get() == 5 and a.get() == 5, 'other reference affected')
        del a
        gc.collect()
        check(child.get() == 5, 'parent released while child is alive')
        del child
        gc.collect()
        check(c.ping() == 'pong', 'ping')
        check(not held(s, o), 'object still held')
        d = c['o']
        raises(RemoteCallException, lambda: c.send('delete', opts={'obj_id': d._obj_id, 'ref_id': d._ref_id + 1000}))
        check(d.get() == 5, 'reference lost')
        e = raises(RemoteCallException, lambda: (b.get()))
        d._delete()
        raises(RemoteCallException, lambda: d.get())
        raises(RemoteCallException, lambda: d._delete())


@scenario
def requests_keep_references(rnd):
    """Requests of all kinds, failing or not, take no reference away."""
    class Keeper(Obj):
        def boom(self, *a):
            raise ValueError('x')
    with server({'o': Keeper(1)}) as c:
        s = c.server_
        ps = [c['o'] for i in range(4)]
        for i in range(reps(40)):
            k = rnd.randrange(7)
            p = rnd.choice(ps)
            if k == 0:
                raises(RemoteCallException, lambda: p.boom(ps[0]))
            elif k == 1:
                p.me()._delete()
            elif k == 2:
                raises(RemoteCallException, lambda: p.nosuch())
            elif k == 3:
                c['z'] = p
                c['z']._delete()
            elif k == 4:
                raises(RemoteCallException, lambda: c['nosuch'])
            elif k == 5:
                c.transfer(p)._delete()
            else:
                c._import('os.path')
            for q in ps:
                check(q.get() == 1, 'reference lost after', k)
            check(len([1 for v in s._proxy_refs.values() if v[0] is s['o']]) == 1, 'entries')


@scenario
def default_auto_delete():
    """auto_delete as a default option of a client: its references go, others stay."""
    loc = RPCServer()
    loc.run_lazy()
    try:
        class Holder:
            def keep(self, x):
                self.x = x

            def give(self):
                return self.x
        with server({'h': Holder(), 'o': Obj(3)}) as c:
            c.default_proxy_options['auto_delete'] = True
            h = c['h']
            t = Obj(7)
            h.keep(loc.get_proxy(t))
            for i in range(3):
                check(h.give() is t, 'object came home')
                gc.collect()
                check(len(loc._proxy_refs) == 1, 'reference released by its return')
            o = c['o']
            check(o.get() == 3, 'get')
            del o
            gc.collect()
            check(c.ping() == 'pong' and not held(c.server_, c.server_['o']), 'auto_delete')
            del h
            gc.collect()
    finally:
        RPCServer.unregister_server(loc)
        loc._closed = True
        loc._socket.close()


if __name__ == '__main__':
    main()
