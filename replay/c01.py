from rt import *
from world import *


def state(f):
    if not f.done():
        return 'pending'
    e = f.exception()
    return ('exc', type(e), e.type_str, list(e.tb_str)) if isinstance(e, RemoteCallException) else \
        ('exc', e) if e is not None else ('value', f.result())


@scenario
def histories(rnd):
    """Random interleavings of requests and replies (in any order, late, duplicate, unknown, errors)."""
    n = 0
    with scripted_client() as (c, s):
        for h in range(reps(40)):
            futs, want, seen = {}, {}, set()
            for step in range(25):
                x = rnd.random()
                if x < .4:
                    k = rnd.choice(['async', 'async', 'off'])
                    del s.sent[:]
                    f = c.send(rnd.choice(['get_obj', 'ping', 'call_obj']), opts={'obj': 1}, sync=k)
                    check(len(s.sent) == 1, 'one request')
                    rid = request(c, s.sent[0])['req_id']
                    if k == 'off':
                        check(f is None and rid == -1, 'off', rid)
                    else:
                        check(rid >= 0 and rid not in seen, 'id reused', rid)
                        seen.add(rid)
                        futs[rid], want[rid] = f, 'pending'
                else:
                    rid = rnd.choice(sorted(futs) + [-1, 10 ** 6, 0, 7, rnd.randrange(10 ** 9)])
                    if rnd.random() < .3:
                        v = ['T%d' % step, ['line1\n', 'line %d\n' % step]]
                        s.inbox.append(reply(c, rid, error=v))
                        out = ('exc', RemoteCallException, v[0], v[1])
                    else:
                        v = rnd.choice([None, 0, False, 'x', [1, 2], {'a': step}, step])
                        s.inbox.append(reply(c, rid, v))
                        out = ('value', v)
                    c._read_and_process_all()
                    if rid in futs and want[rid] == 'pending':
                        want[rid] = out
                for r in futs:
                    check(state(futs[r]) == want[r], 'request', r, 'is', state(futs[r]), 'should be', want[r])
                n += 1
            for r in list(futs):
                s.inbox.append(reply(c, r, 'late'))
            c._read_and_process_all()
            for r in futs:
                if want[r] != 'pending':
                    check(state(futs[r]) == want[r], 'late reply changed', r)
    return n


@scenario
def many_requests():
    """No id comes back while the request is pending, also after very many requests."""
    n = 140000 if THOROUGH else 70000
    with scripted_client() as (c, s):
        keep, ids = [], set()
        for i in range(n):
            f = c.ping(sync='async')
            keep.append(f)
            ids.add(int(s.sent.pop()[0]))
        check(len(ids) == n, 'ids used twice while pending', n - len(ids))
        for f in keep[:3] + keep[-3:]:
            s.inbox.append(reply(c, f.call_id, f.call_id))
        c._read_and_process_all()
        for f in keep[:3] + keep[-3:]:
            check(state(f) == ('value', f.call_id), 'reply')
    return n


@scenario
def very_late():
    """A request stays pending while thousands of later ones are answered."""
    with scripted_client() as (c, s):
        old = [c.ping(sync='async') for i in range(3)]
        for i in range(12000):
            f = c.ping(sync='async')
            s.inbox.append(reply(c, f.call_id, i))
            c._read_and_process_one(timeout=0)
            check(f.done() and f.result(0) == i, 'reply', i)
        for f in old:
            s.inbox.append(reply(c, f.call_id, ('old', f.call_id)))
            c._read_and_process_one(timeout=0)
            check(f.done(), 'an old request is forgotten', f.call_id)


@scenario
def every_action():
    """Ids of all kinds of requests."""
    with scripted_client() as (c, s):
        p = ObjectProxy(c.address, 3, 4, 'T', ('a',))
        s.on_idle = lambda sk: sk.sent and sk.inbox.append(reply(c, request(c, sk.sent[-1])['req_id'], len(sk.sent)))
        reqs = [lambda k: c.call_obj(p, (1,), sync=k), lambda k: c.get_obj(p, sync=k), lambda k: c.transfer([1], sync=k),
                lambda k: c._import('os', sync=k), lambda k: c.delete(p, sync=k), lambda k: c.ping(sync=k),
                lambda k: p._delete(sync=k), lambda k: c.send('nosuch', sync=k), lambda k: c['x'], lambda k: c.__setitem__('x', 1)]
        old_get = RPCClient.get_client
        RPCClient.get_client = staticmethod(lambda a: c)
        try:
            last = int(s.sent[-1][0]) if s.sent else -1
            for r in reqs:
                for k in ('sync', 'async', 'off'):
                    n = len(s.sent)
                    v = r(k)
                    if r is reqs[6] and k != 'off':
                        v = c.futures.get(int(s.sent[-1][0]))
                    check(len(s.sent) == n + 1, 'one request')
                    rid = request(c, s.sent[-1])['req_id']
                    if k == 'off' and r not in reqs[-2:]:
                        check(rid == -1 and v is None, 'no reply wanted', rid, v)
                        continue
                    check(rid >= 0 and rid > last, 'id', rid, last)
                    last = rid
                    if k == 'async' and r not in reqs[-2:] and r is not reqs[6]:
                        check(c.futures.get(rid) is v and v.result(1) == len(s.sent), 'future')
        finally:
            RPCClient.get_client = old_get


@scenario
def tracebacks():
    """Whatever the lines of a traceback look like, they arrive as they are."""
    with scripted_client() as (c, s):
        for t, tb in [('E', []), ('', ['']), ('ValueError', ['a\n', '\n', '  \n', '', 'b']), ('x.Y', ['  File "x"\n', '\t\n']),
                      ('E', ['same\n', 'same\n']), ('\u00e9', ['\u2028', 'z' * 100000]), ('E', ['%s {0} %(a)d\n'])]:
            f = c.ping(sync='async')
            s.inbox.append(reply(c, f.call_id, error=(t, tb)))
            e = raises(RemoteCallException, f.result, 1)
            check(e.type_str == t and list(e.tb_str) == tb, 'error is', e.type_str, e.tb_str, 'not', t, tb)
            check(str(e).endswith(''.join(tb)), 'text')


@scenario
def cancelling():
    with scripted_client() as (c, s):
        f, g = c.ping(sync='async'), c.ping(sync='async')
        check(not f.cancel() and not f.cancelled() and not f.done(), 'cancel() refused')
        s.inbox.append(reply(c, g.call_id, 1))
        s.inbox.append(reply(c, f.call_id, 2))
        check(f.result(1) == 2 and g.result(1) == 1, 'reply after cancel()')
        check(not f.cancel() and f.result(0) == 2, 'outcome stands')


@scenario
def waiting(rnd):
    """result() of one request while replies to others arrive first."""
    with scripted_client() as (c, s):
        for i in range(reps(60)):
            fs = [c.ping(sync='async') for j in range(4)]
            order = list(range(4))
            rnd.shuffle(order)
            for j in order:
                s.inbox.append(reply(c, fs[j].call_id, 'r%d' % fs[j].call_id))
                if rnd.random() < .3:
                    s.inbox.append(reply(c, fs[j].call_id, 'again'))
            for j in rnd.sample(range(4), 4):
                check(fs[j].result(timeout=1) == 'r%d' % fs[j].call_id, 'wrong result')
                check(fs[j].result(timeout=0) == 'r%d' % fs[j].call_id, 'second result')
            c._read_and_process_all()
        # sync request
        def idle(sock):
            if sock.sent:
                m = request(c, sock.sent.pop())
                sock.inbox += [reply(c, m['req_id'] + 1, 'next'), reply(c, m['req_id'] - 1, 'previous'),
                               reply(c, m['req_id'], 'mine')]
        s.on_idle = idle
        del s.sent[:]
        check(c.ping(timeout=2) == 'mine', 'sync')


@scenario
def timed_out_then_late():
    with scripted_client() as (c, s):
        f0 = c.ping(sync='async')
        raises(TimeoutError, lambda: c.ping(timeout=0.02))
        late = request(c, s.sent[-1])['req_id']
        f = c.ping(sync='async')
        check(f.call_id not in (late, f0.call_id), 'id of a timed out request reused')
        s.inbox.append(reply(c, late, 'late'))
        s.inbox.append(reply(c, f.call_id, 'good'))
        check(f.result(timeout=1) == 'good' and not f0.done(), 'late reply taken')


@scenario
def real_server():
    import time
    with server({'time': time}) as c:
        t = c['time']
        e = raises(RemoteCallException, lambda: t.sleep('x'))
        check(e.type_str == 'TypeError' and 'TypeError' in ''.join(e.tb_str) and 'TypeError' in str(e), e)
        fs = [c.send('get_obj', opts={'obj': i}, sync='async') for i in range(50)]
        bad = c.send('get_item', opts={'name': 'nosuch'}, sync='async')
        for i in reversed(range(50)):
            check(fs[i].result(timeout=5) == i, i)
        e = raises(RemoteCallException, lambda: bad.result(timeout=5))
        check(e.type_str == 'KeyError', e.type_str)


if __name__ == '__main__':
    main()
