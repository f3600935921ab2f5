from rt import *
from world import *


def strict(r, m):
    """Decode with exactly the serializer of this socket."""
    d = r.ser.loads(m, server=None, proxy_opts={})
    if r.ser.type == 'json':
        check(m[:1] == b'{', 'not json', m)
    return d


def known(s, specs):
    out = []
    for i, ser in enumerate(specs):
        r = Raw(s.address, ser=ser)
        check(r.rpc('ping')['rval'] == 'pong', 'ping')
        out.append(r)
    return out


def told(r, n=1):
    ms = []
    while r.sock.poll(3000 if len(ms) < n else 150):
        ms.append(strict(r, r.sock.recv()))
    check(ms == [{'action': 'disconnect'}] * n, 'notices', ms, r.ser.type)


def gone(s):
    check(s.running() is False, 'still running')
    check(s not in RPCServer.servers_by_thread.values(), 'still registered')


@scenario
def broadcast(rnd):
    for rep in range(reps(6)):
        s = RPCServer()
        s.run_in_thread()
        mix = [rnd.choice(['json', 'msgpack']) for i in range(rnd.randrange(1, 9))]
        if rep == 0:
            mix = ['json', 'msgpack', 'json', 'msgpack', 'msgpack']
        rs = known(s, mix)
        mute = Raw(s.address)
        a = rs.pop(rnd.randrange(len(rs)))
        if rep % 3 == 2:
            a.ask('close', rid=-1)
            s._run_thread.join(5)
            check(a.quiet(), 'reply to a caller that wants none')
        else:
            m = a.rpc('close')
            check(m['action'] == 'return' and m['rval'] is True and m['error'] is None, m)
            check(a.quiet(), 'the caller is told twice')
        for r in rs:
            told(r)
        check(mute.quiet(), 'a client never heard from')
        s._run_thread.join(5)
        gone(s)
        for r in rs + [a, mute]:
            r.close()


@scenario
def after_other_requests():
    """What clients did before does not matter: failures, no reply wanted, unknown names, switching."""
    s = RPCServer()
    s.run_in_thread()
    rs = known(s, ['msgpack', 'json', 'json', 'msgpack'])
    a, b, c, d = rs
    check(a.rpc('get_item', {'name': 'nosuch'})['error'], 'error')
    b.ask('ping', rid=-1)
    check(c.rpc('nosuch')['error'], 'error')
    check(b.rpc('ping')['rval'] == 'pong', 'ping')
    e = Raw(s.address, ser='json')
    e.ask('get_item', raw=b'\xff\xff', rid=-1)
    time.sleep(.2)
    m = d.rpc('close')
    check(m['rval'] is True, m)
    for r in (a, b, c, e):
        told(r)
    gone(s)
    for r in rs + [e]:
        r.close()


@scenario
def close_requests_that_cannot_be_read():
    """They fail, and the server goes on; whoever closes it later gets it closed for everyone."""
    for k in range(4):
        s = RPCServer()
        s.run_in_thread()
        rs = known(s, ['msgpack', 'json', 'msgpack'])
        a, b, c = rs
        if k == 0:
            a.ask('close', ser='nosuch')
        elif k == 1:
            a.ask('close', raw=b'\xff\xff')
        elif k == 2:
            b.ask('close', raw=b'{"x": ')
        else:
            a.ask('close', ser='nosuch', rid=-1)
        if k < 3:
            m = (b if k == 2 else a).read()
            check(m is not None and m['error'], 'no error', m)
        for r in rs:
            m = r.rpc('ping')
            check(m is not None and m['rval'] == 'pong', 'the server has stopped', k, m)
        check(s.running() and s in RPCServer.servers_by_thread.values(), 'not running')
        check(c.rpc('close')['rval'] is True, 'close')
        told(a)
        told(b)
        s._run_thread.join(5)
        gone(s)
        for r in rs:
            r.close()


@scenario
def server_closes_itself():
    for how in range(2):
        s = RPCServer()
        s.run_in_thread()
        rs = known(s, ['msgpack', 'json', 'msgpack'])
        if how == 0:
            s.close()
        else:
            in_thread(s.close)
        s._run_thread.join(5)
        for r in rs:
            told(r)
            r.close()
        gone(s)


def refused(c, s, n):
    check(c.disconnected(), 'disconnected()')
    for f in (lambda: c.send('ping', sync='async'), lambda: c.ping(), lambda: c['x'], lambda: c._import('os'),
              lambda: c.send('ping', sync='off'), lambda: c.send('close', sync='async'), lambda: c.ping(sync='off')):
        raises(RuntimeError, f)
    check(c.close_server() is True and c.close_server(sync='sync', timeout=.1) is True, 'close_server')
    check(len(s.sent) == n, 'something was sent', s.sent[n:])
    check(c.disconnected(), 'disconnected() again')


@scenario
def notice_with_pending(rnd):
    for n in (0, 1, 2, 7):
        for via in range(3):
            with scripted_client() as (c, s):
                fs = [c.send('ping', sync='async') for i in range(n)]
                again = []

                def react(f):
                    try:
                        again.append(c.send('ping', sync='async'))
                    except RuntimeError as e:
                        again.append(e)
                if n == 7:
                    fs[3].add_done_callback(react)
                    s.inbox.append(reply(c, request(c, s.sent[2])['req_id'], 'early'))
                s.inbox.append(reply(c, None, action='disconnect'))
                sent = len(s.sent)
                if via == 0:
                    check(c.disconnected(), 'disconnected()')
                elif via == 1:
                    while s.inbox:
                        c._read_and_process_one(timeout=0)
                elif n:
                    t = time.time()
                    raises(RuntimeError, fs[0].result, 5)
                    check(time.time() - t < 3, 'waits in vain')
                else:
                    raises(RuntimeError, c.ping)
                    sent = len(s.sent)
                for i, f in enumerate(fs):
                    if n == 7 and i == 2:
                        check(f.result(0) == 'early', 'answered before')
                    else:
                        check(f.done(), 'pending request not failed', i)
                        e = raises(RuntimeError, f.result, 0)
                        check(not isinstance(e, RemoteCallException), e)
                if n == 7:
                    check(len(again) == 1 and isinstance(again[0], RuntimeError), 'reaction', again)
                refused(c, s, sent)
                check(not len(c.futures), 'pending table')


@scenario
def behind_other_messages():
    """A notice behind many other messages is seen."""
    for n in (1, 99, 100, 101, 150, 1000, 5000):
        with scripted_client() as (c, s):
            f = c.send('ping', sync='async')
            s.inbox += [reply(c, 10 ** 6 + i, 'other') for i in range(n)] + [reply(c, None, action='disconnect')]
            sent = len(s.sent)
            check(c.disconnected() is True, 'notice behind', n, 'messages')
            raises(RuntimeError, f.result, 0)
            refused(c, s, sent)


@scenario
def unread_notice():
    for how in range(3):
        with scripted_client() as (c, s):
            f = c.send('ping', sync='async')
            if how:
                s.inbox += [reply(c, 77 + i, 'other') for i in range(how)]
            s.inbox.append(reply(c, None, action='disconnect'))
            sent = len(s.sent)
            check(c.close_server(timeout=.2) is True, 'close_server')
            raises(RuntimeError, f.result, 0)
            refused(c, s, sent)


@scenario
def broken_connection():
    with scripted_client() as (c, s):
        sent = len(s.sent)
        s.closed = True
        check(c.disconnected() is True, 'disconnected()')
        s.closed = False
        refused(c, s, sent)


@scenario
def own_close():
    for rv in (True, False, None, 'x', 1):
        for n in (0, 3):
            with scripted_client() as (c, s):
                fs = [c.send('ping', sync='async') for i in range(n)]
                s.on_idle = lambda sk: len(sk.sent) == n + 1 and sk.inbox.append(reply(c, request(c, sk.sent[-1])['req_id'], rv))
                r = c.close_server()
                s.on_idle = None
                check(r == rv and type(r) is type(rv), 'close_server returns', r)
                if rv is True:
                    for f in fs:
                        check(f.done(), 'pending request not failed')
                        raises(RuntimeError, f.result, 0)
                    refused(c, s, n + 1)
                else:
                    check(not c.disconnected(), 'still connected')
                    check(not any(f.done() for f in fs), 'others stay pending')
    with scripted_client() as (c, s):
        f0 = c.send('ping', sync='async')
        f = c.send('close', sync='async')
        s.inbox.append(reply(c, request(c, s.sent[-1])['req_id'], error=('KeyError', ['x'])))
        raises(RemoteCallException, f.result, 1)
        check(not f0.done() and not c.disconnected(), 'refused')
        f2 = c.send('close', sync='async')
        s.inbox.append(reply(c, None, action='disconnect'))
        raises(RuntimeError, f2.result, 1)
        raises(RuntimeError, f0.result, 0)
        refused(c, s, 3)


@scenario
def real_clients():
    """Four threads with clients of their own; one of them closes."""
    s = RPCServer()
    s.run_in_thread()
    box, up, go = [], threading.Barrier(5), threading.Event()

    def user(i):
        c = RPCClient(s.address, serializer='json' if i % 2 else 'msgpack')
        up.wait(10)
        go.wait(10)
        t = time.time()
        while not c.disconnected() and time.time() - t < 5:
            time.sleep(.02)
        out = [c.disconnected()]
        try:
            c.ping()
            out.append('answered')
        except RuntimeError:
            out.append('refused')
        except BaseException as e:
            out.append(repr(e))
        out.append(c.close_server())
        c.close()
        box.append(out)
    ts = [threading.Thread(target=user, args=(i,), daemon=True) for i in range(4)]
    for t in ts:
        t.start()
    me = RPCClient(s.address)
    up.wait(10)
    check(me.close_server() is True, 'close_server')
    go.set()
    for t in ts:
        t.join(15)
    check(box == [[True, 'refused', True]] * 4, box)
    check(me.disconnected(), 'own')
    raises(RuntimeError, me.ping)
    me.close()
    s._run_thread.join(5)
    gone(s)


@scenario
def request_behind_the_close():
    """A request made while the server is asked to close is answered or failed by the notice."""
    s = RPCServer()
    s.run_in_thread()
    s.obj = None

    class Slow:
        def wait(self):
            time.sleep(.5)
            return 7
    s['slow'] = Slow()
    out = []

    def other():
        c = RPCClient(s.address)
        slow = c['slow']
        ready.set()
        f = slow.wait(_sync='async')
        done_sending.wait(5)
        g = c.send('ping', sync='async')
        out.append(f.result(5))
        try:
            out.append(g.result(5))
        except RuntimeError as e:
            out.append(type(e).__name__)
        c.close()
    ready, done_sending = threading.Event(), threading.Event()
    t = threading.Thread(target=other, daemon=True)
    me = RPCClient(s.address)
    t.start()
    ready.wait(5)
    time.sleep(.2)
    f = me.send('close', sync='async')
    time.sleep(.1)
    done_sending.set()
    check(f.result(5) is True, 'close')
    t.join(10)
    check(out in ([7, 'RuntimeError'], [7, 'pong']), out)
    me.close()
    gone(s)


if __name__ == '__main__':
    main()
