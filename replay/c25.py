import os
import random
import sys
import threading
import time
os.environ.setdefault('QT_QPA_PLATFORM', 'offscreen')
import msgpack
import zmq
from rt import *
import teleprox
from teleprox import qt
qt.QApplication
from teleprox.qt_poll_thread import QtPollThread
from teleprox.qt_server import QtRPCServer
from teleprox.server import RPCServer
from teleprox.client import RPCClient

app = qt.QApplication.instance() or qt.QApplication([])
main_thread = threading.current_thread()
keep = []


class Server:
    """All that a poll thread needs of a server."""
    def __init__(self, process=None):
        self._socket = self.router = zmq.Context.instance().socket(zmq.ROUTER)
        self._socket.linger = 100
        self._socket.bind('tcp://127.0.0.1:*')
        self.address = self._socket.last_endpoint
        self.got = []
        self.threads = set()
        self.process = process
        keep.append(self)

    def _process_one(self, caller, msg):
        self.threads.add(threading.current_thread())
        self.got.append((caller, msg))
        if self.process:
            self.process(self, caller, msg)


class Peer:
    """A client that speaks for itself."""
    def __init__(self, addr, name):
        self.sock = zmq.Context.instance().socket(zmq.DEALER)
        self.sock.linger = 1000
        self.name = name
        self.sock.setsockopt(zmq.IDENTITY, name)
        self.sock.connect(addr)

    def ask(self, req_id=0, action='ping', rt='auto', ser='msgpack', opts=b''):
        self.sock.send_multipart([str(req_id).encode(), action.encode(), rt.encode(), ser.encode(), opts])

    def replies(self, n, wait=8, more=.05):
        out = []
        end = time.time() + wait
        while len(out) < n and time.time() < end:
            app.processEvents()
            if self.sock.poll(10):
                out.append(self.sock.recv_multipart())
        check(len(out) == n, 'replies', len(out), 'expected', n)
        if more:
            check(not self.sock.poll(int(more * 1000)), 'more replies than sent')
        check(all(len(x) == 1 for x in out), 'not single messages', out[:3])
        return [x[0] for x in out]


def spin(cond, wait=8, more=.05):
    end = time.time() + wait
    while not cond() and time.time() < end:
        app.processEvents()
        time.sleep(.002)
    ok = cond()
    end = time.time() + more
    while time.time() < end:
        app.processEvents()
        time.sleep(.002)
    return ok


def ended(t, wait=5):
    return t.wait(int(wait * 1000))


def made(process=None):
    s = Server(process)
    t = QtPollThread(s)
    keep.append(t)
    return s, t


def end(t):
    t.stop()
    check(ended(t), 'the thread goes on after it was asked to stop')


def blob(rng):
    return rng.choice([b'', b'\0', b'STOP', b'x', b'\xff\xfe\0', bytes(rng.getrandbits(8) for i in range(rng.choice([3, 100, 70000])))])


def request(rng, i):
    return dict(req_id=rng.choice([i, -1, 2 ** 40 + i]), action=rng.choice(['ping', 'call_obj', 'close', 'STOP', '\u00fc \u4e2d', '']),
                rt=rng.choice(['auto', 'value', 'proxy', '\u00e9']), ser=rng.choice(['msgpack', 'json', 'pickle', 'none?']), opts=blob(rng))


def as_seen(peer, r):
    return (peer.name, dict(req_id=r['req_id'], action=r['action'], return_type=r['rt'], ser_type=r['ser'], opts=r['opts']))


@scenario
def requests_as_they_arrived(rng):
    for before in (0, 1):
        s, t = made()
        peers = [Peer(s.address, n) for n in (b'a', b'h.p.t:x', b'stop', 'h\u00f6st.p'.encode(), b'STOPPED', b'b' * 200)]
        sent = {p.name: [] for p in peers}
        if not before:
            t.start()
        for i in range(reps(120)):
            p, r = rng.choice(peers), request(rng, i)
            sent[p.name].append(as_seen(p, r))
            p.ask(**r)
        if before:
            time.sleep(.2)                       # (all there at once)
            t.start()
        n = sum(map(len, sent.values()))
        check(spin(lambda: len(s.got) >= n) and len(s.got) == n, 'requests', len(s.got), 'sent', n)
        for p in peers:
            check([g for g in s.got if g[0] == p.name] == sent[p.name], 'requests of', p.name)
        check(s.threads == {main_thread}, 'threads', s.threads)
        end(t)


@scenario
def requests_while_the_application_is_busy(rng):
    s, t = made()
    t.start()
    p = Peer(s.address, b'h.p.t')
    rs = [request(rng, i) for i in range(60)]
    for r in rs:
        p.ask(**r)
    time.sleep(.4)                               # (the Qt thread does nothing)
    check(not s.got, 'requests processed elsewhere')
    check(spin(lambda: len(s.got) >= len(rs)) and s.got == [as_seen(p, r) for r in rs], 'requests')
    end(t)


@scenario
def replies_to_whom_they_name(rng):
    s, t = made()
    t.start()
    peers = [Peer(s.address, n) for n in (b'a', b'h.p.t:x', b'stop', b'STO', b'STOP ', b'0' * 100, b'\xc3\xa4')]
    for p in peers:
        p.ask()
    check(spin(lambda: len(s.got) >= len(peers)))
    want = {p.name: [] for p in peers}
    for i in range(reps(150)):
        p = rng.choice(peers)
        d = blob(rng)
        want[p.name].append(d)
        s._socket.send_multipart([p.name, d])
    for p in peers:
        check(p.replies(len(want[p.name])) == want[p.name], 'replies to', p.name)
    check(len(s.got) == len(peers), 'replies taken as requests')
    end(t)


@scenario
def contents_of_replies_do_not_matter(rng):
    """Replies travel as they are, whatever they look like, and those after them, too."""
    words = ['disconnect', 'STOP', 'stop', 'return', 'return', 'error', 'close', 'ping', 'event_type', '', 'server_ref', 'None', 'call_obj']
    msgs = [w.encode() for w in words]
    for w in words:
        msgs += [msgpack.dumps(dict(action='return', req_id=3, rval=x, error=None)) for x in (w, [w], {w: w}, {'action': w})]
        msgs += [msgpack.dumps(dict(action=w)), msgpack.dumps(dict(action=w, req_id=1))]
        msgs += [msgpack.dumps(dict(action='return', req_id=4, rval=None, error=(w, [w])))]
    msgs += [bytes([i]) * n for i in (0, 10, 32, 255) for n in (1, 2, 5)]
    s, t = made()
    t.start()
    peers = [Peer(s.address, n) for n in (b'a', b'disconnect', b'return')]
    for p in peers:
        p.ask()
    check(spin(lambda: len(s.got) >= len(peers)))
    for order in (msgs, msgs[::-1]):
        for p in peers:
            for m in order:
                s._socket.send_multipart([p.name, m])
        for p in peers:
            check(p.replies(len(order), more=.02) == order, 'replies to', p.name)
    for p in peers:                              # they are still served
        p.ask()
    check(spin(lambda: len(s.got) >= 2 * len(peers)), 'requests after replies')
    end(t)


@scenario
def replies_to_those_who_are_gone(rng):
    s, t = made()
    t.start()
    a, b = Peer(s.address, b'a.a'), Peer(s.address, b'b.b')
    a.ask()
    b.ask()
    check(spin(lambda: len(s.got) >= 2))
    a.sock.close()
    time.sleep(.1)
    for i in range(20):
        s._socket.send_multipart([rng.choice([b'a.a', b'never.seen']), b'x'])
        s._socket.send_multipart([b'b.b', b'%d' % i])
    check(b.replies(20) == [b'%d' % i for i in range(20)])
    end(t)


@scenario
def both_at_once(rng):
    def process(s, caller, msg):
        for i in range(msg['req_id'] % 3):
            s._socket.send_multipart([caller, b'%d/%d' % (msg['req_id'], i)])
    s, t = made(process)
    peers = [Peer(s.address, b'h.p.%d' % i) for i in range(4)]
    want = {p.name: [] for p in peers}
    n = reps(100)

    def ask():
        r = random.Random(5)
        for i in range(n):
            p = r.choice(peers)
            want[p.name] += [b'%d/%d' % (i, j) for j in range(i % 3)]
            p.ask(req_id=i)
            time.sleep(r.choice([0, 0, .001, .003]))
    t.start()
    th = threading.Thread(target=ask)
    th.start()
    check(spin(lambda: not th.is_alive() and len(s.got) >= n, 15) and len(s.got) == n, 'requests', len(s.got))
    for p in peers:
        check(p.replies(len(want[p.name])) == want[p.name], p.name)
    end(t)


@scenario
def replies_while_requests_keep_coming(rng):
    # a flood of requests does not keep replies back, or the other way round
    s, t = made()
    t.start()
    a, b = Peer(s.address, b'a.a'), Peer(s.address, b'b.b')
    b.ask()
    check(spin(lambda: len(s.got) >= 1))
    go = [True]

    def flood():
        i = 0
        while go[0]:
            a.ask(req_id=i, opts=b'x' * 100)
            i += 1
            if i % 20 == 0:
                time.sleep(.001)
    th = threading.Thread(target=flood)
    th.start()
    try:
        for i in range(50):
            s._socket.send_multipart([b'b.b', b'%d' % i])
        out = b.replies(50, more=0)
    finally:
        go[0] = False
        th.join()
    check(out == [b'%d' % i for i in range(50)])
    end(t)


class Recorded:
    """A socket that notes what it was given."""
    def __init__(self, sock):
        self.__dict__.update(sock=sock, sent=[])

    def __getattr__(self, n):
        if n.startswith('send'):
            def send(*a, **k):
                self.sent.append(a)
                return getattr(self.sock, n)(*a, **k)
            return send
        return getattr(self.sock, n)


@scenario
def stopping():
    for pending in (0, 1, 30):
        s, t = made()
        p = Peer(s.address, b'h.p.t')
        q = Peer(s.address, b'STO')
        p.ask()
        q.ask()
        t.start()
        check(spin(lambda: len(s.got) >= 2, more=0))
        for i in range(pending):
            s._socket.send_multipart([p.name, b'%d' % i])
        t0 = time.time()
        t.stop()
        check(ended(t), 'the thread goes on')
        check(p.replies(pending) == [b'%d' % i for i in range(pending)], 'replies sent before it was asked to stop')
        q.replies(0, more=.1)


@scenario
def goes_on_until_asked_to_stop():
    s, t = made()
    p = Peer(s.address, b'h.p.t')
    t.start()
    for i in range(4):
        time.sleep(.25)
        p.ask(req_id=i)
        check(spin(lambda: len(s.got) == i + 1), 'request', i)
        s._socket.send_multipart([p.name, b'%d' % i])
        check(p.replies(1) == [b'%d' % i])
    check(t.isRunning())
    end(t)


@scenario
def two_servers():
    (s1, t1), (s2, t2) = made(), made()
    p1, p2 = Peer(s1.address, b'h.p.t'), Peer(s2.address, b'h.p.t')
    t1.start()
    t2.start()
    for i in range(20):
        p1.ask(req_id=i)
        p2.ask(req_id=100 + i)
    check(spin(lambda: len(s1.got) == 20 and len(s2.got) == 20), len(s1.got), len(s2.got))
    check([m['req_id'] for c, m in s1.got] == list(range(20)) and [m['req_id'] for c, m in s2.got] == list(range(100, 120)))
    for i in range(20):
        s1._socket.send_multipart([b'h.p.t', b'1'])
        s2._socket.send_multipart([b'h.p.t', b'2'])
    check(p1.replies(20) == [b'1'] * 20 and p2.replies(20) == [b'2'] * 20)
    end(t1)
    p2.ask(req_id=7)
    check(spin(lambda: len(s2.got) == 21))
    end(t2)


class Thing:
    def __init__(self):
        self.seen = []

    def call(self, x):
        self.seen.append((x, threading.current_thread() is main_thread))
        return x

    def fail(self):
        raise KeyError('some key')


def in_thread(fn):
    """Run fn in another thread while this one runs the application."""
    out = []

    def run():
        try:
            out.append((True, fn()))
        except BaseException as e:
            out.append((False, e))
    th = threading.Thread(target=run, daemon=True)
    th.start()
    check(spin(lambda: not th.is_alive(), 15, more=0), 'no answer')
    ok, v = out[0]
    if not ok:
        raise v
    return v


@scenario
def a_server_of_the_application():
    s = QtRPCServer(quit_on_close=False)
    keep.append(s)
    s['thing'] = thing = Thing()
    s.run_forever()
    check(RPCServer.get_server() is s, 'not registered')

    def use():
        c = RPCClient(s.address)
        x = c['thing']
        out = [x.call(i) for i in range(20)]
        try:
            x.fail()
            out.append('no error')
        except teleprox.client.RemoteCallException as e:
            out.append('KeyError' in str(e))
        fs = [x.call(i, _sync='async') for i in range(20, 40)]
        out += [f.result(timeout=5) for f in fs]
        x.call('off', _sync='off')
        out.append(c.ping())
        return out
    out = in_thread(use)
    check(out[:20] == list(range(20)) and out[20] is True and out[21:41] == list(range(20, 40)), out)
    check(thing.seen == [(i, True) for i in range(40)] + [('off', True)], thing.seen)
    p = Peer(s.address, b'other.client')
    p.ask(req_id=3)
    check(msgpack.loads(p.replies(1)[0])['rval'] == 'pong')

    def close():
        return RPCClient.get_client(s.address).close_server(timeout=5)
    in_thread(close)
    check(not s.running())
    d = p.replies(1)
    check(msgpack.loads(d[0]) == {'action': 'disconnect'}, d)
    s.poll_thread.stop()
    check(ended(s.poll_thread))


@scenario
def closing_ends_the_application():
    quits = []
    real = qt.QApplication.quit
    for q in (True, False):
        s = QtRPCServer(quit_on_close=q)
        keep.append(s)
        s.run_forever()
        timer = []
        app.aboutToQuit.connect(lambda: quits.append(1))
        res = []

        def use():
            res.append(RPCClient.get_client(s.address).close_server(timeout=5))
        th = threading.Thread(target=use, daemon=True)
        th.start()
        t0 = time.time()
        from PyQt5.QtCore import QTimer
        w = QTimer()
        w.timeout.connect(lambda: time.time() > t0 + (8 if q else .8) and app.exit(5))
        w.start(50)
        r = app.exec_()
        check(r == (0 if q else 5), 'the application ended with', r, 'quit_on_close', q)
        check(spin(lambda: not th.is_alive(), 5), 'no reply to the one who closed the server')
        w.stop()
        s.poll_thread.stop()
        check(ended(s.poll_thread))


main()
