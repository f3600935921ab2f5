import json
import logging
import os
import random
import socket
import sys
import threading
import time
import zmq
from rt import *
import teleprox.log.remote as remote
from teleprox.log.remote import LogSender, LogServer

remote_print = remote.traceback.print_exc


class Pull:
    """A server that only collects what is sent."""
    def __init__(self):
        self.sock = zmq.Context.instance().socket(zmq.PULL)
        self.sock.linger = 0
        self.sock.bind('tcp://127.0.0.1:*')
        self.addr = self.sock.last_endpoint.decode()

    def get(self, n=1, wait=5, more=.15):
        """n messages, and there are no more."""
        out = []
        end = time.time() + wait
        while len(out) < n and time.time() < end:
            if self.sock.poll(max(0, int(1000 * (end - time.time())))):
                out.append(self.sock.recv())
        check(len(out) == n, 'messages', len(out), 'expected', n)
        check(not self.sock.poll(int(more * 1000)), 'more messages than records')
        return [json.loads(m) for m in out]


class Bad:
    def __repr__(self):
        raise RuntimeError('no repr')
    __str__ = __repr__


class Loud:
    def __repr__(self):
        return '<loud>'


def rec(msg='hello', args=(), level=20, exc=None, **extra):
    r = logging.getLogger('some.logger').makeRecord('some.logger', level, 'path/file.py', 12, msg, args, exc, 'func', extra or None)
    return r


def roundtrip(*recs, **k):
    p = Pull()
    s = LogSender(p.addr)
    for r in recs:
        s.handle(r)
    out = p.get(len(recs), **k)
    s.close()
    return out


def error():
    try:
        raise ValueError('some error')
    except ValueError:
        return sys.exc_info()


@scenario
def plain_records():
    rs = [rec('m%d' % i, level=l) for i, l in enumerate((10, 20, 30, 40, 50, 5, 60, 25) * 5)]
    out = roundtrip(*rs)
    check([d['msg'] for d in out] == [r.msg for r in rs], 'order or contents')
    for r, d in zip(rs, out):
        for n in ('name', 'levelno', 'levelname', 'pathname', 'filename', 'module', 'lineno', 'funcName', 'created', 'thread',
                  'threadName', 'process', 'processName'):
            check(d[n] == getattr(r, n), n, d[n], getattr(r, n))


@scenario
def formatted_messages():
    cases = [('a %s b %d', ('x', 3)), ('%r', (Loud(),)), ('%(k)s', ({'k': 1},)), ('100%', ()), ('50% %%', ()), (Loud(), ()), (12, ()),
             ('%s %s', ([1, 2], {'a': Loud()})), ('%s', (b'\xff',)), ('\u00e4\u20ac %s', ('\u4e2d',)), ('%s', (None,)), ('', ()),
             ('%s', (float('nan'),)), ('%5.2f|%-5s|%05d', (1.234, 'x', 42)), ('%s', ((1, 2),))]
    for i, (m, a) in enumerate(cases):
        r = rec(m, a)
        d = roundtrip(r, more=.02)[0]
        check(d['msg'] == rec(m, a).getMessage(), m, a, d['msg'])
        check(not d.get('args'), 'arguments sent along', d.get('args'))
        check(logging.makeLogRecord(d).getMessage() == rec(m, a).getMessage(), 'formatted again')


@scenario
def messages_that_cannot_be_formatted():
    cases = [('%d', ('x',)), ('%s', ()), ('%s %s', (1,)), ('a', (1,)), (Bad(), ()), ('%s', (Bad(),)), ('%q', (1,)), ('%(x)s', ({'y': 1},))]
    p = Pull()
    s = LogSender(p.addr)
    for m, a in cases:
        s.handle(rec(m, a))
        s.handle(rec('after'))
    out = p.get(2 * len(cases))
    check([d['msg'] for d in out[1::2]] == ['after'] * len(cases), 'later records', [d['msg'] for d in out])
    check(all(isinstance(d['msg'], str) for d in out))
    for (m, a), d in zip(cases, out[::2]):
        if isinstance(m, str):
            check(m in d['msg'], 'message lost', m, d['msg'])
    s.close()


@scenario
def exceptions():
    e = error()
    for r in (rec(exc=e), rec(exc=(None, None, None)), rec(exc=(Bad, Bad(), None))):
        d, d2 = roundtrip(r, rec('after'))
        check(d2['msg'] == 'after')
        check(d['msg'] == 'hello' and not d['exc_info'] and isinstance(d['exc_text'], str) and d['exc_text'], d)
        logging.Formatter().format(logging.makeLogRecord(d))
    d = roundtrip(rec(exc=e))[0]
    check('ValueError: some error' in d['exc_text'] and 'in error' in d['exc_text'], d['exc_text'])
    r = rec(exc=e)
    r.exc_text = 'already formatted'
    check(roundtrip(r)[0]['exc_text'] == 'already formatted')
    r = rec()
    check(not roundtrip(r)[0].get('exc_text'))


@scenario
def extra_attributes():
    c = []
    c.append(c)
    cases = dict(a=1, b='x', c=[1, {'d': None}], d=Loud(), e=Bad(), f=b'\xff', g={1: 2}, h={(1, 2): 3}, i=c, j=10 ** 5000, k=float('inf'),
                 l={1, 2}, m=lambda: 0, n=object, o='\ud800', p=[Bad()], q=threading.Lock(), r={'x': {'y': {(1,): Bad()}}}, s=None)
    p = Pull()
    s = LogSender(p.addr)
    for k, v in cases.items():
        s.handle(rec(k, **{k: v}))
        s.handle(rec('after'))
    s.handle(rec('all', **cases))
    out = p.get(2 * len(cases) + 1)
    for (k, v), d, d2 in zip(cases.items(), out[::2], out[1::2]):
        check(d['msg'] == k and k in d, 'attribute', k, 'of', sorted(d))
        check(d2['msg'] == 'after')
    d = out[-1]
    check(not set(cases) - set(d), 'attributes lost', set(cases) - set(d))
    check(d['a'] == 1 and d['b'] == 'x' and d['c'] == [1, {'d': None}] and d['s'] is None and d['o'] == '\ud800', d)
    check('loud' in d['d'], d['d'])
    check(d['levelno'] == 20 and d['msg'] == 'all' and d['process_name'])
    s.close()


@scenario
def attributes_named_like_the_origin():
    d = roundtrip(rec(host_name='x', process_name='y', thread_name='z'))[0]
    check(d['host_name'] == remote.get_host_name() and d['process_name'] == remote.get_process_name(), d)


@scenario
def changed_after_it_was_handed_over():
    for i in range(reps(20)):
        p = Pull()
        s = LogSender(p.addr)
        l, x = [1], {'a': 1}
        rs = []
        for j in range(50):
            r = rec('m%d %s', (j, l), x=x)
            s.handle(r)
            l[0] = r.args = r.msg = None
            l[0], x['a'] = 1, 1
            rs.append(r)
        l[0], x['a'] = 'changed', 'changed'
        out = p.get(50, more=.01)
        check([d['msg'] for d in out] == ['m%d [1]' % j for j in range(50)], [d['msg'] for d in out])
        check(all(d['x'] == {'a': 1} for d in out), 'attribute changed')
        s.close()


@scenario
def origin():
    old = remote.host_name, remote.process_name
    try:
        remote.set_host_name('the host')
        remote.set_process_name('the process')
        check((remote.get_host_name(), remote.get_process_name()) == ('the host', 'the process'))
        p = Pull()
        s = LogSender(p.addr)

        def run(named):
            if named:
                remote.set_thread_name(named)
                check(remote.get_thread_name() == named)
            s.handle(rec('from thread'))
        for named in ('worker', None):
            t = threading.Thread(target=run, args=(named,), name='py-name')
            t.start()
            t.join()
            d = p.get(1)[0]
            check(d['host_name'] == 'the host' and d['process_name'] == 'the process', d)
            check(d['thread_name'] == (named or 'py-name') or (not named and d['thread_name'] in ('worker', 'py-name')), named, d['thread_name'])
        s.close()
    finally:
        remote.host_name, remote.process_name = old
    remote.set_thread_name('n1', 123456)
    remote.set_thread_name('n2', 123457)
    check(remote.get_thread_name(123456) == 'n1' and remote.get_thread_name(123457) == 'n2')
    check(isinstance(remote.get_thread_name(99), str))


@scenario
def names_at_the_time_of_the_record():
    old = remote.process_name
    try:
        for i in range(reps(5)):
            p = Pull()
            s = LogSender(p.addr)
            remote.set_process_name('before')
            for j in range(20):
                s.handle(rec('a'))
            remote.set_process_name('after')
            s.handle(rec('b'))
            out = p.get(21, more=.01)
            check([d['process_name'] for d in out] == ['before'] * 20 + ['after'], [d['process_name'] for d in out])
            s.close()
    finally:
        remote.process_name = old


@scenario
def handed_over_by_another_thread():
    """A record carries the name of the thread that made it, also if another one hands it over (as a queue listener does)."""
    recs = []

    def run(i, go):
        remote.set_thread_name('maker %d' % i)
        recs.append((i, rec('from %d' % i)))
        go.wait(20)
    go = threading.Event()
    ts = [threading.Thread(target=run, args=(i, go), name='T%d' % i) for i in range(4)]
    plain = []
    ts.append(threading.Thread(target=lambda: (plain.append(rec('plain')), go.wait(20)), name='no name set'))
    old = dict(remote.thread_names)
    try:
        for t in ts:
            t.start()
        end = time.time() + 10
        while (len(recs) < 4 or not plain) and time.time() < end:
            time.sleep(.005)
        remote.set_thread_name('the one that hands over')
        p = Pull()
        s = LogSender(p.addr)
        todo = [('maker %d' % i, r) for i, r in recs] + [('no name set', plain[0]), ('the one that hands over', rec('own'))]
        for _, r in todo:
            s.handle(r)
        th = threading.Thread(target=lambda: [s.handle(r) for _, r in todo])
        th.start()
        th.join()
        out = p.get(2 * len(todo))
        s.close()
        for (want, r), d in zip(todo * 2, out):
            check(d['thread_name'] == want and d['thread'] == r.thread, 'thread name', d['thread_name'], 'expected', want)
    finally:
        go.set()
        for t in ts:
            t.join()
        remote.thread_names.clear()
        remote.thread_names.update(old)


@scenario
def many_threads():
    p = Pull()
    s = LogSender(p.addr)
    n, m = 8, reps(100, 500)

    def run(i):
        for j in range(m):
            s.handle(rec('%d.%d', (i, j)))
    ts = [threading.Thread(target=run, args=(i,)) for i in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    out = [d['msg'] for d in p.get(n * m, wait=20)]
    for i in range(n):
        mine = [x for x in out if x.startswith('%d.' % i)]
        check(mine == ['%d.%d' % (i, j) for j in range(m)], 'thread', i, mine[:5])
    s.close()


@scenario
def closing_sends_what_was_given():
    for i in range(reps(5)):
        p = Pull()
        s = LogSender(p.addr)
        for j in range(300):
            s.handle(rec('m%d' % j))
        s.close()
        out = p.get(300, more=.01)
        check([d['msg'] for d in out] == ['m%d' % j for j in range(300)], 'order')
        check(not s.thread.is_alive(), 'the thread goes on')


@scenario
def a_server_that_starts_later():
    # more records than fit the buffers of a connection
    t = Pull()
    addr = t.addr
    t.sock.close()
    s = LogSender(addr)
    n = reps(4000)
    for j in range(n):
        s.handle(rec('m%d' % j))
    time.sleep(.3)
    p = Pull.__new__(Pull)
    p.sock = zmq.Context.instance().socket(zmq.PULL)
    p.sock.linger = 0
    for i in range(40):
        try:
            p.sock.bind(addr)
            break
        except zmq.ZMQError:
            time.sleep(.1)
    out = p.get(n, more=.05, wait=15)
    check([d['msg'] for d in out] == ['m%d' % j for j in range(n)], 'order')
    s.close()


class Slow(Pull):
    """A server that has not read anything yet, and has no room."""
    def __init__(self):
        self.sock = zmq.Context.instance().socket(zmq.PULL)
        self.sock.linger = 0
        self.sock.rcvhwm = 1
        self.sock.rcvbuf = 4096
        self.sock.bind('tcp://127.0.0.1:*')
        self.addr = self.sock.last_endpoint.decode()


@scenario
def closing_while_the_server_is_busy():
    for how in (0, 1):
        p = Slow()
        s = LogSender(p.addr)
        for j in range(40):
            s.handle(rec('m%d' % j + 'x' * 300000))
        if how == 0:
            s.close()
        else:
            q = Pull()
            s.connect(q.addr)
            s.handle(rec('last'))
            q.get(1)
        out = p.get(40, more=.01)
        check([d['msg'].rstrip('x') for d in out] == ['m%d' % j for j in range(40)], 'order')
        if how:
            s.close()


@scenario
def close_again():
    p = Pull()
    s = LogSender(p.addr)
    s.handle(rec())
    s.close()
    s.close()
    p.get(1)


@scenario
def connecting_to_another_server():
    for i in range(reps(5)):
        a, b = Pull(), Pull()
        s = LogSender(a.addr)
        for j in range(50):
            s.handle(rec('a%d' % j))
        s.connect(b.addr)
        for j in range(50):
            s.handle(rec('b%d' % j))
        check([d['msg'] for d in a.get(50, more=.05)] == ['a%d' % j for j in range(50)])
        check([d['msg'] for d in b.get(50, more=.05)] == ['b%d' % j for j in range(50)])
        s.close()


@scenario
def connected_later():
    s = LogSender()
    p = Pull()
    s.connect(p.addr)
    s.handle(rec('x'))
    check(p.get(1)[0]['msg'] == 'x')
    s.close()


@scenario
def attached_to_a_logger():
    for lg in ('c19.some', logging.getLogger('c19.other')):
        p = Pull()
        s = LogSender(p.addr, lg)
        l = logging.getLogger('c19.some.child' if isinstance(lg, str) else 'c19.other.child')
        l.propagate = True
        logging.getLogger('c19').setLevel(1)
        for i in range(5):
            l.info('m%d', i)
        l.log(5, 'low')
        l.error('err', extra={'x': 1})
        check([d['msg'] for d in p.get(7)] == ['m%d' % i for i in range(5)] + ['low', 'err'])
        s.close()
        logging.getLogger('c19.some').handlers[:] = []


@scenario
def global_sender():
    a, b = Pull(), Pull()
    root = logging.getLogger()
    old, lv = list(root.handlers), root.level
    try:
        root.setLevel(20)
        remote.set_logger_address(a.addr)
        check(remote.get_logger_address() == a.addr)
        logging.getLogger('c19x').warning('one')
        check([d['msg'] for d in a.get(1)] == ['one'])
        remote.set_logger_address(b.addr)
        check(remote.get_logger_address() == b.addr)
        logging.getLogger('c19x').warning('two')
        check([d['msg'] for d in b.get(1)] == ['two'])
        a.get(0)
        remote.sender.close()
    finally:
        root.handlers[:], root.level = old, lv


# ---------------------------------------------------------------- the server
class Sink(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self, 0)
        self.got = []
        self.fail = ()

    def emit(self, r):
        self.got.append(r)
        if r.getMessage() in self.fail:
            raise RuntimeError('handler fails')


def server(level=1, **k):
    lg = logging.Logger('srv%d' % random.randrange(10 ** 9), level)
    lg.propagate = False
    sink = Sink()
    lg.addHandler(sink)
    s = LogServer(lg, **k)
    s.sink, s.lg = sink, lg
    return s


def push(s, *msgs):
    k = zmq.Context.instance().socket(zmq.PUSH)
    k.linger = 5000
    k.connect(s.address)
    for m in msgs:
        k.send(m if isinstance(m, bytes) else json.dumps(m).encode())
    return k


def settle(s, n, wait=5):
    end = time.time() + wait
    while len(s.sink.got) < n and time.time() < end:
        time.sleep(.005)
    time.sleep(.1)
    return [r.getMessage() for r in s.sink.got]


@scenario
def filtered_by_level():
    for level in (0, 5, 20, 30, 50, 60):
        for filt in (True, False, None):
            s = server(level, **({} if filt is None else {'filter_by_level': filt}))
            lv = [1, 4, 5, 6, 10, 19, 20, 21, 29, 30, 31, 40, 49, 50, 51, 60, 70]
            k = push(s, *[dict(msg='m%d' % l, levelno=l) for l in lv])
            k2 = push(s)
            want = ['m%d' % l for l in lv if filt is False or l >= s.lg.getEffectiveLevel()]
            got = settle(s, len(want))
            check(got == want, level, filt, got, want)
            k.close(), k2.close()
            s.stop()


@scenario
def inherited_level():
    parent = logging.getLogger('c19lvl')
    parent.setLevel(40)
    parent.propagate = False
    s = server()
    lg = logging.getLogger('c19lvl.child')
    lg.setLevel(0)
    lg.addHandler(s.sink)
    s.logger = lg
    k = push(s, dict(msg='a', levelno=30), dict(msg='b', levelno=40), dict(msg='c', levelno=50))
    check(settle(s, 2) == ['b', 'c'])
    parent.setLevel(10)
    k.send(json.dumps(dict(msg='d', levelno=30)).encode())
    check(settle(s, 3) == ['b', 'c', 'd'])
    s.stop()


@scenario
def not_a_record():
    s = server()
    junk = [b'', b'\xff\xfe', b'{', b'null', b'[]', b'[1, 2]', b'3', b'"x"', b'{"levelno": "x", "msg": 1}', b'{"levelno": null}', b'{"levelno": []}', b'\x00' * 100]
    ms = []
    for i, j in enumerate(junk):
        ms += [j, dict(msg='ok%d' % i, levelno=30)]
    old = sys.stderr
    sys.stderr = open(os.devnull, 'w')
    try:
        k = push(s, *ms)
        got = settle(s, len(junk))
    finally:
        sys.stderr = old
    check([g for g in got if g.startswith('ok')] == ['ok%d' % i for i in range(len(junk))], got)
    check(s.is_alive(), 'the server stopped')
    s.stop()


@scenario
def handlers_that_fail():
    s = server()
    s.sink.fail = ('m1', 'm3')
    old = sys.stderr
    sys.stderr = open(os.devnull, 'w')
    try:
        k = push(s, *[dict(msg='m%d' % i, levelno=30) for i in range(6)])
        got = settle(s, 6)
    finally:
        sys.stderr = old
    check(got == ['m%d' % i for i in range(6)], got)
    s.stop()


@scenario
def from_sender_to_server():
    s = server()
    snd = LogSender(s.address)
    rs = [('%s and %d', ('x', 3), {}), ('%d', ('x',), {}), ('e', (), dict(exc=error())), ('x', (), dict(extra1=Bad(), extra2=3)), ('100%', (), {}), ('last', (), {})]
    for m, a, k in rs:
        snd.handle(rec(m, a, **k))
    got = settle(s, len(rs))
    check(len(got) == len(rs) and got[0] == 'x and 3' and got[2:] == ['e', 'x', '100%', 'last'], got)
    r = s.sink.got[3]
    check(r.extra2 == 3 and isinstance(r.extra1, str) and r.name == 'some.logger' and r.levelno == 20)
    check(r.host_name == remote.get_host_name() and r.process_name == remote.get_process_name() and r.thread_name)
    check('some error' in s.sink.got[2].exc_text)
    snd.close()
    s.stop()


@scenario
def several_senders():
    s = server()
    snd = [LogSender(s.address) for i in range(4)]
    for j in range(100):
        for i, x in enumerate(snd):
            x.handle(rec('%d.%d', (i, j)))
    got = settle(s, 400)
    check(len(got) == 400, len(got))
    for i in range(4):
        check([g for g in got if g.startswith('%d.' % i)] == ['%d.%d' % (i, j) for j in range(100)], i)
    for x in snd:
        x.close()
    s.stop()


@scenario
def stopping():
    s = server()
    s.stop()
    s.join(5)
    check(not s.is_alive(), 'still running')


@scenario
def address():
    s = server(address='tcp://127.0.0.1:*')
    check(s.address.startswith(b'tcp://127.0.0.1:') if isinstance(s.address, bytes) else s.address.startswith('tcp://'))
    s.stop()


main()
