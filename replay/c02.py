import sys
import time

import numpy as np
import zmq
from rt import *
from world import *


class Weird(Exception):
    pass


class Target:
    def __init__(self):
        self.calls = 0

    def bump(self):
        self.calls += 1
        return self.calls

    def boom(self, kind):
        self.calls += 1
        if kind == 'exit':
            raise SystemExit(3)
        if kind == 'interrupt':
            raise KeyboardInterrupt('stop')
        if kind == 'surrogate':
            raise Weird('bad \udcff text')
        if kind == 'bytes':
            raise Weird(b'\xff\xfe')
        if kind == 'gen':
            raise GeneratorExit()
        if kind == 'chain':
            try:
                {}['inner']
            except KeyError as e:
                raise Weird('outer') from e
        if kind == 'unicode':
            b'\xff'.decode('utf8')
        if kind == 'noargs':
            raise Weird
        if kind == 'stop':
            raise StopIteration(4)
        raise Weird('plain')

    def badstr(self):
        class E(Exception):
            def __str__(self):
                raise ValueError('no text')
        raise E('x')

    def unsendable(self, what):
        if what == 'cycle':
            a = []
            a.append(a)
            return a
        if what == 'big':
            return 2 ** 70
        if what == 'surrogate':
            return 'x\udcff'
        if what == 'objarr':
            return np.array([object(), None], dtype=object)
        if what == 'obj':
            return object()


KINDS = [('exit', 'SystemExit'), ('interrupt', 'KeyboardInterrupt'), ('surrogate', 'Weird'), ('bytes', 'Weird'),
         ('gen', 'GeneratorExit'), ('chain', 'Weird'), ('unicode', 'UnicodeDecodeError'), ('noargs', 'Weird'),
         ('stop', 'StopIteration'), ('plain', 'Weird')]


def proxies(c, r):
    t = r.rpc('get_item', {'name': 't'}, ret='proxy')['rval']
    return t


@scenario
def failing_requests(rnd):
    err = sys.stderr
    for ser in ('msgpack', 'json'):
        with server({'t': Target()}) as c:
            r = Raw(c.address, ser=ser)
            t = proxies(c, r)
            seen = 0
            for kind, name in KINDS:
                m = r.rpc('call_obj', {'obj': t.boom, 'args': (kind,), 'kwargs': {}})
                check(m['error'] is not None, kind)
                check(m['error'][0] == name, kind, m['error'][0])
                txt = ''.join(m['error'][1])
                check('Traceback' in txt and name in txt and 'boom' in txt, 'traceback', txt)
                check(r.quiet(0.02), 'second reply')
                seen += 1
                check(r.rpc('ping')['rval'] == 'pong', 'server gone after', kind)
            m = r.rpc('call_obj', {'obj': t.badstr, 'args': (), 'kwargs': {}})
            check(m['error'] is not None and m['error'][0] == 'E', 'badstr')
            m = r.rpc('call_obj', {'obj': t.bump, 'args': (), 'kwargs': {}})
            check(m['error'] is None and m['rval'] == seen + 1, 'calls', m)
            # requests that cannot be decoded or understood
            for a, k in [(('ping',), dict(raw=b'\xc1\xff\x00')), (('nosuch', {'x': 1}), {}), (('get_item', {}), {}),
                         (('get_item', {'name': 'none'}), {}), (('get_item',), {}), (('delete', {'obj_id': 77, 'ref_id': 1}), {}),
                         (('import', {'module': 'no.such.module'}), {}), (('call_obj', {'obj': 5, 'args': ()}), {}),
                         (('', {}), {}), (('set_item', {'name': 'a'}), {}), (('call_obj', {}), {}),
                         (('import', {'module': ''}), {}), (('get_obj', {'obj': t.nosuchattr}), {})]:
                m = r.rpc(*a, **k)
                check(m['error'] is not None and m['error'][0], a, k, m)
                check(isinstance(m['error'][1], (list, tuple)) and 'Traceback' in ''.join(m['error'][1]), a, m)
                check(r.quiet(0.02), 'second reply', a)
            # results that cannot be sent
            for what in ('big', 'surrogate', 'cycle'):
                m = r.rpc('call_obj', {'obj': t.unsendable, 'args': (what,), 'kwargs': {}}, ret='value')
                ok = what == 'big' and m['rval'] == 2 ** 70
                check(m['error'] is not None or ok or (ser == 'json' and what == 'surrogate'), what, m)
                check(r.quiet(0.05), 'second reply', what)
            m = r.rpc('call_obj', {'obj': t.unsendable, 'args': ('obj',), 'kwargs': {}}, ret='value')
            check(m['error'] is not None or isinstance(m['rval'], ObjectProxy), m)
            check(r.rpc('ping')['rval'] == 'pong', 'server gone')
            r.close()


@scenario
def unsupported_serializer():
    with server({'t': Target()}) as c:
        for first in (True, False):
            r = Raw(c.address)
            if not first:
                r.rpc('ping')
            rid = r.ask('ping', ser='pickle', raw=b'xx')
            m = r.read()
            check(m is not None and m['req_id'] == rid and m['error'] is not None, m)
            check(r.quiet(0.05), 'second reply')
            check(r.rpc('ping')['rval'] == 'pong', 'later request')
            rid = r.ask('ping', ser='', raw=b'')
            m = r.read()
            check(m is not None and m['error'] is not None, m)
            r.close()


@scenario
def switching_serializers():
    """Each reply is in the serializer of its request, also for a caller that uses both."""
    from teleprox import serializer
    with server({'x': {'k': [1, 2]}}) as c:
        r = Raw(c.address)
        for n in ('msgpack', 'json', 'json', 'msgpack', 'json'):
            ser = r.ser = serializer.all_serializers[n]()
            for ret, act, opts in (('value', 'get_item', {'name': 'x'}), ('auto', 'ping', None), ('auto', 'get_item', {'name': 'no'})):
                rid = r.ask(act, opts, ret)
                m = r.read(loads=False)
                check(m is not None, 'no reply')
                d = ser.loads(m, server=None, proxy_opts={})
                check(d['req_id'] == rid and (d['error'] is None) == (opts != {'name': 'no'}), n, d)
                check((m[:1] == b'{') == (n == 'json'), 'serializer', n, m)
        r.close()


@scenario
def no_reply_wanted():
    import io
    with server({'t': Target()}) as c:
        r = Raw(c.address)
        t = proxies(c, r)
        hook, sys.excepthook = sys.excepthook, lambda *a: None
        try:
            for act, o in [('call_obj', {'obj': t.bump, 'args': (), 'kwargs': {}}),
                           ('call_obj', {'obj': t.boom, 'args': ('exit',), 'kwargs': {}}),
                           ('call_obj', {'obj': t.unsendable, 'args': ('cycle',), 'kwargs': {}}),
                           ('nosuch', {'a': 1}), ('ping', None), ('get_item', {'name': 'nosuch'}),
                           ('set_item', {'name': 'n', 'obj': 7})]:
                r.ask(act, o, rid=-1)
            m = r.rpc('call_obj', {'obj': t.bump, 'args': (), 'kwargs': {}})
            check(m['rval'] == 3, m)
            check(r.rpc('get_item', {'name': 'n'})['rval'] == 7, 'set_item without reply')
        finally:
            sys.excepthook = hook
        check(r.quiet(0.1), 'reply that was not wanted')
        r.close()


@scenario
def each_caller_its_own_replies(rnd):
    with server({'t': Target()}) as c:
        rs = [Raw(c.address, name=('n%d' % i).encode(), ser=('msgpack', 'json')[i % 2]) for i in range(4)]
        t = [proxies(c, r) for r in rs]
        asked = {i: [] for i in range(4)}
        for n in range(reps(120)):
            i = rnd.randrange(4)
            k = rnd.choice(['ping', 'val', 'err', 'bad', 'off', 'ser'])
            if k == 'ping':
                asked[i].append((rs[i].ask('ping'), 'pong'))
            elif k == 'val':
                asked[i].append((rs[i].ask('get_obj', {'obj': [i, n]}), [i, n]))
            elif k == 'err':
                asked[i].append((rs[i].ask('call_obj', {'obj': t[i].boom, 'args': ('plain',), 'kwargs': {}}), 'ERR'))
            elif k == 'bad':
                asked[i].append((rs[i].ask('huh', {}), 'ERR'))
            elif k == 'ser':
                asked[i].append((rs[i].ask('ping', ser='nope', raw=b'1'), 'ERR'))
                # the answer comes in some supported form
            else:
                rs[i].ask('get_obj', {'obj': 1}, rid=-1)
        for i in range(4):
            for rid, want in asked[i]:
                m = rs[i].read()
                check(m is not None and m['req_id'] == rid, 'reply order/id', m, rid)
                if want == 'ERR':
                    check(m['error'] is not None, m)
                else:
                    check(m['error'] is None and m['rval'] == want, m, want)
            check(rs[i].quiet(0.05), 'extra reply')
        for r in rs:
            r.close()


@scenario
def a_caller_slow_to_read():
    with server({}) as c:
        r = Raw.__new__(Raw)
        r.sock = zmq.Context.instance().socket(zmq.DEALER)
        r.sock.setsockopt(zmq.IDENTITY, b'slow')
        r.sock.linger = 0
        r.sock.rcvhwm = 1
        r.sock.rcvbuf = 4096
        r.sock.connect(c.address)
        r.ser = c.serializer
        r.n = 0
        n = 2500
        data = 'y' * 2000
        for i in range(n):
            r.ask('get_obj', {'obj': data})
        c.ping()
        time.sleep(.2)
        got = []
        for i in range(n):
            m = r.read(timeout=3)
            check(m is not None, 'replies', len(got), 'requests', n)
            got.append(m['req_id'])
            check(m['rval'] == data)
        check(got == list(range(1, n + 1)), 'replies')
        check(r.quiet(.05))
        r.close()


@scenario
def closing():
    for want in (True, False):
        with server({}) as keep:
            pass
        s = RPCServer()
        s.run_in_thread()
        a, b = Raw(s.address, name=b'aa'), Raw(s.address, name=b'bb', ser='json')
        a.rpc('ping')
        b.rpc('ping')
        rid = a.ask('close', rid=None if want else -1)
        if want:
            m = a.read()
            check(m['action'] == 'return' and m['req_id'] == rid and m['rval'] is True, m)
        m = b.read()
        check(m is not None and m['action'] == 'disconnect', m)
        s._run_thread.join(5)
        check(not s._run_thread.is_alive() and s._socket.closed and not s.running(), 'server closed')
        check(a.quiet(0.1) and b.quiet(0.1), 'extra message')
        a.close(), b.close()


@scenario
def never_stops_otherwise(rnd):
    """Fuzzed but well-formed requests: one reply each, server stays."""
    acts = ['call_obj', 'get_obj', 'get_item', 'set_item', 'delete', 'import', 'ping', 'zzz', 'Close', 'close ', '__init__']
    with server({'t': Target()}) as c:
        r = Raw(c.address)
        t = proxies(c, r)
        vals = [t, t.bump, t.nosuch, 5, None, 'os.path', 'x', [1], {'a': 1}, -1, True, b'y']
        for n in range(reps(300)):
            a = rnd.choice(acts)
            o = rnd.choice([None, 5, [], 'str', {k: rnd.choice(vals) for k in ('obj', 'args', 'kwargs', 'name', 'module', 'obj_id', 'ref_id', 'fromlist')
                                   if rnd.random() < .6}])
            if isinstance(o, dict) and a == 'import' and o.get('fromlist'):
                o.pop('fromlist')
            rid = r.ask(a, o, ret=rnd.choice(['auto', 'proxy', 'value', 'odd']), ser=rnd.choice(['msgpack'] * 6 + ['json', 'what']))
            m = r.read()
            check(m is not None and m['req_id'] == rid and m['action'] == 'return', a, o, m)
        check(r.quiet(0.05), 'extra reply')
        check(c.server_.running(), 'server stopped')
        r.close()


if __name__ == '__main__':
    main()
