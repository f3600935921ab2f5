"""Small helpers to run the real client and server over loopback."""
import contextlib
import logging
import threading
import time

import zmq

logging.getLogger().setLevel(logging.CRITICAL)

import teleprox  # noqa: E402,F401
from teleprox.client import RPCClient, RemoteCallException, Future  # noqa: E402,F401
from teleprox.server import RPCServer  # noqa: E402
from teleprox.proxy import ObjectProxy  # noqa: E402,F401


@contextlib.contextmanager
def server(objs=None, **kw):
    s = RPCServer(**kw)
    for k, v in (objs or {}).items():
        s[k] = v
    s.run_in_thread()
    c = RPCClient(s.address)
    c.server_ = s
    try:
        yield c
    finally:
        try:
            if not c.disconnected():
                c.close_server(timeout=5)
        finally:
            c.close()
            s._run_thread.join(5)


def in_thread(fn):
    box = []

    def run():
        try:
            box.append((fn(), None))
        except BaseException as e:
            box.append((None, e))
    t = threading.Thread(target=run, daemon=True)
    t.start()
    t.join(25)
    if not box:
        raise AssertionError('thread did not end')
    r, e = box[0]
    if e is not None:
        raise e
    return r


class ScriptSock:
    """Stands for a client's DEALER socket: records requests, delivers prepared replies."""
    def __init__(self):
        self.sent, self.inbox, self.opts, self.closed = [], [], {}, False
        self.on_idle = None

    def setsockopt(self, o, v):
        self.opts[o] = v

    def getsockopt(self, o):
        return self.opts.get(o, 0)
    set, get = setsockopt, getsockopt

    def __setattr__(self, k, v):
        self.__dict__[k] = v

    def send_multipart(self, m, *a, **k):
        if self.closed:
            raise zmq.error.ZMQError(128)
        self.sent.append([bytes(x) for x in m])

    def _next(self, flags):
        if self.closed:
            raise zmq.error.ZMQError(128)
        if not self.inbox and self.on_idle:
            self.on_idle(self)
        if not self.inbox:
            raise zmq.error.Again()
        return self.inbox.pop(0)

    def recv(self, flags=0, *a, **k):
        return self._next(flags)

    def recv_multipart(self, flags=0, *a, **k):
        return [self._next(flags)]

    def poll(self, *a, **k):
        if not self.inbox and self.on_idle:
            self.on_idle(self)
        return 1 if self.inbox else 0

    def close(self, *a, **k):
        self.closed = True


@contextlib.contextmanager
def scripted_client(**kw):
    """A connected client whose socket is then replaced by a ScriptSock."""
    srv = RPCServer()
    srv.run_in_thread()
    c = RPCClient(srv.address, **kw)
    real = c._socket
    s = ScriptSock()
    c._socket = s
    try:
        yield c, s
    finally:
        c._socket = real
        c.close()
        stop(srv)


def stop(srv):
    """End a server by a request of its own client."""
    r = Raw(srv.address)
    r.rpc('close')
    r.close()
    srv._run_thread.join(5)


def request(c, m):
    """Decode a captured request."""
    return dict(req_id=int(m[0]), action=m[1].decode(), return_type=m[2].decode(), ser=m[3].decode(),
                opts=c.serializer.loads(m[4], server=None, proxy_opts={}) if m[4] else None)


def reply(c, rid, rval=None, error=None, action='return'):
    d = {'action': action}
    if action == 'return':
        d.update(req_id=rid, rval=rval, error=error)
    return c.serializer.dumps(d, server=None, serialize_types=None)


class Raw:
    """A bare socket talking to a server: every frame in and out is visible."""
    count = 0

    def __init__(self, addr, name=None, ser='msgpack'):
        from teleprox import serializer
        self.sock = zmq.Context.instance().socket(zmq.DEALER)
        Raw.count += 1
        self.sock.setsockopt(zmq.IDENTITY, name or b'raw-%d' % Raw.count)
        self.sock.linger = 0
        self.sock.connect(addr)
        self.ser = serializer.all_serializers[ser]()
        self.n = 0

    def ask(self, action, opts=None, ret='auto', rid=None, ser=None, raw=None):
        if rid is None:
            self.n += 1
            rid = self.n
        data = raw if raw is not None else b'' if opts is None else self.ser.dumps(opts, server=None, serialize_types=None)
        self.sock.send_multipart([str(rid).encode(), action.encode(), ret.encode(),
                                  (self.ser.type if ser is None else ser).encode(), data])
        return rid

    def read(self, timeout=5, loads=True):
        if not self.sock.poll(timeout * 1000):
            return None
        m = self.sock.recv()
        try:
            return self.ser.loads(m, server=None, proxy_opts={}) if loads else m
        except Exception:
            from teleprox import serializer
            for c in serializer.all_serializers.values():
                try:
                    return c().loads(m, server=None, proxy_opts={})
                except Exception:
                    pass
            raise

    def quiet(self, timeout=0.15):
        """Nothing more arrives."""
        return self.sock.poll(int(timeout * 1000)) == 0

    def rpc(self, *a, **k):
        rid = self.ask(*a, **k)
        m = self.read()
        if m is None:
            raise AssertionError('no reply to %r %r' % (a, k))
        if m['req_id'] != rid:
            raise AssertionError('reply to %r carries %r' % (rid, m['req_id']))
        return m

    def close(self):
        self.sock.close(0)


class setclock:
    """Somebody sets the time of day, again and again, by *step* seconds; the clocks that count time do not care."""
    def __init__(self, *modules, step=3600.):
        self.modules, self.step, self.n = modules, step, 0

    def time(self):
        self.n += 1
        return time.time() + self.n * self.step

    def __enter__(self):
        import types
        self.old = [(m, m.time) for m in self.modules if getattr(m, 'time', None) is time]
        fake = types.ModuleType('time')
        fake.__dict__.update(time.__dict__)
        fake.time = self.time
        for m, _ in self.old:
            m.time = fake

    def __exit__(self, *a):
        for m, t in self.old:
            m.time = t
