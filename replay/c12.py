import socket
import tempfile

from rt import *
from world import *


def reg():
    return dict(RPCClient.clients_by_thread)


def me():
    return threading.current_thread().ident


def key(addr):
    return (me(), addr if isinstance(addr, bytes) else addr.encode())


@contextlib.contextmanager
def bare_server(address='tcp://127.0.0.1:*'):
    s = RPCServer(address)
    s.run_in_thread()
    try:
        yield s
    finally:
        if s.running():
            stop(s)


def closed_port():
    s = socket.socket()
    s.bind(('127.0.0.1', 0))
    p = s.getsockname()[1]
    s.close()
    return p


@scenario
def lookup():
    n0 = reg()
    with bare_server() as s, bare_server() as s2:
        for first in (s.address, s.address.decode()):
            c = RPCClient.get_client(first)
            check(reg().get(key(s.address)) is c, 'registered')
            for a in (s.address, s.address.decode(), bytes(bytearray(s.address))):
                check(RPCClient.get_client(a) is c, 'same client for', a)
            d = RPCClient.get_client(s2.address)
            check(d is not c and d.address == s2.address, 'other address')
            others = []

            def other():
                x = RPCClient.get_client(s.address.decode())
                others.append(x)
                check(x is RPCClient.get_client(s.address), 'same in the other thread')
                check(x is not c, 'client of another thread')
                check(RPCClient.clients_by_thread[(me(), s.address)] is x, 'key of other thread')
                x.close()
                check((me(), s.address) not in RPCClient.clients_by_thread, 'closed')
            in_thread(other)
            check(RPCClient.get_client(s.address) is c and RPCClient.get_client(s2.address) is d, 'unchanged')
            c.close()
            check(key(s.address) not in reg() and reg().get(key(s2.address)) is d, 'close removes its own')
            c.close()
            check(reg().get(key(s2.address)) is d, 'closing twice')
            d.close()
            time.sleep(.2)
    check(reg() == n0, 'registry as before')


@scenario
def second_construction():
    with bare_server() as s:
        c = RPCClient(s.address)
        for a in (s.address, s.address.decode()):
            for kw in ({}, {'serializer': 'json'}, {'serializer': 'nosuch'}, {'reentrant': False}):
                before = reg()
                raises(KeyError, RPCClient, a, **kw)
                check(reg() == before, 'registry changed by a refused construction')
                check(RPCClient.get_client(s.address) is c and c.ping() == 'pong', 'registered one works')
        c.close()


@scenario
def cut_off():
    """A client whose server is gone stays the registered one until it is closed."""
    with bare_server() as s, bare_server() as s2:
        keep = RPCClient(s2.address, reentrant=False)
        c = RPCClient(s.address, reentrant=False)
        stop(s)
        t = time.time()
        while not c.disconnected() and time.time() - t < 5:
            time.sleep(.02)
        check(c.disconnected(), 'cut off')
        before = reg()
        raises(KeyError, RPCClient, s.address)
        check(reg() == before and RPCClient.get_client(s.address) is c, 'still registered')

        def other():
            raises(ConnectionRefusedError, RPCClient.get_client, s.address)
            x = RPCClient.get_client(s2.address)
            check(x is not keep, 'client of another thread')
            x.close()
        in_thread(other)
        c.close()
        check(key(s.address) not in reg(), 'closing removes the registration')
        check(RPCClient.get_client(s2.address) is keep, 'other stays')
        keep.close()


@scenario
def failing():
    """Refused, silent and misconfigured connections leave nothing behind."""
    zs = zmq.Context.instance().socket(zmq.ROUTER)
    zs.bind('tcp://127.0.0.1:*')
    silent = zs.getsockopt(zmq.LAST_ENDPOINT)
    with bare_server() as s:
        good = RPCClient(s.address)
        for rep in range(2):
            before = reg()
            for conv in (bytes, lambda b: b.decode()):
                for f in (RPCClient, RPCClient.get_client):
                    a = conv(b'tcp://127.0.0.1:%d' % closed_port())
                    raises(ConnectionRefusedError, f, a)
                    check(reg() == before, 'refused connection stays registered')
            raises(Exception, RPCClient, 'nonsense')
            check(reg() == before, 'nonsense address stays registered')
            raises(Exception, RPCClient, 'tcp://127.0.0.1')
            check(reg() == before, 'bad address stays registered')
            t = time.time()
            raises(TimeoutError, RPCClient, silent)
            check(time.time() - t < 10, 'gives up')
            check(reg() == before, 'silent server stays registered')
            with bare_server() as s2:
                raises(ValueError, RPCClient, s2.address, serializer='nosuch')
                check(reg() == before, 'unknown serializer stays registered')
            check(RPCClient.get_client(s.address) is good and good.ping() == 'pong', 'others still work')
        good.close()
    zs.close(0)


@scenario
def the_time_of_day_is_set():
    """A server that answers in time is connected to, one that does not is given up, whatever the clock on the wall."""
    import teleprox.client as tpc
    for step in (3600., -3600.):
        zs = zmq.Context.instance().socket(zmq.ROUTER)
        zs.bind('tcp://127.0.0.1:*')
        with setclock(tpc, step=step):
            t = time.time()
            raises(TimeoutError, RPCClient, zs.getsockopt(zmq.LAST_ENDPOINT))
        check(.8 < time.time() - t < 5, 'gives up', time.time() - t)
        zs.close(0)


@scenario
def close_elsewhere():
    """A client closed from another thread; a closed client does not take its successor along."""
    with bare_server() as s:
        box = []
        up, down = threading.Event(), threading.Event()

        def other():
            box.append(RPCClient(s.address))
            up.set()
            down.wait(20)
        t = threading.Thread(target=other, daemon=True)
        t.start()
        check(up.wait(10), 'client in thread')
        c = RPCClient(s.address)
        mine = key(s.address)
        theirs = (t.ident, s.address)
        box[0].close()
        check(theirs not in reg() and reg().get(mine) is c, 'closed from another thread')
        down.set()
        t.join(5)
        c.close()
        check(mine not in reg(), 'closed')
        time.sleep(.3)
        d = RPCClient.get_client(s.address)
        c.close()
        check(reg().get(mine) is d, 'closing an old client removed its successor')
        d.close()


@scenario
def other_transport():
    d = tempfile.mkdtemp()
    with bare_server('ipc://%s/s' % d) as s:
        a = RPCClient.get_client(s.address)
        check(a.ping() == 'pong' and RPCClient.get_client(s.address.decode()) is a, 'ipc')
        a.close()
        check(key(s.address) not in reg(), 'ipc closed')


@scenario
def local_server():
    """start_local_server: the same rules."""
    def run():
        with bare_server() as s:
            c = RPCClient(s.address, start_local_server=True)
            check(reg().get(key(s.address)) is c, 'registered')
            raises(KeyError, RPCClient, s.address, start_local_server=True)
            check(reg().get(key(s.address)) is c, 'still registered')
            own = RPCServer.get_server()
            me_c = RPCClient.get_client(own.address)
            check(me_c is not c and me_c.ping() == 'pong', 'client of the own server')
            check(RPCClient.get_client(own.address) is me_c, 'same')
            me_c.close()
            check(reg().get(key(s.address)) is c, 'unaffected')
            c.close()
            RPCServer.unregister_server(own)
            own._closed = True
            own._socket.close()
    in_thread(run)


@scenario
def reachability():
    with bare_server() as s:
        check(RPCClient.check_address(s.address) == 'open', 'open')
    check(RPCClient.check_address(b'tcp://127.0.0.1:%d' % closed_port()) == 'closed', 'closed')
    check(RPCClient.check_address(b'ipc:///tmp/x') is None, 'unknown')


@scenario
def interrupted():
    """Whatever interrupts a construction, wherever: nothing stays registered."""
    class Odd(BaseException):
        pass

    def bad(exc):
        def f(*a, **k):
            raise exc
        return f
    with bare_server() as s:
        for exc in (KeyboardInterrupt(), SystemExit(3), GeneratorExit(), Odd(), OSError('x'), MemoryError()):
            for where in ('check_address', 'ensure_connection', 'ping', 'send', 'process_until_future'):
                before = reg()
                C = type('C', (RPCClient,), {where: staticmethod(bad(exc)) if where == 'check_address' else bad(exc)})
                raises(type(exc), C, s.address)
                check(reg() == before, 'interrupted by', exc, 'in', where)
        c = RPCClient.get_client(s.address)
        check(type(c) is RPCClient and c.ping() == 'pong', 'a new one')
        c.close()


@scenario
def equal_names():
    """Clients of threads (or processes) of equal names, and clients that follow a closed one."""
    from teleprox import log
    with bare_server() as s:
        out = []

        def other():
            log.set_thread_name('main_thread')
            c = RPCClient(s.address)
            out.append(c.name)
            check(c.ping() == 'pong', 'ping')
            c.close()
        old = log.get_thread_name()
        log.set_thread_name('main_thread')
        c = RPCClient(s.address)
        out.append(c.name)
        in_thread(other)
        in_thread(other)
        check(c.ping() == 'pong', 'ping')
        c.close()
        log.set_thread_name(old)
        check(len(set(out)) == 3, 'names', out)
        for i in range(60):
            c = RPCClient(s.address)
            check(c.ping() == 'pong', 'ping')
            c.close()
    check(key(s.address) not in reg(), 'closed')


if __name__ == '__main__':
    main()
