from rt import *
from world import *


def reg():
    return dict(RPCServer.servers_by_thread)


def me():
    return threading.current_thread().ident


def drop(s):
    if s._thread is not None:
        RPCServer.unregister_server(s)
    s._closed = True
    s._socket.close()


class Waiting:
    """A second thread that runs functions on request."""
    def __init__(self):
        import queue
        self.q, self.a = queue.Queue(), queue.Queue()
        self.t = threading.Thread(target=self.run, daemon=True)
        self.t.start()

    def run(self):
        while True:
            f = self.q.get()
            if f is None:
                return
            try:
                self.a.put((f(), None))
            except BaseException as e:
                self.a.put((None, e))

    def __call__(self, f):
        self.q.put(f)
        r, e = self.a.get(timeout=20)
        if e is not None:
            raise e
        return r


@scenario
def histories(rnd):
    """Random registrations in three threads against a simple model."""
    n = 0
    ths = [Waiting() for i in range(3)]
    srv = [RPCServer() for i in range(4)]
    model = {}            # thread index -> server index
    for step in range(reps(400)):
        t, s = rnd.randrange(3), rnd.randrange(4)
        k = rnd.randrange(4)
        where = [x for x in model if model[x] == s]
        if k <= 1:
            f = (lambda: RPCServer.register_server(srv[s])) if k == 0 else srv[s].run_lazy
            if where == [t]:
                ths[t](f)
            elif where:
                raises(Exception, ths[t], f)
            elif t in model:
                raises(KeyError, ths[t], f)
            else:
                ths[t](f)
                model[t] = s
        elif k == 2:
            f = lambda: RPCServer.unregister_server(srv[s])  # noqa: E731
            if where:
                ths[t](f)
                del model[where[0]]
            else:
                raises(Exception, ths[t], f)
        for i in range(3):
            want = srv[model[i]] if i in model else None
            got = ths[i](RPCServer.get_server)
            check(got is want, 'server of thread', i, got, want)
        n += 1
    check(set(reg().values()) == {srv[x] for x in model.values()}, 'registry')
    for s in srv:
        drop(s)
    for t in ths:
        t.q.put(None)
    return n


@scenario
def second_loop():
    """A second server of a thread does not start serving; the first one is not disturbed."""
    a, b = RPCServer(), RPCServer()
    a.run_lazy()
    raises(KeyError, b.run_forever)
    raises(KeyError, b.run_lazy)
    check(RPCServer.get_server() is a, 'first stays')
    drop(a)
    b.run_lazy()
    check(RPCServer.get_server() is b, 'free again')
    drop(b)
    check(RPCServer.get_server() is None, 'none')


@scenario
def main_thread():
    """The server of the main thread is not that of any other, and the other way round."""
    s, w = RPCServer(), Waiting()
    s.run_lazy()
    check(RPCServer.get_server() is s and w(RPCServer.get_server) is None, 'server of the main thread elsewhere')
    s2 = RPCServer()
    w(s2.run_lazy)
    check(RPCServer.get_server() is s and w(RPCServer.get_server) is s2, 'each its own')
    drop(s)
    check(RPCServer.get_server() is None and w(RPCServer.get_server) is s2, 'other stays')
    drop(s2)
    w.q.put(None)


@scenario
def closed_but_registered():
    """A registered server counts as the one of its thread, whatever it does."""
    a, b = RPCServer(), RPCServer()
    a.run_lazy()
    a._closed = True
    raises(KeyError, RPCServer.register_server, b)
    raises(KeyError, b.run_lazy)
    check(RPCServer.get_server() is a, 'first stays')
    RPCServer.register_server(a)
    check(RPCServer.get_server() is a, 'again')
    drop(a)
    drop(b)


@scenario
def closing_by_itself():
    """Closing without a client: the server is no longer registered either."""
    a, b = RPCServer(), RPCServer()
    a.run_lazy()
    check(a.process_action('close', None, None, None) is True, 'close')
    check(RPCServer.get_server() is None and a not in reg().values(), 'unregistered')
    b.run_lazy()
    check(RPCServer.get_server() is b, 'free again')
    drop(b)
    a._socket.close()


@scenario
def closing():
    with server() as c, server() as d:
        before = reg()
        check(before.get(c.server_._run_thread.ident) is c.server_, 'registered by its loop')
        c.close_server(timeout=5)
        c.server_._run_thread.join(5)
        check(c.server_ not in reg().values() and not c.server_.running(), 'unregistered')
        before.pop(c.server_._run_thread.ident)
        check(reg() == before, 'others stay')
        check(d.ping() == 'pong', 'other server works')


@scenario
def two_threads_at_once():
    """Two threads register one server at the same time, in the worst order."""
    s = RPCServer()
    real = RPCServer.servers_by_thread_lock
    other = Waiting()
    first = [True]
    done = []

    class Lock:
        def __enter__(self):
            if first[0]:
                first[0] = False
                try:
                    done.append(other(lambda: RPCServer.register_server(s)))
                except BaseException as e:
                    done.append(e)
            return real.__enter__()

        def acquire(self, *a, **k):
            return self.__enter__()

        def release(self):
            return real.release()

        def __exit__(self, *a):
            return real.__exit__(*a)
    RPCServer.servers_by_thread_lock = Lock()
    try:
        try:
            RPCServer.register_server(s)
            mine = True
        except Exception:
            mine = False
    finally:
        RPCServer.servers_by_thread_lock = real
    n = [k for k, v in reg().items() if v is s]
    check(len(n) == 1, 'server registered in', len(n), 'threads', mine, done)
    check(s._thread == n[0], 'thread')
    drop(s)
    other.q.put(None)


if __name__ == '__main__':
    main()
