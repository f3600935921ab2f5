from rt import *
from world import *


class TimedSock(ScriptSock):
    """Delivers prepared messages at given times; really waits as long as it is told to."""
    def __init__(self):
        super().__init__()
        self.plan, self.steps, self.t0 = [], [], time.perf_counter()

    def begin(self, plan):
        self.t0, self.plan, self.steps = time.perf_counter(), sorted(plan, key=lambda x: x[0]), []

    def _next(self, flags=0):
        now = time.perf_counter() - self.t0
        to = self.opts.get(zmq.RCVTIMEO, -1) if not flags else 0
        self.steps.append((now, to))
        end = now + to / 1000 if to >= 0 else 1e9
        due = self.plan[0][0] if self.plan else 1e9
        if due <= end:
            check(due < 1e8, 'blocks for ever')
            if due > now:
                time.sleep(due - now)
            return self.plan.pop(0)[1]
        check(end < 1e8, 'blocks for ever')
        time.sleep(max(0, end - now))
        raise zmq.error.Again()

    def recv(self, flags=0, *a, **k):
        return self._next(flags)

    def poll(self, timeout=None, *a, **k):
        now = time.perf_counter() - self.t0
        to = -1 if timeout is None else timeout
        self.steps.append((now, to))
        end = now + to / 1000 if to >= 0 else 1e9
        due = self.plan[0][0] if self.plan else 1e9
        check(min(due, end) < 1e8, 'blocks for ever')
        time.sleep(max(0, min(due, end) - now))
        return 1 if due <= end else 0


@contextlib.contextmanager
def timed_client(**kw):
    with scripted_client(**kw) as (c, s):
        t = TimedSock()
        c._socket = t
        yield c, t


def timed_out(fn, t, slack=1.0):
    t0 = time.perf_counter()
    raises(TimeoutError, fn)
    el = time.perf_counter() - t0
    check(el >= t - .0015, 'gave up after', el, 'of', t)
    check(el <= t + slack, 'gave up only after', el, 'of', t)


@scenario
def giving_up():
    """Timeouts of many lengths, with and without unrelated traffic meanwhile."""
    for re in (True, False):
        for t in (0, .001, .05, .13, .3, 1):
            for traffic in (0, .011, .04):
                with timed_client(reentrant=re) as (c, s):
                    other = [c.send('ping', sync='async') for i in range(3)]
                    f = c.send('ping', sync='async')
                    plan = []
                    if traffic:
                        rid = 0
                        x = traffic
                        while x < t + .5:
                            plan.append((x, reply(c, rid % 7 if rid % 7 != f.call_id else 99, 'other')))
                            rid += 1
                            x += traffic
                    s.begin(plan)
                    timed_out(lambda: f.result(t), t, .3)
                    check(not f.done(), 'done')
                    for at, to in s.steps:
                        check(to >= 0, 'unlimited step')
                        check(at + to / 1000 <= t + .06 or to <= 0, 'step', to, 'ms at', at, 'of', t)
                    del other


@scenario
def broken_connection():
    """TimeoutError only when the time is over, also when the connection breaks."""
    for re in (True, False):
        for t in (None, .5, 30):
            with scripted_client(reentrant=re) as (c, s):
                f = c.send('ping', sync='async')
                s.closed = True
                t0 = time.perf_counter()
                try:
                    f.result(t)
                    check(False, 'a result')
                except TimeoutError:
                    check(t is not None and time.perf_counter() - t0 >= t - .0015, 'gave up too early', t)
                except (Fail, KeyboardInterrupt):
                    raise
                except Exception:
                    pass


@scenario
def known_clients():
    """The server of a waiting thread serves clients it knows already, and new ones."""
    def run():
        srv = RPCServer()
        srv.run_lazy()
        old = Raw(srv.address)
        far = RPCServer()
        far.run_in_thread()
        c = RPCClient(far.address)
        far['time'] = time
        tm = c['time']
        for i in range(3):
            r = old if i else Raw(srv.address)
            got = []

            def ask():
                time.sleep(.1)
                got.append(r.rpc('ping')['rval'])
            t = threading.Thread(target=ask, daemon=True)
            t.start()
            tm.sleep(.6)
            check(got == ['pong'], 'not served while waiting', i, got)
            t.join(5)
        c.close_server(timeout=5)
        c.close()
        RPCServer.unregister_server(srv)
        srv._closed = True
        srv._socket.close()
    in_thread(run)


@scenario
def results(rnd):
    """The result is returned when it arrives, never before, whatever arrives first."""
    for re in (True, False):
        for how in ('none', 'long', 'default', 'result', 'int'):
            for err in (False, True):
                with timed_client(reentrant=re) as (c, s):
                    fs = [c.send('ping', sync='async') for i in range(4)]
                    plan = []
                    order = [0, 1, 3]
                    rnd.shuffle(order)
                    for i, k in enumerate(order):
                        plan.append((.02 * (i + 1), reply(c, fs[k].call_id, 'no')))
                    at = .25 if how != 'none' else .7
                    plan.append((at, reply(c, fs[2].call_id, 'yes') if not err else reply(c, fs[2].call_id, error=('E', ['x']))))
                    s.begin(plan)
                    fn = {'none': lambda: fs[2].result(None), 'long': lambda: fs[2].result(5.0), 'default': lambda: fs[2].result(),
                          'result': lambda: fs[2].result(timeout=5.0), 'int': lambda: fs[2].result(5)}[how]
                    t0 = time.perf_counter()
                    if err:
                        check(raises(RemoteCallException, fn).type_str == 'E', 'error')
                    else:
                        check(fn() == 'yes', 'result')
                    el = time.perf_counter() - t0
                    check(el >= at - .05, 'early', el, at)
                    t0 = time.perf_counter()
                    if not err:
                        check(fs[2].result(0) == 'yes' and fs[2].result() == 'yes', 'again')
                    check(time.perf_counter() - t0 < .5, 'waits though done')
                    if how in ('long', 'result', 'int'):
                        for at_, to in s.steps:
                            check(to >= 0 and at_ + to / 1000 <= 5.06, 'step', to)


@scenario
def synchronous():
    with timed_client(reentrant=False) as (c, s):
        s.begin([])
        timed_out(lambda: c.send('ping', sync='sync', timeout=.3), .3, .3)
        timed_out(lambda: c.ping(timeout=.1), .1, .3)
        n = c.next_request_id
        s.begin([(.3, reply(c, n, 'late'))])
        check(c.send('ping', sync='sync', timeout=None) == 'late', 'no timeout')
        n = c.next_request_id
        s.begin([(1.2, reply(c, n, 'late'))])
        check(c.ping() == 'late', 'default timeout')


class Far:
    def call(self, f, *a):
        return f(*a)

    def sleep(self, t):
        time.sleep(t)
        return t

    def later(self, t, f, *a):
        time.sleep(t)
        return f(*a, _timeout=3)


class Near:
    def __init__(self):
        self.n = 0

    def hit(self, k=1):
        self.n += k
        return self.n


@contextlib.contextmanager
def remote():
    r = RPCServer()
    r['far'] = Far()
    r.run_in_thread()
    yield r
    if r.running():
        stop(r)


def drop(s):
    if s._thread is not None:
        RPCServer.unregister_server(s)
    s._closed = True
    s._socket.close()


@scenario
def callbacks():
    """Requests for the server of the waiting thread are served, recursively."""
    def run():
        with remote() as r:
            s = RPCServer()
            s.run_lazy()
            c = RPCClient(r.address)
            far = c['far']
            near = Near()
            p = s.get_proxy(near)
            t0 = time.time()
            check(far.call(p.hit, 3, _timeout=8) == 3, 'callback')
            check(far.later(.3, p.hit, 4, _timeout=8) == 7, 'late callback')
            check(far.call(far.call, p.hit, 1, _timeout=8) == 8, 'nested')
            f = [far.later(.02, p.hit, 1, _sync='async') for i in range(5)]
            check([x.result(8) for x in f] == [9, 10, 11, 12, 13], 'many')
            check(time.time() - t0 < 8, 'slow')
            c.close()
            drop(s)
    in_thread(run)


@scenario
def under_load():
    """A timeout is kept while requests for the own server keep coming in."""
    def run():
        with remote() as r:
            s = RPCServer()
            s.run_lazy()
            c = RPCClient(r.address)
            far = c['far']
            done = threading.Event()
            pongs = []

            def flood():
                x = Raw(s.address)
                while not done.is_set():
                    x.ask('ping')
                    if x.sock.poll(50):
                        pongs.append(x.read())
                x.close()
            t = threading.Thread(target=flood, daemon=True)
            t.start()
            f = far.sleep(1.2, _sync='async')
            timed_out(lambda: f.result(.5), .5, .6)
            check(len(pongs) > 5, 'requests served meanwhile', len(pongs))
            check(f.result(5) == 1.2, 'result')
            done.set()
            t.join(5)
            c.close()
            drop(s)
    in_thread(run)


@scenario
def non_reentrant():
    def run():
        with remote() as r:
            s = RPCServer()
            s.run_lazy()
            c = RPCClient(r.address, reentrant=False)
            far = c['far']
            near = Near()
            x = Raw(s.address)
            x.ask('set_item', {'name': 'a', 'obj': 5})
            check(far.sleep(.3) == .3, 'answer')
            check('a' not in s._namespace, 'served by a non-reentrant client')
            f = far.sleep(.6, _sync='async')
            timed_out(lambda: f.result(.2), .2, .5)
            check(x.quiet(.1), 'served')
            x.close()
            c.close()
            drop(s)
            del near
    in_thread(run)


@scenario
def another_server_later():
    """The thread's server changes between two waits."""
    def run():
        with remote() as r:
            c = RPCClient(r.address)
            far = c['far']
            near = Near()
            check(far.sleep(.01) == .01, 'no server yet')
            for i in range(3):
                s = RPCServer()
                s.run_lazy()
                p = s.get_proxy(near)
                check(far.call(p.hit, 1, _timeout=8) == i + 1, 'callback')
                drop(s)
                check(far.sleep(.01, _timeout=8) == .01, 'no server now')
            c.close()
    in_thread(run)


@scenario
def qt_server():
    try:
        from teleprox.qt import QApplication
    except Exception:
        return
    from teleprox.qt_server import QtRPCServer
    app = QApplication.instance() or QApplication([])
    with remote() as r:
        s = QtRPCServer(quit_on_close=False)
        s.run_forever()
        c = RPCClient(r.address)
        far = c['far']
        near = Near()
        p = s.get_proxy(near)
        check(far.call(p.hit, 3, _timeout=8) == 3, 'callback')
        check(far.later(.3, p.hit, 4, _timeout=8) == 7, 'late callback')
        f = far.sleep(.8, _sync='async')
        timed_out(lambda: f.result(.3), .3, .4)
        check(f.result(5) == .8, 'result')
        c.close()
        x = RPCClient(s.address)
        x.close_server(timeout=5)
        t = time.time()
        while s.running() and time.time() - t < 3:
            app.processEvents()
        x.close()


@scenario
def closed_server():
    s = RPCServer()
    s.run_in_thread()
    stop(s)

    def run():
        for i in range(2):
            raises(RuntimeError, s._read_and_process_one)
    in_thread(run)
    s = RPCServer()

    def lazy():
        s.run_lazy()
        x = Raw(s.address)
        x.ask('close')
        s._read_and_process_one()
        check(x.read()['rval'] is True, 'closed')
        raises(RuntimeError, s._read_and_process_one)
        x.close()
    in_thread(lazy)


if __name__ == '__main__':
    main()
