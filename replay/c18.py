import os
import subprocess
import signal
import sys
import time
import itertools
from rt import *
from world import *
from unittest import mock
import teleprox.process as tpp
import teleprox.util as util


class Proc:
    """Stands for a Popen object: ends at a given time or when killed."""
    def __init__(self, exits=None, code=0, quirk=None, dies=True):
        self.t0, self.exits, self.code, self.quirk, self.dies = time.time(), exits, code, quirk, dies
        self.pid, self.calls, self.returncode = 4243, [], None
        self.stdout = self.stderr = self.stdin = None

    def gone(self):
        return self.exits is not None and time.time() - self.t0 >= self.exits

    def poll(self):
        if self.gone():
            self.returncode = self.code
        return self.returncode

    def wait(self, timeout=None):
        self.calls.append('wait')
        end = None if timeout is None else time.time() + timeout
        while not self.gone():
            if end is not None and time.time() >= end:
                raise subprocess.TimeoutExpired('x', timeout)
            time.sleep(.002)
        return self.poll()

    def communicate(self, input=None, timeout=None):
        self.calls.append('communicate')
        if self.quirk:
            raise self.quirk()
        self.wait(timeout)
        return None, None

    def _end(self, what):
        self.calls.append(what)
        if self.dies:
            self.exits, self.code = time.time() - self.t0 + .05, -9

    def kill(self):
        self._end('kill')

    def terminate(self):
        self._end('terminate')

    def send_signal(self, s):
        self._end('kill' if s == 9 else 'signal %d' % s)


class Client:
    address = b'tcp://x'

    def __init__(self, answer=True, proc=None, exits=None):
        self.answer, self.calls, self.proc, self.exits = answer, 0, proc, exits

    def close_server(self, *a, **k):
        self.calls += 1
        if self.proc is not None and self.exits is not None:
            self.proc.exits = time.time() - self.proc.t0 + self.exits
        if isinstance(self.answer, BaseException):
            raise self.answer
        return self.answer


def child(proc, client=None, stdio=None):
    with mock.patch.object(tpp.atexit, 'register', lambda f, *a, **k: f):
        return tpp.ChildProcess(proc, client or Client(), 'x', False, stdio)


@scenario
def wait_until_exit():
    n = 0
    for exits, code, quirk, stdio in itertools.product((-1, 0.1), (0, 3, -9), (None, ValueError, AttributeError), (None, object())):
        p = Proc(exits, code, quirk)
        t = time.time()
        r = child(p, stdio=stdio).wait(5)
        check(r == code and type(r) is int, 'code', r, code)
        check(p.gone(), 'returned early')
        check(time.time() - t < 2, 'took long')
        check(stdio is None or 'communicate' not in p.calls, 'communicate with logged stdio')
        n += 1
    return n


@scenario
def wait_timeout():
    for quirk, stdio, t in itertools.product((None, ValueError), (None, object()), (0, 0.05, 0.3)):
        p = Proc(None, 0, quirk)
        t0 = time.time()
        raises(TimeoutError, child(p, stdio=stdio).wait, t)
        el = time.time() - t0
        check(el >= t - .001, 'early', el, t)
        check(el < t + 1.5, 'late', el, t)
        check('kill' not in p.calls, 'killed')


@scenario
def the_time_of_day_is_set():
    for step in (3600., -3600.):
        for quirk in (None, ValueError):
            c = child(Proc(exits=.3, code=3, quirk=quirk))
            with setclock(tpp, step=step):
                check(c.wait(5) == 3, 'exit code')
            c = child(Proc(quirk=quirk))
            t = time.time()
            with setclock(tpp, step=step):
                threading.Timer(3, lambda: c.proc._end('late')).start()
                raises(TimeoutError, c.wait, .3)
            check(.28 <= time.time() - t < 2, 'waited', time.time() - t)


@scenario
def wait_without_limit():
    for q in (None, ValueError):
        check(child(Proc(.15, 5, q)).wait(None) == 5)


@scenario
def polling():
    check(child(Proc(None)).poll() is None)
    for c in (0, 7, -15):
        check(child(Proc(-1, c)).poll() == c)


@scenario
def kill():
    for q in (None, ValueError):
        p = Proc(None, 0, q)
        c = Client()
        r = child(p, c).kill()
        check(p.gone() and r == -9, r)
        check(p.calls.count('kill') == 1 and not c.calls, p.calls)


@scenario
def exited_already():
    for code in (0, 1, -9):
        for how in ('kill', 'stop'):
            p, c = Proc(-1, code), Client(False)
            getattr(child(p, c), how)()
            check(not [x for x in p.calls if x != 'poll'] and not c.calls, how, p.calls, c.calls)


@scenario
def stop():
    for q, ex, code in itertools.product((None, AttributeError), (0, .2), (0, 4)):
        p = Proc(None, code, q)
        c = Client(True, p, ex)
        r = child(p, c).stop()
        check(c.calls == 1 and p.gone() and r == code and 'kill' not in p.calls, r, p.calls)


@scenario
def stop_hanging_process():
    p = Proc(None)
    c = Client(True)
    t = time.time()
    raises(TimeoutError, child(p, c).stop, .3)
    check(time.time() - t >= .299)


@scenario
def refused():
    for a in (False, None, 'yes', 0, [], ()):
        p, c = Proc(None), Client(a)
        raises(AssertionError, child(p, c).stop, .3)
        raises(AssertionError, tpp.DaemonProcess(Client(a), 'x', False, 77).stop)


@scenario
def failing_request():
    for e in (TimeoutError('t'), RuntimeError('r'), teleprox.client.RemoteCallException('a', ['b'])):
        p = Proc(None)
        check(raises(type(e), child(p, Client(e)).stop, .3) is e)
        check(raises(type(e), tpp.DaemonProcess(Client(e), 'x', False, 77).stop) is e)


@scenario
def daemon():
    kills = []
    with mock.patch.object(os, 'kill', lambda p, s: kills.append((p, int(s)))):
        c = Client(True)
        d = tpp.DaemonProcess(c, 'x', False, 765432)
        d.kill()
        check(kills == [(765432, 9)] and not c.calls, kills)
        d.stop()
        check(c.calls == 1 and len(kills) == 1)
        util.kill_pid(1234567)
        check(kills[1:] == [(1234567, 9)], kills)
    for e in (ProcessLookupError, PermissionError, OSError):
        def f(p, s):
            raise e()
        with mock.patch.object(os, 'kill', f):
            d.kill()


@scenario
def real_processes():
    p = subprocess.Popen([sys.executable, '-c', 'import time; time.sleep(60)'], stdout=subprocess.PIPE)
    try:
        h = child(p)
        check(h.poll() is None)
        raises(TimeoutError, h.wait, .1)
        check(h.kill() == -9 and p.poll() == -9)
        check(h.wait() == -9)
    finally:
        p.kill()
    for code in (0, 5):
        h = child(subprocess.Popen([sys.executable, '-c', 'import sys; sys.exit(%d)' % code]))
        check(h.wait() == code)


@scenario(limit=40)
def real_child():
    p = tpp.start_process(name='x')
    check(p.poll() is None)
    check(p.stop() == 0 and p.proc.poll() == 0)
    p.stop()
    p.kill()
    p = tpp.start_process(name='y')
    check(p.kill() == -signal.SIGKILL and p.proc.poll() is not None)
    d = tpp.start_process(name='z', daemon=True)
    pid = d.client._import('os').getpid()
    check(pid == d.pid)
    d.stop()


if __name__ == '__main__':
    main()
