import random
import threading
import time
from rt import *

# The timer threads see a clock of their own (before teleprox is imported): sleeping advances it.
_sleep, _perf = time.sleep, time.perf_counter


class Fake:
    now = 1000.
    outsiders = set()
    hook = None          # called in sleep(), in the timer thread
    rnd = random.Random(0)

    @classmethod
    def mine(cls):
        return cls.on and threading.current_thread() not in cls.outsiders

    on = False


def sleep(d):
    if Fake.mine():
        if d < 0:
            raise ValueError('sleep length must be non-negative')
        part = Fake.rnd.random()
        Fake.now += d * part
        if Fake.hook:
            Fake.hook('sleep')
        Fake.now += d * (1 - part) + Fake.rnd.choice([0, 0, .01])
        _sleep(.0005)
    else:
        _sleep(d)


def perf():
    if Fake.mine():
        Fake.now += Fake.rnd.choice([0, 0, 0, .001])
        return Fake.now
    return _perf()


time.sleep, time.perf_counter, time.monotonic_ = sleep, perf, perf
import teleprox.timer as tt           # noqa: E402
from teleprox.timer import Timer      # noqa: E402
threading.excepthook = lambda a: None


def until(f, what, limit=5):
    end = time.time() + limit
    while not f():
        check(time.time() < end, 'gave up waiting for', what)
        _sleep(.001)


def ended(t):
    return not t.running


class Spec:
    """Watches a timer on the fake clock: epochs are the calls of start()."""
    def __init__(self, interval, limit=None, hook=None, late=True):
        self.interval, self.limit, self.hook = interval, limit, hook
        self.starts, self.active, self.bad, self.busy, self.total = [], False, [], 0, 0
        self.t = Timer(self.callback, interval, limit)

    def start(self):
        self.starts, self.active = [], True
        self.t.start()

    def stop(self):
        self.t.stop()
        self.active = False

    def callback(self):
        self.busy += 1
        self.total += 1
        if self.busy > 1:
            self.bad.append('two callbacks at once')
        if not self.active:
            self.bad.append('callback after stop()')
        if self.starts and Fake.now < self.starts[-1] + self.interval - 1e-6:
            self.bad.append('%r after the previous one, interval %r' % (Fake.now - self.starts[-1], self.interval))
        self.starts.append(Fake.now)
        if self.limit is not None and len(self.starts) > self.limit:
            self.bad.append('call %d of at most %r' % (len(self.starts), self.limit))
        try:
            Fake.now += Fake.rnd.choice([0, self.interval / 3, self.interval * 2.5])
            if self.hook:
                self.hook(self)
        finally:
            self.busy -= 1

    def ok(self):
        check(not self.bad, self.bad[:3])


def fake(f):
    def g():
        Fake.outsiders = set(threading.enumerate()) | {threading.main_thread()}
        Fake.on, Fake.hook = True, None
        Fake.rnd = random.Random(SEED)
        try:
            f()
        finally:
            Fake.on = False
    g.__name__ = f.__name__
    return scenario(g)


@fake
def interval():
    for iv in (.5, 1, 10):
        s = Spec(iv)
        Fake.hook = lambda where: s.stop() if s.total >= 12 else None
        s.start()
        until(lambda: ended(s.t), 'calls')
        _sleep(.01)
        s.ok()
        n = s.total
        _sleep(.02)
        check(s.total == n, 'runs after its end')


@fake
def limits():
    for lim in (0, 1, 2, 5, -1):
        s = Spec(.25, lim)
        for again in range(3):
            s.total = 0
            s.start()
            until(lambda: ended(s.t), 'the limit')
            _sleep(.01)
            check(s.total == max(lim, 0), 'ran', s.total, 'times with limit', lim, 'start', again)
            check(not s.t.running)
        s.ok()


@fake
def stop_while_sleeping():
    for i in range(reps(30)):
        s = Spec(1)
        at = Fake.rnd.randrange(4)
        n = [0]

        def hook(where):
            n[0] += 1
            if n[0] > at:
                s.stop()
        Fake.hook = hook
        s.start()
        until(lambda: not s.t.running, 'stop')
        th = s.t.thread
        _sleep(.005)
        s.ok()
        check(not s.t.running)


@fake
def stop_in_callback():
    def hook(s):
        if len(s.starts) == 3:
            s.stop()
    s = Spec(.5, None, hook)
    for i in range(3):
        s.total = 0
        s.start()
        until(lambda: ended(s.t), 'stop')
        _sleep(.02)
        check(s.total == 3, s.total)
    s.ok()


@fake
def failing_callback():
    for exc in (ValueError, SystemExit, KeyboardInterrupt):
        def hook(s):
            if len(s.starts) == 2:
                raise exc('x')
        s = Spec(.5, 5, hook)
        for i in range(3):
            s.total = 0
            s.start()
            until(lambda: ended(s.t), 'the error')
            _sleep(.01)
            check(s.total == 2, 'ran', s.total)
        s.ok()


@fake
def restart_in_callback():
    """A timer started again by its (last) callback runs again."""
    again = [0]

    def hook(s):
        if len(s.starts) == s.limit and again[0] < 3:
            again[0] += 1
            s.start()
    for lim in (1, 3):
        again[0] = 0
        s = Spec(.5, lim, hook)
        s.start()
        until(lambda: ended(s.t), 'the limit')
        _sleep(.02)
        check(s.total == 4 * lim, 'ran', s.total, 'times')
        s.ok()


@fake
def restart_while_running():
    for i in range(reps(20)):
        s = Spec(1)

        def hook(where):
            if s.total > 8:
                s.stop()
                return
            k = Fake.rnd.randrange(6)
            if k == 0:
                s.start()
            elif k == 1:
                s.stop()
                s.start()
        Fake.hook = hook
        s.start()
        until(lambda: s.total > 8 and ended(s.t), 'calls')
        _sleep(.005)
        s.ok()


@scenario
def random_control():
    """start() and stop() from another thread at any moment: never two threads, nothing after stop()."""
    import sys
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    rnd = random.Random(SEED)
    try:
        for i in range(reps(60)):
            busy, bad, calls = [0], [], [0]

            def cb():
                busy[0] += 1
                calls[0] += 1
                if busy[0] > 1:
                    bad.append('two at once')
                _sleep(rnd.choice([0, 0, 1e-4]))
                busy[0] -= 1
            t = Timer(cb, rnd.choice([0, 1e-4]), limit=rnd.choice([None, None, 1, 3]))
            for j in range(30):
                t.start()
                if rnd.random() < .5:
                    _sleep(rnd.random() * 3e-4)
                if rnd.random() < .7:
                    t.stop()
            n = calls[0]
            t.start()
            until(lambda: calls[0] > n, 'a callback after start()')
            t.stop()
            _sleep(.002)
            n = calls[0]
            _sleep(.002)
            check(calls[0] == n, 'callback after stop()')
            check(not bad, bad)
    finally:
        sys.setswitchinterval(old)


@scenario
def real_time():
    times = []
    t = Timer(lambda: times.append(_perf()), .03, limit=6, start=True)
    check(t.running)
    until(lambda: ended(t), 'limit')
    check(len(times) == 6)
    check(all(b - a >= .027 for a, b in zip(times, times[1:])), times)
    t = Timer(lambda: times.append(0), .01)
    check(not t.running)
    _sleep(.02)
    check(len(times) == 6, 'runs without start()')


if __name__ == '__main__':
    main()
