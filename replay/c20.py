import io
import logging
import os
import random
import subprocess
import sys
import threading
import time
import types
from rt import *
import teleprox.log.handler as hd
import teleprox.log.remote as remote

logging.raiseExceptions = False


class Out(io.StringIO):
    """A stream that may be slow."""
    pause = 0

    def write(self, s):
        if self.pause:
            time.sleep(self.pause)
        return io.StringIO.write(self, s)


def rec(msg, created, **extra):
    r = logging.LogRecord('n', extra.pop('level', 20), 'f', 1, msg, extra.pop('args', ()), None)
    r.created = created
    for k, v in extra.items():
        setattr(r, k, v)
    return r


def handler():
    o = Out()
    h = hd.RPCLogHandler(o)
    return h, o


def lines(o):
    return [l for l in o.getvalue().split('\n') if l]


def msgs(o):
    return [l.rpartition('] ')[2] for l in lines(o)]


def until(f, n=5):
    end = time.time() + n
    while time.time() < end:
        if f():
            return True
        time.sleep(.01)
    return f()


@scenario
def flush_prints_everything_in_order():
    h, o = handler()
    t = time.time() + 1000
    for i in (5, 1, 4, 2, 3, 0):
        h.handle(rec('m%d' % i, t + i))
    time.sleep(.5)
    check(lines(o) == [], 'printed before its time', lines(o))
    h.flush_records()
    check(msgs(o) == ['m%d' % i for i in range(6)], msgs(o))
    h.flush_records()
    time.sleep(.5)
    check(len(lines(o)) == 6, 'printed again', msgs(o))


@scenario
def printer_prints_old_records_in_order():
    h, o = handler()
    t = time.time() - 100
    for i in (5, 1, 4, 2, 3, 0):
        h.handle(rec('m%d' % i, t + 200 + i))
    for i in (5, 1, 4, 2, 3, 0):
        h.handle(rec('old%d' % i, t + i))
    check(until(lambda: len(lines(o)) >= 6), msgs(o))
    time.sleep(.4)
    check(sorted(msgs(o)) == ['old%d' % i for i in range(6)], msgs(o))
    h.flush_records()
    check(msgs(o)[6:] == ['m%d' % i for i in range(6)], msgs(o))


@scenario
def records_of_the_same_instant():
    h, o = handler()
    t = time.time() + 1000
    for i in range(50):
        h.handle(rec('m%d' % i, t))
    h.flush_records()
    check(sorted(msgs(o)) == sorted('m%d' % i for i in range(50)), msgs(o))


@scenario
def one_batch_is_in_order():
    for seed in range(reps(6, 60)):
        rng = random.Random(SEED + seed)
        h, o = handler()
        o.pause = .002
        t = time.time() - 50
        ts = [t + rng.randrange(1000) / 100 for i in range(200)]
        # one batch: given while the printer sleeps, in one go
        for x in ts:
            h.emit(rec('%.6f' % x, x + 1000))
        h.flush_records()
        check([float(m) for m in msgs(o)] == sorted(float('%.6f' % x) for x in ts), seed)


@scenario
def delay_is_kept():
    h, o = handler()
    d = getattr(h, 'delay', .2)
    seen = []
    w = o.write

    def write(s):
        seen.append((time.time(), s))
        return w(s)
    o.write = write
    for i in range(30):
        h.handle(rec('%r' % time.time(), time.time()))
        time.sleep(.02)
    check(until(lambda: len(lines(o)) == 30), len(lines(o)))
    for at, s in seen:
        s = s.strip()
        if s:
            made = float(s.rpartition('] ')[2])
            check(at - made > d, 'printed after', at - made, 'not', d)


@scenario(limit=100)
def every_record_once_under_load():
    for seed in range(reps(3, 20)):
        h, o = handler()
        h.delay = .001
        n, k = 6, 150
        go = threading.Event()

        def work(j):
            rng = random.Random(seed * 100 + j)
            go.wait()
            for i in range(k):
                h.handle(rec('%d-%d' % (j, i), time.time() - rng.random()))
                if i % 20 == 0:
                    time.sleep(.001)

        def flush():
            go.wait()
            for i in range(40):
                h.flush_records()
                time.sleep(.001)
        ts = [threading.Thread(target=work, args=(j,)) for j in range(n)] + [threading.Thread(target=flush) for _ in range(2)]
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        try:
            for x in ts:
                x.start()
            go.set()
            for x in ts:
                x.join(40)
        finally:
            sys.setswitchinterval(old)
        h.flush_records()
        until(lambda: len(lines(o)) >= n * k, 3)
        want = sorted('%d-%d' % (j, i) for j in range(n) for i in range(k))
        got = sorted(msgs(o))
        check(got == want, len(got), 'printed of', len(want), sorted(set(want) - set(got))[:3])


@scenario
def flush_waits_for_the_printer():
    h, o = handler()
    time.sleep(.05)
    o.pause = .1
    for i in range(5):
        h.handle(rec('m%d' % i, time.time() - 10))
    check(until(lambda: len(lines(o)) >= 1))      # the printer is in the middle of its batch
    h.flush_records()
    check(msgs(o) == ['m%d' % i for i in range(5)], 'after the flush', msgs(o))


@scenario
def records_given_while_printing():
    h, o = handler()
    o.pause = .05
    for i in range(4):
        h.handle(rec('m%d' % i, time.time() - 10))
    check(until(lambda: len(lines(o)) >= 1))
    for i in range(4, 8):
        t0 = time.time()
        h.handle(rec('m%d' % i, time.time() - 10))
    check(until(lambda: len(lines(o)) >= 8), msgs(o))
    check(sorted(msgs(o)) == ['m%d' % i for i in range(8)], msgs(o))


class Bad:
    def __init__(self, e):
        self.e = e

    def __str__(self):
        raise self.e


@scenario
def records_that_cannot_be_printed():
    for how in ('flush', 'printer'):
        h, o = handler()
        t = time.time() - 10 if how == 'printer' else time.time() + 10
        for i, e in enumerate([ValueError('x'), RecursionError(), TypeError(), KeyError()]):
            h.handle(rec('bad %s', t + i * .1 + .01, args=(Bad(e),)))
            h.handle(rec('m%d' % i, t + i * .1 + .02))
        h.handle(rec('%d %d', t + 1, args=('x',)))
        h.handle(rec('last', t + 2))
        if how == 'flush':
            h.flush_records()
        want = ['m0', 'm1', 'm2', 'm3', 'last']
        check(until(lambda: [m for m in msgs(o) if m in want] == want), how, msgs(o))


@scenario
def printing_a_record_that_logs():
    h, o = handler()

    class Logs:
        def __str__(self):
            h.handle(rec('inner', time.time() - 5))
            return 'outer'
    h.handle(rec('%s', time.time() - 10, args=(Logs(),)))
    check(until(lambda: sorted(msgs(o)) == ['inner', 'outer']), msgs(o))
    h.handle(rec('%s', time.time() + 10, args=(Logs(),)))
    t = threading.Thread(target=h.flush_records, daemon=True)
    t.start()
    t.join(5)
    check(not t.is_alive(), 'the flush does not end')
    check(until(lambda: sorted(msgs(o)) == ['inner', 'inner', 'outer', 'outer']), msgs(o))


@scenario
def headers():
    h, o = handler()
    t = time.time() + 10
    names = [('h%d' % (i % 3), 'p%d' % (i % 4), 't%d' % (i % 5)) for i in range(60)]
    for i, (a, b, c) in enumerate(names):
        h.handle(rec('m%d' % i, t + i, host_name=a, process_name=b, thread_name=c))
    h.flush_records()
    check(lines(o) == ['[%s:%s:%s] m%d' % (n + (i,)) for i, n in enumerate(names)], lines(o)[:5])


@scenario
def headers_of_similar_names():
    h, o = handler()
    t = time.time() + 10
    names = [('a', 'b', 'c'), ('b', 'a', 'c'), ('a', 'b:c', 'd'), ('a:b', 'c', 'd'), ('', '', ''), ('a', 'c', 'b'), ('%s', '{}', '\xe4'),
             ('ab', 'c', 'd'), ('a', 'bc', 'd'), ('abc', '', 'd'), ('a', 'b', 'cd')]
    for i, (a, b, c) in enumerate(names):
        h.handle(rec('m%d' % i, t + i, host_name=a, process_name=b, thread_name=c))
    h.flush_records()
    check(lines(o) == ['[%s:%s:%s] m%d' % (n + (i,)) for i, n in enumerate(names)], lines(o))


@scenario
def headers_of_local_records():
    h, o = handler()
    tid = threading.get_ident()
    old = remote.get_host_name(), remote.get_process_name()
    try:
        remote.set_host_name('myhost')
        remote.set_process_name('myproc')
        remote.set_thread_name('mythread')
        h.handle(rec('m', time.time() + 5))
        h.handle(rec('m', time.time() + 6, host_name='other'))
        h.handle(rec('m', time.time() + 7, process_name='other'))
        h.handle(rec('m', time.time() + 8, thread_name='other'))
        x = []

        def f():
            x.append(threading.get_ident())
            remote.set_thread_name('second')
            h.handle(rec('m', time.time() + 9))
        th = threading.Thread(target=f)
        th.start()
        th.join()
        h.flush_records()
        check(lines(o) == ['[myhost:myproc:mythread] m', '[other:myproc:mythread] m', '[myhost:other:mythread] m',
                           '[myhost:myproc:other] m', '[myhost:myproc:second] m'], lines(o))
        remote.set_process_name('renamed')
        h.handle(rec('m', time.time() + 5))
        h.flush_records()
        check(lines(o)[-1] == '[myhost:renamed:mythread] m', lines(o)[-1])
    finally:
        remote.set_host_name(old[0])
        remote.set_process_name(old[1])
        remote.thread_names.pop(tid, None)


COLOR = '''
import sys, types, io, logging, time
m = types.ModuleType('colorama')
def ns(*n): return types.SimpleNamespace(**{x: '<%s>' % x for x in n})
m.Style = ns('NORMAL', 'BRIGHT', 'DIM', 'RESET_ALL')
m.Fore = ns('WHITE', 'GREEN', 'RED', 'CYAN', 'YELLOW', 'BLUE', 'MAGENTA', 'BLACK', 'RESET')
m.Back = ns('WHITE', 'GREEN', 'RED', 'CYAN', 'YELLOW', 'BLUE', 'MAGENTA', 'BLACK', 'RESET')
class A:
    def __init__(self, s): self.stream = s
m.AnsiToWin32 = A
m.init = lambda *a, **k: None
sys.modules['colorama'] = m
from teleprox.log.handler import RPCLogHandler
o = io.StringIO()
h = RPCLogHandler(o)
lg = logging.getLogger('x'); lg.propagate = False; lg.setLevel(1); lg.addHandler(h)
LV = [1, 5, 10, 15, 20, 25, 30, 35, 40, 45, 50, 55, 60, 75, 100, 1000]
for n in range(40):
    lg.log(LV[n % len(LV)], 'm%dm', n, extra=dict(host_name='h%d' % n, process_name='p', thread_name='t'))
h.flush_records()
l = o.getvalue().strip().split(chr(10))
assert len(l) == 40, (len(l), l)
for n in range(40):
    assert l[n].count('m%dm' % n) == 1 and '[h%d:p:t]' % n in l[n], l[n]
'''


@scenario
def colors():
    r = subprocess.run([sys.executable, '-c', COLOR], capture_output=True, text=True, timeout=25)
    check(r.returncode == 0, r.stderr[-400:])


EXIT = '''
import sys, logging, time
from teleprox.log.handler import RPCLogHandler
h = RPCLogHandler(sys.stdout)
lg = logging.getLogger('x'); lg.propagate = False; lg.setLevel(1); lg.addHandler(h)
for n in range(300):
    lg.info('m%d', n)
'''


@scenario
def exit_prints_what_is_left():
    for extra in ('', 'time.sleep(.21)\nfor n in range(300, 400): lg.info("m%d", n)\n'):
        r = subprocess.run([sys.executable, '-c', EXIT + extra], capture_output=True, text=True, timeout=25)
        n = 400 if extra else 300
        got = [l.rpartition('] ')[2] for l in r.stdout.split('\n') if l]
        check(got == ['m%d' % i for i in range(n)], len(got), 'of', n, r.stderr[-300:])


main()
