import io
import os
import random
import subprocess
import sys
import logging
import threading
import time
from rt import *
from world import *
from unittest import mock
import teleprox.log.stdio as st
import teleprox.log.remote as remote
import teleprox.process as tpp

LEVELS = {'stdout': logging.INFO, 'stderr': logging.WARNING}


class Sink(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self, 0)
        self.got = []

    def emit(self, r):
        self.got.append((r.levelno, r.getMessage()))


class Proc:
    """Stands for a Popen object with two pipes."""
    def __init__(self):
        self.pid, self.stdin = 4243, None
        for n in LEVELS:
            r, w = os.pipe()
            setattr(self, n, open(r, 'rb'))
            setattr(self, 'w_' + n, w)

    def write(self, n, data):
        while data:
            data = data[os.write(getattr(self, 'w_' + n), data):]

    def end(self):
        for n in LEVELS:
            os.close(getattr(self, 'w_' + n))


class Fake(logging.Handler):
    """Stands for a log sender."""
    made = []

    def __init__(self, address=None, logger=None, **k):
        logging.Handler.__init__(self, 0)
        self.address, self.got = address, []
        Fake.made.append(self)
        if logger is not None:
            (logging.getLogger(logger) if isinstance(logger, str) else logger).addHandler(self)

    def handle(self, r):
        self.got.append((r.levelno, r.getMessage()))

    def connect(self, address):
        self.address = address

    def close(self):
        pass


def sender(p, name, log_addr=None, log_level=None):
    before = set(threading.enumerate())
    with mock.patch.object(st, 'LogSender', Fake, create=True), mock.patch.object(remote, 'LogSender', Fake):
        s = st.StdioLogSender(p, name, log_addr=log_addr, log_level=log_level)
    s.x_threads = [t for t in threading.enumerate() if t not in before]
    return s


def finish(s, n=10):
    end = time.time() + n
    for t in s.x_threads:
        t.join(max(0, end - time.time()))
        check(not t.is_alive(), 'a stream at its end is still being read')


def text(line):
    try:
        return [line.decode()]
    except UnicodeDecodeError:
        return [line.decode('utf8', e) for e in ('backslashreplace', 'surrogateescape')]


def expect(got, name, stream, lines):
    mine = [m for l, m in got if m.startswith('[%s.%s] ' % (name, stream))]
    lv = {l for l, m in got if m.startswith('[%s.%s] ' % (name, stream))}
    check(len(mine) == len(lines), stream, 'messages', len(mine), 'lines', len(lines), mine[:5], lines[:5])
    for m, l in zip(mine, lines):
        check(any(m == '[%s.%s] %s' % (name, stream, t) for t in text(l)), stream, 'line', l[:80], 'message', m[:120])
    check(not lines or lv == {LEVELS[stream]}, stream, 'levels', lv)


def capture(out, err, name='proc', addr=None, chunks=None):
    p = Proc()
    sink = Sink()
    root = logging.getLogger()
    root.addHandler(sink)
    old = root.level
    root.setLevel(1)
    n = len(Fake.made)
    try:
        s = sender(p, name, addr)
        if chunks:
            for stream, data in chunks:
                p.write(stream, data)
                time.sleep(.002)
        else:
            a = threading.Thread(target=p.write, args=('stdout', out))
            b = threading.Thread(target=p.write, args=('stderr', err))
            for t in (a, b):
                t.start()
            for t in (a, b):
                t.join(10)
                check(not t.is_alive(), 'the child blocks on its output: nobody reads it')
        p.end()
        finish(s)
    finally:
        root.removeHandler(sink)
        root.setLevel(old)
    made = Fake.made[n:]
    return sink.got, made


def lines(b):
    l = b.split(b'\n')
    return l[:-1] if l[-1] == b'' else l


def both(out, err, name='proc', chunks=None):
    got, made = capture(out, err, name, chunks=chunks)
    check(not made, 'no address, but a log sender')
    expect(got, name, 'stdout', lines(out))
    expect(got, name, 'stderr', lines(err))
    check(len(got) == len(lines(out)) + len(lines(err)), 'messages', len(got))


@scenario
def plain_lines():
    both(b'one\ntwo\nthree\n', b'uno\ndue\n')


@scenario
def nothing():
    both(b'', b'')


@scenario
def last_line_without_newline():
    both(b'one\ntwo', b'x')
    both(b'  ', b'\r')


@scenario
def white_space_is_kept():
    both(b'  indented\n\ttab\ntrailing  \n\n\n \n\r\ncr\r\n', b'a\rb\n\x0c\n\x0b\x1c\x85\n' + '\u2028x\u2029\n\xa0\n'.encode())


@scenario
def empty_lines():
    both(b'\n\n\nx\n\n', b'\n')


@scenario
def percent_signs_and_braces():
    both(b'100%\n%s %d %(name)s %%\n{0} {} {name}\n', b'%s', name='p%s{}')


@scenario
def bytes_that_are_not_text():
    both(b'ok\n\xff\xfe bad\nok again\n\xc3\n\xe2\x82\n', b'\x80\n' + bytes(set(range(256)) - {10}) + b'\nend')


@scenario
def text_of_all_languages():
    both('\xe4\xf6\u20ac\U0001f600\n\u4e2d\u6587\n'.encode(), '\xdf'.encode(), name='\u4e2d')


@scenario
def null_characters_and_colours():
    both(b'a\0b\n\x1b[31mred\x1b[0m\n', b'\0\n')


@scenario
def long_lines():
    both(b'a' * 300000 + b'\n' + b'b' * 70000, b'c' * 8192 + b'\n' + b'd' * 8191 + b'\n' + b'e' * 65536 + b'\n')


@scenario
def many_lines():
    both(b''.join(b'%d\n' % i for i in range(5000)), b''.join(b'e%d\n' % i for i in range(3000)))


@scenario
def lines_written_in_pieces():
    both(b'one two\nthree', b'x\ny\n', chunks=[('stdout', b'one'), ('stderr', b'x\ny'), ('stdout', b' two'),
                                               ('stdout', b'\nth'), ('stderr', b'\n'), ('stdout', b'ree')])
    e = '\u20ac\n'.encode()
    both(e, b'', chunks=[('stdout', e[:1]), ('stdout', e[1:3]), ('stdout', e[3:])])


@scenario
def lines_arrive_as_they_are_written():
    p = Proc()
    sink = Sink()
    logging.getLogger().addHandler(sink)
    old = logging.getLogger().level
    logging.getLogger().setLevel(1)
    try:
        s = sender(p, 'live')
        for i in range(5):
            p.write('stdout', b'line %d\n' % i)
            end = time.time() + 5
            while len(sink.got) < i + 1 and time.time() < end:
                time.sleep(.002)
            check(sink.got[i:] == [(20, '[live.stdout] line %d' % i)], sink.got)
        p.end()
        finish(s)
    finally:
        logging.getLogger().removeHandler(sink)
        logging.getLogger().setLevel(old)


@scenario
def random_streams():
    rng = random.Random(SEED)
    for i in range(reps(40, 400)):
        a, b = (bytes(rng.choice(b'ab \t\r\n\n\xff\xc3\xa9%{') for _ in range(rng.randrange(60))) for _ in range(2))
        both(a, b)


@scenario
def to_the_log_server_only():
    got, made = capture(b'a\nb\n', b'c\n', addr=b'tcp://10.1.2.3:5')
    check(not got, 'logged locally too', got)
    check(len(made) == 1 and made[0].address in (b'tcp://10.1.2.3:5', 'tcp://10.1.2.3:5'), [m.address for m in made])
    expect(made[0].got, 'proc', 'stdout', [b'a', b'b'])
    expect(made[0].got, 'proc', 'stderr', [b'c'])


@scenario
def several_processes():
    addrs = ['tcp://10.0.0.%d:1' % i for i in range(3)] + [None, 'tcp://10.0.0.0:1', None]
    ps, ss, n = [], [], len(Fake.made)
    sink = Sink()
    logging.getLogger().addHandler(sink)
    old = logging.getLogger().level
    logging.getLogger().setLevel(1)
    try:
        for i, a in enumerate(addrs):
            ps.append(Proc())
            ss.append(sender(ps[-1], 'same name', a))
        for i, p in enumerate(ps):
            p.write('stdout', b'from %d\n' % i)
            p.write('stderr', b'err %d\n' % i)
        for p in ps:
            p.end()
        for s in ss:
            finish(s)
    finally:
        logging.getLogger().removeHandler(sink)
        logging.getLogger().setLevel(old)
    where = {}
    for h in Fake.made[n:]:
        for l, m in h.got:
            where.setdefault(m, []).append(h.address)
    for l, m in sink.got:
        where.setdefault(m, []).append(None)
    for i, a in enumerate(addrs):
        for m in ('[same name.stdout] from %d' % i, '[same name.stderr] err %d' % i):
            check(where.get(m) == [a], m, 'went to', where.get(m), 'not', a)


@scenario
def processes_one_after_another():
    for i in range(30):
        addr = None if i % 3 == 0 else 'tcp://10.0.0.%d:1' % i
        got, made = capture(b'x%d\n' % i, b'y\n', addr=addr)
        if addr is None:
            check(not made and [m for l, m in got if 'stdout' in m] == ['[proc.stdout] x%d' % i], got, made)
        else:
            check(not got and len(made) == 1 and made[0].address == addr, got, addr)
            check(sorted(m for l, m in made[0].got) == ['[proc.stderr] y', '[proc.stdout] x%d' % i], made[0].got)
    for h in Fake.made[-20:]:
        check(len(h.got) == 2, h.got)


@scenario
def level_is_set():
    for lv in (10, 25, 30, 40):
        p = Proc()
        s = sender(p, 'x', 'tcp://1.1.1.1:1', lv)
        h = Fake.made[-1]
        p.write('stdout', b'a\n')
        p.write('stderr', b'b\n')
        p.end()
        finish(s)
        check(sorted(l for l, m in h.got) == [l for l in (20, 30) if l >= lv], lv, h.got)


@scenario
def real_process():
    code = ("import sys, os; os.write(1, b'one\\ntwo\\xff\\nlast'); os.write(2, b'err\\r\\n\\n')")
    p = subprocess.Popen([sys.executable, '-c', code], stdout=-1, stderr=-1)
    sink = Sink()
    root = logging.getLogger()
    root.addHandler(sink)
    old = root.level
    root.setLevel(1)
    try:
        s = sender(p, 'r')
        p.wait(20)
        finish(s)
    finally:
        root.removeHandler(sink)
        root.setLevel(old)
    expect(sink.got, 'r', 'stdout', [b'one', b'two\xff', b'last'])
    expect(sink.got, 'r', 'stderr', [b'err\r', b''])


@scenario
def waiting_does_not_take_the_output():
    class Cl:
        address = b'tcp://x'
    code = "import os\nfor i in range(2000): os.write(1, b'%d\\n' % i)"
    p = subprocess.Popen([sys.executable, '-c', code], stdout=-1, stderr=-1)
    sink = Sink()
    root = logging.getLogger()
    root.addHandler(sink)
    old = root.level
    root.setLevel(1)
    try:
        s = sender(p, 'r')
        with mock.patch.object(tpp.atexit, 'register', lambda f, *a, **k: f):
            ch = tpp.ChildProcess(p, Cl(), 'r', False, s)
        ch.wait(timeout=20)
        finish(s)
    finally:
        root.removeHandler(sink)
        root.setLevel(old)
    expect(sink.got, 'r', 'stdout', [b'%d' % i for i in range(2000)])


@scenario
def to_a_real_log_server():
    lg = logging.getLogger('c24.server')
    lg.propagate = False
    lg.setLevel(1)
    sink = Sink()
    lg.addHandler(sink)
    srv = remote.LogServer(lg)
    time.sleep(.2)
    p = Proc()
    s = st.StdioLogSender(p, 'q', log_addr=srv.address, log_level=10)
    p.write('stdout', b'a \xff\nb')
    p.write('stderr', b'c\n')
    p.end()
    end = time.time() + 10
    while len(sink.got) < 3 and time.time() < end:
        time.sleep(.01)
    expect(sink.got, 'q', 'stdout', [b'a \xff', b'b'])
    expect(sink.got, 'q', 'stderr', [b'c'])


main()
