import os
import shlex
import subprocess
import sys
import itertools
import json
from rt import *
from world import *
from unittest import mock
import teleprox.process as tpp
import teleprox.log.remote as remote

HERE = os.path.dirname(os.path.abspath(__file__))
RealPopen = subprocess.Popen
_probe = []


def probe(argv):
    """What the real bootstrap module makes of this command line."""
    if not _probe:
        _probe.append(RealPopen([sys.executable, os.path.join(HERE, 'bootprobe.py')], stdin=subprocess.PIPE,
                                stdout=subprocess.PIPE, stderr=subprocess.DEVNULL))
    p = _probe[0]
    p.stdin.write((json.dumps(argv) + '\n').encode())
    p.stdin.flush()
    l = p.stdout.readline()
    check(l, 'the bootstrap module cannot be run')
    return json.loads(l)


class FakePopen:
    """Stands for subprocess.Popen: runs the bootstrap module in the probe, or plays a child."""
    made = []
    child = None          # None: the real bootstrap module; else a report to make, or 'silence'
    running = True

    def __init__(self, args, **kw):
        self.args, self.kw, self.pid, self.killed, self.waited = args, kw, 4242, 0, 0
        self.stdin = self.stdout = self.stderr = None
        if kw.get('stdout') == subprocess.PIPE:
            self.stdout = open('/dev/null', 'rb')
        if kw.get('stderr') == subprocess.PIPE:
            self.stderr = open('/dev/null', 'rb')
        self.words = shlex.split(args) if kw.get('shell') else list(args)
        self.settings = None
        FakePopen.made.append(self)
        if self.child == 'silence':
            return
        i = self.words.index('teleprox.bootstrap')
        self.argv = self.words[i + 1:]
        self.thread = threading.Thread(target=self.play, daemon=True)
        self.thread.start()

    def play(self):
        if self.child is None:
            self.settings = probe(self.argv)
            return
        a = [x.partition('=')[2] for x in self.argv if x.startswith('--bootstrap_addr=')]
        s = zmq.Context.instance().socket(zmq.PAIR)
        s.linger = 100
        s.connect(a[0])
        s.send_json(self.child)
        s.poll(3000)
        s.close()

    def poll(self):
        return None if self.running and not self.killed else 0

    def wait(self, timeout=None):
        self.waited += 1
        return 0

    def communicate(self, *a, **k):
        return None, None

    def kill(self):
        self.killed += 1


class FakeClient:
    def __init__(self, address, **kw):
        self.address, self.kw = address, kw

    def close_server(self, *a, **k):
        return True


class FakeStdio:
    def __init__(self, proc, name, log_addr=None, log_level=None):
        self.proc, self.name, self.log_addr, self.log_level = proc, name, log_addr, log_level


class Died(Exception):
    pass


@contextlib.contextmanager
def world(child=None, running=True, prefix='', known=None, patience=None):
    FakePopen.made, FakePopen.child, FakePopen.running = [], child, running
    kills = []
    ps = [mock.patch.object(subprocess, 'Popen', FakePopen), mock.patch.object(tpp, 'RPCClient', FakeClient),
          mock.patch.object(tpp, 'StdioLogSender', FakeStdio),
          mock.patch.object(os, 'kill', lambda p, s: kills.append((p, int(s)))),
          mock.patch.object(remote, 'server_addr', known), mock.patch.object(tpp, 'PROCESS_NAME_PREFIX', prefix),
          mock.patch.object(tpp.atexit, 'register', lambda f, *a, **k: f)]
    if patience is not None:
        real = zmq.Socket.setsockopt
        ps.append(mock.patch.object(zmq.Socket, 'setsockopt', lambda s, o, v: real(
            s, o, patience if o == zmq.RCVTIMEO and v > 0 else v)))
    with contextlib.ExitStack() as st:
        for p in ps:
            st.enter_context(p)
        yield kills


def start(**kw):
    h = tpp.start_process(**kw)
    check(len(FakePopen.made) == 1, 'processes started:', len(FakePopen.made))
    p = FakePopen.made[0]
    p.thread.join(10)
    return h, p


def text(a):
    return a.decode() if isinstance(a, bytes) else a


def expected_level(l):
    return tpp.logger.getEffectiveLevel() if l is None else l if isinstance(l, int) else getattr(logging, l.upper())


def one(rnd, qt=False, **force):
    prefix = rnd.choice(['', 'pfx-', 'a b '])
    known = rnd.choice([None, b'tcp://127.0.0.1:5999'])
    kw = {}
    if rnd.random() < .8:
        kw['name'] = rnd.choice(['child', 'my child', 'a;b', 'x=1', '$HOME', "it's", 'q"q', 'p*', 'näme', '0'])
    if rnd.random() < .7:
        kw['address'] = rnd.choice(['tcp://127.0.0.1:*', b'tcp://127.0.0.1:*', 'tcp://*:*', 'inproc://a=b', b'inproc://c%d'])
    if rnd.random() < .6:
        kw['log_addr'] = rnd.choice(['tcp://127.0.0.1:5998', b'tcp://127.0.0.1:5997'])
    if rnd.random() < .7:
        kw['log_level'] = rnd.choice([0, 7, 10, 35, 50, 'debug', 'Info', 'WARNING', 'error', 'Critical'])
    kw['daemon'] = rnd.random() < .4
    kw['shell'] = rnd.random() < .4
    kw['qt'] = qt
    if rnd.random() < .3:
        kw['conda_env'] = rnd.choice(['base', 'my env'])
    if rnd.random() < .3:
        kw['executable'] = '/opt/some/python'
    if not kw['daemon'] and rnd.random() < .4:
        kw['log_stdio'] = rnd.choice([True, False, None])
    kw.update(force)
    if rnd.random() < .5:
        kw['serializer'] = rnd.choice(['json', 'msgpack'])
    with world(prefix=prefix, known=known):
        h, p = start(**kw)
        info = (kw, prefix, known, p.words, p.settings)
        s = p.settings
        check(s is not None and not s.get('error'), 'child failed', *info)
        check(not s.get('exit'), 'child refused its arguments', *info)
        name = prefix + kw.get('name', remote.get_process_name() + '_child')
        check(s['name'] == name, 'name', *info)
        check(s['prefix'] == prefix, 'prefix', *info)
        check(s['level'] == expected_level(kw.get('log_level')), 'level', *info)
        la = kw.get('log_addr') or (None if kw['daemon'] else known)
        check(s['logaddr'] == text(la), 'log address', *info)
        check(s['server'] == ('QtRPCServer' if qt else 'RPCServer'), 'server class', *info)
        ad = text(kw.get('address', 'tcp://127.0.0.1:*'))
        check(s['address'].startswith(ad.replace('*:*', '0.0.0.0:').rstrip('*')), 'address', *info)
        check(text(h.client.address) == s['address'], 'client address', *info)
        check(h.client.kw.get('serializer', 'msgpack') == kw.get('serializer', 'msgpack'), 'serializer', *info)
        check(h.name == name and h.qt is qt, 'handle', *info)
        calls = s['calls']
        w = p.words
        if 'conda_env' in kw:
            check(w[:2] == ['conda', 'run'] and kw['conda_env'] in w, 'conda', *info)
            w = w[w.index(kw['conda_env']) + 1:]
        want = kw.get('executable') or ('python' if 'conda_env' in kw else sys.executable)
        check(w[0] == want, 'interpreter', *info)
        check(bool(p.kw.get('shell')) == kw['shell'], 'shell', *info)
        if kw['daemon']:
            check([c for c in calls if isinstance(c, str)] == ['fork', 'setsid', 'fork', 'serve'], 'daemon', *info)
            check(sorted(c[2] for c in calls if isinstance(c, list) and c[1] == '/dev/null') == [0, 1, 2], 'streams', *info)
            check(h.pid == s['pid'] and type(h) is tpp.DaemonProcess, 'pid', *info)
            check([p.kw.get(n) for n in ('stdin', 'stdout', 'stderr')] == [subprocess.DEVNULL] * 3, 'streams', *info)
            check(p.waited, 'launcher not waited for')
        else:
            check(calls == ['serve'], 'daemon?', *info)
            check(h.pid == p.pid and h.proc is p, 'pid', *info)
            ls = kw.get('log_stdio')
            if ls is None:
                ls = la is not None
            check(p.kw.get('stdin') == subprocess.DEVNULL, 'stdin', *info)
            for n in ('stdout', 'stderr'):
                check(p.kw.get(n) == (subprocess.PIPE if ls else None), n, *info)
            sl = h.stdio_logger
            check((sl is not None) == ls, 'stdio logger', *info)
            if sl is not None:
                check(sl.proc is p and sl.name == name and text(sl.log_addr) == text(la) and
                      sl.log_level == expected_level(kw.get('log_level')), 'stdio logger', *info)
        check(not p.killed, 'killed')


@scenario(limit=60)
def settings(rnd):
    n = reps(60)
    for _ in range(n):
        one(rnd)
    return n


@scenario(limit=60)
def every_option_alone(rnd):
    n = 0
    for kw in [dict(name='x'), dict(address=b'tcp://127.0.0.1:*'), dict(address='inproc://zz'), dict(log_addr='tcp://127.0.0.1:5990'),
               dict(log_addr=b'tcp://127.0.0.1:5990'), dict(log_level=0), dict(log_level='error'), dict(daemon=True),
               dict(shell=True), dict(shell=True, name='two words'), dict(shell=True, daemon=True),
               dict(daemon=True, log_addr='tcp://127.0.0.1:5990'), dict(daemon=True, log_level=5)]:
        one(rnd, **dict(dict(daemon=False, shell=False), **kw))
        n += 1
    return n


@scenario(limit=60)
def names_like_options(rnd):
    n = 0
    for name in ('-x', '--qt', '--daemon=1', '--', '-', '--listen_addr', '-1', '--no such'):
        for shell in (False, True):
            one(rnd, daemon=False, shell=shell, name=name)
            n += 1
    return n


@scenario(limit=60)
def qt_settings(rnd):
    n = reps(4)
    for i in range(n):
        one(rnd, qt=True, daemon=bool(i % 2))
    return n


@scenario
def streams():
    n = 0
    a, b = os.pipe()
    try:
        for i, o, e, ls, la, sh in itertools.product((None, 0, a), (None, b), (None, b, subprocess.STDOUT), (None, True, False),
                                                     (None, 'tcp://127.0.0.1:5996'), (False, True)):
            with world(child={'address': 'tcp://127.0.0.1:5', 'pid': 77}):
                kw = dict(stdin=i, stdout=o, stderr=e, log_stdio=ls, log_addr=la, shell=sh)
                if ls and (o is not None or e is not None):
                    raises(AssertionError, tpp.start_process, **kw)
                    check(not FakePopen.made, 'started', kw)
                    continue
                h, p = start(**kw)
                logged = ls or (ls is None and o is None and e is None and la is not None)
                want = (subprocess.DEVNULL if i is None else i,) + ((subprocess.PIPE,) * 2 if logged else (o, e))
                got = tuple(p.kw.get(x) for x in ('stdin', 'stdout', 'stderr'))
                check(got == want, 'streams', got, want, kw)
                check((h.stdio_logger is not None) == logged, 'stdio logger', kw)
                n += 1
    finally:
        os.close(a)
        os.close(b)
    return n


@scenario
def daemon_has_no_streams():
    for kw in (dict(stdin=0), dict(stdout=1), dict(stderr=2), dict(log_stdio=True)):
        with world(child={'address': 'tcp://127.0.0.1:5', 'pid': 77}):
            raises(AssertionError, tpp.start_process, daemon=True, **kw)
            check(not FakePopen.made, 'started', kw)


@scenario
def errors_reported():
    lines = ['Traceback\n', ' boom {x} %s\n']
    for daemon, running in itertools.product((False, True), (True, False)):
        with world(child={'error': lines, 'pid': 77}, running=running) as kills:
            e = raises(RuntimeError, tpp.start_process, daemon=daemon)
            check(''.join(lines) in str(e), 'text', e)
            p = FakePopen.made[0]
            if daemon:
                check(kills == [(77, 9)], 'kills', kills)
            else:
                check((p.killed > 0) == running and not kills, 'killed', p.killed, running, kills)


@scenario
def dead_daemon_error():
    """the failed daemon is gone already"""
    for x in (ProcessLookupError, PermissionError):
        with world(child={'error': ['e'], 'pid': 77}):
            def gone(*a):
                raise x()
            with mock.patch.object(os, 'kill', gone):
                raises(RuntimeError, tpp.start_process, daemon=True)


@scenario
def silence():
    for daemon in (False, True):
        with world(child='silence', patience=200):
            raises(TimeoutError, tpp.start_process, daemon=daemon)


@scenario
def server_cannot_start():
    with world():
        for daemon in (False, True):
            e = raises(RuntimeError, tpp.start_process, address='nonsense://', daemon=daemon)
            check('ZMQError' in str(e) or 'Protocol' in str(e), 'text', e)
            FakePopen.made.clear()


@scenario(limit=60)
def for_real():
    """A real child process."""
    with mock.patch.object(tpp, 'PROCESS_NAME_PREFIX', 'pre-'):
        p = tpp.start_process(name='real', log_level=35)
    try:
        r = p.client._import('teleprox.log.remote')
        check(r.get_process_name() == 'pre-real')
        check(p.client._import('teleprox.process').PROCESS_NAME_PREFIX == 'pre-')
        check(p.client._import('os').getpid() == p.pid)
        check(p.client._import('logging').getLogger().level == 35)
    finally:
        p.stop()
    check(p.poll() == 0)


if __name__ == '__main__':
    main()
