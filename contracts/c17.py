"""C17: a started process gets exactly the configuration asked for.

The parent (start_process) and the child (bootstrap.py, executed statement by statement from its
source) are verified against each other: the command line the one hands to Popen is what the other
is run on."""
import ast
import logging
from .base import *
from pyvc.libproc import shell_words
from pyvc.interp import Env

PR = TP + 'process.'
LEVELS = ('debug', 'INFO', 'Warning', 'error', 'CRITICAL')
_trees = {}


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def txt(vm, a):
    """address as text, whether given as text or bytes"""
    return vm.call(vm.getattr(a, 'decode'), []) if vm.kind(a) == 'bytes' else a


def addr_of(vm, how, hint):
    if how == 'bytes':
        return text_bytes(vm, hint)
    return vm.fresh('str', hint) if how == 'str' else None


# ------------------------------------------------------------------------------- the parent
class Start:
    """One call of start_process from an arbitrary parent."""

    def __init__(self, vm, name='str', address='str', log_addr=None, known_log=None, log_level=None, qt=False,
                 daemon=False, log_stdio=None, executable=None, shell=False, conda=None, streams=(None, None, None),
                 report='address', serializer=None, local=None):
        self.vm = vm
        self.prefix = vm.fresh('str', 'prefix')
        vm.setattr(need(vm, TP + 'process'), 'PROCESS_NAME_PREFIX', self.prefix)
        self.own_name = vm.fresh('str', 'own_name')
        self.known_log = addr_of(vm, known_log, 'known_log')
        self.eff = vm.fresh('int', 'efflevel')
        vm.assume(self.eff.t >= 0)
        kw = {}
        self.name = vm.fresh('str', 'name') if name else None
        if name:
            kw['name'] = self.name
        self.address = addr_of(vm, address, 'address')
        kw['address'] = self.address
        self.log_addr = addr_of(vm, log_addr, 'log_addr')
        if log_addr:
            kw['log_addr'] = self.log_addr
        if log_level == 'int':
            self.level = vm.fresh('int', 'level')
            vm.assume(self.level.t >= 0)
            kw['log_level'] = self.level
        elif log_level is not None:
            self.level = getattr(logging, log_level.upper())
            kw['log_level'] = log_level
        else:
            self.level = self.eff
        self.qt, self.daemon, self.shell = qt, daemon, shell
        if qt:
            kw['qt'] = True
        if daemon:
            kw['daemon'] = True
        self.log_stdio = log_stdio
        if log_stdio is not None:
            kw['log_stdio'] = log_stdio
        self.executable = vm.fresh('str', 'executable') if executable else None
        if executable:
            kw['executable'] = self.executable
        if shell:
            kw['shell'] = True
        self.conda = vm.fresh('str', 'conda') if conda else None
        if conda:
            kw['conda_env'] = self.conda
        self.streams = streams
        for n, v in zip(('stdin', 'stdout', 'stderr'), streams):
            if v is not None:
                kw[n] = v
        self.serializer = vm.fresh('str', 'serializer') if serializer else None
        if serializer:
            kw['serializer'] = self.serializer
        self.local = vm.fresh('bool', 'local') if local else None
        if local:
            kw['start_local_server'] = self.local
        self.kw = kw
        self.full_name = vm.concat(self.prefix, self.name if name else vm.concat(self.own_name, '_child'))
        self.plan = report

    # libraries and cuts
    def environment(self):
        vm = self.vm
        vm.contracts[TP + 'log.remote.get_logger_address'] = lambda vm, f, a, k: self.known_log
        vm.contracts[TP + 'log.remote.get_process_name'] = lambda vm, f, a, k: self.own_name
        vm.extover['logging.Logger.getEffectiveLevel'] = lambda vm, s, a, k: self.eff
        cl = vm.contracts[TP + 'client.RPCClient.__init__'] = self.client_made
        vm.contracts[TP + 'log.stdio.StdioLogSender.__init__'] = self.stdio_made
        self.clients, self.stdio, self.socks, self.report = [], [], [], None
        vm.ghost['on_socket'] = self.new_socket
        vm.extover['os.kill'] = self.os_kill

    def os_kill(self, vm, args, kw):
        vm.event('kill', pid=args[0], sig=args[1])
        c = vm.choose(3)
        if c:
            vm.throw((ProcessLookupError, PermissionError)[c - 1])

    def bind_args(self, vm, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        d = dict(zip(names, args))
        for l in kw:
            d[l[1]] = l[2]
        return d

    def client_made(self, vm, f, args, kw):
        d = self.bind_args(vm, f, args, kw)
        self.clients.append(d)
        setf = d['self'].fields
        vm.dict_set(setf, 'address', d['address'])
        vm.event('client', **{k: v for k, v in d.items() if k != 'self'})

    def stdio_made(self, vm, f, args, kw):
        d = self.bind_args(vm, f, args, kw)
        self.stdio.append(d)
        vm.event('stdio', **{k: v for k, v in d.items() if k != 'self'})

    def new_socket(self, vm, s):
        self.socks.append(s)
        s.ghost['on_recv'] = self.reported

    def reported(self, vm, s):
        """What the child says about itself."""
        pid = vm.fresh('int', 'child_pid')
        vm.assume(pid.t > 0)
        if self.plan == 'error' or (self.plan == 'any' and vm.choose(2)):
            lines = ListObj(vm, [vm.fresh_list('error', lambda vm: vm.fresh('str', 'line'))])
            self.report = {'error': lines, 'pid': pid}
        else:
            a = vm.fresh('str', 'child_addr')
            self.report = {'address': a, 'pid': pid}
        return DictObj(vm, kws(**self.report))

    def run(self):
        vm = self.vm
        saved, ext = dict(vm.contracts), dict(vm.extover)
        self.environment()
        self.mark = len(vm.trace)
        if self.plan != 'any':
            vm.ghost['clock'] = None
        try:
            self.handle, self.exc = attempt(vm, lambda: vm.call(need(vm, PR + 'start_process'), [], kws(**self.kw)))
        finally:
            vm.contracts.clear()
            vm.contracts.update(saved)
            vm.extover.clear()
            vm.extover.update(ext)
            vm.ghost.pop('on_socket', None)
        self.popens = [e.d for e in vm.trace[self.mark:] if e.kind == 'popen']
        if self.plan == 'address' and self.report is None:
            raise PathEnd()          # silence: decided by the 'reports' harness
        return self

    def command(self):
        """(words of the command, or None)"""
        vm = self.vm
        vm.prove('start: exactly one process is started', len(self.popens) == 1, self.popens)
        if len(self.popens) != 1:
            raise PathEnd()
        a = self.popens[0]['args']
        sh = a.get('shell', False)
        cmd = a.get('args')
        vm.prove('start: through the shell only when asked', bool(vm.truth(sh)) == self.shell, sh)
        if vm.truth(sh):
            if vm.kind(cmd) != 'str':
                vm.prove('start: the shell gets one command line', False, cmd)
                raise PathEnd()
            plain = [x.t for x in (self.executable,) if x is not None] + [z3.String('sys.executable')]
            w = shell_words(vm, cmd, plain)
            vm.prove('start: the shell passes every argument on unchanged', w is not None, cmd)
            if w is None:
                raise PathEnd()
            return w
        if not isinstance(cmd, (Tup, ListObj)) or any(isinstance(x, Splice) for x in cmd.segs):
            raise Unsupported('command %r' % (cmd,))
        ex = a.get('executable')
        vm.prove('start: the program is the first word of the command', ex is None, ex)
        return list(cmd.segs)

    def argv(self):
        """The arguments bootstrap.py sees, after the launcher and the interpreter took theirs."""
        vm = self.vm
        w = self.command()

        def expect(what, cond, info):
            vm.prove(what, cond, info)
            if cond is False:
                raise PathEnd()
        if self.conda is not None:
            expect('start: conda runs the command', len(w) > 2 and w[0] == 'conda' and w[1] == 'run', w)
            w = w[2:]
            env = None
            while w and isinstance(w[0], str) and w[0].startswith('-'):
                if w[0] in ('-n', '--name') and len(w) > 1:
                    env, w = w[1], w[2:]
                elif w[0] in ('--no-capture-output', '--live-stream', '-v'):
                    w = w[1:]
                else:
                    raise Unsupported('conda option %r' % (w[0],))
            expect('start: in the environment asked for', env is not None and eq(vm, env, self.conda), env)
        want = self.executable if self.executable is not None else \
            ('python' if self.conda is not None else Sym('str', z3.String('sys.executable')))
        expect('start: the interpreter is the one asked for', bool(w) and eq(vm, w[0], want), w)
        w = w[1:]
        while w and isinstance(w[0], str) and w[0].startswith('-') and w[0] != '-m':
            if w[0] not in ('-u', '-B', '-q', '-E', '-s'):
                raise Unsupported('interpreter option %r' % (w[0],))
            w = w[1:]
        expect('start: it runs the bootstrap module', len(w) >= 2 and w[0] == '-m' and w[1] == 'teleprox.bootstrap', w)
        return w[2:]

    def logging_to(self):
        """log address the child is expected to use, as text"""
        a = self.log_addr if self.log_addr is not None else (None if self.daemon else self.known_log)
        return txt(self.vm, a) if a is not None else None


# ------------------------------------------------------------------------------- the child
class Report(Rule):
    """Every round of telling the parent sends the status, whole, on the bootstrap socket."""
    force = True

    def __init__(self, ch):
        self.ch = ch

    def matches(self, vm, src, node):
        return src is None and self.ch.running

    def check_iter(self, vm, sp, env, x, evs):
        ss = [e for e in evs if e.kind == 'send']
        vm.prove('child: each round reports once', len(ss) == 1, ss)
        for e in ss:
            self.ch.check_report(e)


class Child:
    """The bootstrap module run as script with these arguments."""

    def __init__(self, vm, argv, bind_fails=False, forks=(True, True)):
        self.vm, self.argv, self.bind_fails = vm, argv, bind_fails
        self.forks = list(forks)
        self.served, self.running = [], True
        self.reports = []

    def check_report(self, e):
        vm = self.vm
        self.reports.append(e)
        d = dict_of(vm, e.frames[0]) if e.how == 'json' else None
        if d is None:
            raise Unsupported('status report %r' % (e,))
        vm.prove('child: reports its pid', 'pid' in d and eq(vm, d['pid'], Sym('int', z3.Int('os.getpid'))), d)
        if self.failed():
            er = d.get('error')
            vm.prove('child: a server that cannot start is reported as error', er is not None and 'address' not in d, d)
            if er is not None:
                vm.prove('child: ..with its text', isinstance(er, (ListObj, Tup)) and any(
                    isinstance(s, Splice) and s.src and s.src[0] == 'traceback.format_exception' for s in er.segs) or
                    vm.kind(er) == 'str', er)
        else:
            a = d.get('address')
            vm.prove('child: a server that started is reported by its address', a is not None and 'error' not in d, d)
            b = [x for x in vm.trace if x.kind == 'bind' and x.sock.ghost['type'].dotted == 'zmq.ROUTER']
            if a is not None and vm.prove('child: it starts one server', len(b) == 1, b):
                vm.prove('child: ..the address it is reached at', eq(
                    vm, a, vm.call(vm.getattr(b[0].sock.ghost['endpoint'], 'decode'), [])), a)
        cn = [x for x in vm.trace if x.kind == 'connect' and x.sock is e.sock]
        vm.prove('child: reports to the address it was given', len(cn) == 1 and
                 eq(vm, txt(vm, cn[0].addr), self.boot_addr), cn)
        vm.prove('child: reports on a socket the parent understands', e.sock.ghost['type'].dotted == 'zmq.PAIR')

    def failed(self):
        return self.vm.ghost.get('bind_failed', False)

    def bind(self, vm, s, args, kw):
        vm.event('bind', sock=s, addr=args[0])
        if s.ghost['type'].dotted == 'zmq.ROUTER' and self.bind_fails:
            vm.ghost['bind_failed'] = True
            vm.throw_cls(ExtCls('zmq.error.ZMQError'))

    def serve(self, vm, f, args, kw):
        self.served.append(args[0])
        vm.event('serve', server=args[0])

    def run(self, boot_addr):
        vm = self.vm
        self.boot_addr = boot_addr
        vm.setattr(need(vm, TP + 'process'), 'PROCESS_NAME_PREFIX', '')
        vm.ghost['sys.argv'] = ListObj(vm, ['bootstrap.py'] + list(self.argv))
        vm.extover['zmq.Socket.bind'] = self.bind
        for c in ('server.RPCServer', 'qt_server.QtRPCServer'):
            vm.contracts[TP + c + '.run_forever'] = self.serve
        vm.extover['sys.excepthook'] = lambda vm, a, k: None
        vm.ghost['on_fork'] = lambda vm: self.forks.pop(0) if self.forks else True
        vm.loop_rules.insert(0, Report(self))
        path = vm.world.path_of(TP + 'bootstrap')[0]
        if path is None:
            raise Unsupported('bootstrap module not found')
        if path not in _trees:
            _trees[path] = ast.parse(open(path, encoding='utf-8').read(), path)
        m = ModuleVal('__main__', path)
        m.ns['__name__'] = '__main__'
        m.ns['__file__'] = path
        env = Env(m)
        env.vars = m.ns
        self.mark = len(vm.trace)
        self.ns = m.ns
        vm.world.modules.setdefault('__main__', m)
        try:
            _, self.exc = attempt(vm, lambda: vm.exec_block(_trees[path].body, env))
        finally:
            vm.world.modules.pop('__main__', None)
        self.running = False
        return self

    def check(self, s):
        """The child has the settings s asked for."""
        vm = self.vm
        ev = vm.trace[self.mark:]
        if not vm.prove('child: starts', self.exc is None or exc_isa(vm, self.exc, SystemExit) and not any(
                e.kind == 'usage-error' for e in ev), self.exc):
            raise PathEnd()
        g = lambda n: vm.call(need(vm, TP + 'log.remote.' + n), [])
        vm.prove('child: has the name asked for, prefixed', eq(vm, g('get_process_name'), s.full_name), g('get_process_name'))
        vm.prove('child: names its own children with the same prefix',
                 eq(vm, vm.getattr(need(vm, TP + 'process'), 'PROCESS_NAME_PREFIX'), s.prefix))
        la, want = g('get_logger_address'), s.logging_to()
        if want is None:
            vm.prove('child: sends no log records unless asked', la is None, la)
        else:
            vm.prove('child: sends its log records to the address given', la is not None and eq(vm, txt(vm, la), want), la)
            push = [e for e in ev if e.kind == 'connect' and e.sock.ghost['type'].dotted == 'zmq.PUSH']
            vm.prove('child: ..and is connected to it', len(push) == 1 and eq(vm, txt(vm, push[0].addr), want), push)
            rt = vm.call(Ext('logging.getLogger'), [])
            ah = [e for e in ev if e.kind == 'addHandler']
            vm.prove('child: ..for all its loggers', any(e.logger is rt for e in ah), ah)
        rt = vm.call(Ext('logging.getLogger'), [])
        lv = [e for e in ev if e.kind == 'setLevel' and e.logger is rt]
        vm.prove('child: has the log level asked for', bool(lv) and eq(vm, lv[-1].level, s.level), lv)
        b = [e for e in ev if e.kind == 'bind' and e.sock.ghost['type'].dotted == 'zmq.ROUTER']
        vm.prove('child: listens at the address asked for', len(b) == 1 and eq(vm, txt(vm, b[0].addr), s.address_text()), b)
        if not self.failed():
            ok = vm.prove('child: serves requests', len(self.served) == 1, self.served)
            if ok:
                q = issub(self.served[0].cls, need(vm, TP + 'qt_server.QtRPCServer'))
                vm.prove('child: with a Qt server exactly when asked', q == s.qt, self.served[0].cls)
            i = [n for n, e in enumerate(vm.trace) if e.kind == 'serve']
            r = [n for n, e in enumerate(vm.trace) if e.kind == 'loop' and 'send' in e.d.get('kinds', ())]
            vm.prove('child: the parent is told before serving', bool(r) and bool(i) and min(r) < min(i), (r, i))
        else:
            vm.prove('child: does not serve when the server could not start', not self.served, self.served)
            vm.prove('child: the parent is told about the error', has_loop_event(vm, ['send'], self.mark))
        app = [e for e in ev if e.kind == 'qt.exec']
        vm.prove('child: runs a Qt application exactly when asked', (len(app) == 1) == s.qt, app)
        self.check_daemon(s, ev)

    def check_daemon(self, s, ev):
        vm = self.vm
        forks = [n for n, e in enumerate(ev) if e.kind == 'fork']
        if not s.daemon:
            vm.prove('child: stays a child of its parent', not forks and not any(e.kind == 'setsid' for e in ev), ev)
            return
        sid = [n for n, e in enumerate(ev) if e.kind == 'setsid']
        srv = [n for n, e in enumerate(ev) if e.kind in ('bind', 'socket')]
        ok = len(forks) == 2 and len(sid) == 1 and forks[0] < sid[0] < forks[1]
        vm.prove('daemon: leaves the session of its parent for good (fork, setsid, fork)', ok, (forks, sid))
        vm.prove('daemon: detaches before doing anything else', bool(forks) and (not srv or max(forks) < min(srv)), ev)
        d2 = {}
        for e in ev:
            if e.kind == 'dup2':
                a, b = list(e.args.segs)[:2]
                if isinstance(b, int):
                    d2[b] = a
        fds = [e.file.ghost['fd'] for e in ev if e.kind == 'open' and e.path == '/dev/null']
        for n in (0, 1, 2):
            vm.prove('daemon: keeps none of the standard streams', n in d2 and any(
                vm.entails(eq(vm, d2[n], f)) for f in fds), d2)


def address_text(self):
    return txt(self.vm, self.address)


Start.address_text = address_text


def boot_addr_of(vm, s):
    """endpoint of the socket the parent waits on"""
    r = [e for e in vm.trace[s.mark:] if e.kind == 'recv' and e.sock in s.socks]
    vm.prove('start: waits for the report of the child', len(r) == 1, r)
    if len(r) != 1:
        raise PathEnd()
    sk = r[0].sock
    vm.prove('start: on a socket that is bound', any(e.kind == 'bind' and e.sock is sk for e in vm.trace))
    return vm.call(vm.getattr(sk.ghost['endpoint'], 'decode'), [])


def both(vm, s, **child):
    s.run()
    vm.prove('start: succeeds with a child that reports its address', s.exc is None, s.exc)
    argv = s.argv()
    c = Child(vm, argv, **child).run(boot_addr_of(vm, s))
    return c


# ------------------------------------------------------------------------------- harnesses
def settings(qt, daemon):
    def h(vm):
        s = Start(vm, name=pick(vm, 'str', None), address=pick(vm, 'str', 'bytes'),
                  log_addr=(la := pick(vm, None, 'str', 'bytes')),
                  known_log=pick(vm, None, 'bytes', 'str') if la is None else None,
                  log_level=pick(vm, None, 'int', LEVELS[0]), qt=qt, daemon=daemon)
        both(vm, s).check(s)
    return h


for _q in (False, True):
    for _d in (False, True):
        harness('C17', 'settings%s%s' % (' qt' if _q else '', ' daemon' if _d else ''))(settings(_q, _d))


@harness('C17', 'level names')
def level_names(vm):
    """Every level name, in any case, and the way through the shell and conda."""
    s = Start(vm, log_level=pick(vm, *LEVELS), shell=pick(vm, False, True), executable=pick(vm, None, 'str'),
              conda=pick(vm, None, 'str'), log_addr='str')
    both(vm, s).check(s)


@harness('C17', 'shell')
def shell(vm):
    """Through the shell: all combinations of what is put on the command line."""
    s = Start(vm, name=pick(vm, None, 'str'), shell=True, qt=pick(vm, False, True), daemon=pick(vm, False, True),
              log_addr=pick(vm, None, 'bytes'), log_level='int')
    both(vm, s).check(s)


@harness('C17', 'child fails')
def child_fails(vm):
    """A child whose server cannot start."""
    s = Start(vm, qt=pick(vm, False, True), daemon=pick(vm, False, True), address=pick(vm, 'str', 'bytes'))
    both(vm, s, bind_fails=True).check(s)


@harness('C17', 'launchers of a daemon')
def launchers(vm):
    """The processes a daemon forks from end without doing anything."""
    s = Start(vm, daemon=True, qt=pick(vm, False, True), log_addr=pick(vm, None, 'str'))
    c = both(vm, s, forks=pick(vm, (False,), (True, False)))
    vm.prove('launcher: exits', c.exc is not None and exc_isa(vm, c.exc, SystemExit), c.exc)
    ev = [e for e in vm.trace[c.mark:] if e.kind in ('bind', 'connect', 'send', 'socket', 'serve', 'loop')]
    vm.prove('launcher: does nothing else', not ev, ev)


@harness('C17', 'streams')
def streams(vm):
    """Standard streams of the child, in all combinations with logging of stdio."""
    a, b, c = vm.fresh('int', 'in'), vm.fresh('int', 'out'), vm.fresh('int', 'err')
    daemon = pick(vm, False, True)
    s = Start(vm, streams=(pick(vm, None, a), pick(vm, None, b), pick(vm, None, c)), daemon=daemon,
              log_stdio=pick(vm, None, True, False), log_addr=pick(vm, None, 'str'), known_log='bytes',
              shell=pick(vm, False, True))
    i, o, e = s.streams
    s.run()
    bad = (s.log_stdio is True and (daemon or o is not None or e is not None)) or \
        (daemon and s.streams != (None, None, None))
    if bad:
        vm.prove('start: refuses streams it cannot give', s.exc is not None and exc_isa(vm, s.exc, AssertionError), s.exc)
        vm.prove('start: ..without starting a process', not s.popens, s.popens)
        return
    vm.prove('start: succeeds', s.exc is None, s.exc)
    vm.prove('start: exactly one process is started', len(s.popens) == 1, s.popens)
    if len(s.popens) != 1:
        return
    p = s.popens[0]
    g = lambda n: p['args'].get(n)
    DEVNULL, PIPE = -3, -1
    logged = not daemon and (s.log_stdio is True or (
        s.log_stdio is None and o is None and e is None and s.logging_to() is not None))
    vm.prove('start: input as requested, otherwise none', eq(vm, g('stdin'), i if i is not None else DEVNULL), g('stdin'))
    for n, v in (('stdout', o), ('stderr', e)):
        want = DEVNULL if daemon else PIPE if logged else v
        vm.prove('start: output as requested, a pipe when it is logged, none for a daemon',
                 eq(vm, g(n), want), (n, g(n), want))
    h = field(vm, s.handle, 'stdio_logger') if not daemon else None
    if logged:
        if vm.prove('start: logged output is read', len(s.stdio) == 1, s.stdio):
            d = s.stdio[0]
            vm.prove('start: ..from this process', d.get('proc') is p['proc'])
            vm.prove('start: ..under its name', eq(vm, d.get('name'), s.full_name), d)
            w = s.logging_to()
            la = d.get('log_addr')
            vm.prove('start: ..to its log address', (la is None) == (w is None) and (
                w is None or eq(vm, txt(vm, la), w)), d)
            vm.prove('start: ..at its log level', eq(vm, d.get('log_level'), s.level), d)
            vm.prove('start: the handle knows that its output is being read', h is d['self'], h)
    else:
        vm.prove('start: output is read only when logged', not s.stdio and h is None, s.stdio)


@harness('C17', 'reports')
def reports(vm):
    """What the parent makes of the report of the child, or of its silence."""
    daemon = pick(vm, False, True)
    s = Start(vm, daemon=daemon, qt=pick(vm, False, True), log_stdio=None if daemon else pick(vm, None, False),
              log_addr=pick(vm, None, 'str'), serializer=pick(vm, None, 'str'), local=pick(vm, None, 'bool'),
              report='any')
    s.run()
    rc = [e for e in vm.trace[s.mark:] if e.kind == 'recv' and e.sock in s.socks]
    vm.prove('start: waits for the child', len(rc) == 1, rc)
    for e in rc:
        vm.prove('start: ..for a limited time', isinstance(e.timeout, int) and e.timeout > 0, e.timeout)
        bd = [x for x in vm.trace[s.mark:] if x.kind == 'bind' and x.sock is e.sock]
        pp = [n for n, x in enumerate(vm.trace) if x.kind == 'popen']
        vm.prove('start: the socket is bound before the child starts', len(bd) == 1 and bool(pp) and
                 vm.trace.index(bd[0]) < pp[0])
    p = s.popens[0]['proc'] if s.popens else None
    if s.report is None:
        vm.prove('start: raises when the child says nothing', s.exc is not None and exc_isa(vm, s.exc, TimeoutError), s.exc)
        return
    oks = [e for e in vm.trace[s.mark:] if e.kind == 'send']
    vm.prove('start: the child is told that it was heard', len(oks) >= 1 and all(e.sock is rc[0].sock for e in oks), oks)
    if 'error' in s.report:
        vm.prove('start: raises when the child reports an error', s.exc is not None and exc_isa(vm, s.exc, RuntimeError), s.exc)
        if s.exc is None:
            return
        text = vm.call(vm.getattr('', 'join'), [s.report['error']])
        msg = vm.str_(s.exc)
        vm.prove('start: ..with the text of the error', z3.Contains(vm.as_str(msg), vm.as_str(text)), msg)
        vm.prove('start: no client for a failed child', not s.clients, s.clients)
        if daemon:
            k = [e for e in vm.trace[s.mark:] if e.kind == 'kill']
            vm.prove('start: a daemon that failed is killed', len(k) == 1 and eq(vm, k[0].pid, s.report['pid']), k)
        else:
            k = [e for e in vm.trace[s.mark:] if e.kind in ('proc.kill',)]
            dead = p.ghost['rc'] is not None
            vm.prove('start: a child that failed does not keep running', dead or (len(k) >= 1 and all(e.proc is p for e in k)), k)
        return
    if not vm.prove('start: returns a handle', s.exc is None, s.exc):
        return
    h = s.handle
    if not vm.prove('start: the handle has one client', len(s.clients) == 1 and vm.getattr(h, 'client') is s.clients[0]['self'], s.clients):
        return
    c = s.clients[0]
    vm.prove('start: connected to the address the child reported', eq(vm, txt(vm, c['address']), s.report['address']), c)
    vm.prove('start: with the serializer asked for', eq(vm, c.get('serializer', 'msgpack'), s.serializer if s.serializer is not None else 'msgpack'), c)
    vm.prove('start: with a local server if asked', eq(vm, c.get('start_local_server', False), s.local if s.local is not None else False), c)
    vm.prove('start: the handle has the name of the process', eq(vm, vm.getattr(h, 'name'), s.full_name))
    vm.prove('start: the handle knows whether it is a Qt process', vm.getattr(h, 'qt') is s.qt)
    vm.prove('start: a daemon handle exactly for a daemon', issub(h.cls, need(vm, PR + 'DaemonProcess')) == daemon, h.cls)
    if daemon:
        vm.prove('start: the handle has the pid the daemon reported', eq(vm, vm.getattr(h, 'pid'), s.report['pid']))
        w = [e for e in vm.trace[s.mark:] if e.kind in ('proc.wait', 'proc.communicate')]
        vm.prove('start: the launching process is waited for', len(w) >= 1 and all(e.proc is p for e in w), w)
    else:
        vm.prove('start: the handle has the pid of the process', eq(vm, vm.getattr(h, 'pid'), vm.dict_get(p.fields, 'pid')))
        vm.prove('start: the handle has the process', vm.getattr(h, 'proc') is p)
        k = [e for e in vm.trace[s.mark:] if e.kind in ('kill', 'proc.kill', 'proc.terminate', 'proc.signal')]
        vm.prove('start: a child that works is left alone', not k, k)


@harness('C17', 'bad parameters')
def bad(vm):
    """Parameters of the wrong type start no process."""
    n = pick(vm, 'daemon', 'qt', 'log_stdio', 'name', 'address', 'log_addr', 'log_level')
    s = Start(vm)
    o = InstObj(vm, TypeVal(object))
    s.kw[n] = o
    s.run_bad = True
    s.plan = 'any'
    s.run()
    vm.prove('start: a parameter of the wrong type is refused', s.exc is not None, n)
    vm.prove('start: ..without starting a process', not s.popens, s.popens)
