"""Trusted contracts of the libraries teleprox uses: zmq, logging, threading, time, futures, ..."""
import z3
from .core import *
from .lib import (ext, extm, extp, cls, EXT, EXT_CONST, EXT_CLASSES, P, kwd, new_ext, call_ext, from_py, SS)
from .interp import class_lookup, issub

# ---------------------------------------------------------------- sys / os / platform
EXT_CONST['sys.platform'] = 'linux'
EXT_CONST['zmq.POLLIN'] = 1
EXT_CONST['zmq.POLLOUT'] = 2
EXT_CONST['zmq.POLLERR'] = 4
EXT_CONST['os.name'] = 'posix'
EXT_CONST['sys.executable'] = lambda vm: sysconst(vm, 'str', 'sys.executable')
EXT_CONST['sys.modules'] = lambda vm: vm.ghost.setdefault('sys.modules', DictObj(vm))
EXT_CONST['signal.SIGKILL'] = 9
EXT_CONST['signal.SIGTERM'] = 15
EXT_CONST['signal.SIGINT'] = 2


def sysconst(vm, kind, name):
    if vm.is_boot:
        return Sym(kind, {'str': z3.String, 'int': z3.Int, 'bytes': z3.String}[kind](name))
    return vm.ghost.setdefault(('const', name), Sym(
        kind, {'str': z3.String, 'int': z3.Int, 'bytes': z3.String}[kind](name)))


@ext('sys.exc_info')
def _(vm, args, kw):
    if not vm.current_exc:
        return Tup([None, None, None])
    e = vm.current_exc[-1]
    return Tup([vm.exc_class(e), e, vm.tb_of(e)])


@ext('sys.excepthook')
def _(vm, args, kw):
    vm.event('excepthook', args=Tup(args))
    return None


@ext('sys.exit')
def _(vm, args, kw):
    vm.throw(SystemExit, *args)


@ext('os.getpid')
def _(vm, args, kw):
    return sysconst(vm, 'int', 'os.getpid')


@ext('socket.gethostname')
def _(vm, args, kw):
    return sysconst(vm, 'str', 'socket.gethostname')


@ext('os.kill')
def _(vm, args, kw):
    vm.event('kill', pid=args[0], sig=args[1])
    return None


@ext('atexit.register')
def _(vm, args, kw):
    if not vm.is_boot:
        vm.event('atexit', fn=args[0])
    else:
        vm.world.__dict__.setdefault('boot_atexit', []).append(args[0])
    return args[0]


@ext('atexit.unregister')
def _(vm, args, kw):
    return None


def _strlist(name):
    def f(vm, args, kw):
        n = z3.Const(vm.uname(name), L)
        vm.event(name, args=Tup(args))
        vm.assume(n != L.nil) if name == 'traceback.format_exception' else None
        return ListObj(vm, [Splice(n, lambda vm: vm.fresh('str', 'tbline'), (name, Tup(args)))])
    return f


EXT['traceback.format_stack'] = _strlist('traceback.format_stack')
EXT['traceback.format_exception'] = _strlist('traceback.format_exception')


@ext('traceback.format_exc')
def _(vm, args, kw):
    return vm.fresh('str', 'format_exc')


# ---------------------------------------------------------------- time
def tick(vm, name):
    last = vm.ghost.get('clock')
    t = vm.fresh('real', name)
    if last is not None:
        vm.assume(t.t >= last)
    vm.ghost['clock'] = t.t
    vm.event('clock', t=t)
    vm.assumption('clocks read by time.perf_counter()/time.monotonic() never run backwards')
    return t


@ext('time.perf_counter', 'time.monotonic')
def _(vm, args, kw):
    return tick(vm, 'now')


@ext('time.time')
def _(vm, args, kw):
    # the time of day: anyone may set that clock at any time
    tick(vm, 'now')
    t = vm.fresh('real', 'time of day')
    vm.ghost['wall'] = t.t
    vm.event('time of day', t=t)
    return t


@ext('time.sleep')
def _(vm, args, kw):
    d = args[0]
    last = vm.ghost.get('clock')
    vm.event('sleep', d=d)
    n = vm.fresh('real', 'woke')
    if last is not None:
        vm.assume(n.t >= last)
        dn = vm.num(d)
        if vm.kind(dn) in ('int', 'real'):
            vm.assume(n.t >= last + vm.as_real(dn))
    vm.ghost['clock'] = n.t
    return None


# ---------------------------------------------------------------- threading
_thread = cls('threading.Thread')
_lock = cls('threading.Lock', alias=('threading.RLock',))
_cur = cls('threading._CurrentThread')
_event = cls('threading.Event')


@ext('threading.current_thread', 'threading.currentThread')
def _(vm, args, kw):
    o = vm.ghost.get('current_thread')
    if o is None:
        o = InstObj(vm, _cur)
        vm.dict_set(o.fields, 'ident', this_thread(vm))
        vm.dict_set(o.fields, 'name', vm.fresh('str', 'threadname'))
        vm.ghost['current_thread'] = o
    return o


def this_thread(vm):
    if vm.thread_ident is None:
        vm.thread_ident = vm.fresh('int', 'tid')
        vm.assume(vm.thread_ident.t > 0)
    return vm.thread_ident


@ext('threading.main_thread')
def _(vm, args, kw):
    m = vm.ghost.get('main_ident')
    if m is None:
        m = vm.ghost['main_ident'] = vm.fresh('int', 'main.tid')
        vm.assume(m.t > 0)
    if vm.branch(m.t == this_thread(vm).t):
        return EXT['threading.current_thread'](vm, [], [])
    o = vm.ghost.get('main_thread')
    if o is None:
        o = vm.ghost['main_thread'] = InstObj(vm, _cur)
        vm.dict_set(o.fields, 'ident', m)
        vm.dict_set(o.fields, 'name', 'MainThread')
    return o


@ext('threading.get_ident')
def _(vm, args, kw):
    return this_thread(vm)


EXT_CONST['threading.excepthook'] = Ext('threading.excepthook')


@extm(_lock, '__init__')
def _(vm, self, args, kw):
    self.ghost['held'] = False


def _acq(vm, lock):
    if lock.ghost.get('held'):
        vm.event('deadlock', lock=lock)
        if not lock.ghost.get('reentrant'):
            vm.prove('no-self-deadlock', False, 'lock acquired twice')
            raise PathEnd()
    vm.world.journal(lock)
    lock.ghost['held'] = True
    vm.event('acquire', lock=lock)
    h = vm.ghost.get('on_acquire')
    if h is not None:
        h(vm, lock)


def _rel(vm, lock):
    vm.world.journal(lock)
    h = vm.ghost.get('on_release')
    if h is not None and lock.ghost.get('held'):
        h(vm, lock)
    if not lock.ghost.get('held'):
        vm.throw(RuntimeError, 'release unlocked lock')
    lock.ghost['held'] = False
    vm.event('release', lock=lock)


@extm(_lock, '__enter__', 'acquire')
def _(vm, self, args, kw):
    _acq(vm, self)
    return True


@extm(_lock, '__exit__')
def _(vm, self, args, kw):
    _rel(vm, self)
    return False


@extm(_lock, 'release')
def _(vm, self, args, kw):
    _rel(vm, self)


@extm(_lock, 'locked')
def _(vm, self, args, kw):
    return bool(self.ghost.get('held'))


@extm(_thread, '__init__')
def _(vm, self, args, kw):
    d = kwd(kw)
    self.ghost['thread'] = True
    self.ghost['target'] = d.get('target', args[1] if len(args) > 1 else None)
    self.ghost['args'] = d.get('args', Tup([]))
    self.ghost['kwargs'] = d.get('kwargs')
    self.ghost['started'] = False
    vm.dict_set(self.fields, 'daemon', d.get('daemon', None))
    vm.dict_set(self.fields, 'name', d.get('name', None))


@extm(_thread, 'start')
def _(vm, self, args, kw):
    if self.ghost.get('started'):
        vm.throw(RuntimeError, 'threads can only be started once')
    vm.world.journal(self)
    self.ghost['started'] = True
    vm.event('thread.start', thread=self)


@extm(_thread, 'is_alive')
def _(vm, self, args, kw):
    if not self.ghost.get('started'):
        return False
    a = self.ghost.get('alive')
    if a is not None:
        return a(vm) if callable(a) else a
    return vm.fresh('bool', 'alive')


@extm(_thread, 'join')
def _(vm, self, args, kw):
    if not self.ghost.get('started'):
        vm.throw(RuntimeError, 'cannot join thread before it is started')
    vm.event('thread.join', thread=self, timeout=args[0] if args else kwd(kw).get('timeout'))


@extp(_thread, 'ident')
def _(vm, self):
    return vm.fresh('any', 'thread.ident')


# ---------------------------------------------------------------- weakref
@ext('weakref.WeakValueDictionary')
def _(vm, args, kw):
    d = DictObj(vm)
    d.weak = True
    vm.assumption('a pending Future stays referenced by its waiter (WeakValueDictionary keeps its entry)')
    return d


@ext('weakref.ref')
def _(vm, args, kw):
    o = args[0]
    return Native(lambda vm, a, k: o, 'weakref')


# ---------------------------------------------------------------- concurrent.futures.Future
_fut = cls('concurrent.futures.Future', alias=('concurrent.futures._base.Future',))
cls('concurrent.futures.InvalidStateError', RuntimeError)
EXT_CLASSES['concurrent.futures._base.InvalidStateError'] = ExtCls('concurrent.futures.InvalidStateError')
cls('concurrent.futures.CancelledError', Exception)
EXT_CONST['concurrent.futures.TimeoutError'] = TypeVal(TimeoutError)


@extm(_fut, '__init__')
def _(vm, self, args, kw):
    self.ghost.update(state='pending', value=None, callbacks=[], nset=0)


@extm(_fut, 'set_result')
def _(vm, self, args, kw):
    _finish(vm, self, 'result', args[0])


@extm(_fut, 'set_exception')
def _(vm, self, args, kw):
    _finish(vm, self, 'exception', args[0])


def _finish(vm, f, how, v):
    if resolve(vm, f) != 'pending':
        vm.throw_cls(ExtCls('concurrent.futures.InvalidStateError'))
    vm.touch(f, 'ghost')
    f.ghost['state'] = how
    f.ghost['value'] = v
    f.ghost['nset'] = f.ghost.get('nset', 0) + 1
    vm.event('future.done', fut=f, how=how, value=v)
    cbs, f.ghost['callbacks'] = f.ghost['callbacks'], []
    for c in cbs:
        try:
            vm.call(c, [f])
        except PyExc as e:
            # Future._invoke_callbacks logs and swallows Exception
            if not vm.exc_is(e.value, TypeVal(Exception)):
                raise


@extm(_fut, 'done')
def _(vm, self, args, kw):
    return resolve(vm, self) != 'pending'


def resolve(vm, f):
    """State of a future, decided here when it was generalised to 'unknown'."""
    if f.ghost['state'] == 'unknown':
        vm.touch(f, 'ghost')
        c = vm.choose(3)
        f.ghost['state'] = ('pending', 'result', 'exception')[c]
        f.ghost['value'] = (lambda: None, lambda: vm.fresh('any', 'fut.value'), lambda: vm.sym_exc('fut.exc'))[c]()
    return f.ghost['state']


@extm(_fut, 'cancelled', 'running')
def _(vm, self, args, kw):
    return False


@extm(_fut, 'add_done_callback')
def _(vm, self, args, kw):
    if self.ghost['state'] == 'pending':
        vm.touch(self, 'ghost')
        self.ghost['callbacks'] = self.ghost['callbacks'] + [args[0]]
    else:
        vm.call(args[0], [self])


@extm(_fut, 'result')
def _(vm, self, args, kw):
    s = resolve(vm, self)
    if s == 'result':
        return self.ghost['value']
    if s == 'exception':
        raise PyExc(self.ghost['value'])
    vm.event('future.block', fut=self)
    vm.throw(TimeoutError)


@extm(_fut, 'exception')
def _(vm, self, args, kw):
    s = resolve(vm, self)
    if s == 'exception':
        return self.ghost['value']
    return None


@extm(_fut, 'set_running_or_notify_cancel')
def _(vm, self, args, kw):
    return True


# ---------------------------------------------------------------- zmq
_sock = cls('zmq.Socket', alias=('zmq.sugar.socket.Socket',))
_ctx = cls('zmq.Context')
_poller = cls('zmq.Poller')
_zb = cls('zmq.error.ZMQBaseError', Exception)
_ze = cls('zmq.error.ZMQError', _zb, alias=('zmq.ZMQError',))
_again = cls('zmq.error.Again', _ze, alias=('zmq.Again',))
_cterm = cls('zmq.error.ContextTerminated', _ze, alias=('zmq.ContextTerminated',))


@extm(_ctx, 'instance')
def _(vm, self, args, kw):
    raise AssertionError


_ctx.methods['instance'] = lambda vm, args, kw: zctx(vm)
_ctx.ctor = lambda vm, args, kw: zctx(vm)


def zctx(vm):
    vm.trust('zmq.Context')
    o = vm.ghost.get('zctx')
    if o is None:
        o = InstObj(vm, _ctx)
        vm.ghost['zctx'] = o
    return o


@extm(_ctx, 'socket')
def _(vm, self, args, kw):
    o = new_socket(vm, args[0])
    vm.event('socket', sock=o)
    h = vm.ghost.get('on_socket')
    if h is not None:
        h(vm, o)
    return o


def new_socket(vm, typ):
    o = InstObj(vm, _sock)
    o.fields.meta = 'fields'
    o.ghost.update(type=typ, opts={}, closed=False, inbox=None)
    o.ghost['endpoint'] = vm.fresh('bytes', 'endpoint')
    vm.assume(F_isutf8(o.ghost['endpoint'].t))
    return o


def _optname(v):
    return v.dotted if isinstance(v, Ext) else v


@extm(_sock, 'setsockopt', 'set')
def _(vm, self, args, kw):
    self.ghost['opts'] = dict(self.ghost['opts'])
    self.ghost['opts'][_optname(args[0])] = args[1]
    vm.event('setsockopt', sock=self, opt=_optname(args[0]), value=args[1])


@extm(_sock, 'getsockopt', 'get')
def _(vm, self, args, kw):
    n = _optname(args[0])
    if n == 'zmq.LAST_ENDPOINT':
        return self.ghost['endpoint']
    return self.ghost['opts'].get(n, 0)


@extp(_sock, 'last_endpoint')
def _(vm, self):
    return self.ghost['endpoint']


@extm(_sock, 'bind')
def _(vm, self, args, kw):
    vm.event('bind', sock=self, addr=args[0], opts=dict(self.ghost['opts']),
             attrs={l[1]: l[2] for l in self.fields.layers if l[0] == 'set'})


@extm(_sock, 'connect')
def _(vm, self, args, kw):
    vm.event('connect', sock=self, addr=args[0], opts=dict(self.ghost['opts']),
             attrs={n: vm.dict_get(self.fields, n) for n in ('identity', 'linger')})
    h = vm.ghost.get('on_connect')
    if h is not None:
        h(vm, self, args[0])


@extm(_sock, 'close')
def _(vm, self, args, kw):
    self.ghost['closed'] = True
    l = args[0] if args else kwd(kw).get('linger')
    if l is not None:
        self.ghost['opts'] = dict(self.ghost['opts'])
        self.ghost['opts']['close.linger'] = l
    vm.event('sock.close', sock=self)


def dotted_of(v):
    return v.dotted if isinstance(v, Ext) else v


def sflags(args, kw):
    return list(args[1:2]) + [kwd(kw).get('flags')]


def _send(vm, self, frames, how, flags=()):
    if self.ghost.get('closed') is True:
        vm.throw_cls(_ze)
    flags = [v for v in flags if v is not None and v != 0]
    if flags and 'NOBLOCK' not in str(dotted_of(flags[0])) and 'DONTWAIT' not in str(dotted_of(flags[0])):
        raise Unsupported('flags of send')
    if flags and vm.choose(2):
        vm.throw_cls(_again)             # (there is no room, or nobody is connected)
    vm.event('send', sock=self, frames=frames, how=how)


@extm(_sock, 'send_multipart')
def _(vm, self, args, kw):
    _send(vm, self, list(vm.iter_segs(args[0])), 'multipart', sflags(args, kw))


@extm(_sock, 'send')
def _(vm, self, args, kw):
    _send(vm, self, [args[0]], 'single', sflags(args, kw))


@extm(_sock, 'send_json')
def _(vm, self, args, kw):
    _send(vm, self, [snap(vm, args[0])], 'json', sflags(args, kw))


@extm(_sock, 'poll')
def _(vm, self, args, kw):
    """Whether the socket becomes readable in time (milliseconds; None: without limit)."""
    to = args[0] if args else kwd(kw).get('timeout')
    if len(args) > 1 or kwd(kw).get('flags') is not None:
        raise Unsupported('flags of poll')
    if self.ghost.get('closed') is True:
        vm.throw_cls(_ze)
    vm.event('poll', poller=self, socks=[self], timeout=to, at=vm.ghost.get('clock'))
    if vm.ghost.get('clock') is not None:
        raise Unsupported('when a poll ends')
    r = to is None or self.ghost.get('ready') is True or vm.choose(2) == 0
    vm.world.journal(self)
    self.ghost['ready'] = r
    return 1 if r else 0


@extm(_sock, 'recv')
def _(vm, self, args, kw):
    return recv(vm, self, args, lambda: vm.fresh('bytes', 'msg'))


@extm(_sock, 'recv_json')
def _(vm, self, args, kw):
    return recv(vm, self, args, lambda: vm.fresh('any', 'jsonmsg'))


@extm(_sock, 'recv_multipart')
def _(vm, self, args, kw):
    return recv(vm, self, args, lambda: ListObj(vm, [vm.fresh_list('frames', lambda vm: vm.fresh('bytes', 'frame'))]))


def recv(vm, sock, args, mk):
    to = sock.ghost['opts'].get('zmq.RCVTIMEO', -1)
    vm.event('recv', sock=sock, timeout=to, noblock=bool(args and args[0] is not None), at=vm.ghost.get('clock'),
             ready=sock.ghost.get('ready'))
    if sock.ghost.get('closed') is True:
        vm.throw_cls(_ze)
    # a socket that was just reported readable has a message (one thread reads it)
    c = 0 if sock.ghost.get('ready') else vm.choose(2)
    if 'ready' in sock.ghost:
        vm.world.journal(sock)
        sock.ghost['ready'] = None
    if c == 0:
        last = vm.ghost.get('clock')
        if last is not None:
            n = vm.fresh('real', 'recv.at')
            vm.assume(n.t >= last)
            vm.ghost['clock'] = n.t
        h = sock.ghost.get('on_recv')
        v = h(vm, sock) if h is not None else mk()
        vm.event('recvd', sock=sock, value=v)
        return v
    # timed out: only possible when a timeout is set
    if not args or args[0] is None:
        t = vm.as_int(to)
        vm.assume(t >= 0)
        last = vm.ghost.get('clock')
        if last is not None:
            n = vm.fresh('real', 'timeout.at')
            vm.assume(n.t >= last + z3.ToReal(t) / 1000)
            vm.ghost['clock'] = n.t
    vm.throw_cls(_again)


def throw_cls(self, c, *args):
    raise PyExc(self.mkexc(c, *args))


from .interp import Interp  # noqa: E402
Interp.throw_cls = throw_cls


def snap(vm, v):
    """Copy of the container structure of a value at this moment."""
    if isinstance(v, DictObj):
        d = DictObj(vm)
        d.layers = [(l[0], l[1], snap(vm, l[2])) if l[0] == 'set' else l for l in v.layers]
        return d
    if isinstance(v, ListObj):
        return ListObj(vm, [snap(vm, x) for x in v.segs])
    if isinstance(v, Tup):
        return Tup([snap(vm, x) for x in v.segs], v.nt)
    return v


@extm(_poller, '__init__')
def _(vm, self, args, kw):
    self.ghost['socks'] = []


@extm(_poller, 'register')
def _(vm, self, args, kw):
    a = list(args[1:]) + list(kwd(kw).values())
    if a != [1]:
        raise Unsupported('a poller that waits for something other than messages (%r)' % (a,))
    self.ghost['socks'] = self.ghost['socks'] + [args[0]]
    vm.event('poller.register', poller=self, sock=args[0])


@extm(_poller, 'unregister')
def _(vm, self, args, kw):
    vm.world.journal(self)
    self.ghost['socks'] = [s for s in self.ghost['socks'] if s is not args[0]]


@extm(_poller, 'poll')
def _(vm, self, args, kw):
    """Waits (milliseconds; None: without limit) until a registered socket is readable."""
    to = args[0] if args else kwd(kw).get('timeout')
    vm.event('poll', poller=self, socks=list(self.ghost['socks']), timeout=to, at=vm.ghost.get('clock'))
    if any(s.ghost.get('closed') is True for s in self.ghost['socks']):
        vm.throw_cls(_ze)
    out = []
    for s in self.ghost['socks']:
        r = vm.choose(2) == 0
        vm.world.journal(s)
        s.ghost['ready'] = r
        if r:
            out.append(Tup([s, 1]))
    last = vm.ghost.get('clock')
    if last is not None:
        n = vm.fresh('real', 'polled.at')
        vm.assume(n.t >= last)
        vm.ghost['clock'] = n.t
    if not out:
        if to is None:
            raise PathEnd()
        t = vm.num(to)
        ms = vm.as_int(t) if vm.kind(t) == 'int' else z3.ToInt(vm.as_real(t))
        vm.assume(ms >= 0)
        if last is not None:
            vm.assume(vm.ghost['clock'] >= last + z3.ToReal(ms) / 1000)
    vm.event('polled', poller=self, ready=[x.segs[0] for x in out])
    return ListObj(vm, out)


# ---------------------------------------------------------------- logging
_logger = cls('logging.Logger')
_handler = cls('logging.Handler')
_stream = cls('logging.StreamHandler', _handler)
_record = cls('logging.LogRecord')


@extm(_record, 'getMessage')
def _(vm, self, args, kw):
    raise Unsupported('LogRecord.getMessage')


@ext('logging.getLogger')
def _(vm, args, kw):
    name = args[0] if args else ''
    key = ('logger', vm.deep(name).sexpr() if name is not None else None)
    store = vm.world.__dict__.setdefault('boot_loggers', {}) if vm.is_boot else vm.ghost
    o = store.get(key) or vm.world.__dict__.get('boot_loggers', {}).get(key)
    if o is None:
        o = InstObj(vm, _logger)
        o.ghost['name'] = name
        store[key] = o
    return o


for _m in ('debug', 'info', 'warning', 'warn', 'error', 'critical', 'exception', 'log'):
    extm(_logger, _m)(lambda vm, self, args, kw, _m=_m: vm.event('log', logger=self, level=_m, args=Tup(args)) and None)


@extm(_logger, 'getEffectiveLevel')
def _(vm, self, args, kw):
    return vm.fresh('int', 'efflevel') if 'eff' not in self.ghost else self.ghost['eff']


@extm(_logger, 'isEnabledFor')
def _(vm, self, args, kw):
    return vm.fresh('bool', 'enabled')


@extm(_logger, 'addHandler')
def _(vm, self, args, kw):
    vm.event('addHandler', logger=self, handler=args[0])


@extm(_logger, 'removeHandler')
def _(vm, self, args, kw):
    vm.event('removeHandler', logger=self, handler=args[0])


@extm(_logger, 'setLevel')
def _(vm, self, args, kw):
    vm.event('setLevel', logger=self, level=args[0])


@extm(_logger, 'handle')
def _(vm, self, args, kw):
    vm.event('logger.handle', logger=self, record=args[0])


@extm(_handler, '__init__')
def _(vm, self, args, kw):
    self.ghost['handler'] = True


@extm(_handler, 'handleError', 'flush', 'close', 'acquire', 'release', 'setFormatter', 'setLevel')
def _(vm, self, args, kw):
    return None


@extm(_stream, '__init__')
def _(vm, self, args, kw):
    vm.dict_set(self.fields, 'stream', args[0] if args else None)


@extm(_stream, 'emit')
def _(vm, self, args, kw):
    vm.event('print', handler=self, record=args[0])


@extm(_stream, 'format')
def _(vm, self, args, kw):
    f = z3.Function('logging.format', V, SS)
    return Sym('str', f(vm.lift(args[0])))


EXT['logging.basicConfig'] = lambda vm, a, k: None

# ---------------------------------------------------------------- Qt
_qthread = cls('qt.QThread')
extm(_qthread, '__init__')(lambda vm, self, args, kw: None)
extm(_qthread, 'start')(lambda vm, self, args, kw: vm.event('thread.start', thread=self) and None)
cls('qt.QWidget')
_sig = cls('qt.Signal')


@extm(_sig, '__init__')
def _(vm, self, args, kw):
    self.ghost['slots'] = []


@extm(_sig, 'connect')
def _(vm, self, args, kw):
    vm.event('signal.connect', signal=self, slot=args[0], how=list(args[1:]) + [l[2] for l in kw if l[0] == 'set'])


@extm(_sig, 'emit')
def _(vm, self, args, kw):
    vm.event('signal.emit', signal=self, args=Tup(args))


@ext('qt.QApplication.processEvents')
def _(vm, args, kw):
    vm.event('qt.processEvents')
    last = vm.ghost.get('clock')
    if last is not None:
        n = vm.fresh('real', 'qt.at')
        vm.assume(n.t >= last)
        vm.ghost['clock'] = n.t


@ext('qt.QApplication.instance')
def _(vm, args, kw):
    return new_ext(vm, 'qt.QApplication')


cls('qt.QApplication')
del EXT_CLASSES['qt.QApplication']
extm('qt.QApplication', 'quit')(lambda vm, self, args, kw: vm.event('qt.quit') and None)

# ---------------------------------------------------------------- numpy / misc classes
for _n in ('numpy.number', 'numpy.bool_', 'numpy.dtype', 'numpy.ndarray',
           'multiprocessing.shared_memory.SharedMemory'):
    cls(_n)
cls('numpy.integer', ExtCls('numpy.number'))
cls('numpy.floating', ExtCls('numpy.number'))
cls('numpy.complexfloating', ExtCls('numpy.number'))
cls('datetime.date')
cls('datetime.datetime', ExtCls('datetime.date'))
cls('datetime.timedelta')
cls('json.JSONEncoder')
cls('subprocess.SubprocessError', Exception)
cls('subprocess.TimeoutExpired', ExtCls('subprocess.SubprocessError'))
EXT_CONST['subprocess.DEVNULL'] = -3
EXT_CONST['subprocess.PIPE'] = -1
EXT_CONST['subprocess.STDOUT'] = -2
EXT_CONST['socket.timeout'] = TypeVal(TimeoutError)
EXT_CONST['socket.error'] = TypeVal(OSError)
EXT_CONST['select.error'] = TypeVal(OSError)
EXT_CONST['os.error'] = TypeVal(OSError)


# ---------------------------------------------------------------- uuid
_uuid = cls('uuid.UUID')


@ext('uuid.uuid4')
@ext('uuid.uuid1')
def _(vm, args, kw):
    u = new_ext(vm, 'uuid.UUID')
    h = vm.fresh('str', 'uuid.hex')
    if vm.ghost.get('uuid_length'):
        vm.assume(z3.Length(h.t) == 32)
    old = vm.ghost.setdefault('uuids', [])
    for o in old:
        vm.assume(o.t != h.t)           # different from every other one, anywhere
    vm.ghost['uuids'] = old + [h]
    vm.dict_set(u.fields, 'hex', h)
    return u


# ---------------------------------------------------------------- itertools.count
_count = cls('itertools.count')


@extm(_count, '__init__')
def _(vm, self, args, kw):
    self.ghost['next'] = args[0] if args else 0


@extm(_count, '__next__')
def _(vm, self, args, kw):
    # an arbitrary later state: numbers never repeat
    n = vm.fresh('int', 'count')
    vm.touch(self, 'ghost')
    last = self.ghost.get('last')
    vm.assume(n.t >= (0 if last is None else last + 1))
    self.ghost['last'] = n.t
    return n


# ---------------------------------------------------------------- re
_match = cls('re.Match')
_pattern = cls('re.Pattern')


def re_parse(pat):
    """Top-level pieces of a pattern: [(z3 regex, group number or None, literal or None)], ended"""
    import re._parser as sp
    import re._constants as sc

    def rng(a, b):
        return z3.Range(chr(a), chr(b))
    anych = z3.Union(rng(0, 9), rng(11, 0x2ffff))
    allch = rng(0, 0x2ffff)

    def cat(c):
        d = rng(48, 57)
        w = z3.Union(rng(48, 57), rng(65, 90), rng(97, 122), rng(95, 95))
        s = z3.Union(rng(9, 13), rng(32, 32))
        m = {sc.CATEGORY_DIGIT: d, sc.CATEGORY_WORD: w, sc.CATEGORY_SPACE: s}
        if c in m:
            return m[c]
        n = {sc.CATEGORY_NOT_DIGIT: d, sc.CATEGORY_NOT_WORD: w, sc.CATEGORY_NOT_SPACE: s}
        if c in n:
            return z3.Intersect(allch, z3.Complement(n[c]))
        raise Unsupported('regex category')

    def seq(items):
        rs = [one(i) for i in items]
        if not rs:
            return z3.Re('')
        return rs[0] if len(rs) == 1 else z3.Concat(*rs)

    def one(it):
        op, av = it
        if op is sc.LITERAL:
            return z3.Re(chr(av))
        if op is sc.ANY:
            return anych
        if op is sc.IN:
            neg = av and av[0][0] is sc.NEGATE
            parts = []
            for o, a in av[1 if neg else 0:]:
                if o is sc.LITERAL:
                    parts.append(z3.Re(chr(a)))
                elif o is sc.RANGE:
                    parts.append(rng(*a))
                elif o is sc.CATEGORY:
                    parts.append(cat(a))
                else:
                    raise Unsupported('regex class')
            u = parts[0] if len(parts) == 1 else z3.Union(*parts)
            return z3.Intersect(allch, z3.Complement(u)) if neg else u
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            r = seq(sub)
            if hi is sc.MAXREPEAT:
                return z3.Star(r) if lo == 0 else z3.Plus(r) if lo == 1 else z3.Concat(z3.Loop(r, lo, lo), z3.Star(r))
            return z3.Loop(r, lo, hi)
        if op is sc.BRANCH:
            return z3.Union(*[seq(b) for b in av[1]])
        if op is sc.SUBPATTERN:
            return seq(av[3])
        raise Unsupported('regex item %s' % op)
    t = sp.parse(pat)
    if t.state.flags & ~32:
        raise Unsupported('regex flags')
    out, ended, digits = [], False, set()
    for it in t:
        op, av = it
        if op is sc.AT:
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING) and not out:
                continue
            if av in (sc.AT_END, sc.AT_END_STRING):
                ended = 'end' if av is sc.AT_END else 'absolute'
                continue
            raise Unsupported('regex anchor')
        if ended:
            raise Unsupported('regex item after $')
        if op is sc.SUBPATTERN and av[0] is not None:
            out.append((seq(av[3]), av[0], None))
            sub = list(av[3])
            if len(sub) == 1 and sub[0][0] is sc.MAX_REPEAT and sub[0][1][0] >= 1 and \
                    list(sub[0][1][2]) == [(sc.IN, [(sc.CATEGORY, sc.CATEGORY_DIGIT)])]:
                digits.add(av[0])
        elif op is sc.LITERAL:
            if out and out[-1][2] is not None:
                s = out[-1][2] + chr(av)
                out[-1] = (z3.Re(s), None, s)
            else:
                out.append((one(it), None, chr(av)))
        else:
            out.append((one(it), None, None))
    return out, ended, digits


def re_match(vm, pat, s, full=False):
    if not isinstance(pat, (str, bytes)):
        raise Unsupported('symbolic regex')
    if vm.kind(s) not in ('str', 'bytes'):
        raise Unsupported('regex on %r' % (s,))
    k = vm.kind(s)
    st = s.t if isinstance(s, Sym) and s.k != 'any' else vm.as_str(s) if not isinstance(s, bytes) else z3.StringVal(s.decode('latin-1'))
    pieces, ended, digits = re_parse(pat if isinstance(pat, str) else pat.decode('latin-1'))
    tail = z3.Re('') if full or ended == 'absolute' else z3.Option(z3.Re('\n')) if ended else z3.Full(z3.ReSort(SS))
    whole = [p[0] for p in pieces] + [tail]
    whole = z3.Concat(*whole) if len(whole) > 1 else whole[0]
    if not vm.branch(z3.InRe(st, whole)):
        return None
    m = InstObj(vm, _match)
    groups, parts = {}, []
    for r, g, lit in pieces:
        if lit is not None:
            parts.append(z3.StringVal(lit))
            continue
        x = vm.fresh(k, 'group')
        vm.assume(z3.InRe(x.t, r))
        parts.append(x.t)
        if g is not None:
            groups[g] = x
            if g in digits:
                vm.assume(z3.And(F_isint(x.t), F_stoi(x.t) >= 0))
    m.ghost['all'] = Sym(k, z3.Concat(*parts) if len(parts) > 1 else parts[0])
    if not (full or ended == 'absolute'):
        t = vm.fresh(k, 'tail')
        vm.assume(z3.InRe(t.t, tail))
        parts.append(t.t)
    vm.assume(st == (z3.Concat(*parts) if len(parts) > 1 else parts[0]))
    m.ghost['groups'] = groups
    return m


@ext('re.match')
def _(vm, args, kw):
    p, s = P(vm, args, kw, 'pattern string')
    return re_match(vm, p, s)


@ext('re.fullmatch')
def _(vm, args, kw):
    p, s = P(vm, args, kw, 'pattern string')
    return re_match(vm, p, s, True)


@ext('re.compile')
def _(vm, args, kw):
    p, = P(vm, args, kw, 'pattern')
    o = InstObj(vm, _pattern)
    o.ghost['pat'] = p
    return o


@extm(_pattern, 'match')
def _(vm, self, args, kw):
    return re_match(vm, self.ghost['pat'], args[0])


@extm(_pattern, 'fullmatch')
def _(vm, self, args, kw):
    return re_match(vm, self.ghost['pat'], args[0], True)


@extm(_match, 'groups')
def _(vm, self, args, kw):
    g = self.ghost['groups']
    return Tup([g[i] for i in sorted(g)])


@extm(_match, 'group', '__getitem__')
def _(vm, self, args, kw):
    r = [self.ghost['all'] if a == 0 else self.ghost['groups'][a] for a in (args or [0])]
    return r[0] if len(r) == 1 else Tup(r)


# ---------------------------------------------------------------- socket
_tcp = cls('socket.socket')
for _n in ('AF_INET', 'SOCK_STREAM', 'AF_INET6', 'SOCK_DGRAM'):
    EXT_CONST['socket.' + _n] = Ext('socket.' + _n)


@extm(_tcp, '__init__')
def _(vm, self, args, kw):
    vm.event('tcp.socket', sock=self, args=Tup(args))
    self.ghost['closed'] = False


@extm(_tcp, '__enter__')
def _(vm, self, args, kw):
    return self


@extm(_tcp, '__exit__')
def _(vm, self, args, kw):
    self.ghost['closed'] = True
    vm.event('tcp.close', sock=self)
    return False


@extm(_tcp, 'close')
def _(vm, self, args, kw):
    self.ghost['closed'] = True
    vm.event('tcp.close', sock=self)


@extm(_tcp, 'settimeout')
def _(vm, self, args, kw):
    self.ghost['timeout'] = args[0]
    vm.event('tcp.settimeout', sock=self, timeout=args[0])


@extm(_tcp, 'setsockopt', 'shutdown')
def _(vm, self, args, kw):
    return None


@extm(_tcp, 'connect')
def _(vm, self, args, kw):
    out = ('open', 'timeout', 'refused', 'oserror')[vm.choose(4)]
    vm.event('tcp.connect', sock=self, addr=args[0], outcome=out, timeout=self.ghost.get('timeout'))
    if out == 'timeout':
        vm.throw(TimeoutError)
    if out == 'refused':
        vm.throw(ConnectionRefusedError)
    if out == 'oserror':
        vm.throw(OSError)


# ---------------------------------------------------------------- pickle
def copy_of(vm, v):
    """An equal value of the same type, as copying by pickle or deepcopy makes it."""
    if isinstance(v, DictObj):
        d = DictObj(vm)
        d.layers = [(l[0], l[1], copy_of(vm, l[2])) if l[0] == 'set' else l for l in v.layers]
        return d
    if isinstance(v, ListObj):
        return ListObj(vm, [copy_of(vm, x) for x in v.segs])
    if isinstance(v, Tup):
        return Tup([copy_of(vm, x) for x in v.segs], v.nt)
    if isinstance(v, InstObj) and 'value' in v.ghost:
        n = InstObj(vm, v.cls)
        n.ghost.update(v.ghost)
        return n
    if isinstance(v, InstObj):
        raise Unsupported('pickle of %r' % (v,))
    return v


@ext('pickle.dumps')
def _(vm, args, kw):
    if any(l[1] != 'protocol' for l in kw):
        raise Unsupported('pickle.dumps options')
    o = args[0]
    if not (isinstance(o, InstObj) and 'value' in o.ghost) and (
            isinstance(o, InstObj) or (isinstance(o, Sym) and o.k in ('any', 'opaque'))):
        if vm.choose(2):
            raise PyExc(vm.sym_exc('pickle'))
    b = vm.fresh('bytes', 'pickled')
    vm.assume(z3.Length(b.t) > 0)
    vm.ghost.setdefault('pickles', []).append((b.t, snap(vm, o)))
    vm.event('pickle', obj=o)
    return b


@ext('pickle.loads')
def _(vm, args, kw):
    b = args[0]
    for t, o in reversed(vm.ghost.get('pickles', ())):
        if vm.kind(b) == 'bytes' and vm.entails(vm.as_bytes(b) == t):
            return copy_of(vm, o)
    if vm.choose(2):
        raise PyExc(vm.sym_exc('pickle'))
    return vm.fresh('any', 'unpickled')
