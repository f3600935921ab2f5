"""C25: the Qt poll thread relays every message unchanged.

Qt itself is a trusted contract: an emitted signal calls each connected slot once, in the order of
emission, in the thread that owns the poll thread object (queued connection)."""
from .base import *
from .c02 import frames_in, one_each

Q = TP + 'qt_server.QtRPCServer'


def mk(vm, addr=None, **k):
    """A Qt server built by its real constructor."""
    n = len(vm.trace)
    kw = kws(**k)
    s = vm.call(need(vm, Q), [addr] if addr is not None else [], kw)
    ev = vm.trace[n:]
    made = [e.sock for e in ev if e.kind == 'socket']
    router = [x for x in made if getattr(x.ghost['type'], 'dotted', None) == 'zmq.ROUTER']
    pairs = [x for x in made if getattr(x.ghost['type'], 'dotted', None) == 'zmq.PAIR']
    here = field(vm, s, '_socket')
    if len(router) != 1 or len(pairs) != 2 or len(made) != 3 or not any(here is x for x in pairs):
        raise Unsupported('the sockets of a Qt server')
    there = [x for x in pairs if x is not here][0]
    th = [v for v in [vm.dict_get(s.fields, 'poll_thread')] if isinstance(v, InstObj)]
    if not th:
        raise Unsupported('where the poll thread is kept')
    return s, th[0], router[0], here, there, ev


def at(vm, kind, sock, ev):
    return [(i, e) for i, e in enumerate(ev) if e.kind == kind and e.sock is sock]


def direct(h):
    return [x for x in h if 'Direct' in str(getattr(x, 'dotted', x))]


@harness('C25', 'set up')
def _(vm):
    addr = text_bytes(vm, 'addr')
    s, th, router, here, there, ev = mk(vm, addr)
    b = at(vm, 'bind', router, ev)
    vm.prove('the RPC socket listens at the address of the server', len(b) == 1 and eq(vm, b[0][1].addr, addr), b)
    vm.prove('that is the address clients are told', eq(vm, vm.getattr(s, 'address'), router.ghost['endpoint']))
    b, c = at(vm, 'bind', there, ev), at(vm, 'connect', here, ev)
    ok = vm.prove('the Qt thread is connected to the poll thread', len(b) == 1 and len(c) == 1, (b, c))
    if not ok:
        return
    vm.prove('..and to no other', eq(vm, b[0][1].addr, c[0][1].addr) and
             not at(vm, 'bind', here, ev) and not at(vm, 'connect', there, ev), (b, c))
    vm.prove('..where it listens', b[0][0] < c[0][0])
    vm.prove('no request is read before the server runs', not [e for e in ev if e.kind in ('recv', 'thread.start')])
    s2, th2, router2, here2, there2, ev2 = mk(vm, text_bytes(vm, 'addr2'))
    b2 = at(vm, 'bind', there2, ev2)
    if b2:
        x, y = b[0][1].addr, b2[0][1].addr
        for o, o2 in ((s, s2), (th, th2), (router, router2), (here, here2), (there, there2)):
            vm.assume(F_pyid(vm.lift(o)) != F_pyid(vm.lift(o2)))          # (they exist at the same time)
        vm.prove('two servers do not share their connection', z3.Not(eq(vm, x, y)), (x, y))
    # running
    n = len(vm.trace)
    r, exc = attempt(vm, lambda: mcall(vm, s, 'run_forever'))
    st = events(vm, 'thread.start', n)
    vm.prove('running the server starts its poll thread once', exc is None and len(st) == 1 and st[0].thread is th, (exc, st))
    vm.prove('the server of this thread is registered', vm.call(vm.getattr(need(vm, Q), 'get_server'), []) is s)
    vm.prove('nothing else reads the sockets', not events(vm, 'recv', n))


class Relay(Rule):
    force = True

    def __init__(self, w):
        self.w = w

    def matches(self, vm, src, node):
        return src is None or src[0] == 'calls'

    def assume_inv(self, vm, sp, env):
        # the Qt thread may have closed the server by now
        setfield(vm, self.w.s, '_closed', vm.fresh('bool', 'closed'))

    def check_iter(self, vm, sp, env, x, evs):
        w = self.w
        if w.asked and any(e.kind == 'recvd' and e.sock is w.there and e.d.get('value') is w.stopmsg for e in vm.trace):
            vm.prove('a request to stop ends the thread', False)
        segment(vm, w, evs)
        vm.reach()


def segment(vm, w, evs):
    """All that was received in a stretch of the loop has been passed on, in order."""
    evs = [e for e in evs]
    rep = [e for e in evs if e.kind == 'recvd' and e.sock is w.there and e.value is not w.stopmsg]
    snd = [e for e in evs if e.kind == 'send']
    if vm.prove('each reply is sent once', len(rep) == len(snd), (rep, snd)):
        for r, s in zip(rep, snd):
            vm.prove('..on the RPC socket', s.sock is w.router, s)
            vm.prove('..as one message', s.how == 'multipart' and len(s.frames) == 2, s)
            vm.prove('..to the caller it names', len(s.frames) == 2 and eq(vm, s.frames[0], carried(vm, r.value)[0]), s)
            vm.prove('..unchanged', len(s.frames) == 2 and eq(vm, s.frames[1], carried(vm, r.value)[1]), s)
            vm.cover('a reply')
    vm.prove('requests are processed in the Qt thread', not [e for e in evs if e.kind == 'process'])
    # Qt delivers what was emitted
    n = len(vm.trace)
    for e in evs:
        if e.kind == 'signal.emit':
            for c in events(vm, 'signal.connect'):
                if c.signal is e.signal:
                    vm.prove('the Qt thread takes the request over', not direct(c.how), c.how)
                    _, exc = attempt(vm, lambda: vm.call(c.slot, list(e.args.segs)))
                    vm.prove('a request that is handed over can be processed', exc is None, exc)
    got = [e for e in evs if e.kind == 'recvd' and e.sock is w.router]
    one_each(vm, got_with_frames(vm, got) + [e for e in vm.trace[n:] if e.kind == 'process'])
    if got:
        vm.cover('a request')
    # progress
    for e in [e for e in evs if e.kind == 'recv']:
        to = e.timeout
        vm.prove('the thread does not wait for one socket alone', e.ready or e.noblock or
                 (to is not None and vm.entails(vm.as_int(to) >= 0)), e)
    for e in [e for e in evs if e.kind == 'poll' and (len(e.socks) != 1 or e.timeout is None or vm.entails(vm.as_int(e.timeout) != 0))]:
        vm.prove('the thread waits for replies and requests', any(x is w.there for x in e.socks) and
                 any(x is w.router for x in e.socks), e.socks)
    pd = [e for e in evs if e.kind == 'polled']
    if len(pd) == 1 and pd[0].ready:
        vm.prove('what has arrived is read', any(e.kind == 'recvd' for e in evs) or has_loop_event(vm, ['recvd'], vm.trace.index(pd[0])), pd[0].ready)


def carry(vm, v, what):
    vm.ghost['carried'] = vm.ghost.get('carried', []) + [(v, what)]


def carried(vm, v):
    return [w for o, w in vm.ghost['carried'] if o is v][0]


class Got:
    def __init__(self, w):
        self.ghost = dict(frames=w)


def got_with_frames(vm, got):
    return [Event('recvd', dict(sock=Got(carried(vm, e.value)), value=e.value)) for e in got]


class W:
    asked = False
    stopmsg = None


def relay_world(vm):
    s, th, router, here, there, ev = mk(vm)
    w = W()
    w.s, w.th, w.router, w.here, w.there = s, th, router, here, there
    s.ghost['sock'] = router
    frames_in(vm, s)
    inner = router.ghost['on_recv']

    def on(vm, sock):
        v = inner(vm, sock)
        carry(vm, v, sock.ghost['frames'])
        return v
    router.ghost['on_recv'] = on

    def proc(vm, f, args, kw):
        d = dict(zip(['self', 'caller', 'msg'], args))
        for l in kw:
            d[l[1]] = l[2]
        vm.event('process', caller=d['caller'], msg=d['msg'])
    vm.contracts[TP + 'server.RPCServer._process_one'] = proc
    return w


def reply(vm, w, stop):
    name, data = vm.fresh('bytes', 'to'), vm.fresh('bytes', 'data')
    if stop is not None:
        vm.assume(z3.Not(eq(vm, name, stop)))
    v = ListObj(vm, [name, data])
    carry(vm, v, [name, data])
    return v


def stop_frames(vm, w):
    n = len(vm.trace)
    _, exc = attempt(vm, lambda: mcall(vm, w.th, 'stop'))
    vm.prove('the thread can be asked to stop', exc is None, exc)
    snd = events(vm, 'send', n)
    vm.prove('asking to stop sends nothing to a client', all(e.sock is w.here for e in snd), snd)
    if not snd:
        return None
    if len(snd) != 1 or snd[0].how != 'multipart':
        raise Unsupported('how the poll thread is asked to stop')
    fr = snd[0].frames
    x = fr[0] if fr else None
    if isinstance(x, bytes):
        vm.prove('the request to stop is not mistaken for a reply to a client', b':' not in x or b'.' not in x, x)
    return fr


@harness('C25', 'relaying')
def _(vm):
    w = relay_world(vm)
    # (what a request to stop looks like; no client is called that)
    fr = stop_frames(vm, relay_world(vm))
    w.there.ghost['on_recv'] = lambda vm, sock: reply(vm, w, fr[0] if fr else None)
    vm.loop_rules.append(Relay(w))
    n = len(vm.trace)
    _, exc = attempt(vm, lambda: mcall(vm, w.th, 'run'))
    vm.prove('nothing stops the relaying', exc is None, exc)
    vm.prove('the thread goes on until it is asked to stop', exc is not None)


@harness('C25', 'stopping')
def _(vm):
    w = relay_world(vm)
    fr = stop_frames(vm, w)
    w.asked = True

    def on(vm, sock):
        if fr is None or vm.choose(2):
            return reply(vm, w, fr[0] if fr else None)     # (sent before the request to stop)
        if w.stopmsg is not None:
            raise PathEnd()                                # nothing comes after it
        w.stopmsg = ListObj(vm, list(fr))
        return w.stopmsg
    w.there.ghost['on_recv'] = on
    rule = Relay(w)
    vm.loop_rules.append(rule)
    n = len(vm.trace)
    _, exc = attempt(vm, lambda: mcall(vm, w.th, 'run'))
    vm.prove('a thread asked to stop ends without an error', exc is None, exc)
    vm.prove('..not before it was asked', fr is None or w.stopmsg is not None)
    if exc is None:
        segment(vm, w, vm.trace[n:])
        vm.cover('stopped')


@harness('C25', 'actions in the Qt thread')
def _(vm):
    """What runs in the Qt thread is what runs in other servers; closing also ends the application."""
    quits = vm.choose(3)
    s, th, router, here, there, ev = mk(vm, **({} if quits == 2 else dict(quit_on_close=bool(quits))))
    base = need(vm, TP + 'server.RPCServer')
    for n in ('_process_one', '_send_result', '_send_error', '_read_one'):
        a, b = vm.getattr(need(vm, Q), n), vm.getattr(base, n)
        if a is not b:
            raise Unsupported('%s is not that of other servers' % n)
    out = {}

    def act(vm, f, args, kw):
        d = dict(zip(['self', 'action', 'opts', 'return_type', 'caller'], args))
        for l in kw:
            d[l[1]] = l[2]
        vm.event('act', **{k: v for k, v in d.items() if k != 'self'})
        if vm.choose(2):
            out['e'] = vm.sym_exc('act')
            raise PyExc(out['e'])
        out['v'] = vm.fresh('any', 'result')
        return out['v']
    vm.contracts[TP + 'server.RPCServer.process_action'] = act
    close = vm.choose(2)
    action = 'close' if close else vm.fresh('str', 'action')
    if not close:
        vm.assume(action.t != 'close')
    opts, rt, caller = vm.fresh('any', 'opts'), vm.fresh('str', 'rt'), text_bytes(vm, 'caller')
    n = len(vm.trace)
    v, exc = attempt(vm, lambda: mcall(vm, s, 'process_action', action, opts, rt, caller))
    acts = events(vm, 'act', n)
    vm.prove('the action is carried out once', len(acts) == 1, acts)
    for a in acts:
        vm.prove('..as requested', z3.And(eq(vm, a.action, action), eq(vm, a.opts, opts), eq(vm, a.return_type, rt), eq(vm, a.caller, caller)), a)
    vm.prove('..with its outcome', exc is out['e'] if 'e' in out else exc is None and eq(vm, v, out['v']), (v, exc))
    qs = events(vm, 'qt.quit', n)
    vm.prove('the application quits if the server is closed, and only then', len(qs) == (1 if close and quits else 0), qs)
    vm.prove('the poll thread goes on, as the reply has yet to be sent', not events(vm, 'send', n) and not events(vm, 'sock.close', n))
    if close:
        _, exc = attempt(vm, lambda: mcall(vm, s, '_final_close'))
        vm.prove('closing does not fail', exc is None, exc)
        vm.prove('no socket is closed under the poll thread', not events(vm, 'sock.close', n), events(vm, 'sock.close', n))
