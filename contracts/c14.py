"""C14: server shutdown reaches every client."""
from .base import *
from . import c01

CL, SV = TP + 'client.RPCClient', TP + 'server.RPCServer'


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


# ------------------------------------------------------------------------------- the server
class Notices(Rule):
    """Broadcast of a closing server.

    Every client but the caller gets one notice, in its serializer; what the loop keeps between
    iterations maps serializers to the notice in that serializer."""
    def __init__(self, s, caller, w):
        self.s, self.caller, self.w = s, caller, w
        self.caches = []

    def matches(self, vm, src, node):
        return src is not None and src[0] == 'dict' and src[3] is self.s.ghost['clients']

    def notice(self, vm, ser):
        b = vm.fresh('bytes', 'notice')
        vm.assume(z3.Length(b.t) > 0)
        vm.ghost.setdefault('wire', []).append(dict(
            term=b.t, obj=DictObj(vm, [('set', 'action', 'disconnect')]), server=None, types=None,
            ser=vm.dict_get(field(vm, self.s, '_serializers'), ser)))
        return b

    def entry_inv(self, vm, o, key):
        for n in SER:
            if vm.branch(vm.eqf(key, n)):
                return self.notice(vm, n)
        raise PathEnd()

    def havoc(self, vm, o):
        if isinstance(o, DictObj) and o.meta != 'fields' and o is not field(vm, self.s, '_clients'):
            if not any(o is c for c in self.caches):
                self.caches.append(o)
        return False

    def check_iter(self, vm, sp, env, x, evs):
        ss = [e for e in evs if e.kind == 'send']
        if not isinstance(x, Tup):
            raise Unsupported('loop over %s' % sp.src[2])
        k, ser = x.segs
        is_caller = self.caller is not None and vm.branch(zb(vm.eqf(k, self.caller)))
        vm.prove('close: one notice for each client, none for the caller', len(ss) == (0 if is_caller else 1), ss)
        for e in ss:
            check_notice(vm, self.s, e, k, ser)
        for d in self.caches:
            for n in SER:
                if vm.branch(zb(vm.dict_has(d, n))):
                    r = unwire(vm, vm.dict_get(d, n))
                    vm.prove('close: prepared notices are in the right serializer', r is not None and
                             r['ser'] is vm.dict_get(field(vm, self.s, '_serializers'), n), r)

    def tracked(self, vm, sp):
        if sp.src[2] != 'items':
            raise Unsupported('loop over %s' % sp.src[2])
        return (Tup([self.w, vm.dict_get(field(vm, self.s, '_clients'), self.w)]),)


def check_notice(vm, s, e, client, ser):
    vm.prove('close: a notice goes to the client it is meant for', eq(vm, e.frames[0], client), e.frames)
    vm.prove('close: a notice has an address and a message', len(e.frames) == 2, e.frames)
    r = unwire(vm, e.frames[-1])
    ok = r is not None and dict_of(vm, r['obj']) == {'action': 'disconnect'}
    vm.prove('close: the message is a disconnect notice', ok, r)
    if r is not None:
        vm.prove('close: ..in the serializer of that client', r['ser'] is vm.dict_get(field(vm, s, '_serializers'), ser), (r['ser'], ser))
    vm.prove('close: ..through the socket of the server', e.sock is s.ghost['sock'])


def general_server(vm):
    wire_dumps(vm, may_fail=False)
    s = mk_server(vm, namespace=False, proxies=False)
    mcall(vm, s, 'run_lazy')
    return s


def after_close(vm, s, mark):
    vm.prove('close: the server is no longer running', vm.neg(zb(vm.truth_f(mcall(vm, s, 'running')))))
    r = vm.call(vm.getattr(need(vm, SV), 'get_server'), [])
    vm.prove('close: the server is no longer registered', r is None, r)
    vm.prove('close: ..and does not count itself registered', field(vm, s, '_thread') is None)


@harness('C14', 'server closes')
def server_closes(vm):
    """A close request of a client, processed completely."""
    s = general_server(vm)
    caller = text_bytes(vm, 'caller')
    w = text_bytes(vm, 'client')
    vm.assume(w.t != caller.t)
    vm.assume(zb(vm.dict_has(field(vm, s, '_clients'), w)))
    wser = vm.dict_get(field(vm, s, '_clients'), w)
    rule = Notices(s, caller, w)
    vm.loop_rules.insert(0, rule)
    wire_loads(vm, lambda vm, d: None, may_fail=False)
    ser = SER[vm.choose(2)]
    rid = vm.fresh('int', 'req_id')
    msg = DictObj(vm, [('set', 'req_id', rid), ('set', 'action', 'close'), ('set', 'return_type', 'auto'),
                       ('set', 'ser_type', ser), ('set', 'opts', b'')])
    mark = len(vm.trace)
    _, exc = attempt(vm, lambda: mcall(vm, s, '_process_one', caller, msg))
    vm.prove('close: raises nothing', exc is None, exc)
    if not has_loop_event(vm, ['send'], mark):
        raise PathEnd()
    # what was sent to w and to the caller: the tracked iteration, then the reply
    to_w, to_caller, rest = [], [], []
    for e in sends(vm, start=mark):
        if vm.entails(eq(vm, e.frames[0], w)):
            to_w.append(e)
        elif vm.entails(eq(vm, e.frames[0], caller)):
            to_caller.append(e)
        else:
            rest.append(e)
    vm.prove('close: nothing is sent to anyone else', not rest, rest)
    vm.prove('close: every other client gets exactly one notice', len(to_w) == 1, to_w)
    for e in to_w:
        check_notice(vm, s, e, w, wser)
    if vm.branch(rid.t >= 0):
        if vm.prove('close: the caller gets exactly one message', len(to_caller) == 1, to_caller):
            r = unwire(vm, to_caller[0].frames[-1])
            d = dict_of(vm, r['obj']) if r is not None else None
            vm.prove('close: ..the reply True to its request', d is not None and d.get('action') == 'return'
                     and d.get('rval') is True and d.get('error') is None and eq(vm, d['req_id'], rid), d)
            if r is not None:
                vm.prove('close: ..in its serializer', r['ser'] is vm.dict_get(field(vm, s, '_serializers'), ser))
    else:
        vm.prove('close: nothing is sent to a caller that wants no reply', not to_caller, to_caller)
    cl = [i for i, e in enumerate(vm.trace) if e.kind == 'sock.close' and i >= mark]
    last = max([i for i, e in enumerate(vm.trace) if e.kind in ('send', 'loop') and i >= mark])
    vm.prove('close: the socket is closed after everything was sent', len(cl) >= 1 and min(cl) > last, cl)
    after_close(vm, s, mark)


@harness('C14', 'a close request that cannot be read')
def unreadable_close(vm):
    """It closes nothing: no notice is sent, and the server can still be closed for everyone later."""
    s = general_server(vm)
    caller = text_bytes(vm, 'caller')
    if vm.choose(2):
        ser = vm.fresh('str', 'ser_type')
        for n in SER:
            vm.assume(ser.t != n)
        wire_loads(vm, lambda vm, d: None, may_fail=False)
    else:
        ser = SER[vm.choose(2)]

        def fails(vm, d):
            vm.throw(ValueError, 'cannot be decoded')
        wire_loads(vm, fails, may_fail=False)
    data = vm.fresh('bytes', 'opts')
    vm.assume(z3.Length(data.t) > 0)
    msg = DictObj(vm, [('set', 'req_id', vm.fresh('int', 'req_id')), ('set', 'action', 'close'), ('set', 'return_type', 'auto'),
                       ('set', 'ser_type', ser), ('set', 'opts', data)])
    running = vm.truth(mcall(vm, s, 'running'))
    mark = len(vm.trace)
    _, exc = attempt(vm, lambda: mcall(vm, s, '_process_one', caller, msg))
    vm.prove('unreadable: raises nothing', exc is None, exc)
    vm.prove('unreadable: the server runs on', vm.truth(mcall(vm, s, 'running')) == running)
    if running:
        vm.prove('unreadable: its socket stays open', not events(vm, 'sock.close', mark))
    vm.prove('unreadable: nobody is told that it has closed', not has_loop_event(vm, ['send'], mark)
             and not [e for e in sends(vm, start=mark) if not vm.entails(eq(vm, e.frames[0], caller))])
    r = vm.call(vm.getattr(need(vm, SV), 'get_server'), [])
    vm.prove('unreadable: it stays registered', r is s, r)


@harness('C14', 'closing itself')
def closes_itself(vm):
    """process_action('close') without a caller: every client is told."""
    s = general_server(vm)
    w = text_bytes(vm, 'client')
    vm.assume(zb(vm.dict_has(field(vm, s, '_clients'), w)))
    wser = vm.dict_get(field(vm, s, '_clients'), w)
    vm.loop_rules.insert(0, Notices(s, None, w))
    mark = len(vm.trace)
    r, exc = attempt(vm, lambda: mcall(vm, s, 'process_action', 'close', None, None, None))
    vm.prove('close: raises nothing', exc is None, exc)
    ss = sends(vm, start=mark)
    vm.prove('close: every client gets exactly one notice', len(ss) == 1, ss)
    for e in ss:
        check_notice(vm, s, e, w, wser)
    vm.prove('close: succeeds', r is True, r)
    after_close(vm, s, mark)


@harness('C14', 'asking the server to close')
def server_close(vm):
    """RPCServer.close(): one close request to itself."""
    s = general_server(vm)
    c = mk_client(vm, addr=s.ghost['addr'])
    registered_client(vm, c)
    got = []

    def close_server(vm, f, args, kw):
        got.append((args, kw))
        return True
    vm.contracts[CL + '.close_server'] = close_server
    mark = len(vm.trace)
    _, exc = attempt(vm, lambda: mcall(vm, s, 'close'))
    vm.prove('server.close(): asks once, through the client of its own address', exc is None and len(got) == 1 and
             got[0][0][0] is c, (got, exc))


@harness('C14', 'heard from')
def heard_from(vm):
    """Whoever sends a request is known from then on, with the serializer it used."""
    s = general_server(vm)
    walks(vm)
    caller = text_bytes(vm, 'caller')
    other = text_bytes(vm, 'other')
    vm.assume(other.t != caller.t)
    had = zb(vm.dict_has(field(vm, s, '_clients'), other))
    oser = vm.dict_get(field(vm, s, '_clients'), other) if vm.branch(had) else None
    wire_loads(vm, lambda vm, d: DictObj(vm, [('set', 'name', vm.fresh('str', 'name'))]), may_fail=True)
    ser = SER[vm.choose(2)]
    msg = DictObj(vm, [('set', 'req_id', vm.fresh('int', 'rid')), ('set', 'action', ('ping', 'get_item')[vm.choose(2)]),
                       ('set', 'return_type', 'auto'), ('set', 'ser_type', ser), ('set', 'opts', vm.fresh('bytes', 'opts'))])
    _, exc = attempt(vm, lambda: mcall(vm, s, '_process_one', caller, msg))
    d = field(vm, s, '_clients')
    vm.prove('heard from: a caller is remembered', zb(vm.dict_has(d, caller)))
    vm.prove('heard from: ..with its serializer', eq(vm, vm.dict_get(d, caller), ser))
    if oser is not None:
        vm.prove('heard from: other clients stay known', zb(vm.dict_has(d, other)))
        vm.prove('heard from: ..with their serializer', eq(vm, vm.dict_get(d, other), oser))


# ------------------------------------------------------------------------------- the client
class FailAll(Rule):
    def __init__(self, c, w, fut):
        self.c, self.w, self.fut = c, w, fut

    def matches(self, vm, src, node):
        return src is not None and src[0] == 'dict' and src[3] is self.c.ghost['futures']

    def check_iter(self, vm, sp, env, x, evs):
        f = {'items': lambda: x.segs[1], 'values': lambda: x, 'keys': lambda: None}[sp.src[2]]()
        done = [e for e in evs if e.kind == 'future.done']
        if f is not None:
            vm.prove('disconnect: each pending request is completed', len(done) == 1 and done[0].fut is f, done)
            vm.prove('disconnect: ..with RuntimeError', failed(vm, f), f.ghost)
        vm.prove('disconnect: nothing is sent', not [e for e in evs if e.kind == 'send'])

    def tracked(self, vm, sp):
        if self.fut is None:
            return ()
        return ({'items': Tup([self.w, self.fut]), 'values': self.fut, 'keys': self.w}[sp.src[2]],)


def failed(vm, f):
    g = f.ghost
    return g['state'] == 'exception' and exc_isa(vm, g['value'], RuntimeError)


def client_with_requests(vm):
    wire_dumps(vm, may_fail=False)
    c = mk_client(vm)
    general_futures(vm, c)
    w = vm.fresh('int', 'pending.id')
    had = vm.branch(zb(vm.dict_has(field(vm, c, 'futures'), w)))
    f = vm.dict_get(field(vm, c, 'futures'), w) if had else None
    tried = []
    if f is not None and vm.choose(2):
        # the owner of the request reacts at once with another request
        def cb(vm, args, kw):
            mark = len(vm.trace)
            r, exc = attempt(vm, lambda: mcall(vm, c, 'send', 'ping', sync='async'))
            tried.append((exc, sends(vm, start=mark)))
        mcall(vm, f, 'add_done_callback', Native(cb, 'callback'))
    vm.loop_rules.insert(0, FailAll(c, w, f))
    return c, w, f, tried


def gone(vm, c, f, tried, label):
    """State of a client that knows its server is gone."""
    if f is not None:
        vm.prove(label + ': every pending request fails with RuntimeError', failed(vm, f), f.ghost)
        r, exc = attempt(vm, lambda: mcall(vm, f, 'result'))
        vm.prove(label + ': whoever waits for it gets RuntimeError', exc is not None and exc_isa(vm, exc, RuntimeError), exc)
    for e, ss in tried:
        vm.prove(label + ': requests made in reaction to it are refused', e is not None and exc_isa(vm, e, RuntimeError) and not ss, e)
    k = vm.fresh('int', 'any.id')
    vm.prove(label + ': nothing is pending any more', vm.neg(zb(vm.dict_has(field(vm, c, 'futures'), k))))
    mark = len(vm.trace)
    r = mcall(vm, c, 'disconnected')
    vm.prove(label + ': reports itself disconnected', vm.truth_f(r), r)
    acts = [('send', ['ping'], kws(sync=SYNC[vm.choose(3)])), ('__getitem__', [vm.fresh('str', 'n')], []),
            ('_import', ['os'], []), ('ping', [], []), ('send', ['close'], kws(sync='async'))]
    n, a, k = acts[vm.choose(len(acts))]
    r, exc = attempt(vm, lambda: vm.call(vm.getattr(c, n), a, k))
    vm.prove(label + ': further requests are refused with RuntimeError', exc is not None and exc_isa(vm, exc, RuntimeError), (r, exc))
    r, exc = attempt(vm, lambda: mcall(vm, c, 'close_server'))
    vm.prove(label + ': closing the server again counts as done', exc is None and r is True, (r, exc))
    vm.prove(label + ': nothing is sent after that', not sends(vm, start=mark) and not has_loop_event(vm, ['send'], mark))


@harness('C14', 'notice received')
def notice(vm):
    c, w, f, tried = client_with_requests(vm)
    c01.deliver(vm, c, [DictObj(vm, [('set', 'action', 'disconnect')])])
    via = vm.choose(2)
    mark = len(vm.trace)
    if via == 0:
        _, exc = attempt(vm, lambda: mcall(vm, c, '_read_and_process_one', vm.fresh('real', 'timeout')))
        if not events(vm, 'recvd', mark):
            raise PathEnd()
    else:
        _, exc = attempt(vm, lambda: mcall(vm, c, 'process_msg', DictObj(vm, [('set', 'action', 'disconnect')])))
    vm.prove('notice: raises nothing', exc is None, exc)
    gone(vm, c, f, tried, 'after the notice')


@harness('C14', 'own close request')
def own_close(vm):
    """The client asks for the close itself; the reply may be True or anything else."""
    c, w, f, tried = client_with_requests(vm)
    fut, exc = attempt(vm, lambda: mcall(vm, c, 'send', 'close', sync='async'))
    if not vm.prove('own close: the request is sent', exc is None and isinstance(fut, InstObj) and len(sends(vm)) == 1, exc):
        return
    fr = sends(vm)[0].frames
    vm.prove('own close: it is a close request', eq(vm, fr[1], b'close'), fr)
    if f is not None:
        vm.assume(ctr(vm.getattr(fut, 'call_id')) != w.t)
    ok = vm.choose(3)
    rid = vm.getattr(fut, 'call_id')
    m = {0: lambda: kws(action='return', req_id=rid, rval=True, error=None),
         1: lambda: kws(action='return', req_id=rid, rval=False, error=None),
         2: lambda: kws(action='return', req_id=rid, rval=None, error=Tup(['KeyError', ListObj(vm, ['x'])]))}[ok]()
    _, exc = attempt(vm, lambda: mcall(vm, c, 'process_msg', DictObj(vm, m)))
    vm.prove('own close: the reply raises nothing', exc is None, exc)
    if ok == 0:
        vm.prove('own close: the request itself succeeds', fut.ghost['state'] == 'result' and fut.ghost['value'] is True, fut.ghost)
        gone(vm, c, f, tried, 'after an own close')
    else:
        vm.prove('own close: a refusal leaves the client connected', field(vm, c, '_disconnected') is False)
        if f is not None:
            vm.prove('own close: ..and other requests pending', f.ghost['state'] == 'pending', f.ghost)


@harness('C14', 'own close request, but another was first')
def own_close_late(vm):
    """A disconnect notice while the own close request is pending."""
    c, w, f, tried = client_with_requests(vm)
    fut, exc = attempt(vm, lambda: mcall(vm, c, 'send', 'close', sync='async'))
    if exc is not None:
        return
    c01.deliver(vm, c, [])
    _, exc = attempt(vm, lambda: mcall(vm, c, 'process_msg', DictObj(vm, [('set', 'action', 'disconnect')])))
    vm.prove('late close: the notice raises nothing', exc is None, exc)
    vm.prove('late close: the pending close request fails with RuntimeError', failed(vm, fut), fut.ghost)
    gone(vm, c, f, tried, 'late close')


class Drain(Rule):
    """Reading everything that has arrived: a notice among it leaves the client disconnected."""
    def __init__(self, c, seen):
        self.c, self.seen = c, seen

    def matches(self, vm, src, node):
        return src is None

    def assume_inv(self, vm, sp, env):
        # an arbitrary number of messages was read before; either a notice was among them or not
        before = bool(vm.choose(2))
        if before:
            self.seen.append('disconnect')
        setfield(vm, self.c, '_disconnected', before)
        general_futures(vm, self.c)

    def check_iter(self, vm, sp, env, x, evs):
        d = field(vm, self.c, '_disconnected')
        if 'disconnect' in self.seen:
            vm.prove('a notice leaves the client disconnected', vm.truth_f(d), d)
        else:
            vm.prove('nothing else does', vm.neg(zb(vm.truth_f(d))), d)


@harness('C14', 'is the server gone?')
def disconnected(vm):
    """disconnected() looks at what has arrived: a notice among it is seen."""
    c, w, f, tried = client_with_requests(vm)
    if f is not None:
        raise PathEnd()
    seen = []

    def make(vm, d):
        if vm.choose(2):
            seen.append('disconnect')
            return DictObj(vm, [('set', 'action', 'disconnect')])
        return DictObj(vm, [('set', 'action', 'return'), ('set', 'req_id', vm.fresh('int', 'rid')), ('set', 'rval', 1), ('set', 'error', None)])
    wire_loads(vm, make, may_fail=False)
    vm.loop_rules.insert(0, Drain(c, seen))
    c.ghost['sock'].ghost['on_recv'] = lambda vm, s: vm.fresh('bytes', 'data')
    if vm.choose(2):
        # asking for a close looks at what has arrived first
        mark = len(vm.trace)
        r, exc = attempt(vm, lambda: mcall(vm, c, 'close_server', sync='async'))
        asked = sends(vm, start=mark)
        vm.prove('close_server(): raises nothing', exc is None, exc)
        if 'disconnect' in seen:
            vm.prove('close_server(): counts as done when a notice has arrived', exc is None and r is True, r)
            vm.prove('close_server(): ..and asks nothing more', not asked, asked)
        else:
            vm.prove('close_server(): asks once', len(asked) == 1 and eq(vm, asked[0].frames[1], b'close'), asked)
        return
    dead = vm.choose(2) == 1
    if dead:
        vm.touch(c.ghost['sock'], 'ghost')
        c.ghost['sock'].ghost['closed'] = True
    r, exc = attempt(vm, lambda: mcall(vm, c, 'disconnected'))
    vm.prove('disconnected(): raises nothing', exc is None, exc)
    if exc is None and vm.branch(zb(vm.truth_f(r))):
        mark = len(vm.trace)
        _, exc2 = attempt(vm, lambda: mcall(vm, c, 'send', 'ping', sync=SYNC[vm.choose(3)]))
        vm.prove('disconnected(): from then on requests are refused with RuntimeError', exc2 is not None and
                 exc_isa(vm, exc2, RuntimeError) and not sends(vm, start=mark), exc2)
        r2, exc2 = attempt(vm, lambda: mcall(vm, c, 'close_server'))
        vm.prove('disconnected(): from then on closing counts as done', exc2 is None and r2 is True, (r2, exc2))
    if dead:
        return
    t = zb(vm.truth_f(r)) if exc is None else False
    if 'disconnect' in seen:
        vm.prove('disconnected(): a notice that has arrived is seen', t, r)
    else:
        vm.prove('disconnected(): a client that got no notice is connected', vm.neg(t), r)
    for e in events(vm, 'recv'):
        vm.prove('disconnected(): does not wait', eq(vm, e.timeout, 0) if not e.noblock else True, e)
