"""C02: exactly one reply per request, whatever the request does."""
from .base import *

RET = ('auto', 'proxy', 'value')


def any_opts(vm, action):
    """Decoded options of a request: any of them may be missing."""
    l = []

    def maybe(k, v):
        if vm.choose(2) == 0:
            l.append(('set', k, v))
    if action == 'call_obj':
        l.append(('set', 'args', Tup([vm.fresh_list('args')])))
        if vm.choose(2):
            l.append(('set', 'kwargs', DictObj(vm)))
        else:
            B = MapBase(vm, 'kwargs', keyinv=lambda k: V.is_str(k))
            l.append(('set', 'kwargs', DictObj(vm, [('base', B)])))
        maybe('obj', vm.fresh('opaque', 'obj'))
    elif action == 'get_obj':
        maybe('obj', vm.fresh('any', 'obj'))
    elif action == 'get_item':
        maybe('name', vm.fresh('str', 'name'))
    elif action == 'set_item':
        maybe('obj', vm.fresh('any', 'obj'))
        maybe('name', vm.fresh('str', 'name'))
    elif action == 'delete':
        maybe('obj_id', vm.fresh('int', 'obj_id'))
        maybe('ref_id', vm.fresh('int', 'ref_id'))
    elif action == 'import':
        maybe('module', vm.fresh('str', 'module'))
    if action == 'other' and vm.choose(2):
        return vm.fresh('any', 'opts')
    return DictObj(vm, l)


class CloseLoop(Rule):
    """Disconnect notices of a closing server go to other clients only."""
    def __init__(self, s, caller):
        self.s, self.caller = s, caller

    def matches(self, vm, src, node):
        return src is not None and src[0] == 'dict' and src[3] is self.s.ghost.get('clients')

    def check_iter(self, vm, sp, env, x, evs):
        for e in evs:
            if e.kind == 'send':
                vm.prove('close: a notice is never sent to the caller',
                         vm.neg(vm.eqf(e.frames[0], self.caller)), e.frames)
            if e.kind in ('sock.close',):
                vm.fail('close: the socket is not closed while notices are sent')


def err_text_only(vm, d):
    """dumps() may fail for any result; an error message (texts and numbers) always serializes."""
    m = dict_of(vm, d['obj'])
    if m is None:
        return True
    if m.get('action') == 'disconnect':
        return False
    return m.get('error') is None


def run(vm, s, action, ser, rt, rid, empty):
    caller = text_bytes(vm, 'caller')
    data = b'' if empty else vm.fresh('bytes', 'opts')
    if not empty:
        vm.assume(z3.Length(data.t) > 0)
    ab = vm.fresh('str', 'action') if action == 'other' else action
    if action == 'other':
        for a in ACTIONS:
            vm.assume(ab.t != a)
    msg = DictObj(vm, [('set', 'req_id', rid), ('set', 'action', ab), ('set', 'return_type', rt),
                       ('set', 'ser_type', ser), ('set', 'opts', data)])
    vm.loop_rules.append(CloseLoop(s, caller))
    mark = len(vm.trace)
    _, exc = attempt(vm, lambda: mcall(vm, s, '_process_one', caller, msg))
    return caller, mark, exc


ACTIONS = ('call_obj', 'get_obj', 'get_item', 'set_item', 'delete', 'import', 'ping', 'close')


def request(action, sers=SER, extra=False):
    def h(vm):
        wire_dumps(vm, may_fail=err_text_only)
        s = mk_server(vm)
        walks(vm)
        if action == 'close' and vm.choose(2):
            mcall(vm, s, 'run_lazy')
        wire_loads(vm, lambda vm, d: any_opts(vm, action))
        rid = vm.fresh('int', 'req_id')
        if extra:
            ser = vm.fresh('str', 'ser_type')
            for n in SER:
                vm.assume(ser.t != n)
        else:
            ser = sers[vm.choose(len(sers))]
        i = vm.choose(4)
        rt = RET[i] if i < 3 else vm.fresh('str', 'return_type')
        if i == 3:
            for n in RET:
                vm.assume(rt.t != n)
        empty = vm.choose(2) == 1
        running0 = vm.truth(mcall(vm, s, 'running'))
        caller, mark, exc = run(vm, s, action, ser, rt, rid, empty)
        check_replies(vm, s, action, caller, mark, exc, rid, rt, extra, ser, running0)
        if action != 'close':
            vm.prove('other requests leave the server running',
                     vm.truth(mcall(vm, s, 'running')) == running0)
    return h


def check_replies(vm, s, action, caller, mark, exc, rid, rt, extra, ser, running0=True):
    vm.prove('processing a request never raises', exc is None, exc and vm.show_exc(PyExc(exc)))
    ss = sends(vm, start=mark)
    mine = []
    for e in ss:
        vm.prove('replies go out on the server socket', e.sock is s.ghost['sock'])
        if action == 'close' and e is not ss[-1]:
            vm.prove('only notices go to others', vm.neg(vm.eqf(e.frames[0], caller)), e.frames)
            continue
        mine.append(e)
    if action != 'close':
        vm.prove('no reply hidden in a loop', not has_loop_event(vm, ['send'], mark))
    closes = events(vm, 'sock.close', mark)
    if action == 'close':
        # the socket closes exactly once, after everything was sent -- unless the request failed before it closed anything
        running = vm.truth(mcall(vm, s, 'running'))
        unread = extra or any(e.kind == 'loads.fail' for e in vm.trace[mark:])
        if unread:
            vm.prove('close: a request that cannot be read does not stop the server', running == running0)
        else:
            vm.prove('close: stops the server', not running)
        vm.prove('close: closes the socket exactly when the server has stopped', len(closes) == (0 if running else 1), closes)
        if closes:
            i = vm.trace.index(closes[0])
            vm.prove('close: ..after the reply was sent', not sends(vm, start=i) and
                     not has_loop_event(vm, ['send'], i))
    else:
        vm.prove('only a close request closes the socket', not closes, closes)
    if vm.branch(rid.t < 0):
        vm.prove('no reply when none is wanted', not mine, mine)
        return
    if not vm.prove('exactly one reply', len(mine) == 1, ss):
        return
    fr = mine[0].frames
    rec = unwire(vm, fr[-1])
    vm.prove('the reply goes to the caller', len(fr) == 2 and eq(vm, fr[0], caller), fr)
    d = dict_of(vm, rec['obj']) if rec else None
    if not vm.prove('the reply is a return message', d is not None and d.get('action') == 'return'
                    and set(d) >= {'req_id', 'rval', 'error'}, d):
        return
    vm.prove('the reply carries the request id', eq(vm, d['req_id'], rid), d)
    if not extra:
        i = vm.dict_get(field(vm, s, '_serializers'), ser)
        vm.prove('the reply is in the serializer of the request', rec['ser'] is i, (rec['ser'], ser))
    if extra:
        vm.prove('the reply to an unknown serializer is made by a supported one',
                 isinstance(rec['ser'], InstObj))
    # what happened?
    cause = None
    for e in vm.trace[mark:]:
        if e.kind in ('loads.fail',):
            cause = e.exc
        elif e.kind == 'usercall' and e.d.get('outcome') == 'raise':
            cause = e.exc
        elif e.kind == 'getattr' and e.d.get('outcome') == 'raise':
            cause = e.d.get('exc')
    if cause is not None:
        ok = d['error'] is not None
        vm.prove('a failing request is answered with an error', ok, d)
        if ok:
            t = vm.getattr(vm.call(TypeVal(type), [cause]), '__name__')
            er = d['error']
            segs = er.segs if isinstance(er, (Tup, ListObj)) else []
            vm.prove('the error names the type of the exception', len(segs) == 2 and eq(vm, segs[0], t), er)
            vm.prove('the error carries traceback text', len(segs) == 2 and isinstance(segs[1], (ListObj, Tup))
                     and len(segs[1].segs) > 0, er)
    failed = [e for e in events(vm, 'dumps.fail', mark)]
    if failed and cause is None:
        vm.prove('an unsendable result is answered with an error', d['error'] is not None, d)
    calls = [e for e in events(vm, 'usercall', mark) if e.d.get('outcome') == 'return']
    if action in ('ping',) and cause is None and not failed and not extra:
        if d['error'] is None and rt == 'value':
            vm.prove('the reply is the outcome of the action', eq(vm, d['rval'], 'pong'), d)
    if calls and cause is None and not failed and rt == 'value' and action == 'call_obj':
        vm.prove('the reply is the outcome of the action', d['error'] is None
                 and eq(vm, d['rval'], calls[-1].result), d)
    if action == 'close' and not failed and cause is None and d['error'] is None and rt == 'value':
        vm.prove('close answers True', eq(vm, d['rval'], True), d)
    if extra or action == 'other':
        vm.prove('an unsupported request is answered with an error', d['error'] is not None, d)


for _a in ACTIONS + ('other',):
    harness('C02', _a)(request(_a))
harness('C02', 'unknown serializer')(request('ping', extra=True))
harness('C02', 'unknown serializer, call')(request('call_obj', extra=True))
harness('C02', 'unknown serializer, close')(request('close', extra=True))


# ---------------------------------------------------------------- reading requests off the socket
class Serve(Rule):
    force = True

    def matches(self, vm, src, node):
        return src is None

    def check_iter(self, vm, sp, env, x, evs):
        one_each(vm, evs)


def one_each(vm, evs):
    """Every message taken off the socket is processed, once, with what it carried."""
    rec = [e for e in evs if e.kind == 'recvd']
    pro = [e for e in evs if e.kind == 'process']
    if not vm.prove('each message read is processed exactly once', len(rec) == len(pro), (rec, pro)):
        return
    for r, p in zip(rec, pro):
        w = r.sock.ghost['frames']
        d = dict_of(vm, p.msg)
        if not vm.prove('a message is processed as a request', d is not None and
                        set(d) >= {'req_id', 'action', 'return_type', 'ser_type', 'opts'}, d):
            continue
        vm.prove('..from the caller that sent it', eq(vm, p.caller, w['name']), p)
        for k in ('req_id', 'action', 'return_type', 'ser_type', 'opts'):
            vm.prove('..with the %s it carried' % k, eq(vm, d[k], w[k]), d)


def frames_in(vm, s):
    """The socket delivers well-formed requests, as a client sends them (C01)."""
    sock = s.ghost['sock']

    def on(vm, sock):
        name, opts = text_bytes(vm, 'from'), vm.fresh('bytes', 'opts')
        rid = vm.fresh('int', 'rid')
        act, rt, ser = (vm.fresh('str', n) for n in ('act', 'rt', 'ser'))
        enc = lambda x: vm.call(vm.getattr(x, 'encode'), [])
        sock.ghost['frames'] = dict(name=name, req_id=rid, action=act, return_type=rt, ser_type=ser, opts=opts)
        return ListObj(vm, [name, enc(vm.str_(rid)), enc(act), enc(rt), enc(ser), opts])
    sock.ghost['on_recv'] = on

    def proc(vm, f, args, kw):
        d = dict(zip(['self', 'caller', 'msg'], args))
        for l in kw:
            d[l[1]] = l[2]
        vm.event('process', caller=d['caller'], msg=snap(vm, d['msg']))
        # a request may close the server (process_action) but raises nothing (proved above)
        setfield(vm, d['self'], '_closed', vm.fresh('bool', 'closed'))
    vm.contracts[TP + 'server.RPCServer._process_one'] = proc


@harness('C02', 'the socket')
def _(vm):
    """A ROUTER socket drops what does not fit its buffers, which are limited unless set otherwise."""
    n = len(vm.trace)
    s = mk_server(vm, clients=False, namespace=False, proxies=False)
    b = [e for e in events(vm, 'bind', n) if e.sock is s.ghost['sock']]
    vm.prove('the server listens', len(b) == 1, b)
    for e in b:
        hwm = e.attrs.get('sndhwm', e.attrs.get('SNDHWM', e.opts.get('zmq.SNDHWM', e.attrs.get('hwm'))))
        must = e.attrs.get('router_mandatory', e.attrs.get('ROUTER_MANDATORY', e.opts.get('zmq.ROUTER_MANDATORY')))
        if any(k in e.attrs for k in ('set_hwm',)) or must is not None:
            raise Unsupported('options of the server socket')
        vm.prove('no reply is dropped, however slow the caller reads', hwm is not None and eq(vm, hwm, 0), (e.attrs, e.opts))


@harness('C02', 'reading one request')
def _(vm):
    s = mk_server(vm, clients=False, namespace=False, proxies=False)
    frames_in(vm, s)
    mark = len(vm.trace)
    v, exc = attempt(vm, lambda: mcall(vm, s, '_read_and_process_one'))
    vm.prove('reading a request does not fail', exc is None or not events(vm, 'recvd', mark), exc)
    one_each(vm, vm.trace[mark:])
    if exc is None:
        vm.prove('one message is read', len(events(vm, 'recvd', mark)) == 1)


@harness('C02', 'server loop')
def _(vm):
    s = mk_server(vm, clients=False, namespace=False, proxies=False)
    frames_in(vm, s)
    vm.loop_rules.append(Serve())
    mark = len(vm.trace)
    v, exc = attempt(vm, lambda: mcall(vm, s, 'run_forever'))
    vm.prove('a server loop does not fail', exc is None, exc)
    one_each(vm, vm.trace[mark:])
    if exc is None:
        vm.prove('the server loop ends only when the server was closed', vm.neg(vm.truth_f(mcall(vm, s, 'running'))))
