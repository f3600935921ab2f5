"""C11: a remote call runs once, with exactly the arguments given."""
from .base import *

RET = ('auto', 'proxy', 'value')


def unknown_kwargs(vm, exclude=()):
    B = MapBase(vm, 'kwargs', keyinv=lambda k: V.is_str(k))
    for n in exclude:
        vm.assume(z3.Not(B.has_f(V.str(z3.StringVal(n)))))
    return B


def request_of(vm, ss, label):
    """(frames, message) of the single request sent"""
    if not vm.prove(label + ': exactly one request is sent', len(ss) == 1, ss):
        raise PathEnd()
    fr = ss[0].frames
    rec = unwire(vm, fr[-1])
    if not vm.prove(label + ': request has five frames and serialized options',
                    len(fr) == 5 and rec is not None, fr):
        raise PathEnd()
    return fr, rec['obj']


def check_modes(vm, c, label, fr, sync, timeout, rt, result, exc, mark, req_id):
    """The reply id, the return type and what the caller gets."""
    vm.prove(label + ': return type sent', eq(vm, fr[2], vm.call(vm.getattr(rt, 'encode'), [])), fr[2])
    rr = events(vm, 'future.result', mark)
    if sync == 'off':
        vm.prove(label + ': asks for no reply', eq(vm, fr[0], b'-1'), fr[0])
        vm.prove(label + ': off returns None without waiting', result is None and exc is None and not rr,
                 (result, exc))
        return
    vm.prove(label + ': asks for a reply', z3.And(
        eq(vm, fr[0], vm.call(vm.getattr(vm.str_(req_id), 'encode'), []))), fr[0])
    if sync == 'async':
        ok = isinstance(result, InstObj) and issub(result.cls, need(vm, TP + 'client.Future'))
        if vm.prove(label + ': async returns a future at once', ok and exc is None and not rr, result):
            vm.prove(label + ': ..the future registered for this request',
                     vm.dict_get(field(vm, c, 'futures'), req_id) is result)
        return
    if vm.prove(label + ': sync waits for the reply', len(rr) == 1, rr):
        e = rr[0]
        vm.prove(label + ': ..of this request', vm.dict_get(field(vm, c, 'futures'), req_id) is e.fut)
        vm.prove(label + ': ..for the given time', eq(vm, e.timeout, timeout), e.timeout)
        if 'value' in e.d:
            vm.prove(label + ': returns the result', exc is None and eq(vm, result, e.value), (result, exc))
        elif 'exc' in e.d:
            vm.prove(label + ': raises the error', exc is not None and exc is e.exc, (result, exc))
        else:
            vm.prove(label + ': raises TimeoutError', exc is not None and exc_isa(vm, exc, TimeoutError), exc)


def proxy_call(osync):
    def h(vm):
        wire_dumps(vm)
        future_outcome(vm)
        c = mk_client(vm)
        registered_client(vm, c)
        p = mk_proxy(vm, addr=c.ghost['addr'], sync=osync)
        view = proxy_view(vm, p)
        before = {k: snap(vm, v) for k, v in options_of(vm, p)[1].items()}
        args = [vm.fresh_list('args')]
        B = unknown_kwargs(vm, ('_sync', '_timeout', '_return_type', 'self'))
        kw = [('base', B)]
        sync, timeout, rt = before['sync'], before['timeout'], before['return_type']
        i = vm.choose(4)
        if i:
            sync = SYNC[i - 1]
            kw.append(('set', '_sync', sync))
        if vm.choose(2):
            timeout = vm.fresh('any', 'call.timeout')
            kw.append(('set', '_timeout', timeout))
        if vm.choose(2):
            rt = vm.fresh('str', 'call.return_type')
            kw.append(('set', '_return_type', rt))
        if vm.choose(2):
            mcall(vm, p, '_client')
        mark = len(vm.trace)
        nrid = field(vm, c, 'next_request_id')
        result, exc = attempt(vm, lambda: vm.call(class_lookup(p.cls, '__call__'), [p] + args, kw))
        ss = sends(vm, start=mark)
        vm.prove('call: no request hidden in a loop', not has_loop_event(vm, ['send'], mark))
        d0, after = options_of(vm, p)
        vm.prove('call: options of the proxy stay as they were', set(after) == set(before) and
                 z3.And([same_deep(vm, after[k], before[k]) for k in before]), after)
        failed = events(vm, 'dumps.fail', mark)
        if failed:
            vm.prove('call: error and nothing sent if the arguments cannot be serialized',
                     exc is not None and not ss, ss)
            vm.prove('call: serialization is tried once', len(failed) == 1)
            return
        fr, ob = request_of(vm, ss, 'call')
        vm.prove('call: to the server of the proxy', ss[0].sock is c.ghost['sock'])
        vm.prove('call: action call_obj', eq(vm, fr[1], b'call_obj'))
        d = dict_of(vm, ob)
        if not vm.prove('call: message has obj, args, kwargs', d is not None and set(d) ==
                        {'obj', 'args', 'kwargs'}, ob):
            return
        vm.prove('call: names that proxy', is_proxy(vm, d['obj']) and denotes(vm, d['obj'], view), d['obj'])
        vm.prove('call: positional arguments unchanged', isinstance(d['args'], (Tup, ListObj)) and
                 vm.lift_seq(d['args'].segs) == vm.lift_seq(args), d['args'])
        ref = DictObj(vm, [('base', B)])
        vm.prove('call: keyword arguments unchanged, overrides removed',
                 isinstance(d['kwargs'], DictObj) and same_map(vm, d['kwargs'], ref), d['kwargs'])
        check_modes(vm, c, 'call', fr, sync, timeout, rt, result, exc, mark, nrid)
    return h


for _s in SYNC:
    harness('C11', 'proxy call, proxy is ' + _s)(proxy_call(_s))


@harness('C11', 'call_obj')
def call_obj(vm):
    """RPCClient.call_obj with any of its arguments left out."""
    wire_dumps(vm, may_fail=False)
    future_outcome(vm)
    c = mk_client(vm)
    p = mk_proxy(vm, addr=c.ghost['addr'], options=False)
    view = proxy_view(vm, p)
    kw = []
    args, kws_ = [], {}
    if vm.choose(2):
        args = [vm.fresh_list('args')]
        kw.append(('set', 'args', Tup(args)))
    B = None
    if vm.choose(2):
        B = unknown_kwargs(vm)
        kw.append(('set', 'kwargs', DictObj(vm, [('base', B)])))
    sync = SYNC[vm.choose(3)]
    timeout = vm.fresh('any', 'timeout')
    rt = vm.fresh('str', 'rt')
    kw += kws(sync=sync, timeout=timeout, return_type=rt)
    nrid = field(vm, c, 'next_request_id')
    mark = len(vm.trace)
    result, exc = attempt(vm, lambda: vm.call(vm.getattr(c, 'call_obj'), [p], kw))
    fr, ob = request_of(vm, sends(vm, start=mark), 'call_obj')
    vm.prove('call_obj: action', eq(vm, fr[1], b'call_obj'))
    d = dict_of(vm, ob)
    if not vm.prove('call_obj: message', d is not None and set(d) == {'obj', 'args', 'kwargs'}, ob):
        return
    vm.prove('call_obj: object', is_proxy(vm, d['obj']) and denotes(vm, d['obj'], view))
    vm.prove('call_obj: arguments (none given: none sent)', isinstance(d['args'], (Tup, ListObj)) and
             vm.lift_seq(d['args'].segs) == vm.lift_seq(args), d['args'])
    ref = DictObj(vm, [('base', B)] if B else [])
    vm.prove('call_obj: keywords (none given: none sent)', isinstance(d['kwargs'], DictObj) and
             same_map(vm, d['kwargs'], ref), d['kwargs'])
    check_modes(vm, c, 'call_obj', fr, sync, timeout, rt, result, exc, mark, nrid)


def server_call(kwempty, isseq):
    def h(vm):
        wire_dumps(vm, may_fail=False)
        s = mk_server(vm)
        obj = vm.fresh('opaque', 'target')
        args = [vm.fresh_list('args')]
        seq = Tup(args) if isseq == 'tuple' else ListObj(vm, args)
        B = None
        if kwempty:
            kwd = DictObj(vm)
        else:
            B = unknown_kwargs(vm)
            vm.assume(B.size > 0)
            kwd = DictObj(vm, [('base', B)])
        msgopts = DictObj(vm, [('set', 'obj', obj), ('set', 'args', seq), ('set', 'kwargs', kwd)])
        wire_loads(vm, lambda vm, d: msgopts, may_fail=False)
        rid = vm.fresh('int', 'req_id')
        rt = RET[vm.choose(3)]
        data = vm.fresh('bytes', 'opts')
        vm.assume(z3.Length(data.t) > 0)
        msg = DictObj(vm, [('set', 'req_id', rid), ('set', 'action', 'call_obj'),
                           ('set', 'return_type', rt), ('set', 'ser_type', SER[vm.choose(2)]),
                           ('set', 'opts', data)])
        caller = text_bytes(vm, 'caller')
        mark = len(vm.trace)
        _, exc = attempt(vm, lambda: mcall(vm, s, '_process_one', caller, msg))
        uc = [e for e in events(vm, 'usercall', mark)]
        calls = [e for e in uc if e.fn is obj or (isinstance(e.fn, Sym) and z3.eq(vm.lift(e.fn), vm.lift(obj)))]
        if not vm.prove('server: the object is called exactly once', len(calls) == 1 and len(uc) == 1
                        and not has_loop_event(vm, ['usercall'], mark), uc):
            return
        e = calls[0]
        vm.prove('server: with exactly the positional arguments sent',
                 vm.lift_seq(e.args.segs) == vm.lift_seq(args), e.args)
        vm.prove('server: with exactly the keyword arguments sent',
                 same_map(vm, DictObj(vm, list(e.kw)), DictObj(vm, [('base', B)] if B else [])), e.kw)
        ss = sends(vm, start=mark)
        if vm.entails(rid.t < 0):
            vm.prove('server: no reply when none is wanted', not ss, ss)
        elif len(ss) == 1:
            rec = unwire(vm, ss[0].frames[-1])
            d = dict_of(vm, rec['obj']) if rec else None
            if not vm.prove('server: replies', d is not None, ss):
                return
            if e.outcome == 'return' and rt == 'value':
                vm.prove('server: replies with what the call returned',
                         z3.And(eq(vm, d['rval'], e.result), eq(vm, d['error'], None)), d)
            if e.outcome == 'raise':
                vm.prove('server: replies with an error when the call raised',
                         not (d['error'] is None), d)
        else:
            vm.fail('server: exactly one reply', ss)
    return h


for _k in (True, False):
    for _q in ('tuple', 'list'):
        harness('C11', 'server call, %s keywords, %s' % ('no' if _k else 'with', _q))(server_call(_k, _q))


@harness('C11', 'server defaults')
def server_defaults(vm):
    """A request that leaves out args or kwargs calls without them."""
    s = mk_server(vm)
    obj = vm.fresh('opaque', 'target')
    args = [vm.fresh_list('args')]
    B = unknown_kwargs(vm)
    l = [('set', 'obj', obj)]
    ga, gk = vm.choose(2), vm.choose(2)
    if ga:
        l.append(('set', 'args', Tup(args)))
    if gk:
        l.append(('set', 'kwargs', DictObj(vm, [('base', B)])))
    mark = len(vm.trace)
    r, exc = attempt(vm, lambda: mcall(vm, s, 'process_action', 'call_obj', DictObj(vm, l), 'auto',
                                       text_bytes(vm, 'caller')))
    uc = events(vm, 'usercall', mark)
    if not vm.prove('defaults: one call', len(uc) == 1, uc):
        return
    vm.prove('defaults: positional', vm.lift_seq(uc[0].args.segs) == vm.lift_seq(args if ga else []))
    vm.prove('defaults: keywords', same_map(vm, DictObj(vm, list(uc[0].kw)),
                                            DictObj(vm, [('base', B)] if gk else [])))
    if uc[0].outcome == 'return':
        vm.prove('defaults: result', exc is None and eq(vm, r, uc[0].result))
    else:
        vm.prove('defaults: error', exc is not None and exc is uc[0].exc)
