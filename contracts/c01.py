"""C01: a reply completes exactly the request it answers."""
from .base import *


def setup(vm, **kw):
    c = mk_client(vm, **kw)
    general_futures(vm, c)
    return c


def fresh_reply(vm, rid=None):
    """A well-formed reply: value or error."""
    rid = rid if rid is not None else vm.fresh('int', 'reply.req_id')
    rval = vm.fresh('any', 'reply.rval')
    if vm.choose(2) == 0:
        err = None
    else:
        rval = None
        parts = [vm.fresh('str', 'exc.type'), ListObj(vm, [vm.fresh_list('exc.tb', lambda vm: vm.fresh('str', 'line'))])]
        err = Tup(parts) if vm.choose(2) else ListObj(vm, parts)
    d = DictObj(vm, [('set', 'action', 'return'), ('set', 'req_id', rid), ('set', 'rval', rval),
                     ('set', 'error', err)])
    return d, rid, rval, err


def deliver(vm, c, msgs):
    """One blocking read that receives the next of msgs (decoded by the contract of loads)."""
    rest = list(msgs)

    def nxt(vm, d):
        if not rest:
            raise PathEnd()      # nothing more was sent
        return rest.pop(0)
    wire_loads(vm, nxt, may_fail=False)
    c.ghost['sock'].ghost['on_recv'] = lambda vm, s: vm.fresh('bytes', 'data')


def read_one(vm, c):
    mark = len(vm.trace)
    _, exc = attempt(vm, lambda: mcall(vm, c, '_read_and_process_one', vm.fresh('real', 'timeout')))
    if not events(vm, 'recvd', mark):
        raise PathEnd()       # nothing arrived
    return exc, mark


def outcome_ok(vm, fut, rval, err):
    g = fut.ghost
    if err is None:
        return g['state'] == 'result' and eq(vm, g['value'], rval)
    x = g['value']
    if g['state'] != 'exception' or not isinstance(x, InstObj) or \
            not issub(x.cls, need(vm, TP + 'client.RemoteCallException')):
        return False
    t, tb = vm.getattr(x, 'type_str'), vm.getattr(x, 'tb_str')
    return z3.And(eq(vm, t, err.segs[0]), same_deep(vm, tb, err.segs[1]))


def others_same(vm, c, before_layers, excl, label):
    """Every other pending request is still pending under its id."""
    w = vm.fresh('int', 'other.id')
    for e in excl:
        vm.assume(w.t != ctr(e))
    old = DictObj(vm, list(before_layers))
    h0, h1 = vm.dict_has(old, w), vm.dict_has(field(vm, c, 'futures'), w)
    h0 = z3.BoolVal(h0) if isinstance(h0, bool) else h0
    h1 = z3.BoolVal(h1) if isinstance(h1, bool) else h1
    vm.prove(label + ': the set of other pending requests is unchanged', h0 == h1)
    if vm.branch(h0):
        f0 = vm.dict_get(old, w)
        f1 = vm.dict_get(field(vm, c, 'futures'), w)
        vm.prove(label + ': other requests keep their future', f0 is f1)
        vm.prove(label + ': other requests stay pending', f0.ghost['state'] == 'pending', f0.ghost['state'])


@harness('C01', 'reply')
def reply(vm):
    c = setup(vm)
    msg, rid, rval, err = fresh_reply(vm)
    deliver(vm, c, [msg])
    before = list(field(vm, c, 'futures').layers)
    n0 = field(vm, c, 'next_request_id')
    had = vm.branch(vm.dict_has(field(vm, c, 'futures'), rid))
    fut = vm.dict_get(field(vm, c, 'futures'), rid) if had else None
    exc, mark = read_one(vm, c)
    vm.prove('reply: reading it raises nothing', exc is None, exc)
    done = events(vm, 'future.done', mark)
    vm.prove('reply: at most one request is completed', len(done) <= 1 and
             not has_loop_event(vm, ['future.done'], mark), done)
    vm.prove('reply: nothing is sent', not sends(vm, start=mark))
    if had:
        if vm.prove('reply: completes the pending request with that id', len(done) == 1 and done[0].fut is fut, done):
            vm.prove('reply: with exactly the value or the remote error', outcome_ok(vm, fut, rval, err), fut.ghost)
        vm.prove('reply: the request is no longer pending',
                 vm.neg(vm.dict_has(field(vm, c, 'futures'), rid)))
        others_same(vm, c, before, [rid], 'reply')
    else:
        vm.prove('reply: matching no pending request completes nothing', not done, done)
        others_same(vm, c, before, [], 'unmatched reply')
    vm.prove('reply: the id counter is unchanged', eq(vm, field(vm, c, 'next_request_id'), n0))


@harness('C01', 'duplicate reply')
def duplicate(vm):
    c = setup(vm)
    m1, rid, rval, err = fresh_reply(vm)
    m2, _, rval2, err2 = fresh_reply(vm, rid)
    deliver(vm, c, [m1, m2])
    before = list(field(vm, c, 'futures').layers)
    if not vm.branch(vm.dict_has(field(vm, c, 'futures'), rid)):
        raise PathEnd()
    fut = vm.dict_get(field(vm, c, 'futures'), rid)
    read_one(vm, c)
    g = dict(fut.ghost)
    exc, mark = read_one(vm, c)
    vm.prove('duplicate: ignored without error', exc is None and not events(vm, 'future.done', mark), exc)
    vm.prove('duplicate: the first outcome stands', fut.ghost['state'] == g['state'] and fut.ghost['value'] is g['value'])
    others_same(vm, c, before, [rid], 'duplicate')


@harness('C01', 'fresh ids')
def ids(vm):
    """Two requests sent from any state: ids never used before, each registered under its own id."""
    wire_dumps(vm, may_fail=True)
    c = setup(vm)
    if vm.choose(2):
        setfield(vm, c, 'establishing_connect', True)
    n0 = field(vm, c, 'next_request_id')
    before = list(field(vm, c, 'futures').layers)
    used = []
    for i in range(2):
        sync = ('async', 'off')[vm.choose(2)]
        mark = len(vm.trace)
        o = None if vm.choose(2) else DictObj(vm, [('set', 'obj', vm.fresh('any', 'obj'))])
        action = ('get_obj', 'close', 'ping', 'delete', 'import', 'get_item', 'set_item')[vm.choose(7)] if i == 0 \
            else 'call_obj'
        n1 = field(vm, c, 'next_request_id')
        r, exc = attempt(vm, lambda: mcall(vm, c, 'send', action, opts=o, sync=sync, return_type='auto'))
        ss = sends(vm, start=mark)
        n2 = field(vm, c, 'next_request_id')
        vm.prove('ids: the counter never goes down', ctr(n2) >= ctr(n1), (n1, n2))
        if exc is not None:
            vm.prove('ids: a request that fails is not sent', not ss, ss)
            continue
        if not vm.prove('ids: one request sent', len(ss) == 1, ss):
            return
        fr = ss[0].frames
        if sync == 'off':
            vm.prove('ids: no reply wanted, none asked for', eq(vm, fr[0], b'-1'), fr[0])
            vm.prove('ids: nothing pending for it', r is None)
            continue
        if not vm.prove('ids: a future is returned', isinstance(r, InstObj), r):
            return
        fid = vm.getattr(r, 'call_id')
        vm.prove('ids: the id was never used before', z3.And(ctr(fid) >= ctr(n1), ctr(n2) > ctr(fid)), fid)
        vm.prove('ids: the request carries it', eq(vm, fr[0], vm.call(vm.getattr(vm.str_(fid), 'encode'), [])), fr[0])
        vm.prove('ids: the future is registered under it', vm.dict_get(field(vm, c, 'futures'), fid) is r)
        vm.prove('ids: ..and pending', r.ghost['state'] == 'pending')
        for f in used:
            vm.prove('ids: different from earlier ones', ctr(fid) != ctr(f))
        used.append(fid)
    others_same(vm, c, before, used, 'sending')


@harness('C01', 'send and reply')
def roundtrip(vm):
    """From any state: send, then replies in either order; each future gets its own."""
    wire_dumps(vm, may_fail=False)
    c = setup(vm)
    before = list(field(vm, c, 'futures').layers)
    f1 = mcall(vm, c, 'send', 'get_obj', opts=DictObj(vm, [('set', 'obj', vm.fresh('any', 'o1'))]), sync='async')
    f2 = mcall(vm, c, 'send', 'ping', sync='async')
    if not (isinstance(f1, InstObj) and isinstance(f2, InstObj)):
        vm.fail('asynchronous requests return futures', (f1, f2))
        return
    i1, i2 = vm.getattr(f1, 'call_id'), vm.getattr(f2, 'call_id')
    m1, _, v1, e1 = fresh_reply(vm, i1)
    m2, _, v2, e2 = fresh_reply(vm, i2)
    first = vm.choose(2)
    deliver(vm, c, [m1, m2] if first == 0 else [m2, m1])
    a, b = (f1, f2) if first == 0 else (f2, f1)
    read_one(vm, c)
    vm.prove('roundtrip: the other request is still pending', b.ghost['state'] == 'pending')
    read_one(vm, c)
    vm.prove('roundtrip: first request gets its reply', outcome_ok(vm, f1, v1, e1), f1.ghost)
    vm.prove('roundtrip: second request gets its reply', outcome_ok(vm, f2, v2, e2), f2.ghost)
    others_same(vm, c, before, [i1, i2], 'roundtrip')
    # giving up on a request is refused
    if vm.choose(2):
        r, exc = attempt(vm, lambda: mcall(vm, f1, 'cancel'))
        vm.prove('roundtrip: cancel() of an answered request is refused', exc is None and r is False, (r, exc))
    # what the waiter sees
    for f, v, e in ((f1, v1, e1), (f2, v2, e2)):
        r, exc = attempt(vm, lambda: mcall(vm, f, 'result'))
        if e is None:
            vm.prove('roundtrip: result() returns exactly the value', exc is None and eq(vm, r, v), (r, exc))
        else:
            vm.prove('roundtrip: result() raises the remote error', exc is not None and exc is f.ghost['value'], exc)


@harness('C01', 'giving up')
def giving_up(vm):
    """cancel() of a pending request is refused; the reply completes it all the same."""
    wire_dumps(vm, may_fail=False)
    c = setup(vm)
    before = list(field(vm, c, 'futures').layers)
    f = mcall(vm, c, 'send', 'get_obj', opts=DictObj(vm, [('set', 'obj', vm.fresh('any', 'o1'))]), sync='async')
    if not isinstance(f, InstObj):
        return
    rid = vm.getattr(f, 'call_id')
    r, exc = attempt(vm, lambda: mcall(vm, f, 'cancel'))
    vm.prove('giving up: cancel() raises nothing', exc is None, exc)
    m, _, v, e = fresh_reply(vm, rid)
    deliver(vm, c, [m])
    read_one(vm, c)
    vm.prove('giving up: the reply completes the request', outcome_ok(vm, f, v, e), f.ghost)
    others_same(vm, c, before, [rid], 'giving up')


@harness('C01', 'other messages')
def other(vm):
    """A message that is no reply completes no request with a value."""
    c = setup(vm)
    a = vm.fresh('str', 'action')
    vm.assume(z3.And(a.t != 'return', a.t != 'disconnect'))
    deliver(vm, c, [DictObj(vm, [('set', 'action', a)])])
    before = list(field(vm, c, 'futures').layers)
    exc, mark = read_one(vm, c)
    vm.prove('other message: completes nothing', not events(vm, 'future.done', mark)
             and not has_loop_event(vm, ['future.done'], mark))
    others_same(vm, c, before, [], 'other message')


@harness('C01', 'remote exception')
def remote_exception(vm):
    t = vm.fresh('str', 'type')
    tb = ListObj(vm, [vm.fresh_list('tb', lambda vm: vm.fresh('str', 'line'))])
    x = vm.call(need(vm, TP + 'client.RemoteCallException'), [t, tb])
    vm.prove('remote exception: carries type name and traceback',
             z3.And(eq(vm, vm.getattr(x, 'type_str'), t), same_deep(vm, vm.getattr(x, 'tb_str'), tb)))
    s = vm.call(class_lookup(x.cls, '__str__'), [x])
    j = vm.call(vm.getattr('', 'join'), [tb])
    vm.prove('remote exception: its text contains the traceback text', z3.Contains(vm.as_str(s), vm.as_str(j)), s)
