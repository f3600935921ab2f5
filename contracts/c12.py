"""C12: one client per thread and address."""
from .base import *

CL = TP + 'client.RPCClient'


def table(vm):
    t = vm.getattr(need(vm, CL), 'clients_by_thread')
    if not isinstance(t, DictObj):
        raise Unsupported('client registry is %r' % (t,))
    return t


def set_table(vm, d):
    c = need(vm, CL)
    table(vm)
    vm.touch(c)
    c.ns['clients_by_thread'] = d


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def registry(vm):
    """Any registry: (thread, address) -> its client, a different one for every key."""
    def mat(vm, key, base):
        # the key is a pair; its client was built for that address
        n, th, cur = len(vm.trace), vm.thread_ident, vm.ghost.get('current_thread')
        a = text_bytes(vm, 'other.addr')
        c = any_history(vm, outside(vm, lambda: mk_client(vm, addr=a)))
        vm.thread_ident = th
        vm.ghost['current_thread'] = cur
        del vm.trace[n:]
        if isinstance(key, Tup):
            vm.assume(vm.lift(key.segs[1]) == vm.lift(a))
        return c
    B = MapBase(vm, 'clients', mat=mat)
    d = DictObj(vm, [('base', B)])
    set_table(vm, d)
    return B


def outside(vm, fn):
    """Run fn on an empty registry, whatever is being done to the real one."""
    d = table(vm)
    locks = [o for o in need(vm, CL).ns.values() if isinstance(o, InstObj) and 'held' in o.ghost]
    held = [o.ghost['held'] for o in locks]
    for o in locks:
        vm.world.journal(o)
        o.ghost['held'] = False
    set_table(vm, DictObj(vm))
    oc, vm.ghost['on_connect'] = vm.ghost.get('on_connect'), None
    try:
        return fn()
    finally:
        set_table(vm, d)
        vm.ghost['on_connect'] = oc
        for o, h in zip(locks, held):
            o.ghost['held'] = h


class Forget(Rule):
    """Deleting from the registry in a loop: `may` says which keys may go."""
    def __init__(self, vm, client, key):
        self.client, self.key = client, key
        self.before = None

    def keys_differ(self, vm, k):
        return vm.lift(k) != vm.lift(self.key)

    def havoc(self, vm, o):
        t = table(vm)
        if o is not t:
            return False
        old = DictObj(vm, list(t.layers))
        rule = self
        B = MapBase(vm, 'clients.later', mat=lambda vm, key, base: vm.dict_get(old, key))
        has = B.has

        def later(vm, key):
            h = has(vm, key)
            h0 = zb(vm.dict_has(old, key))
            vm.assume(z3.Implies(h, h0))
            vm.assume(z3.Implies(z3.And(h0, rule.keys_differ(vm, key)), h))
            return h
        B.has = later
        t.layers = [('base', B)]
        return True

    def assume_inv(self, vm, sp, env):
        self.before = DictObj(vm, list(table(vm).layers))

    def elem(self, vm, sp):
        """The keys of a dict are different from each other, and every iteration removes at most its
        own (check_iter): the one of this iteration is still there."""
        self.x = None
        if sp.src is None or sp.src[0] != 'dict' or sp.elem is None:
            return None
        x = sp.elem(vm)
        self.x = {'items': lambda: x.segs[0], 'keys': lambda: x}.get(sp.src[2], lambda: None)()
        if self.x is not None:
            vm.assume(zb(vm.dict_has(table(vm), self.x)))
        return x

    def check_iter(self, vm, sp, env, x, evs):
        w = Tup([vm.fresh('int', 'w.tid'), text_bytes(vm, 'w.addr')])
        vm.assume(self.keys_differ(vm, w))
        h0, h1 = zb(vm.dict_has(self.before, w)), zb(vm.dict_has(table(vm), w))
        vm.prove('only the registration of this client is removed', h0 == h1, w)
        if vm.branch(h0) and vm.branch(h1):
            vm.prove('other registrations keep their client', vm.dict_get(self.before, w) is vm.dict_get(table(vm), w), w)
        if self.x is not None and vm.branch(self.keys_differ(vm, self.x)):
            h0, h1 = zb(vm.dict_has(self.before, self.key)), zb(vm.dict_has(table(vm), self.key))
            vm.prove('a registration is removed when it is looked at', h0 == h1)

    def tracked(self, vm, sp):
        if sp.src is not None and sp.src[0] == 'dict' and sp.src[2] in ('items', 'keys', 'values'):
            if not vm.branch(zb(vm.dict_has(table(vm), self.key))):
                return ()
            return ({'items': Tup([self.key, self.client]), 'keys': self.key, 'values': self.client}[sp.src[2]],)
        raise Unsupported('loop over %r' % (sp.src,))


def witness(vm, *not_keys):
    w = Tup([vm.fresh('int', 'w.tid'), text_bytes(vm, 'w.addr')])
    for k in not_keys:
        vm.assume(vm.lift(w) != vm.lift(k))
    return w


def unchanged(vm, label, before, *not_keys):
    w = witness(vm, *not_keys)
    h0, h1 = zb(vm.dict_has(before, w)), zb(vm.dict_has(table(vm), w))
    vm.prove(label + ': no registration of another thread or address appears or disappears', h0 == h1, w)
    if vm.branch(h0) and vm.branch(h1):
        vm.prove(label + ': registrations of other threads and addresses keep their client',
                 vm.dict_get(before, w) is vm.dict_get(table(vm), w), w)


def world(vm):
    """Whatever a connection may meet: unreachable ports, refused sockets, no answers."""
    registry(vm)
    wire_dumps(vm, may_fail=False)
    future_outcome(vm, values=lambda vm: 'pong')

    def reach(vm, f, args, kw):
        d = dict(zip(['address', 'timeout'], args))
        d.update({l[1]: l[2] for l in kw})
        r = ('open', 'closed', 'timeout', None)[vm.choose(4)]
        vm.event('reach', addr=d['address'], outcome=r)
        return r
    vm.contracts[CL + '.check_address'] = reach

    def shake(vm, f, args, kw):
        # contract of ensure_connection(), verified by 'handshake'
        c = args[0]
        if vm.truth_f(field(vm, c, 'establishing_connect')) is not False:
            return NotImplemented
        vm.prove('handshake: begun with a connected socket',
                 any(e.sock is field(vm, c, '_socket') for e in events(vm, 'connect')))
        k = vm.choose(3)
        e = vm.event('future.result', fut=None, timeout=None)
        if k == 0:
            e.d['value'] = 'pong'
            setfield(vm, c, 'connect_established', True)
            return None
        if k == 1:
            raise PyExc(vm.sym_exc('remote'))
        vm.throw(TimeoutError)
    vm.contracts[CL + '.ensure_connection'] = shake

    def conn(vm, sock, addr):
        if vm.choose(2):
            vm.event('connect.fail', outcome='ZMQError')
            vm.throw_cls(ExtCls('zmq.error.ZMQError'))
    vm.ghost['on_connect'] = conn
    addr = text_bytes(vm, 'addr')
    text = vm.choose(2) == 1
    vm.assume(F_enc(F_dec(addr.t)) == addr.t)
    arg = Sym('str', F_dec(addr.t)) if text else addr
    key = Tup([this_thread(vm), addr])
    return addr, arg, key


def made(vm, r, exc, key, addr, before, mark, label, serializer='msgpack'):
    """Postcondition of a construction when nothing was registered under key."""
    got = vm.dict_get(table(vm), key) if vm.branch(zb(vm.dict_has(table(vm), key))) else None
    tc = [e.outcome for e in events(vm, 'reach', mark)]
    answered = [e for e in events(vm, 'future.result', mark) if 'value' in e.d]
    if exc is None:
        vm.prove(label + ': the client is registered for this thread and address', got is r and isinstance(r, InstObj), got)
        cs = events(vm, 'connect', mark)
        vm.prove(label + ': it is connected to that address', len(cs) >= 1 and
                 z3.And([eq(vm, as_bytes(vm, e.addr), addr) for e in cs]), cs)
        vm.prove(label + ': it is connected with its own socket', isinstance(r, InstObj) and
                 all(e.sock is field(vm, r, '_socket') for e in cs), cs)
        vm.prove(label + ': the server has answered', bool(answered), tc)
        vm.prove(label + ': a refused connection is an error', 'closed' not in tc, tc)
        vm.prove(label + ': an unknown serializer is an error', serializer in SER)
        unchanged(vm, label, before, key)
    else:
        vm.prove(label + ': a failed construction leaves no registration behind', got is None, (got, exc))
        unchanged(vm, label + ' (failed)', before)
        for e in events(vm, 'reach', mark):
            vm.prove(label + ': the reachability of that very address is tested', eq(vm, as_bytes(vm, e.addr), addr), e)
        if 'closed' in tc:
            vm.prove(label + ': a refused connection raises ConnectionRefusedError',
                     exc_isa(vm, exc, ConnectionRefusedError), exc)
            vm.prove(label + ': a refused connection sends nothing', not sends(vm, start=mark) and
                     not has_loop_event(vm, ['send'], mark))


@harness('C12', 'lookup')
def lookup(vm):
    addr, arg, key = world(vm)
    cls = need(vm, CL)
    had = vm.branch(zb(vm.dict_has(table(vm), key)))
    old = vm.dict_get(table(vm), key) if had else None
    before = DictObj(vm, list(table(vm).layers))
    mark = len(vm.trace)
    r, exc = attempt(vm, lambda: vm.call(vm.getattr(cls, 'get_client'), [arg]))
    if had:
        vm.prove('lookup: yields the registered client', exc is None and r is old, (r, exc))
        vm.prove('lookup: makes no other connection', not events(vm, 'socket', mark) and not sends(vm, start=mark))
        unchanged(vm, 'lookup', before)
    else:
        made(vm, r, exc, key, addr, before, mark, 'lookup of a new address')
        if exc is None:
            r2, exc2 = attempt(vm, lambda: vm.call(vm.getattr(cls, 'get_client'), [addr]))
            vm.prove('lookup: the next lookup yields the same client (address as bytes)', exc2 is None and r2 is r, r2)
            r3, exc3 = attempt(vm, lambda: vm.call(vm.getattr(cls, 'get_client'), [Sym('str', F_dec(addr.t))]))
            vm.prove('lookup: the next lookup yields the same client (address as text)', exc3 is None and r3 is r, r3)


@harness('C12', 'construction')
def construction(vm):
    addr, arg, key = world(vm)
    cls = need(vm, CL)
    ser = ('msgpack', 'json', 'nosuch')[vm.choose(3)]
    had = vm.branch(zb(vm.dict_has(table(vm), key)))
    old = vm.dict_get(table(vm), key) if had else None
    before = DictObj(vm, list(table(vm).layers))
    mark = len(vm.trace)
    r, exc = attempt(vm, lambda: vm.call(cls, [arg], kws(serializer=ser)))
    if had:
        vm.prove('second construction: refused with KeyError', exc is not None and exc_isa(vm, exc, KeyError), (r, exc))
        vm.prove('second construction: the registered client stays', zb(vm.dict_has(table(vm), key)))
        vm.prove('second construction: ..the same one', vm.dict_get(table(vm), key) is old)
        vm.prove('second construction: no connection is made', not events(vm, 'connect', mark) and not sends(vm, start=mark))
        unchanged(vm, 'second construction', before, key)
    else:
        made(vm, r, exc, key, addr, before, mark, 'construction', ser)
        if ser == 'nosuch':
            raised = [e.outcome for e in events(vm, 'connect.fail', mark)]
            if 'closed' not in [e.outcome for e in events(vm, 'reach', mark)] and not raised:
                vm.prove('construction: an unknown serializer raises ValueError', exc is not None and
                         exc_isa(vm, exc, ValueError), exc)


@harness('C12', 'options')
def options(vm):
    """Non-reentrant clients and clients with a local server."""
    addr, arg, key = world(vm)
    cls = need(vm, CL)
    had = vm.branch(zb(vm.dict_has(table(vm), key)))
    if had:
        return
    before = DictObj(vm, list(table(vm).layers))
    mark = len(vm.trace)
    kw = (kws(reentrant=False), kws(start_local_server=True))[vm.choose(2)]
    r, exc = attempt(vm, lambda: vm.call(cls, [arg], kw))
    made(vm, r, exc, key, addr, before, mark, 'construction with options')


@harness('C12', 'closing')
def closing(vm):
    """A registered client is closed, from its own or another thread."""
    addr, arg, key = world(vm)
    vm.ghost['on_connect'] = None
    B = table(vm).layers[0][1]
    vm.assume(vm.dict_has(table(vm), key))
    c = vm.dict_get(table(vm), key)
    if vm.choose(2):
        vm.thread_ident = vm.fresh('int', 'closing.tid')
        vm.ghost['current_thread'] = None
    before = DictObj(vm, list(table(vm).layers))
    vm.loop_rules.insert(0, Forget(vm, c, key))
    mark = len(vm.trace)
    r, exc = attempt(vm, lambda: mcall(vm, c, 'close'))
    vm.prove('closing: raises nothing', exc is None, exc)
    vm.prove('closing: its registration is removed', vm.neg(vm.dict_has(table(vm), key)))
    unchanged(vm, 'closing', before, key)
    cl = events(vm, 'sock.close', mark)
    vm.prove('closing: its own socket is closed, no other', [e.sock for e in cl] and all(e.sock is field(vm, c, '_socket') for e in cl), cl)
    # again
    before = DictObj(vm, list(table(vm).layers))
    r, exc = attempt(vm, lambda: mcall(vm, c, 'close'))
    unchanged(vm, 'closing twice', before)


@harness('C12', 'closing after replacement')
def closing_again(vm):
    """Closing a client that is not registered any more does not touch its successor."""
    addr, arg, key = world(vm)
    vm.ghost['on_connect'] = None
    vm.assume(vm.dict_has(table(vm), key))
    c = vm.dict_get(table(vm), key)       # the successor
    old = any_history(vm, outside(vm, lambda: mk_client(vm, addr=addr)))
    before = DictObj(vm, list(table(vm).layers))
    none = Tup([-1, addr])
    vm.assume(vm.neg(vm.dict_has(table(vm), none)))
    vm.loop_rules.insert(0, Forget(vm, old, none))
    r, exc = attempt(vm, lambda: mcall(vm, old, 'close'))
    vm.prove('closing an unregistered client: raises nothing', exc is None, exc)
    unchanged(vm, 'closing an unregistered client', before)


@harness('C12', 'handshake')
def handshake(vm):
    """ensure_connection() returns only after a ping was answered, and gives up only when its time is over."""
    registry(vm)
    wire_dumps(vm, may_fail=False)
    future_outcome(vm, values=lambda vm: 'pong')
    c = outside(vm, lambda: mk_client(vm))
    setfield(vm, c, 'connect_established', False)
    before = DictObj(vm, list(table(vm).layers))
    mark = len(vm.trace)
    t = vm.fresh('real', 'timeout')
    r, exc = attempt(vm, lambda: mcall(vm, c, 'ensure_connection', t))
    ok = [e for e in events(vm, 'future.result', mark) if 'value' in e.d]
    fl = field(vm, c, 'establishing_connect')
    vm.prove('handshake: afterwards requests are no longer part of it', fl is False, fl)
    unchanged(vm, 'handshake', before)
    if exc is None:
        vm.prove('handshake: succeeds only with an answer', bool(ok))
        vm.prove('handshake: the connection is known to be established', field(vm, c, 'connect_established') is True)
    elif exc_isa(vm, exc, TimeoutError):
        ts = events(vm, 'clock', mark)
        vm.prove('handshake: gives up only when its time is over', len(ts) >= 2 and
                 ts[-1].t.t >= ts[0].t.t + t.t, ts)


@harness('C12', 'names')
def unique_names(vm):
    """Servers tell clients apart by the identity of their sockets: whatever the names of host, process
    and thread and whatever became of the first client, the second one has another."""
    addr, arg, key = world(vm)
    cls = need(vm, CL)
    ids = []
    vm.ghost['uuid_length'] = True
    for i in range(2):
        R = TP + 'log.remote.'
        vm.call(need(vm, R + 'set_host_name'), [vm.fresh('str', 'host')])
        vm.call(need(vm, R + 'set_process_name'), [vm.fresh('str', 'process')])
        vm.call(need(vm, R + 'set_thread_name'), [vm.fresh('str', 'thread')])
        vm.assume(vm.neg(vm.dict_has(table(vm), key)))
        mark = len(vm.trace)
        r, exc = attempt(vm, lambda: vm.call(cls, [arg]))
        cs = events(vm, 'connect', mark)
        if len(cs) != 1:
            return
        i = cs[0].opts.get('zmq.IDENTITY')
        i = cs[0].attrs['identity'] if i is None else i
        if not vm.prove('names: a client tells the server its name', i is not MISSING and i is not None, i):
            return
        ids.append(i)
        registry(vm)
    vm.prove('names: no two clients have the same name', vm.lift(ids[0]) != vm.lift(ids[1]), ids)


@harness("C12", "reachability")
def reachability(vm):
    """check_address(): what the attempt to connect says."""
    a = text_bytes(vm, 'addr')
    mark = len(vm.trace)
    to = vm.fresh('real', 'timeout')
    r, exc = attempt(vm, lambda: vm.call(vm.getattr(need(vm, CL), 'check_address'), [a, to]))
    tc = events(vm, 'tcp.connect', mark)
    if exc is not None:
        vm.prove('reachability: a well-formed address raises nothing', not tc and False, exc)
        return
    if not tc:
        vm.prove('reachability: nothing known without an attempt', r is None, r)
        return
    if not vm.prove('reachability: one attempt', len(tc) == 1, tc):
        return
    o = tc[0].outcome
    want = {'open': 'open', 'timeout': 'timeout'}.get(o, 'closed')
    vm.prove('reachability: tells open, closed and timeout apart', eq(vm, r, want), (r, o))
    h, p = tc[0].addr.segs
    txt = F_dec(a.t)
    vm.prove('reachability: tries the host of the address', z3.PrefixOf(z3.Concat(z3.StringVal('tcp://'), vm.as_str(h), z3.StringVal(':')), txt), h)
    vm.prove('reachability: within the timeout', tc[0].timeout is not None and eq(vm, tc[0].timeout, to), tc[0].timeout)
    vm.prove('reachability: the attempt is closed again', bool(events(vm, 'tcp.close', mark)))
