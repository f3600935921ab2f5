"""C13: at most one server per thread."""
from .base import *

SV = TP + 'server.RPCServer'


def table(vm):
    t = vm.getattr(need(vm, SV), 'servers_by_thread')
    if not isinstance(t, DictObj):
        raise Unsupported('server registry is %r' % (t,))
    return t


def set_table(vm, d):
    c = need(vm, SV)
    table(vm)
    vm.touch(c)
    c.ns['servers_by_thread'] = d


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def new_server(vm, thread=None):
    """A server that is registered to that thread or to none, running or already closed."""
    n = len(vm.trace)
    s = mk_server(vm, clients=False, namespace=False, proxies=False)
    setfield(vm, s, '_thread', thread)
    if thread is not None and field(vm, s, '_closed') is False:
        setfield(vm, s, '_closed', vm.fresh('bool', 'closed'))
    del vm.trace[n:]
    return s


def registry(vm):
    """Any registry: thread id -> the server whose thread it is, a different one for every thread."""
    def mat(vm, key, base):
        k = key if not (isinstance(key, Sym) and key.k == 'any') else Sym('int', V.i(key.t))
        return new_server(vm, k)
    B = MapBase(vm, 'servers', mat=mat, keyinv=lambda k: z3.And(V.is_int(k), V.i(k) > 0))
    set_table(vm, DictObj(vm, [('base', B)]))
    return B


def others(vm, label, before, *keys):
    """Nothing changed for any other thread."""
    w = vm.fresh('int', 'w.tid')
    for k in keys:
        vm.assume(w.t != ctr(k))
    h0, h1 = zb(vm.dict_has(before, w)), zb(vm.dict_has(table(vm), w))
    vm.prove(label + ': no other thread gains or loses a server', h0 == h1, w)
    if vm.branch(h0) and vm.branch(h1):
        s0, s1 = vm.dict_get(before, w), vm.dict_get(table(vm), w)
        vm.prove(label + ': other threads keep their server', s0 is s1, w)
        vm.prove(label + ': ..which is registered to that thread', eq(vm, field(vm, s1, '_thread'), w), field(vm, s1, '_thread'))


def interference(vm, s, me):
    """Other threads may act until the registry lock is taken: they change entries of their own
    threads only, and may register s (if it is unregistered)."""
    if vm.choose(2) == 0:
        return

    def acq(vm, lock):
        vm.ghost['on_acquire'] = None
        t = table(vm)
        if field(vm, s, '_thread') is None and vm.choose(2):
            o = vm.fresh('int', 'other.tid')
            vm.assume(z3.And(o.t > 0, o.t != me.t))
            vm.assume(vm.neg(vm.dict_has(t, o)))
            vm.dict_set(t, o, s)
            setfield(vm, s, '_thread', o)
        vm.ghost['then'] = DictObj(vm, list(t.layers))
    vm.ghost['on_acquire'] = acq


def then(vm, before):
    return vm.ghost.get('then') or before


@harness('C13', 'registering')
def registering(vm):
    registry(vm)
    me = this_thread(vm)
    t = table(vm)
    case = vm.choose(3)
    had = vm.branch(zb(vm.dict_has(t, me)))
    if case == 0:                       # an unregistered server
        s = new_server(vm)
    elif case == 1:                     # the server of this thread
        if not had:
            return
        s = vm.dict_get(t, me)
    else:                               # the server of another thread
        o = vm.fresh('int', 'other.tid')
        vm.assume(o.t != me.t)
        vm.assume(zb(vm.dict_has(t, o)))
        s = vm.dict_get(t, o)
    old = vm.dict_get(t, me) if had else None
    before = DictObj(vm, list(t.layers))
    interference(vm, s, me)
    how = ('register_server', 'run_lazy')[vm.choose(2)]
    if how == 'register_server':
        r, exc = attempt(vm, lambda: vm.call(vm.getattr(need(vm, SV), 'register_server'), [s]))
    else:
        r, exc = attempt(vm, lambda: mcall(vm, s, 'run_lazy'))
    before = then(vm, before)
    has = zb(vm.dict_has(table(vm), me))
    now = vm.dict_get(table(vm), me) if vm.branch(has) else None
    elsewhere = case == 2 or (case == 0 and vm.dict_has(before, me) is not True and
                              isinstance(field(vm, s, '_thread'), Sym) and
                              vm.entails(ctr(field(vm, s, '_thread')) != me.t))
    if case == 1:
        vm.prove('registering again in the same thread: does nothing', exc is None and now is s, (now, exc))
        others(vm, 'registering again', before)
        vm.prove('registering again: still its thread', eq(vm, field(vm, s, '_thread'), me))
    elif elsewhere:
        vm.prove('registering a server of another thread: refused', exc is not None, r)
        vm.prove('registering a server of another thread: this thread keeps what it had', now is old, now)
        others(vm, 'registering a server of another thread', before)
    elif had:
        vm.prove('registering a second server: KeyError', exc is not None and exc_isa(vm, exc, KeyError), exc)
        vm.prove('registering a second server: the first one stays', now is old, now)
        vm.prove('registering a second server: the second one stays unregistered', field(vm, s, '_thread') is None)
        others(vm, 'registering a second server', before, me)
    else:
        vm.prove('registering: succeeds', exc is None, exc)
        vm.prove('registering: the server is the one of this thread', now is s, now)
        vm.prove('registering: the server knows its thread', field(vm, s, '_thread') is not None and
                 eq(vm, field(vm, s, '_thread'), me))
        others(vm, 'registering', before, me)
    for l in events(vm, 'acquire'):
        vm.prove('registering: the lock is released', not l.lock.ghost.get('held'))


@harness('C13', 'lookup')
def lookup(vm):
    registry(vm)
    me = this_thread(vm)
    before = DictObj(vm, list(table(vm).layers))
    had = vm.branch(zb(vm.dict_has(table(vm), me)))
    s = vm.dict_get(table(vm), me) if had else None
    r, exc = attempt(vm, lambda: vm.call(vm.getattr(need(vm, SV), 'get_server'), []))
    vm.prove('lookup: exactly the server of this thread, or None', exc is None and r is s, (r, exc))
    others(vm, 'lookup', before)


@harness('C13', 'unregistering')
def unregistering(vm):
    """By its own thread or another one; then it may be registered anywhere again."""
    registry(vm)
    me = this_thread(vm)
    t = table(vm)
    if vm.choose(2):
        k = me
    else:
        k = vm.fresh('int', 'other.tid')
    vm.assume(zb(vm.dict_has(t, k)))
    s = vm.dict_get(t, k)
    before = DictObj(vm, list(t.layers))
    r, exc = attempt(vm, lambda: vm.call(vm.getattr(need(vm, SV), 'unregister_server'), [s]))
    vm.prove('unregistering: succeeds', exc is None, exc)
    vm.prove('unregistering: the thread has no server any more', vm.neg(vm.dict_has(table(vm), k)))
    others(vm, 'unregistering', before, k)
    before = DictObj(vm, list(table(vm).layers))
    r, exc = attempt(vm, lambda: vm.call(vm.getattr(need(vm, SV), 'unregister_server'), [s]))
    vm.prove('unregistering twice: an error', exc is not None, r)
    others(vm, 'unregistering twice', before)
    if vm.branch(zb(vm.dict_has(table(vm), me))):
        return
    r, exc = attempt(vm, lambda: vm.call(vm.getattr(need(vm, SV), 'register_server'), [s]))
    vm.prove('after unregistering: can be registered again', exc is None and
             vm.dict_get(table(vm), me) is s, exc)


@harness('C13', 'closing')
def closing(vm):
    """A served close request removes exactly this server from the registry."""
    registry(vm)
    me = this_thread(vm)
    t = table(vm)
    vm.assume(zb(vm.dict_has(t, me)))
    s = vm.dict_get(t, me)
    before = DictObj(vm, list(t.layers))
    r, exc = attempt(vm, lambda: mcall(vm, s, 'process_action', 'close', None, 'auto', (None, text_bytes(vm, 'caller'))[vm.choose(2)]))
    vm.prove('closing: succeeds', exc is None, exc)
    vm.prove('closing: the thread has no server any more', vm.neg(vm.dict_has(table(vm), me)))
    others(vm, 'closing', before, me)


@harness('C13', 'server loop')
def loop(vm):
    """run_forever() registers in its thread before it serves anything."""
    registry(vm)
    me = this_thread(vm)
    s = new_server(vm)
    had = vm.branch(zb(vm.dict_has(table(vm), me)))
    old = vm.dict_get(table(vm), me) if had else None
    before = DictObj(vm, list(table(vm).layers))
    seen = []

    def one(vm, f, args, kw):
        seen.append(vm.dict_get(table(vm), me) if vm.entails(zb(vm.dict_has(table(vm), me))) else None)
        setfield(vm, s, '_closed', True)
        return None
    vm.contracts[SV + '._process_one'] = one
    vm.contracts[SV + '._read_one'] = lambda vm, f, a, k: Tup([text_bytes(vm, 'caller'), DictObj(vm)])
    r, exc = attempt(vm, lambda: mcall(vm, s, 'run_forever'))
    for x in seen:
        vm.prove('server loop: requests are served by the server of this thread only', x is s, x)
    if had:
        vm.prove('server loop: a second server of a thread does not start', exc is not None and exc_isa(vm, exc, KeyError) and not seen, exc)
        vm.prove('server loop: the first one stays', vm.dict_get(table(vm), me) is old)
        others(vm, 'server loop', before, me)
    else:
        others(vm, 'server loop', before, me)
