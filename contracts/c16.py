"""C16: published names and imports."""
from .base import *

SV = TP + 'server.RPCServer'


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def act(vm, s, action, opts):
    """The action a request of a client asks for (the reply is C02's and C05's subject)."""
    return mcall(vm, s, 'process_action', action, DictObj(vm, kws(**opts)), 'auto', text_bytes(vm, 'caller'))


def server(vm):
    wire_dumps(vm, may_fail=False)
    return mk_server(vm, clients=False, proxies=False)


def getter(vm, s):
    k = vm.choose(2)
    return lambda n: attempt(vm, lambda: act(vm, s, 'get_item', {'name': n}) if k == 0 else vm.getitem(s, n))


def setter(vm, s):
    k = vm.choose(2)
    return lambda n, v: attempt(vm, lambda: act(vm, s, 'set_item', {'name': n, 'obj': v}) if k == 0 else vm.setitem(s, n, v))


def known(vm, s, name):
    """(published?, object) at this moment, as any client would find it"""
    r, exc = attempt(vm, lambda: act(vm, s, 'get_item', {'name': name}))
    return exc is None, r, exc


@harness('C16', 'publishing')
def publishing(vm):
    """Publishing a name, from any table of published names."""
    s = server(vm)
    name, other = vm.fresh('str', 'name'), vm.fresh('str', 'other')
    vm.assume(name.t != other.t)
    v = vm.fresh('any', 'object')
    had, before, _ = known(vm, s, other)
    had_n, before_n, _ = known(vm, s, name)
    put, get = setter(vm, s), getter(vm, s)
    mark = len(vm.trace)
    _, exc = put(name, v)
    vm.prove('publish: succeeds', exc is None, exc)
    r, exc = get(name)
    vm.prove('publish: the name denotes the object published last', exc is None and eq(vm, r, v), (r, exc))
    has, now, _ = known(vm, s, other)
    vm.prove('publish: other names stay (un)published', has == had, (has, had))
    if had:
        vm.prove('publish: other names keep their object', eq(vm, now, before), (now, before))
    v2 = vm.fresh('any', 'object2')
    put(name, v2)
    r, exc = get(name)
    vm.prove('publish: publishing again replaces it', exc is None and eq(vm, r, v2), (r, exc))
    r, exc = get(name)
    vm.prove('publish: getting a name does not change it', exc is None and eq(vm, r, v2), (r, exc))


@harness('C16', 'looking up')
def looking_up(vm):
    """Looking up never changes anything; what is not published is an error."""
    s = server(vm)
    d = field(vm, s, '_namespace')
    name, other = vm.fresh('str', 'name'), vm.fresh('str', 'other')
    vm.assume(name.t != other.t)
    pub = vm.branch(zb(vm.dict_has(d, name)))
    obj = vm.dict_get(d, name) if pub else None
    had = vm.branch(zb(vm.dict_has(d, other)))
    obj2 = vm.dict_get(d, other) if had else None
    get = getter(vm, s)
    r, exc = get(name)
    if pub:
        vm.prove('lookup: a published name yields its object', exc is None and eq(vm, r, obj), (r, exc))
    else:
        vm.prove('lookup: an unpublished name is an error', exc is not None and exc_isa(vm, exc, KeyError), (r, exc))
    r, exc = get(other)
    vm.prove('lookup: changes nothing', (exc is None) == had and (not had or eq(vm, r, obj2)), (r, exc))
    # the same name as a fresh server sees it (which publishes itself as 'self')
    vm.assume(name.t != 'self')
    s2 = vm.call(need(vm, SV), [], [])
    _, exc = attempt(vm, lambda: act(vm, s2, 'get_item', {'name': name}))
    vm.prove('lookup: a new server publishes nothing', exc is not None and exc_isa(vm, exc, KeyError), exc)


@harness('C16', 'servers apart')
def apart(vm):
    """Names published on one server are not published on another."""
    s = server(vm)
    s2 = vm.call(need(vm, SV), [], [])
    name = vm.fresh('str', 'name')
    vm.assume(name.t != 'self')
    _, exc = setter(vm, s)(name, vm.fresh('any', 'object'))
    _, exc = attempt(vm, lambda: act(vm, s2, 'get_item', {'name': name}))
    vm.prove('apart: servers do not share names', exc is not None and exc_isa(vm, exc, KeyError), exc)


@harness('C16', 'importing')
def importing(vm):
    s = server(vm)
    walks(vm)
    name = vm.fresh('str', 'module')
    vm.assume(z3.And(z3.Length(name.t) > 0, z3.Not(z3.PrefixOf('.', name.t))))
    mark = len(vm.trace)
    r, exc = attempt(vm, lambda: act(vm, s, 'import', {'module': name}))
    im = events(vm, 'import', mark)
    if exc is not None:
        return
    vm.prove('import: imports exactly the module asked for', len(im) >= 1 and all(
        vm.entails(eq(vm, e.name, name)) for e in im), im)
    vm.prove('import: yields that very module', eq(vm, r, Sym('any', lib.F_module(name.t))), r)


@harness('C16', 'client')
def client(vm):
    """What the client side asks for, and that it returns the answer."""
    sent = []
    wire_dumps(vm, may_fail=False)
    c = mk_client(vm)
    general_futures(vm, c)
    future_outcome(vm)
    name, obj = vm.fresh('str', 'name'), vm.fresh('any', 'obj')
    k = vm.choose(3)
    what, opts, fn = [
        ('get_item', {'name': name}, lambda: vm.getitem(c, name)),
        ('set_item', {'name': name, 'obj': obj}, lambda: vm.setitem(c, name, obj)),
        ('import', {'module': name}, lambda: mcall(vm, c, '_import', name))][k]
    mark = len(vm.trace)
    r, exc = attempt(vm, fn)
    ss = sends(vm, start=mark)
    if vm.prove('%s: one request' % what, len(ss) == 1, ss):
        fr = ss[0].frames
        vm.prove('%s: ..for this action' % what, eq(vm, fr[1], what.encode()), fr)
        w = unwire(vm, fr[-1])
        d = dict_of(vm, w['obj']) if w is not None else None
        vm.prove('%s: ..with the name and object asked for' % what, d is not None and set(d) == set(opts) and
                 z3.And([zb(eq(vm, d[n], opts[n])) for n in opts]), d)
    res = events(vm, 'future.result', mark)
    if vm.prove('%s: waits for the answer' % what, len(res) == 1, res):
        d = res[0].d
        if 'value' in d and k != 1:
            vm.prove('%s: returns the answer' % what, exc is None and eq(vm, r, d['value']), r)
        if 'exc' in d:
            vm.prove('%s: raises the error' % what, exc is d['exc'], exc)
