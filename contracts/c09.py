"""C09: attribute proxies address the right attribute and keep their settings."""
from .base import *


def setup(vm, **kw):
    wire_dumps(vm)
    future_outcome(vm)
    c = mk_client(vm)
    registered_client(vm, c)
    p = mk_proxy(vm, addr=c.ghost['addr'], **kw)
    return c, p


def opts(vm, p):
    d, view = options_of(vm, p)
    if view is None:
        raise Unsupported('option dict of a proxy with unknown keys')
    return {k: snap(vm, v) for k, v in view.items()}


def same_opts(vm, a, b):
    if set(a) != set(b):
        return False
    return z3.And([same_deep(vm, a[k], b[k]) for k in a])


def quiet(vm, mark):
    ks = ['send', 'recv', 'poll', 'connect', 'get_client']
    return not [e for e in vm.trace[mark:] if e.kind in ks] and not has_loop_event(vm, ks, mark)


def getattr_(vm, p, n):
    return vm.call(class_lookup(p.cls, '__getattr__'), [p, n])


def same_view(vm, p, view):
    st = proxy_view(vm, p)
    return z3.And([eq(vm, st[k], view[k]) for k in view])


@harness('C09', 'deferred attribute')
def deferred(vm):
    c, p = setup(vm)
    mcall(vm, p, '_set_proxy_options', defer_getattr=True)
    if vm.choose(2):       # p may itself be an attribute proxy
        p = getattr_(vm, p, vm.fresh('str', 'first'))
        if not is_proxy(vm, p):
            raise PathEnd()
    if vm.choose(2):
        mcall(vm, p, '_client')
    view, before = proxy_view(vm, p), opts(vm, p)
    n = vm.fresh('str', 'name')
    mark = len(vm.trace)
    q, exc = attempt(vm, lambda: getattr_(vm, p, n))
    if not vm.prove('taking an attribute succeeds with a proxy', exc is None and is_proxy(vm, q), exc):
        return
    vm.prove('..without contacting the server', quiet(vm, mark))
    vm.prove('..a new proxy', q is not p)
    vm.prove('..to the same object and reference, path extended by that name',
             denotes(vm, q, view, [n]), proxy_view(vm, q))
    vm.prove('..with the option values of its parent', same_opts(vm, opts(vm, q), before), opts(vm, q))
    vm.prove('..keeping the parent alive', reachable(vm, q.fields, p))
    vm.prove('..leaving the parent as it was', z3.And(same_view(vm, p, view),
                                                     same_opts(vm, opts(vm, p), before)))
    # changing options of one proxy never changes another
    a, b = (q, p) if vm.choose(2) else (p, q)
    ob = opts(vm, b)
    key = sorted(before)[vm.choose(len(before))]
    mcall(vm, a, '_set_proxy_options', **{key: vm.fresh('any', 'new')})
    vm.prove('changing an option of one proxy changes no other proxy', same_opts(vm, opts(vm, b), ob),
             (key, opts(vm, b)))
    r = getattr_(vm, q, vm.fresh('str', 'name2')) if a is p else None
    if r is not None and is_proxy(vm, r):
        vm.prove('a second level keeps the first alive', reachable(vm, r.fields, q)
                 and reachable(vm, r.fields, p))


@harness('C09', 'option change takes effect')
def option_set(vm):
    c, p = setup(vm)
    before = opts(vm, p)
    key = sorted(before)[vm.choose(len(before))]
    v = vm.fresh('any', 'value')
    view = proxy_view(vm, p)
    mcall(vm, p, '_set_proxy_options', **{key: v})
    after = opts(vm, p)
    want = dict(before)
    want[key] = v
    vm.prove('exactly the named option has the new value', same_opts(vm, after, want), after)
    vm.prove('the proxy still denotes the same object', same_view(vm, p, view))


@harness('C09', 'immediate attribute')
def immediate(vm):
    c, p = setup(vm)
    mcall(vm, p, '_set_proxy_options', defer_getattr=False)
    view = proxy_view(vm, p)
    n = vm.fresh('str', 'name')
    mark = len(vm.trace)
    q, exc = attempt(vm, lambda: getattr_(vm, p, n))
    ss = sends(vm, start=mark)
    if events(vm, 'dumps.fail', mark):
        vm.prove('immediate lookup: error when the request cannot be made', exc is not None and not ss)
        return
    if not vm.prove('immediate lookup: one request', len(ss) == 1, ss):
        return
    rec = unwire(vm, ss[0].frames[-1])
    d = dict_of(vm, rec['obj']) if rec else None
    vm.prove('immediate lookup: asks for exactly that attribute',
             d is not None and set(d) == {'obj'} and is_proxy(vm, d['obj'])
             and z3.And(eq(vm, ss[0].frames[1], b'get_obj'), denotes(vm, d['obj'], view, [n])), d)
    rr = events(vm, 'future.result', mark)
    if vm.prove('immediate lookup: waits for the reply', len(rr) == 1, rr):
        if 'value' in rr[0].d:
            vm.prove('immediate lookup: yields the reply', exc is None and eq(vm, q, rr[0].value))
        else:
            vm.prove('immediate lookup: raises', exc is not None)


@harness('C09', 'copy')
def copy(vm):
    c, p = setup(vm)
    depth = vm.choose(3)
    if depth:
        mcall(vm, p, '_set_proxy_options', defer_getattr=True)
        for i in range(depth):
            p = getattr_(vm, p, vm.fresh('str', 'name%d' % i))
            if not is_proxy(vm, p):
                raise PathEnd()
    if vm.choose(2):
        mcall(vm, p, '_client')
    view, before = proxy_view(vm, p), opts(vm, p)
    mark = len(vm.trace)
    q, exc = attempt(vm, lambda: mcall(vm, p, '_copy'))
    if not vm.prove('copying yields a proxy', exc is None and is_proxy(vm, q), exc):
        return
    vm.prove('..without contacting the server', quiet(vm, mark))
    vm.prove('..a new one', q is not p)
    vm.prove('..to the same object, reference and path', denotes(vm, q, view), proxy_view(vm, q))
    vm.prove('..with the same options', same_opts(vm, opts(vm, q), before), opts(vm, q))
    vm.prove('..that belongs to no thread yet (its client is looked up anew)',
             not reachable(vm, q.fields, c))
    key = sorted(before)[vm.choose(len(before))]
    a, b = (p, q) if vm.choose(2) else (q, p)
    ob = opts(vm, b)
    mcall(vm, a, '_set_proxy_options', **{key: vm.fresh('any', 'new')})
    vm.prove('changing an option of the original or copy changes only that',
             same_opts(vm, opts(vm, b), ob), key)


@harness('C09', 'unknown option')
def unknown(vm):
    c, p = setup(vm)
    before, view = opts(vm, p), proxy_view(vm, p)
    k = vm.fresh('str', 'option')
    for n in list(before) + ['self']:      # (a keyword named self is not an option but a Python error)
        vm.assume(k.t != n)
    good = sorted(before)[vm.choose(len(before))]
    kw = [('set', k, vm.fresh('any', 'v1')), ('set', good, vm.fresh('any', 'v2'))]
    if vm.choose(2):
        kw.reverse()
    if vm.choose(2):
        kw = [l for l in kw if l[1] is k]
    _, exc = attempt(vm, lambda: vm.call(vm.getattr(p, '_set_proxy_options'), [], kw))
    vm.prove('an unknown option raises KeyError', exc is not None and exc_isa(vm, exc, KeyError), exc)
    vm.prove('..and changes no option', same_opts(vm, opts(vm, p), before), opts(vm, p))
    vm.prove('..nor the proxy', same_view(vm, p, view))


@harness('C09', 'options at construction')
def construct(vm):
    """Attribute paths and options given at construction are the proxy's own."""
    cls = need(vm, TP + 'proxy.ObjectProxy')
    a = text_bytes(vm, 'addr')
    oid, rid = vm.fresh('int', 'oid'), vm.fresh('int', 'rid')
    at = Tup([vm.fresh_list('attrs', lambda vm: vm.fresh('str', 'attr'))])
    to = vm.fresh('any', 'timeout')
    mark = len(vm.trace)
    p = vm.call(cls, [a, oid, rid, vm.fresh('str', 'ts')], kws(attributes=at, timeout=to))
    q = vm.call(cls, [a, oid, rid, vm.fresh('str', 'ts')], kws(attributes=at))
    vm.prove('making a proxy contacts nobody', quiet(vm, mark))
    v = proxy_view(vm, p)
    vm.prove('a proxy keeps the ids and path it was made with', z3.And(
        eq(vm, v['obj_id'], oid), eq(vm, v['ref_id'], rid), eq(vm, v['attributes'], at)), v)
    vm.prove('options given are set', eq(vm, opts(vm, p)['timeout'], to))
    oq = opts(vm, q)
    mcall(vm, p, '_set_proxy_options', sync=vm.fresh('any', 's'), return_type='proxy')
    vm.prove('two proxies never share options', same_opts(vm, opts(vm, q), oq))
