"""C05: results travel by value or by proxy as requested."""
from .base import *
from .c02 import RET
from .c03 import any_obj, live, tables, entry, Snap, zb, invariant, kept
from .c13 import table, set_table


def ser_mod(vm):
    m = vm.world.fn(TP + 'serializer')
    return m


def basic(vm):
    return [TypeVal(t) for t in (type(None), str, bytes, int, float, tuple, list, dict, bool)] + \
        [need(vm, TP + 'proxy.ObjectProxy')]


def some_types(vm, default=True):
    """Any tuple of serializable types that includes the basic ones; None: the default."""
    if default and vm.choose(2) == 0:
        return None
    return Tup(basic(vm) + [vm.fresh_list('types', None, ('types',))])


def effective(vm, types):
    return types if types is not None else need(vm, TP + 'serializer.default_serialize_types')


class AnyOf(Rule):
    """Invariant of a loop over types that looks for one the object is an instance of: none so far."""
    def __init__(self, obj):
        self.obj = obj

    def matches(self, vm, src, node):
        return src is not None and src[0] == 'types'

    def check_iter(self, vm, sp, env, x, evs):
        vm.prove('auto: goes on to the next type only if the object is not of this one',
                 vm.neg(lib.isinstance_f(vm, self.obj, x)), x)

    def assume_exit(self, vm, sp, env):
        vm.assume(z3.Not(F_isinst(vm.lift(self.obj), V.tup(sp.t))))

    def elem(self, vm, sp):
        x = vm.fresh('opaque', 'type')
        # an instance of a member is an instance of the tuple
        vm.assume(z3.Implies(F_isinst(vm.lift(self.obj), x.t), F_isinst(vm.lift(self.obj), V.tup(sp.t))))
        return x


def proxy_to(vm, s, b, r, obj, label):
    """r is a new proxy of server s to this very object, made since b."""
    if not vm.prove(label + ': by proxy', is_proxy(vm, r), r):
        return
    v = proxy_view(vm, r)
    vm.prove(label + ': a proxy of this server', eq(vm, as_bytes(vm, v['rpc_addr']), s.ghost['addr']), v)
    vm.prove(label + ': ..to the object itself, not an attribute', vm.lift(v['attributes']) == vm.lift(Tup([])), v)
    refs, _ = tables(vm, s)
    if vm.prove(label + ': ..that the server knows', vm.dict_has(refs, v['obj_id']), v):
        o, rs = entry(vm, vm.dict_get(refs, v['obj_id']))
        vm.prove(label + ': ..which denotes that very object', vm.lift(o) == vm.lift(obj), o)
        vm.prove(label + ': ..by a reference of its own', vm.set_has(rs, v['ref_id']), rs.layers)
    vm.prove(label + ': ..a new one', ctr(v['ref_id']) >= ctr(b.nr), v)


def unproxied(vm, s, b, label):
    vm.prove(label + ': no reference is handed out', vm.lift(field(vm, s, '_next_ref_id')) == vm.lift(b.nr))


@harness('C05', 'results')
def results(vm):
    s, types = server(vm)
    obj = vm.fresh('any', 'result') if vm.choose(2) else vm.fresh('opaque', 'result')
    live(vm, s, obj)
    vm.loop_rules.append(AnyOf(obj))
    how = ('get_item', 'call_obj', 'get_obj')[vm.choose(3)]
    if how == 'get_item':
        key = vm.fresh('str', 'name')
        vm.dict_set(field(vm, s, '_namespace'), key, obj)
        opts = DictObj(vm, kws(name=key))
    elif how == 'call_obj':
        opts = DictObj(vm, kws(obj=Native(lambda vm, a, k: obj, 'fn'), args=Tup([]), kwargs=DictObj(vm)))
    else:
        opts = DictObj(vm, kws(obj=obj))
    wire_loads(vm, lambda vm, d: opts, may_fail=False)
    wire_dumps(vm, may_fail=False)
    rt = RET[vm.choose(3)]
    rid = vm.fresh('int', 'req_id')
    vm.assume(rid.t >= 0)
    ser = SER[vm.choose(2)]
    b = Snap(vm, s)
    data = vm.fresh('bytes', 'opts')
    vm.assume(z3.Length(data.t) > 0)
    msg = DictObj(vm, kws(req_id=rid, action=how, return_type=rt, ser_type=ser, opts=data))
    mark = len(vm.trace)
    _, exc = attempt(vm, lambda: mcall(vm, s, '_process_one', text_bytes(vm, 'caller'), msg))
    if not vm.prove('results: one message is encoded', exc is None and len(events(vm, 'dumps', mark)) == 1, (exc,)):
        return
    e = events(vm, 'dumps', mark)[0]
    d = dict_of(vm, e.d['obj'])
    vm.prove('results: encoded with the types of the server',
             same_types(vm, e.d['types'], types) and e.d['server'] is s, (e.d['types'], e.d['server']))
    if not vm.prove('results: a return message without error', d is not None and 'rval' in d and d.get('error', 0) is None, d):
        return
    r = d['rval']
    if rt == 'value':
        vm.prove('value: handed on unchanged', eq(vm, r, obj), r)
        unproxied(vm, s, b, 'value')
    elif rt == 'proxy':
        proxy_to(vm, s, b, r, obj, 'proxy')
    else:
        known = lib.isinstance_f(vm, obj, effective(vm, types))
        if vm.branch(zb(known)):
            vm.prove('auto: a result of a serializable type goes by value', eq(vm, r, obj), r)
            unproxied(vm, s, b, 'auto')
        else:
            proxy_to(vm, s, b, r, obj, 'auto')


def server(vm, reg=False):
    """A server with any set of serializable types."""
    types = some_types(vm)
    s = mk_server(vm, namespace=True, clients=True, types=types)
    return s, types


def same_types(vm, a, types):
    """Does a set of types given to dumps() stand for these?  (None: the default ones)"""
    d = need(vm, TP + 'serializer.default_serialize_types')
    a = d if a is None else a
    t = d if types is None else types
    return a is t or (isinstance(a, Tup) and isinstance(t, Tup) and vm.entails(vm.lift(a) == vm.lift(t)))


def lib_dumps(vm, obj, log):
    """Contract of the msgpack and json libraries: every object they cannot encode themselves,
    wherever it is in lists and dicts, is handed to the hook and replaced by what the hook returns."""
    def dumps(vm, args, kw):
        kw = {l[1]: l[2] for l in kw}
        vm.trust('msgpack/json call the hook for every object that is not a basic type')
        if 'default' in kw:
            log.append(('hook', vm.call(kw['default'], [obj])))
            return vm.fresh('bytes', 'packed')
        if 'cls' in kw:
            e = vm.call(kw['cls'], [])
            log.append(('hook', mcall(vm, e, 'default', obj)))
        return vm.fresh('str', 'packed')
    vm.extover['msgpack.dumps'] = dumps
    vm.extover['json.dumps'] = dumps


@harness('C05', 'messages')
def messages(vm):
    s, own = server(vm)
    thread = vm.choose(3)          # server passed on, server of the sending thread, no server
    set_table(vm, DictObj(vm))
    if thread == 1:
        mcall(vm, s, 'run_lazy')
    name = ('MsgpackSerializer', 'JsonSerializer')[vm.choose(2)]
    ser = vm.call(need(vm, TP + 'serializer.' + name), [])
    types = some_types(vm)
    obj = vm.fresh('opaque', 'obj')
    live(vm, s, obj)
    P_ = need(vm, TP + 'proxy.ObjectProxy')
    vm.assume(vm.neg(lib.isinstance_f(vm, obj, P_)))
    known = zb(lib.isinstance_f(vm, obj, effective(vm, types)))
    if vm.branch(known):
        # those the serializer treats specially are the subject of C06 and C07
        for t in [TypeVal(t) for t in (str, bytes, int, float, tuple, list, dict, bool)] + \
                [ExtCls('numpy.ndarray'), ExtCls('numpy.number'), ExtCls('numpy.bool_'),
                 ExtCls('datetime.datetime'), ExtCls('datetime.date')]:
            vm.assume(vm.neg(lib.isinstance_f(vm, obj, t)))
    if vm.choose(2):
        # used before, for another server and other types
        lib_dumps(vm, 1, [])
        s2 = mk_server(vm, clients=False, namespace=False, proxies=False)
        vm.extover['msgpack.dumps'] = vm.extover['json.dumps'] = \
            lambda vm, a, k: (vm.getattr(ser, 'server'), vm.fresh('str' if name[0] == 'J' else 'bytes', 'packed'))[1]
        mcall(vm, ser, 'dumps', 1, server=s2, serialize_types=some_types(vm))
    log = []
    lib_dumps(vm, obj, log)
    b = Snap(vm, s)
    _, exc = attempt(vm, lambda: mcall(vm, ser, 'dumps', ListObj(vm, [obj]), server=s if thread == 0 else None,
                                       serialize_types=types))
    hooks = [r for k, r in log if k == 'hook']
    if vm.branch(known):
        d = dict_of(vm, hooks[0]) if hooks else None
        vm.prove('messages: an object of a serializable type is encoded by value',
                 exc is not None or (d is not None and d.get('___type_name___') != 'proxy'), hooks)
        unproxied(vm, s, b, 'messages')
        return
    if thread == 2:
        vm.prove('messages: without a server, other objects are refused with TypeError',
                 exc is not None and exc_isa(vm, exc, TypeError), (exc, hooks))
        return
    if not vm.prove('messages: with a server, other objects can be sent', exc is None and len(hooks) == 1, (exc,)):
        return
    d = dict_of(vm, hooks[0])
    if not vm.prove('messages: other objects are sent by proxy', d is not None and d.get('___type_name___') == 'proxy', hooks):
        return
    p = vm.call(P_, [], [('set', k, v) for k, v in d.items() if k != '___type_name___'])
    proxy_to(vm, s, b, p, obj, 'messages')


@harness('C05', 'client')
def client(vm):
    """The types of a client apply to what it sends, and to the server it starts."""
    types = some_types(vm)
    wire_dumps(vm, may_fail=False)
    set_table(vm, DictObj(vm))
    local = vm.choose(2) == 1
    opts = {'serialize_types': types}
    if local:
        opts['start_local_server'] = True
    c = mk_client(vm, serializer=SER[vm.choose(2)], **opts)
    mark = len(vm.trace)
    o = DictObj(vm, kws(obj=vm.fresh('opaque', 'obj')))
    _, exc = attempt(vm, lambda: mcall(vm, c, 'send', vm.fresh('str', 'action'), opts=o, sync='off'))
    ds = events(vm, 'dumps', mark)
    if vm.prove('client: one request is encoded', exc is None and len(ds) == 1, (exc, ds)):
        vm.prove('client: with its own types', same_types(vm, ds[0].d['types'], types), ds[0].d['types'])
        vm.prove('client: proxies are made by the server of its thread', ds[0].d['server'] is None or
                 ds[0].d['server'] is vm.call(need(vm, TP + 'server.RPCServer.get_server'), []), ds[0].d['server'])
    srv = vm.call(need(vm, TP + 'server.RPCServer.get_server'), [])
    if local:
        vm.prove('client: a local server is started with the same types', isinstance(srv, InstObj) and
                 same_types(vm, vm.getattr(srv, 'serialize_types'), types), srv)
    else:
        vm.prove('client: no server unless asked for', srv is None, srv)
