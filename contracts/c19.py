"""C19: forwarded log records arrive complete, once and in order.

The sender is cut at its queue (first in, first out): handing over a record puts exactly one item in
it, and each iteration of the background thread turns one such item into one message."""
from .base import *

R = TP + 'log.remote.'
F_msg = z3.Function('getMessage', V, V, z3.StringSort())
F_msgfails = z3.Function('getMessage.fails', V, V, z3.BoolSort())
F_plain = z3.Function('json.plain', V, z3.BoolSort())       # json.dumps(v) works
F_json = z3.Function('json.default', V, z3.BoolSort())      # json.dumps(v, default=...) works
F_reprfails = z3.Function('repr.fails', V, z3.BoolSort())
KNOWN = ('name', 'msg', 'args', 'levelname', 'levelno', 'pathname', 'filename', 'module', 'exc_info',
         'exc_text', 'stack_info', 'lineno', 'funcName', 'created', 'msecs', 'relativeCreated', 'thread',
         'threadName', 'processName', 'process')
ADDED = ('process_name', 'thread_name', 'host_name')
TEXT = ('name', 'levelname', 'pathname', 'filename', 'module', 'funcName', 'threadName', 'processName')
NUMBER = ('levelno', 'lineno', 'thread', 'process')
TIME = ('created', 'msecs', 'relativeCreated')


def some_exc(vm, hint):
    """Any exception that is an error (no KeyboardInterrupt or SystemExit)."""
    x = vm.sym_exc(hint)
    x.ghost['facts'][TypeVal(Exception)] = True
    return x


# ---------------------------------------------------------------- json, logging and repr (trusted)
class Json:
    """Contract of the json library for a dict of values."""
    def __init__(self, vm):
        self.vm = vm
        self.texts = []          # (text, dict as it was)
        vm.extover['json.dumps'] = self.dumps
        vm.extover['zmq.Socket.send_json'] = self.send_json
        vm.extover['zmq.Socket.send_string'] = self.send_string
        self.repr0, self.str0 = vm.repr_, vm.str_
        vm.repr_, vm.str_ = self.repr_, self.strof

    def user(self, v):
        vm = self.vm
        return isinstance(v, Sym) and v.k == 'any' and not vm.entails(z3.Or(V.is_str(v.t), V.is_int(v.t), V.is_none(v.t)))

    def repr_(self, v):
        vm = self.vm
        v = vm.norm(v)
        if self.user(v):
            if vm.branch(F_reprfails(v.t)):
                raise PyExc(some_exc(vm, 'repr'))
        elif isinstance(v, Tup):
            for x in v.segs:
                if not isinstance(x, Splice):
                    self.repr_(x)
        return self.repr0(v)

    def strof(self, v):
        vm = self.vm
        v = vm.norm(v)
        if self.user(v) and vm.branch(F_reprfails(v.t)):
            raise PyExc(some_exc(vm, 'str'))
        return self.str0(v)

    def fails(self):
        raise PyExc(some_exc(self.vm, 'json'))

    def value(self, v, dflt, depth=0):
        """One value: goes out, or the exception."""
        vm = self.vm
        v = vm.norm(v)
        k = vm.kind(v)
        if k in ('none', 'bool', 'real', 'str'):
            return
        if k == 'int':
            t = vm.as_int(v)
            if vm.entails(z3.And(t < 2 ** 64, t > -2 ** 64)) or vm.branch(F_plain(vm.lift(v))):
                return
            self.fails()
        if k == 'any':
            if vm.branch(F_plain(v.t)):
                return
            if dflt is not None:
                # some part of the value is handed to the function
                if not vm.branch(F_json(v.t)):
                    self.fails()
                return self.hook(vm.fresh('any', 'part'), dflt, depth)
            self.fails()
        if isinstance(v, (Tup, ListObj)):
            for x in v.segs:
                self.value(x if not isinstance(x, Splice) else vm.fresh('any', 'item'), dflt, depth)
            return
        if isinstance(v, DictObj):
            return self.dict(v, dflt, depth)
        if dflt is None:
            vm.throw(TypeError, 'not JSON serializable')
        self.hook(v, dflt, depth)

    def hook(self, v, dflt, depth):
        vm = self.vm
        if depth > 3:
            raise Unsupported('json: the function does not make progress')
        r = vm.call(dflt, [v])
        if vm.kind(r) == 'any':
            raise Unsupported('json: the function returns %r' % (r,))
        self.value(r, dflt, depth + 1)

    def dict(self, d, dflt, depth=0):
        vm = self.vm
        for l in d.layers:
            if l[0] == 'set':
                if vm.kind(l[1]) not in ('str', 'int', 'bool', 'none', 'real'):
                    if vm.kind(l[1]) == 'any':
                        raise Unsupported('json: keys')
                    vm.throw(TypeError, 'keys must be str')
                self.value(l[2], dflt, depth)
            elif l[0] == 'base':
                tag = getattr(l[1], 'tag', {})
                if tag.get('plain'):
                    continue
                if tag.get('json') and dflt is not None:
                    if vm.choose(2):
                        self.hook(vm.fresh('any', 'part'), dflt, depth)
                else:
                    # any value of those it holds
                    self.value(vm.fresh('any', 'extra'), dflt, depth)

    def dumps(self, vm, args, kw):
        o = {}
        for l in kw:
            if l[0] != 'set' or l[1] not in ('default', 'ensure_ascii', 'skipkeys', 'separators', 'sort_keys'):
                raise Unsupported('json.dumps option')
            o[l[1]] = l[2]
        if o.get('ensure_ascii', True) is not True or len(args) != 1 or o.get('sort_keys', False) is not False:
            raise Unsupported('json.dumps option')
        self.value(args[0], o.get('default'))
        s = vm.fresh('str', 'text')
        vm.assume(z3.And(F_isutf8(F_enc(s.t)), F_dec(F_enc(s.t)) == s.t, z3.Length(F_enc(s.t)) > 0))
        if isinstance(args[0], DictObj):
            self.texts.append((s, snap(vm, args[0])))
        return s

    def send_json(self, vm, sock, args, kw):
        return vm.call(vm.getattr(sock, 'send'), [mcall(vm, self.dumps(vm, args[:1], kw), 'encode', 'utf-8')])

    def send_string(self, vm, sock, args, kw):
        return vm.call(vm.getattr(sock, 'send'), [mcall(vm, args[0], 'encode', 'utf-8')])

    def of(self, b):
        """The dict that was sent."""
        if vm_kind(self.vm, b) != 'bytes':
            return None
        for s, d in self.texts:
            if self.vm.entails(self.vm.lift(b) == V.bytes(F_enc(s.t))):
                return d
        return None


def vm_kind(vm, v):
    return vm.kind(vm.norm(v))


class Dicts(Rule):
    """A loop over the attributes of a record that builds a dict.  What is kept about the unknown
    attributes: whether each is copied (same), and whether each can be sent (plain, json).  These start
    as assumed and are given up by the first iteration that does not show them."""
    force = True

    def matches(self, vm, src, node):
        self.node = (node.lineno, node.col_offset)
        return src is not None and src[0] == 'dict' and src[2] == 'items'

    def init(self, vm, sp, env, locals_):
        self.sp = sp
        self.key = ('dicts', self.node, repr(sorted(vm.frames_key(), key=str)))
        self.flags = vm.ex.loop_mods.setdefault(self.key, dict(same=True, plain=True, json=True))

    def havoc(self, vm, o):
        if not isinstance(o, DictObj) or getattr(o, 'meta', None) == 'fields':
            return False
        src = self.sp.src[3]
        B = MapBase(vm, 'copied', keyinv=src.keyinv)
        B.tag = dict(self.flags, of=src if self.flags['same'] else None, keys=src)
        if self.flags['same']:
            B.val_f = src.val_f
        B.has_f = src.has_f
        vm.world.journal(o)
        o.layers = o.layers + [('base', B)]
        return True

    def assume_inv(self, vm, sp, env):
        self.start = [(o, list(o.layers)) for o in vm.objs.values() if isinstance(o, DictObj) and
                      getattr(o, 'meta', None) != 'fields']

    def check_iter(self, vm, sp, env, x, evs):
        k, v = x.segs
        got = []
        for o, layers in self.start:
            if o.layers != layers:
                new = o.layers[len(layers):]
                if o.layers[:len(layers)] != layers or len(new) != 1 or new[0][0] != 'set' or \
                        not vm.entails(eq(vm, new[0][1], k)):
                    raise Unsupported('how a loop builds a dict')
                got.append(new[0][2])
        if len(got) != 1:
            vm.prove('every attribute of a record is kept', False, (k, got))
            return
        r = vm.norm(got[0])
        kd = vm.kind(r)
        basic = kd in ('none', 'bool', 'real', 'str')
        same = vm.entails(eq(vm, r, v))
        plain = basic or vm.entails(F_plain(vm.lift(r)))
        now = dict(same=same, plain=plain, json=plain or vm.entails(F_json(vm.lift(r))))
        vm.prove('an attribute is kept as it is, or as text', z3.Or(z3.BoolVal(same), z3.And(
            z3.BoolVal(kd == 'str'), z3.Not(F_plain(vm.lift(v))))), (v, r))
        for n in now:
            if self.flags[n] and not now[n]:
                self.flags[n] = False
                vm.mods_changed = True


def mk_record(vm, hint='rec', exc=None):
    """Any log record; its extra attributes are any others."""
    r = lib.new_ext(vm, 'logging.LogRecord')
    B = MapBase(vm, 'extra', keyinv=lambda k: z3.And(V.is_str(k), *[V.s(k) != n for n in KNOWN + ADDED + ('getMessage',)]))
    r.fields.layers = [('base', B)]
    r.fields.meta = None
    r.ghost['extra'] = B
    f = {}
    for n in TEXT:
        f[n] = vm.fresh('str', n)
    for n in NUMBER:
        f[n] = vm.fresh('int', n)
        vm.assume(z3.And(f[n].t > -2 ** 63, f[n].t < 2 ** 63))
    for n in TIME:
        f[n] = vm.fresh('real', n)
    f['msg'] = vm.fresh('any', 'msg')
    f['args'] = vm.fresh('any', 'args')
    f['stack_info'] = None
    exc = vm.choose(3) if exc is None else exc
    f['exc_info'] = Tup([vm.fresh('any', 'exc%d' % i) for i in range(3)]) if exc else None
    f['exc_text'] = None
    if exc == 2:
        f['exc_text'] = vm.fresh('str', 'exc_text')
        vm.assume(z3.Length(f['exc_text'].t) > 0)
    for n, v in f.items():
        vm.dict_set(r.fields, n, v)
    r.ghost['known'] = f
    return r


def get_message(vm, self, args, kw):
    m, a = vm.lift(field(vm, self, 'msg')), vm.lift(field(vm, self, 'args'))
    if vm.branch(F_msgfails(m, a)):
        raise PyExc(some_exc(vm, 'getMessage'))
    return S_str(F_msg(m, a))


def names(vm):
    """Any names given to this host, this process and its threads."""
    mod = need(vm, R + 'LogSender').module
    host, proc = vm.fresh('str', 'host'), vm.fresh('str', 'process')
    vm.call(need(vm, R + 'set_host_name'), [host])
    vm.call(need(vm, R + 'set_process_name'), [proc])
    return host, proc


def new_events(vm, n, kind):
    return [e for e in vm.trace[n:] if e.kind == kind]


class Sender:
    def __init__(self, vm, addr=None, logger=None):
        self.vm = vm
        self.json = Json(vm)
        vm.extover['logging.LogRecord.getMessage'] = get_message
        kw = {}
        self.lg = None
        if logger is not None:
            self.lg = pick(vm, logger, lib.new_ext(vm, 'logging.Logger', name=logger))
            kw['logger'] = self.lg
        n = len(vm.trace)
        self.s = vm.call(need(vm, R + 'LogSender'), [addr] if addr is not None else [], kws(**kw))
        self.events = vm.trace[n:]
        self.conn = None
        th = [e.thread for e in self.events if e.kind == 'thread.start']
        vm.prove('one thread sends in the background', len(th) == 1, th)
        if len(th) != 1:
            raise PathEnd()
        self.thread = th[0]
        t = self.thread.ghost.get('target')
        if t is None:
            raise Unsupported('what the thread runs')
        self.target = t

    def puts(self, n):
        return [e for e in self.vm.trace[n:] if e.kind == 'queue.put']

    def one_put(self, fn, what):
        vm = self.vm
        n = len(vm.trace)
        r, exc = attempt(vm, fn)
        p = self.puts(n)
        vm.prove(what + ' never fails', exc is None, exc)
        if not [e for e in self.events + vm.trace[n:] if e.kind == 'queue.put']:
            raise Unsupported('how records get to the thread')
        vm.prove(what + ' is passed to the thread once', len(p) == 1, p)
        if exc is not None or len(p) != 1:
            raise PathEnd()
        self.queue = p[0].queue
        return p[0].item


def the_sender(vm, what, connected=None, renamed=False, exc=0):
    host, proc = names(vm)
    w = Sender(vm)
    s = w.s
    rec = mk_record(vm, exc=exc)
    known = dict(rec.ghost['known'])
    tname = None
    if renamed:
        tname = vm.fresh('str', 'thread_name')
        vm.call(need(vm, R + 'set_thread_name'), [tname, known['thread']])
    vm.loop_rules.append(Dicts())
    if what == 0:
        item = w.one_put(lambda: mcall(vm, s, 'handle', rec), 'handing over a record')
        # what happens to the record or the names later makes no difference
        for n in ('msg', 'args', 'exc_info', 'levelno'):
            vm.dict_set(rec.fields, n, vm.fresh('any', 'later.' + n))
        names(vm)
    elif what == 1:
        addr = vm.fresh('str', 'addr')
        m = len(vm.trace)
        item = w.one_put(lambda: mcall(vm, s, 'connect', addr), 'connecting')
        con = new_events(vm, m, 'connect')
        vm.prove('connecting connects to the address', len(con) == 1 and eq(vm, con[0].addr, addr), con)
        if len(con) != 1:
            return
        vm.prove('..a socket that pushes to one server', dotted(con[0].sock.ghost['type']) == 'zmq.PUSH', con[0].sock.ghost['type'])
        l = vm.dict_get(con[0].sock.fields, 'linger')
        l = con[0].sock.ghost['opts'].get('zmq.LINGER') if l is MISSING else l
        vm.prove('..that delivers what was sent when it is closed', l is None or l is MISSING or vm.neg(eq(vm, l, 0)), l)
    else:
        item = w.one_put(lambda: mcall(vm, s, 'close'), 'closing')
    cur = None
    if connected or connected is None and vm.choose(2):
        cur = new_socket(vm, Ext('zmq.PUSH'))
    seen = {'n': 0}

    def get(vm, q):
        seen['n'] += 1
        if q is not w.queue:
            raise Unsupported('another queue')
        if seen['n'] > 1:
            raise Unsupported('several items at a time')
        return item
    vm.ghost['on_queue_get'] = get

    class Run(Rule):
        force = True
        holder = None

        def matches(self, vm, src, node):
            return src is None or src[0] == 'calls'

        def init(self, vm, sp, env, locals_):
            self.pre = [(env.vars, n) for n in locals_ if n in env.vars and
                        (env.vars[n] is None or is_sock(env.vars[n]))]
            self.pre += [(s.fields, n) for n in socket_fields(vm) if vm.dict_get(s.fields, n) is None]

        def assume_inv(self, vm, sp, env):
            c = self.pre
            if len(c) != 1:
                raise Unsupported('where the current socket is kept: %d' % len(c))
            self.holder = c[0]
            d, n = self.holder
            if isinstance(d, DictObj):
                vm.dict_set(d, n, cur)
            else:
                d[n] = cur
            self.mark = len(vm.trace)

        def now(self, vm):
            d, n = self.holder
            return vm.dict_get(d, n) if isinstance(d, DictObj) else d.get(n)

        def check_iter(self, vm, sp, env, x, evs):
            evs = vm.trace[self.mark:]
            snd = [e for e in evs if e.kind == 'send']
            if what == 0:
                if cur is not None:
                    vm.prove('a record is sent once, to the connected server', len(snd) == 1 and snd[0].sock is cur, snd)
                    if len(snd) == 1:
                        vm.prove('..as one message', len(snd[0].frames) == 1, snd[0].frames)
                        complete(vm, w, snd[0].frames[0], rec, known, host, proc, tname)
                vm.prove('the connection stays', self.now(vm) is cur, self.now(vm))
                vm.prove('..and open', cur is None or cur.ghost['closed'] is not True)
                vm.cover('a record is sent' if cur is not None else 'a record without a server')
                vm.reach()
            elif what == 1:
                vm.prove('connecting sends nothing', not snd, snd)
                vm.prove('from then on the new server is used', self.now(vm) is con[0].sock, self.now(vm))
                vm.prove('..whose connection is open', con[0].sock.ghost['closed'] is not True)
                lingers(vm, evs)
                vm.cover('reconnected')
                vm.reach()
            else:
                vm.prove('closing ends the thread', False)
    rule = Run()
    vm.loop_rules.append(rule)
    r, exc = attempt(vm, lambda: vm.call(w.target, []))
    vm.prove('nothing stops the thread from sending later records', exc is None, exc)
    vm.prove('only closing ends the thread', what == 2)
    vm.prove('closing sends nothing more', not [e for e in vm.trace[rule.mark:] if e.kind == 'send'] if what == 2 else True)
    vm.cover('closed')


# one harness per kind of item, so that they are verified side by side
for _n, _a in [('connecting', (1,)), ('closing', (2,)), ('without a server', (0, False))] + [
        ('%s%s' % (e, r), (0, True, rn, x))
        for r, rn in (('', False), (', thread renamed', True))
        for x, e in enumerate(('record', 'record with an exception', 'record with the text of an exception'))]:
    harness('C19', 'the sender: ' + _n)(lambda vm, _a=_a: the_sender(vm, *_a))


def dotted(v):
    return v.dotted if isinstance(v, Ext) else v


def is_sock(v):
    return isinstance(v, InstObj) and isinstance(v.cls, ExtCls) and v.cls.dotted == 'zmq.Socket'


def socket_fields(vm):
    return ('socket', '_socket', 'sock', '_sock', 'current', '_current')


def lingers(vm, evs):
    for e in evs:
        if e.kind == 'sock.close':
            l = vm.dict_get(e.sock.fields, 'linger')
            if l is MISSING:
                l = e.sock.ghost['opts'].get('zmq.LINGER')
            l = e.sock.ghost['opts'].get('close.linger', l)
            vm.prove('a connection closed still delivers what was sent', l is None or l is MISSING or
                     vm.neg(eq(vm, l, 0)), l)


def complete(vm, w, data, rec, known, host, proc, tname):
    d = w.json.of(data)
    if d is None:
        vm.prove('what is sent is the record', False, data)
        return

    def get(n):
        return vm.dict_get(d, n)

    def same(what, n, v):
        g = get(n)
        vm.prove(what, g is not MISSING and eq(vm, g, v), (n, g, v))
    m, a = vm.lift(known['msg']), vm.lift(known['args'])
    got = get('msg')
    if not vm.branch(F_msgfails(m, a)):
        vm.cover('a message that can be formatted')
        vm.prove('its message is sent formatted', got is not MISSING and eq(vm, got, S_str(F_msg(m, a))), got)
    else:
        vm.cover('a message that cannot be formatted')
        vm.prove('a message that cannot be formatted is sent as text', got is not MISSING and vm.kind(got) == 'str', got)
    g = get('args')
    vm.prove('..once: no arguments are sent along', g is MISSING or vm.neg(vm.truth_f(g)), g)
    same('its level is sent', 'levelno', known['levelno'])
    same('the name of the process is sent', 'process_name', proc)
    same('the name of the host is sent', 'host_name', host)
    same('the name of the thread is sent', 'thread_name', tname if tname is not None else known['threadName'])
    for n in TEXT + NUMBER + TIME:
        if n != 'levelno':
            same('its %s is sent' % n, n, known[n])
    x, t = get('exc_info'), get('exc_text')
    vm.prove('an exception is sent as text only', x is MISSING or vm.neg(vm.truth_f(x)), x)
    if known['exc_text'] is not None:
        vm.prove('the text of its exception is sent', t is not MISSING and eq(vm, t, known['exc_text']), t)
    elif known['exc_info'] is not None:
        vm.prove('its exception is sent', t is not MISSING and vm.kind(t) == 'str' and t != '' and
                 not vm.entails(vm.lift(t) == vm.lift('')), t)
    B = rec.ghost['extra']
    b = [l[1] for l in d.layers if l[0] == 'base']
    vm.prove('its other attributes are sent', len(b) == 1 and (b[0] is B or getattr(b[0], 'tag', {}).get('keys') is B or
             getattr(getattr(b[0], 'tag', {}).get('keys'), 'tag', {}).get('keys') is B), b)
    for l in d.layers:
        if l[0] == 'del' and l[1] not in KNOWN:
            vm.prove('no other attribute is left out', False, l[1])


@harness('C19', 'attaching and closing')
def attaching(vm):
    addr = pick(vm, None, vm.fresh('str', 'addr'))
    w = Sender(vm, addr, pick(vm, None, 'app'))
    ev = w.events
    kinds = [e.kind for e in ev]
    put = [e for e in ev if e.kind == 'queue.put']
    con = [e for e in ev if e.kind == 'connect']
    att = [e for e in ev if e.kind == 'addHandler']
    if addr is not None:
        vm.prove('connected to the address', len(con) == 1 and eq(vm, con[0].addr, addr), con)
        vm.prove('..by the thread that sends', len(put) == 1 and len(con) == 1 and put[0].item is con[0].sock, put)
    else:
        vm.prove('not connected without an address', not con and not put)
    if w.lg is None:
        vm.prove('attached to no logger', not att, att)
    else:
        lg = att[0].logger if len(att) == 1 else None
        vm.prove('attached once to the logger', lg is w.lg or lg is not None and lg.ghost.get('name') == w.lg, att)
        vm.prove('..with a handler ready to send', len(att) == 1 and att[0].handler is w.s and
                 'addHandler' not in kinds[:max([i for i, k in enumerate(kinds) if k in ('connect', 'queue.put', 'thread.start')])], kinds)
    # the last things before the process exits
    at = [e.fn for e in ev if e.kind == 'atexit']
    vm.prove('closed when the process exits', len(at) == 1, at)
    cur = None
    if vm.choose(2):
        cur = new_socket(vm, Ext('zmq.PUSH'))
        for f in socket_fields(vm):
            if vm.dict_get(w.s.fields, f) is None:
                setfield(vm, w.s, f, cur)
                break
        else:
            raise Unsupported('where the current socket is kept')
    n = len(vm.trace)
    if at and vm.choose(2):
        _, exc = attempt(vm, lambda: vm.call(at[0], []))
    else:
        _, exc = attempt(vm, lambda: mcall(vm, w.s, 'close'))
    vm.prove('closing never fails', exc is None, exc)
    ks = [(e.kind, e) for e in vm.trace[n:] if e.kind in ('queue.put', 'thread.join', 'sock.close')]
    order = [k for k, _ in ks]
    vm.prove('closing asks the thread to end once', order.count('queue.put') == 1, order)
    if 'queue.put' in order:
        i = order.index('queue.put')
        j = order.index('thread.join') if 'thread.join' in order else -1
        vm.prove('..waits for the records before', j > i or cur is None and j < 0 and vm.entails(False), order)
        vm.prove('..and only then closes the connection', 'sock.close' not in order[:max(j, 0)], order)
        for k, e in ks:
            if k == 'thread.join':
                vm.prove('..for the thread that sends', e.thread is w.thread, e.thread)
                t = e.d.get('timeout')
                vm.prove('..for a second at least', t is None or vm.num(t) is not None and
                         z3.simplify(vm.as_real(t) >= 1), t)
    lingers(vm, vm.trace[n:])


@harness('C19', 'one sender for the process')
def one_sender(vm):
    Json(vm)
    vm.extover['logging.LogRecord.getMessage'] = get_message
    f = need(vm, R + 'set_logger_address')
    a, b = vm.fresh('str', 'addr'), vm.fresh('str', 'addr2')
    n = len(vm.trace)
    vm.call(f, [a])
    ev = vm.trace[n:]
    con = [e for e in ev if e.kind == 'connect']
    att = [e for e in ev if e.kind == 'addHandler']
    vm.prove('records are sent to the address given', len(con) == 1 and eq(vm, con[0].addr, a), con)
    vm.prove('all records of the process are sent', len(att) == 1 and att[0].logger.ghost.get('name') in ('', None), att)
    vm.prove('the address is known', eq(vm, vm.call(need(vm, R + 'get_logger_address'), []), a))
    if len(att) != 1:
        return
    n = len(vm.trace)
    vm.call(f, [b])
    ev = vm.trace[n:]
    con = [e for e in ev if e.kind == 'connect']
    att2 = [e for e in ev if e.kind == 'addHandler']
    gone = [e for e in ev if e.kind == 'removeHandler']
    vm.prove('a new address is used from then on', len(con) == 1 and eq(vm, con[0].addr, b), con)
    vm.prove('records are still sent once', len(att2) == len(gone) and all(e.handler is att[0].handler for e in gone), (att2, gone))
    put = [e for e in ev if e.kind == 'queue.put']
    if not att2:
        vm.prove('..by the same sender', len(put) == 1 and len(con) == 1 and put[0].item is con[0].sock, put)
    vm.prove('the new address is known', eq(vm, vm.call(need(vm, R + 'get_logger_address'), []), b))


@harness('C19', 'names')
def naming(vm):
    for what in ('host', 'process'):
        v = vm.fresh('str', what)
        vm.call(need(vm, R + 'set_%s_name' % what), [v])
        g = vm.call(need(vm, R + 'get_%s_name' % what), [])
        vm.prove('the name given to the %s is its name' % what, eq(vm, g, v), g)
    st, gt = need(vm, R + 'set_thread_name'), need(vm, R + 'get_thread_name')
    t = vm.fresh('int', 'tid')
    u = vm.fresh('int', 'other')
    a, b = vm.fresh('str', 'a'), vm.fresh('str', 'b')
    me = this_thread(vm)
    vm.call(st, [a, t])
    vm.prove('the name given to a thread is its name', eq(vm, vm.call(gt, [t]), a))
    vm.call(st, [b, u])
    same = vm.branch(t.t == u.t)
    vm.prove('..whatever others are called', eq(vm, vm.call(gt, [t]), b if same else a))
    c = vm.fresh('str', 'c')
    vm.call(st, [c])
    vm.prove('by default: this thread', eq(vm, vm.call(gt, []), c))
    vm.prove('..under its identifier', eq(vm, vm.call(gt, [me]), c))


# ---------------------------------------------------------------- the server
@harness('C19', 'the server')
def the_server(vm):
    eff = vm.fresh('int', 'level')
    lg = lib.new_ext(vm, 'logging.Logger', name='server', eff=eff)
    filt = pick(vm, True, False)
    kw = {} if filt and vm.choose(2) else {'filter_by_level': filt}
    addr = pick(vm, None, vm.fresh('str', 'addr'))
    if addr is not None:
        kw['address'] = addr
    n = len(vm.trace)
    s = vm.call(need(vm, R + 'LogServer'), [lg], kws(**kw))
    ev = vm.trace[n:]
    bind = [e for e in ev if e.kind == 'bind']
    vm.prove('bound to its address', len(bind) == 1 and (addr is None or eq(vm, bind[0].addr, addr)), bind)
    vm.prove('started', [e.thread for e in ev if e.kind == 'thread.start'] == [s], ev)
    if len(bind) != 1:
        return
    sock = bind[0].sock
    vm.prove('its socket takes records from anybody', dotted(sock.ghost['type']) == 'zmq.PULL', sock.ghost['type'])
    vm.prove('its address is where it can be reached', eq(vm, vm.getattr(s, 'address'), sock.ghost['endpoint']))
    state = {}

    def loads(vm, args, kw):
        if len(args) != 1 or not vm.entails(eq(vm, as_b(vm, args[0]), state['raw'])):
            raise Unsupported('json.loads of something else')
        k = vm.choose(3)
        state['k'] = k
        if k == 0:
            vm.throw(ValueError, 'not JSON')
        if k == 1:
            return pick(vm, None, 'text', ListObj(vm, [vm.fresh('any', 'item')]))
        B = MapBase(vm, 'received', keyinv=lambda k: z3.And(V.is_str(k), *[V.s(k) != n for n in ('levelno', 'msg')]))
        d = DictObj(vm, [('base', B)])
        lv = vm.choose(3)
        state['level'] = None
        if lv == 0:
            state['level'] = vm.fresh('int', 'levelno')
            vm.dict_set(d, 'levelno', state['level'])
        elif lv == 1:
            vm.dict_set(d, 'levelno', pick(vm, None, 'text', ListObj(vm, [])))
            state['k'] = 3
        else:
            state['level'] = 0
        state['msg'] = vm.fresh('str', 'msg')
        vm.dict_set(d, 'msg', state['msg'])
        state['base'] = B
        return d

    def as_b(vm, v):
        return v

    def make(vm, args, kw):
        d = vm.norm(args[0])
        if not isinstance(d, DictObj):
            if d is None:
                pass
            vm.throw(TypeError, 'not a mapping')
        r = lib.new_ext(vm, 'logging.LogRecord')
        r.fields.layers = [('set', 'levelno', 0), ('set', 'args', Tup([])), ('set', 'msg', '')] + list(d.layers)
        r.fields.meta = None
        r.ghost['from'] = d
        return r
    vm.extover['json.loads'] = loads
    vm.extover['logging.makeLogRecord'] = make
    vm.extover['traceback.print_exc'] = lambda vm, a, k: None

    def handle(vm, self, args, kw):
        vm.event('logger.handle', logger=self, record=args[0])
        if vm.choose(2):
            state['broken'] = True
            raise PyExc(some_exc(vm, 'handler'))
    vm.extover['logging.Logger.handle'] = handle

    def got(vm, sk):
        state['raw'] = vm.fresh('bytes', 'raw')
        return state['raw']
    sock.ghost['on_recv'] = got

    class Run(Rule):
        force = True
        mark = None

        def matches(self, vm, src, node):
            return src is None

        def assume_inv(self, vm, sp, env):
            f = [l[1] for l in s.fields.layers if l[0] == 'set' and l[2] is True and l[1] == 'running']
            if len(f) != 1:
                raise Unsupported('how the server is stopped')
            setfield(vm, s, 'running', vm.fresh('bool', 'running'))
            self.mark = len(vm.trace)
            state.clear()

        def check_iter(self, vm, sp, env, x, evs):
            evs = vm.trace[self.mark:]
            h = [e for e in evs if e.kind == 'logger.handle']
            rc = [e for e in evs if e.kind == 'recvd' and e.sock is sock]
            vm.prove('one message at a time', len(rc) <= 1, rc)
            if not rc:
                vm.prove('no record without a message', not h, h)
                return
            if 'k' not in state:
                raise Unsupported('how messages are decoded')
            if state['k'] == 3:
                return          # (a level that is no number: only that later ones are handled)
            if state['k'] != 2:
                vm.prove('what is no record is not handled', not h, h)
                vm.cover('not a record')
                return
            low = vm.as_int(state['level']) < eff.t
            drop = z3.And(z3.BoolVal(filt), low)
            vm.prove('a record is handled unless it is below the level and filtering is on',
                     z3.Not(drop) if h else drop, h)
            vm.prove('..once', len(h) <= 1, h)
            for e in h:
                vm.prove('..by the logger of this server', e.logger is lg, e.logger)
                r = e.record
                vm.prove('..complete', isinstance(r, InstObj) and [l[1] for l in r.fields.layers if l[0] == 'base'] == [state['base']] and
                         eq(vm, field(vm, r, 'msg'), state['msg']) is not False and
                         vm.entails(z3.And(eq(vm, field(vm, r, 'msg'), state['msg']), eq(vm, field(vm, r, 'levelno'), state['level']))), r)
                vm.cover('handled')
    rule = Run()
    vm.loop_rules.append(rule)
    if vm.choose(2):
        # asked to stop
        vm.loop_rules.pop()
        mcall(vm, s, 'stop')
        n = len(vm.trace)

        class Stopped(Rule):
            force = True

            def matches(self, vm, src, node):
                return src is None

            def begin_iter(self, vm, env):
                pass
        r, exc = attempt(vm, lambda: mcall(vm, s, 'run'))
        vm.prove('a server asked to stop ends', exc is None, exc)
        vm.prove('..without handling anything', not [e for e in vm.trace[n:] if e.kind == 'logger.handle'])
        return
    r, exc = attempt(vm, lambda: mcall(vm, s, 'run'))
    vm.prove('no message and no handler stops the server', exc is None, exc)
    if exc is not None:
        return
    vm.prove('it ends only when asked to', vm.neg(vm.truth_f(field(vm, s, 'running'))), field(vm, s, 'running'))
