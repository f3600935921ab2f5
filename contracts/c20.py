"""C20: the sorting log handler prints every record once, in time order.

Accounting at lock granularity: between two lock operations of the same thread, records are neither
lost nor duplicated: what was buffered (or given) is buffered, or in the hands of this thread; and what
is in its hands is printed once, in order, while it holds a lock that the flush takes."""
from .base import *

H = TP + 'log.handler.RPCLogHandler'
SF = z3.StringSort()


class World:
    def __init__(self, vm):
        self.vm = vm
        vm.ghost['clock'] = vm.fresh('real', 'now').t
        n = len(vm.trace)
        self.h = vm.call(need(vm, H), [])
        ev = vm.trace[n:]
        th = [e.thread for e in ev if e.kind == 'thread.start']
        ax = [e.fn for e in ev if e.kind == 'atexit']
        vm.prove('one thread prints in the background', len(th) == 1, th)
        vm.prove('the records left are flushed at exit', len(ax) == 1, ax)
        if len(th) != 1 or len(ax) != 1:
            raise PathEnd()
        self.thread, self.flush = th[0], ax[0]
        b = [l[1] for l in self.h.fields.layers if l[0] == 'set' and isinstance(l[2], ListObj)]
        if len(b) != 1:
            raise Unsupported('the buffer of records')
        self.name = b[0]
        self.locked, self.lock = [], None
        self.hands, self.gone = [], []
        self.interfere = None
        self.changed = False
        vm.ghost['on_acquire'], vm.ghost['on_release'] = self.acquire, self.release
        self.watch()

    def buf(self):
        return field(self.vm, self.h, self.name)

    def put(self, segs):
        self.quiet = True
        l = ListObj(self.vm, segs)
        setfield(self.vm, self.h, self.name, l)
        self.quiet = False

    # the buffer is shared: who touches it, and when
    def watch(self):
        vm = self.vm
        self.quiet = False
        touch, ga, sa = vm.touch, vm.getattr, vm.setattr

        def touched(o, *a):
            if not self.quiet and isinstance(o, ListObj) and o is self.buf():
                self.changed = True
                vm.prove('the buffer is changed only under its lock', self.lock is None or self.lock in self.locked)
            return touch(o, *a)

        def getattr_(o, name, *a):
            if o is self.h and name == self.name and not self.quiet and self.lock is not None \
                    and self.lock not in self.locked and vm.choose(2):
                # while another thread sorts it, the list looks empty
                return ListObj(vm, [])
            return ga(o, name, *a)

        def setattr_(o, name, v):
            if o is self.h and name == self.name and not self.quiet:
                self.changed = True
                vm.prove('the buffer is changed only under its lock', self.lock is None or self.lock in self.locked)
            return sa(o, name, v)
        vm.touch, vm.getattr, vm.setattr = touched, getattr_, setattr_

    def acquire(self, vm, lock):
        self.locked.append(lock)
        if lock is self.lock and self.interfere is not None:
            self.interfere()

    def release(self, vm, lock):
        if lock in self.locked:
            self.locked.remove(lock)

    def record(self, hint='r'):
        vm = self.vm
        r = lib.new_ext(vm, 'logging.LogRecord')
        vm.dict_set(r.fields, 'created', vm.fresh('real', hint + '.created'))
        for n in ('levelno', 'process', 'thread', 'lineno'):
            vm.dict_set(r.fields, n, vm.fresh('int', hint + '.' + n))
        for n in ('relativeCreated', 'msecs'):
            vm.dict_set(r.fields, n, vm.fresh('real', hint + '.' + n))
        for n in ('name', 'levelname', 'threadName', 'processName', 'pathname', 'filename', 'module', 'funcName'):
            vm.dict_set(r.fields, n, vm.fresh('str', hint + '.' + n))
        return r

    def created(self, r):
        return field(self.vm, r, 'created').t

    def items(self):
        """Any number of records."""
        return self.vm.fresh_list('records', lambda vm: self.record(), src=('buffer',))

    def probe(self):
        """emit: what it leaves in the buffer, and the lock that protects the buffer."""
        vm = self.vm
        b, r = self.items(), self.record('new')
        self.put([b])
        taken = []
        held_change = []
        acq = vm.ghost['on_acquire']

        def on_acquire(vm, lock):
            taken.append(lock)
            acq(vm, lock)
        vm.ghost['on_acquire'] = on_acquire
        touch0 = vm.touch

        def touched(o, *a):
            if isinstance(o, ListObj) and o is self.buf():
                held_change.append(list(self.locked))
            return touch0(o, *a)
        vm.touch = touched
        setattr0 = vm.setattr

        def replaced(o, name, v):
            if o is self.h and name == self.name and not self.quiet:
                held_change.append(list(self.locked))
            return setattr0(o, name, v)
        vm.setattr = replaced

        def sort(vm, l, kw):
            segs = list(l.segs)
            if len(segs) > 1 and not any(isinstance(s, Splice) for s in segs):
                return MISSING
            x, y = self.record('one'), self.record('other')
            k = kw.get('key')
            if k is None:
                raise Unsupported('sorting records without a key')
            vm.assume(self.created(x) < self.created(y))
            kx, ky = vm.call(k, [x]), vm.call(k, [y])
            if vm.truth(kw.get('reverse', False)):
                kx, ky = ky, kx
            vm.prove('records are sorted by their creation time, the oldest first',
                     vm.truth(vm.py_ord('<', kx, ky)), Tup([kx, ky]))
            vm.touch(l)
            l.segs = [vm.fresh_list('sorted', lambda vm: self.record(), src=('sorted', segs))]
        vm.ghost['sort_hook'] = sort
        n = len(vm.trace)
        _, exc = attempt(vm, lambda: mcall(vm, self.h, 'emit', r))
        vm.prove('giving a record succeeds', exc is None, exc)
        vm.prove('giving a record prints nothing', not [e for e in vm.trace[n:] if e.kind == 'print'])
        segs = self.buf().segs
        self.sorted = False
        if len(segs) == 1 and isinstance(segs[0], Splice) and segs[0].src[0] == 'sorted':
            self.sorted = True
            segs = segs[0].src[1]
        vm.prove('a record given is buffered once, and no other is lost',
                 len(segs) == 2 and sum(s is b for s in segs) == 1 and sum(s is r for s in segs) == 1, segs)
        common = [l for l in taken if all(l in h for h in held_change)]
        vm.prove('the buffer is changed only under its lock', bool(held_change) and bool(common))
        if not common:
            raise PathEnd()
        self.lock = common[0]
        vm.ghost['on_acquire'] = acq
        vm.touch = touch0
        vm.setattr = setattr0
        del vm.ghost['sort_hook']
        self.put([])

    def printing(self, done):
        """The handler writes one record, or fails to."""
        vm = self.vm

        def emit(vm, self_, args, kw):
            r = args[0] if args else kw[0][2]
            vm.event('print', handler=self_, record=r, held=list(self.locked))
            done(r)
            if vm.choose(2):
                vm.throw(RecursionError)
        vm.extover['logging.StreamHandler.emit'] = emit


@harness('C20', 'giving a record')
def giving(vm):
    World(vm).probe()


# ------------------------------------------------------------------------- the printer, any number of records
class Printer:
    """Contracts of the loops of the printer: one that picks, and one that prints."""
    def __init__(self, w):
        self.w = w
        self.picked = None
        self.safe = None
        w.vm.loop_rules.extend([Pick(self), Print(self), Forever(self)])


class Forever(Rule):
    force = True

    def __init__(self, p):
        self.p = p

    def matches(self, vm, src, node):
        return src is None and isinstance(node.test, interp.ast.Constant)

    def assume_inv(self, vm, sp, env):
        self.p.picked = None
        self.p.w.put([self.p.w.items()])     # (whatever was given in the meantime)

    def check_iter(self, vm, sp, env, x, evs):
        vm.reach()
        self.p.end()


class Pick(Rule):
    """while <the first record is old enough>: move it from the buffer to a list of this thread"""
    force = True

    def __init__(self, p):
        self.p = p

    def matches(self, vm, src, node):
        return src is None and not isinstance(node.test, interp.ast.Constant)

    def init(self, vm, sp, env, locals_):
        self.lists = []
        w = self.p.w
        self.buffer = w.buf()
        self.before = list(self.buffer.segs)

    def havoc(self, vm, o):
        w = self.p.w
        if isinstance(o, ListObj):
            if o is not w.buf():
                self.lists.append((o, list(o.segs)))
            o.segs = [w.items()]
            if o is not w.buf():
                o.segs[0].src = ('picked',)
            return True
        return False

    def begin_iter(self, vm, env):
        w = self.p.w
        if len(self.lists) > 1 or any(s for o, s in self.lists):
            raise Unsupported('a loop that picks records into several lists')
        self.B = list(w.buf().segs)
        self.start = [(o, list(o.segs)) for o in vm.objs.values() if isinstance(o, ListObj)]

    def check_iter(self, vm, sp, env, x, evs):
        w = self.p.w
        if evs and any(e.kind in ('print', 'release', 'acquire') for e in evs):
            raise Unsupported('a loop of the printer')
        b = w.buf().segs
        ch = [(o, o.segs[len(s):]) for o, s in self.start if o is not w.buf() and len(o.segs) > len(s)]
        if len(ch) != 1 or len(ch[0][1]) != 1 or len(b) != 1:
            raise Unsupported('a loop of the printer')
        y = ch[0][1][0]
        h = getattr(y, 'loc', None)
        vm.prove('picking: the first record moves from the buffer to the batch',
                 not isinstance(y, Splice) and z3.And(self.B[0].t == L.cons(vm.lift(y), b[0].t)))
        vm.prove('picking: only records older than the holding delay',
                 w.created(y) + vm.as_real(field(vm, w.h, 'delay')) < vm.ghost['wall'])

    def assume_exit(self, vm, sp, env):
        pass


class Print(Rule):
    force = True

    def __init__(self, p):
        self.p = p

    def matches(self, vm, src, node):
        return src is not None and src[0] in ('picked', 'buffer')

    def init(self, vm, sp, env, locals_):
        self.p.on_print(sp)

    def elem(self, vm, sp):
        self.x = self.p.w.record('x')
        return self.x

    def check_iter(self, vm, sp, env, x, evs):
        ps = [e for e in evs if e.kind == 'print']
        vm.prove('printing: each record of the batch is printed, once', len(ps) == 1 and ps[0].record is self.x, ps)
        vm.prove('printing: by this handler', all(e.handler is self.p.w.h for e in ps))
        vm.prove('printing: while holding the lock that the flush waits for',
                 all(self.p.safe in e.held for e in ps), ps)


def flush_locks(w):
    """The locks that the flush holds when it takes the records from the buffer."""
    vm = w.vm
    w.put([])
    held = []
    reading = vm.getattr

    def getattr_(o, name, *a):
        if o is w.h and name == w.name and w.lock in w.locked:
            held.append(list(w.locked))
        return reading(o, name, *a)
    vm.getattr = getattr_
    n = len(vm.trace)
    attempt(vm, lambda: vm.call(w.flush, []))
    vm.getattr = reading
    if not held:
        raise Unsupported('the flush does not look at the buffer')
    return [l for l in held[0] if all(l in x for x in held) and l is not w.lock]


@harness('C20', 'printing')
def printing(vm):
    w = World(vm)
    w.probe()
    if not w.sorted:
        raise Unsupported('a buffer that is not kept in order')
    common = flush_locks(w)
    w.printing(lambda r: None)
    p = Printer(w)
    w.interfere = lambda: w.put([w.items()])
    printed = []

    def on_print(sp):
        printed.append(sp)
        vm.prove('printing: the batch is printed once', len(printed) == 1)
        vm.prove('printing: the flush waits for a batch that is being printed',
                 any(l in w.locked for l in common), (common, w.locked))
        p.safe = next((l for l in common if l in w.locked), None)
        if sp.src[0] != 'picked':
            raise Unsupported('what the printer prints')
    p.on_print = on_print

    def end():
        picked = [e for e in vm.trace if e.kind == 'loop' and isinstance(e.d.get('rule'), Pick)]
        if not picked:
            raise Unsupported('the printer picks no records')
        vm.prove('printing: a batch that was picked is printed', len(printed) == 1)
    p.end = end
    # the lock that protects the batch is held from picking to printing
    rel = vm.ghost['on_release']

    def release(vm, lock):
        if lock in common and any(e.kind == 'loop' and isinstance(e.d.get('rule'), Pick) for e in vm.trace):
            vm.prove('printing: the flush waits for a batch that is being printed', len(printed) == 1)
        rel(vm, lock)
    vm.ghost['on_release'] = release
    t = w.thread.ghost.get('target')
    r, exc = attempt(vm, lambda: vm.call(t, []) if t is not None else mcall(vm, w.thread, 'run'))
    vm.prove('printing: goes on', exc is None, exc)


@harness('C20', 'flushing')
def flushing(vm):
    w = World(vm)
    w.probe()
    if not w.sorted:
        raise Unsupported('a buffer that is not kept in order')
    w.printing(lambda r: None)
    p = Printer(w)
    all_ = []

    def interfere():
        all_.append(w.items())
        w.put([all_[-1]])
    w.interfere = interfere
    printed = []

    def on_print(sp):
        printed.append(sp)
        vm.prove('flushing: everything that was buffered is printed', len(all_) == 1 and sp.t == all_[0].t)
        vm.prove('flushing: ..and is not left in the buffer', not w.buf().segs, w.buf().segs)
        p.safe = next(iter(w.locked), None)
    p.on_print = on_print
    p.end = lambda: None
    rel = vm.ghost['on_release']

    def release(vm, lock):
        if lock is w.lock:
            vm.prove('flushing: nothing is left in the buffer', not w.buf().segs, w.buf().segs)
        rel(vm, lock)
    vm.ghost['on_release'] = release
    r, exc = attempt(vm, lambda: vm.call(w.flush, []))
    vm.prove('flushing: succeeds', exc is None, exc)
    if exc is None:
        vm.prove('flushing: everything is printed once', len(printed) == 1, printed)


# ------------------------------------------------------------------------- bounded: up to three records, any code
class Unroll(Rule):
    force = True
    unroll = 9

    def matches(self, vm, src, node):
        return src is None and not isinstance(node.test, interp.ast.Constant)


class Outer(Rule):
    force = True

    def __init__(self, start, end):
        self.start, self.end = start, end

    def matches(self, vm, src, node):
        return src is None and isinstance(node.test, interp.ast.Constant)

    def assume_inv(self, vm, sp, env):
        self.start()

    def check_iter(self, vm, sp, env, x, evs):
        vm.reach()
        self.end()


def bounded(vm, what):
    w = World(vm)
    w.probe()
    common = flush_locks(w)
    hands = []          # printed, in order
    w.printing(hands.append)
    rs = [w.record('r%d' % i) for i in range(vm.choose(4))]
    if w.sorted:
        for a, b in zip(rs, rs[1:]):
            vm.assume(w.created(a) <= w.created(b))
    given = list(rs)
    st = {'new': False, 'n': 0}

    def interfere():
        # another record may have been given since
        st['n'] += 1
        if st['n'] > 1 and not st['new'] and len(given) < 3 and vm.choose(2):
            st['new'] = True
            x = w.record('late')
            given.append(x)
            l = list(w.buf().segs) + [x]
            if w.sorted:
                i = vm.choose(len(l))
                l = l[:-1]
                l.insert(i, x)
                for a, b in zip(l, l[1:]):
                    vm.assume(w.created(a) <= w.created(b))
            w.put(l)
    w.interfere = interfere
    vm.loop_rules.append(Unroll())
    w.put(rs)

    def account(delay):
        left = list(w.buf().segs)
        if any(isinstance(x, Splice) for x in left):
            raise Unsupported('buffer')
        seen = hands + left
        vm.prove(what + ': no record is lost', all(any(x is y for y in seen) for x in given), (given, hands, left))
        vm.prove(what + ': no record is printed twice', len(seen) == len(given), (given, hands, left))
        for a, b in zip(hands, hands[1:]):
            vm.prove(what + ': in the order of creation', w.created(a) <= w.created(b))
        if w.sorted:
            for a, b in zip(left, left[1:]):
                vm.prove(what + ': what is left stays in order', w.created(a) <= w.created(b))
        if delay:
            for a in hands:
                vm.prove(what + ': only records older than the holding delay',
                         w.created(a) + vm.as_real(field(vm, w.h, 'delay')) < vm.ghost['wall'])
    return w, hands, given, common, account


@harness('C20', 'printing (bounded: up to three records)')
def printing3(vm):
    w, hands, given, common, account = bounded(vm, 'printing <= 3')
    rs = list(given)

    def start():
        w.put(rs)
    vm.loop_rules.append(Outer(start, lambda: account(True)))
    t = w.thread.ghost.get('target')
    n = len(vm.trace)
    r, exc = attempt(vm, lambda: vm.call(t, []) if t is not None else mcall(vm, w.thread, 'run'))
    vm.prove('printing <= 3: goes on', exc is None, exc)


@harness('C20', 'flushing (bounded: up to three records)')
def flushing3(vm):
    w, hands, given, common, account = bounded(vm, 'flushing <= 3')
    before = list(given)
    r, exc = attempt(vm, lambda: vm.call(w.flush, []))
    vm.prove('flushing <= 3: succeeds', exc is None, exc)
    account(False)
    vm.prove('flushing <= 3: everything given before is printed',
             all(any(x is y for y in hands) for x in before), (before, hands))


# ------------------------------------------------------------------------- the header
@harness('C20', 'header')
def header(vm):
    w = World(vm)
    r = w.record()
    names = {}
    th = vm.fresh('int', 'thread')
    vm.assume(th.t >= 0)
    vm.dict_set(r.fields, 'thread', th)
    for n in ('host_name', 'process_name', 'thread_name'):
        if vm.choose(2):
            names[n] = vm.fresh('str', n)
            vm.dict_set(r.fields, n, names[n])
        else:
            names[n] = vm.call(need(vm, TP + 'log.remote.get_' + n), [th] if n == 'thread_name' else [])
    cls = need(vm, H)

    def want(k):
        return vm.as_str(vm.concat(vm.concat(vm.concat(vm.concat(vm.concat(vm.concat(
            '[', vm.str_(k[0])), ':'), vm.str_(k[1])), ':'), vm.str_(k[2])), ']'))
    if 'thread_headers' in cls.ns and isinstance(cls.ns['thread_headers'], DictObj):
        # any records were printed before: their headers are known under host, process and thread
        def mat(vm, key, base):
            k = vm.norm(key)
            if not (isinstance(k, Tup) and len(k.segs) == 3):
                raise Unsupported('the key of a header')
            return S_str(want(k.segs))
        d = DictObj(vm)
        d.layers = [('base', MapBase(vm, 'headers', mat=mat))]
        vm.touch(cls)
        cls.ns['thread_headers'] = d
    for twice in range(2):
        s, exc = attempt(vm, lambda: mcall(vm, w.h, 'format', r))
        vm.prove('header: formatting succeeds', exc is None, exc)
        if exc is not None:
            return
        f = z3.Function('logging.format', V, SF)
        vm.prove('header: names the host, process and thread the record came from', z3.PrefixOf(
            want([names[n] for n in ('host_name', 'process_name', 'thread_name')]), vm.as_str(s)), s)
        vm.prove('header: the message follows', z3.SuffixOf(f(vm.lift(r)), vm.as_str(s)), s)


@harness('C20', 'header of another record')
def header2(vm):
    """Two records from anywhere, printed one after the other."""
    w = World(vm)
    cls = need(vm, H)
    for n, v in list(cls.ns.items()):
        if isinstance(v, DictObj):
            vm.touch(cls)
            cls.ns[n] = DictObj(vm)
    for i in range(2):
        r = w.record()
        vm.dict_set(r.fields, 'thread', 1)
        names = [vm.fresh('str', n + str(i)) for n in ('host', 'process', 'thread')]
        for n, v in zip(('host_name', 'process_name', 'thread_name'), names):
            vm.dict_set(r.fields, n, v)
        s, exc = attempt(vm, lambda: mcall(vm, w.h, 'format', r))
        vm.prove('header: formatting succeeds', exc is None, exc)
        if exc is not None:
            return
        t = z3.Concat(STR('['), names[0].t, STR(':'), names[1].t, STR(':'), names[2].t, STR(']'))
        vm.prove('header: names the host, process and thread the record came from', z3.PrefixOf(t, vm.as_str(s)), s)


STR = z3.StringVal
