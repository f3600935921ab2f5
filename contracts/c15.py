"""C15: waiting for a result ends when it should."""
from .base import *
from . import c01, c02, c13

SLICE = z3.RealVal(50)        # documented Qt polling slice, ms


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def secs(vm, x):
    x = vm.num(x)
    return z3.ToReal(vm.as_int(x)) if vm.kind(x) == 'int' else vm.as_real(x)


class Setting:
    """A client, the server of its thread, and whatever the client prepared for earlier servers."""
    def __init__(self, vm, reentrant, now):
        wire_dumps(vm, may_fail=False)
        self.vm, self.reentrant = vm, reentrant
        self.tid = this_thread(vm)
        self.A = mk_server(vm, clients=False, namespace=False, proxies=False)
        self.B = mk_server(vm, clients=False, namespace=False, proxies=False)
        self.Q = vm.call(need(vm, TP + 'qt_server.QtRPCServer'), [], [])
        for s in (self.A, self.B):
            c02.frames_in(vm, s)
            # whoever it has heard from before
            setfield(vm, s, '_clients', DictObj(vm, [('base', MapBase(vm, 'clients', keyinv=lambda k: V.is_bytes(k)))]))
        self.c = mk_client(vm, reentrant=reentrant)
        general_futures(vm, self.c)
        self.servers = {0: None, 1: self.A, 2: self.Q, 3: self.B}
        self.now = self.servers[now]
        self.put(self.now if vm.choose(2) else None)

    def put(self, s):
        vm = self.vm
        c13.set_table(vm, DictObj(vm, [('set', self.tid, s)] if s is not None else []))

    def arbitrary(self):
        """Some server was here when the client waited before; now is the one here now."""
        vm = self.vm
        if self.reentrant:
            self.put(self.servers[vm.choose(3)])
            mcall(vm, self.c, '_get_poller')
        self.put(self.now)

    def messages(self):
        """Whatever the server of the client may send."""
        vm = self.vm

        def make(vm, d):
            c = vm.choose(2)
            rid = vm.fresh('int', 'rid')
            if c == 0:
                return DictObj(vm, kws(action='return', req_id=rid, rval=vm.fresh('any', 'rval'), error=None))
            return DictObj(vm, kws(action='return', req_id=rid, rval=None,
                                   error=Tup([vm.fresh('str', 'type'), ListObj(vm, [vm.fresh('str', 'tb')])])))
        wire_loads(vm, make, may_fail=False)
        self.c.ghost['sock'].ghost['on_recv'] = lambda vm, s: vm.fresh('bytes', 'data')


class Waiting(Rule):
    """Loop of a wait: the future, the messages and the servers of the thread are arbitrary."""
    force = True

    def __init__(self, st, fut, timeout, t0, mark):
        self.st, self.fut, self.timeout, self.t0, self.mark = st, fut, timeout, t0, mark

    def matches(self, vm, src, node):
        return src is None

    def havoc(self, vm, o):
        # the client is brought into any reachable state by assume_inv
        return o is self.st.c.fields

    def assume_inv(self, vm, sp, env):
        n = vm.fresh('real', 'later')
        vm.assume(n.t >= vm.ghost['clock'])
        vm.ghost['clock'] = n.t
        vm.touch(self.fut, 'ghost')
        self.fut.ghost['state'] = 'unknown'
        general_futures(vm, self.st.c)
        for s in (self.st.A, self.st.B):
            setfield(vm, s, '_closed', False)
        self.st.arbitrary()
        self.begin = len(vm.trace)

    def check_iter(self, vm, sp, env, x, evs):
        steps(vm, self, evs)
        serving(vm, self.st, evs)


def start_of(vm, mark):
    cl = events(vm, 'clock', mark)
    return cl[0].t.t if cl else vm.ghost['clock']


def steps(vm, w, evs):
    """No blocking step waits longer than what is left."""
    for e in evs:
        if e.kind == 'recv' and e.sock is w.st.c.ghost['sock'] and not e.noblock:
            ms = vm.as_real(vm.num(e.timeout)) if vm.kind(vm.num(e.timeout)) == 'real' else z3.ToReal(vm.as_int(vm.num(e.timeout)))
            unlimited = ms < 0
        elif e.kind == 'poll':
            if e.timeout is None:
                ms, unlimited = z3.RealVal(0), z3.BoolVal(True)
            else:
                ms = secs(vm, e.timeout)
                unlimited = ms < 0
        else:
            continue
        qt = w.st.reentrant and w.st.now is w.st.Q
        if w.timeout is None:
            ok = z3.Or(unlimited, ms >= 0) if not qt else z3.And(z3.Not(unlimited), ms <= SLICE)
        else:
            left = (secs(vm, w.timeout) - (e.at - start_of(vm, w.mark))) * 1000
            ok = z3.And(z3.Not(unlimited), z3.Or(ms <= 0, ms <= left))
            if qt:
                ok = z3.And(z3.Not(unlimited), z3.Or(ms <= left, ms <= SLICE))
        vm.prove('no blocking step waits past the remaining time', ok, e)


def serving(vm, st, evs):
    """What an iteration of the wait does for the server of this thread."""
    csock = st.c.ghost['sock']
    proc = [e for e in evs if e.kind == 'process']
    qt = [e for e in evs if e.kind == 'qt.processEvents']
    rec = [e for e in evs if e.kind == 'recvd']
    for e in evs:
        if e.kind == 'recv' and e.sock is not csock:
            vm.prove('a server socket is read only when a request is there', e.ready is True, e)
    if not st.reentrant or st.now is None:
        vm.prove('without a server to serve, or non-reentrant, nothing is served', not proc and not qt, evs)
        return
    if st.now is st.Q:
        vm.prove('Qt events are processed while waiting', len(qt) >= 1)
        return
    S = st.now.ghost['sock']
    for e in evs:
        if e.kind == 'recv' and e.sock is csock:
            vm.prove('waiting never blocks on the reply alone', eq(vm, e.timeout, 0) if not e.noblock else True, e)
    polls = [e for e in evs if e.kind == 'polled']
    vm.prove('waiting listens for requests too', len(polls) >= 1 and all(
        any(x is S for x in p.socks) and any(x is csock for x in p.socks) for p in evs if p.kind == 'poll'), evs)
    for e in polls:
        if any(x is S for x in e.ready) and not any(x is csock for x in e.ready):
            vm.prove('a request that has arrived is served', len(proc) == 1 and
                     any(r.sock is S for r in rec), (rec, proc))
    vm.prove('requests are only served for the server of this thread', all(r.sock in (S, csock) for r in rec), rec)
    vm.prove('every request read is served', len(proc) == len([r for r in rec if r.sock is S]), (rec, proc))


def wait(vm, reentrant, now, call, broken=False):
    st = Setting(vm, reentrant, now)
    vm.ghost['clock'] = vm.fresh('real', 't0').t
    st.messages()
    fut, exc = attempt(vm, lambda: mcall(vm, st.c, 'send', 'ping', sync='async'))
    if exc is not None or not isinstance(fut, InstObj):
        raise Unsupported('async request: %r' % (exc or fut,))
    if fut.ghost.get('state') is None:
        raise Unsupported('future without state')
    fut.ghost['state'] = 'unknown'
    t = (lambda: None, lambda: vm.fresh('real', 'timeout'), lambda: vm.fresh('int', 'timeout'))[vm.choose(3)]()
    t0 = vm.ghost['clock']
    mark = len(vm.trace)
    if broken:
        vm.touch(st.c.ghost['sock'], 'ghost')
        st.c.ghost['sock'].ghost['closed'] = True
    rule = Waiting(st, fut, t, t0, mark)
    vm.loop_rules.insert(0, rule)
    r, exc = attempt(vm, lambda: call(vm, st, fut, t))
    evs = vm.trace[rule.begin:] if hasattr(rule, 'begin') else vm.trace[mark:]
    steps(vm, rule, evs)
    g = fut.ghost
    vm.prove('the wait happens where messages are read', not events(vm, 'future.block', mark), evs)
    if exc is None:
        vm.prove('returns only once the result is there', g['state'] == 'result', g)
        vm.prove('returns the result', r is g['value'] or eq(vm, r, g['value']), (r, g))
    elif exc is g.get('value'):
        vm.prove('raises the error of the request only once it is there', g['state'] == 'exception', g)
    elif broken and not exc_isa(vm, exc, TimeoutError):
        pass                # the connection is broken: any other error will do
    else:
        vm.prove('gives up only with TimeoutError', exc_isa(vm, exc, TimeoutError), exc)
        vm.prove('without a timeout it never gives up', t is not None, exc)
        if t is not None:
            vm.prove('gives up only when the timeout has elapsed',
                     vm.ghost['clock'] - t0 >= secs(vm, t) - z3.RealVal('0.001'), (t, vm.ghost['clock']))
        vm.prove('gives up only while the result is missing', g['state'] in ('pending', 'unknown'), g)


NOW = ('no server', 'a server', 'a Qt server', 'another server')
for _re, _now in [(True, 0), (True, 1), (True, 2), (True, 3), (False, 0), (False, 1), (False, 2)]:
    @harness('C15', 'waiting, %s, %s' % ('reentrant' if _re else 'not reentrant', NOW[_now]))
    def _(vm, _re=_re, _now=_now):
        wait(vm, _re, _now, lambda vm, st, fut, t: mcall(vm, fut, 'result', t) if t is not None or vm.choose(2)
             else mcall(vm, fut, 'result'))


for _re, _now in [(True, 0), (False, 1)]:
    @harness('C15', 'waiting on a broken connection, %s' % NOW[_now])
    def _(vm, _re=_re, _now=_now):
        wait(vm, _re, _now, lambda vm, st, fut, t: mcall(vm, fut, 'result', t), broken=True)


@harness('C15', 'synchronous requests')
def sync(vm):
    """A synchronous request waits for its own future, with the timeout it was given (10 s)."""
    wire_dumps(vm, may_fail=False)
    c = mk_client(vm)
    general_futures(vm, c)
    future_outcome(vm)
    k = vm.choose(4)
    t = (lambda: vm.fresh('real', 'timeout'), lambda: None, lambda: MISSING, lambda: MISSING)[k]()
    kw = kws(**({} if t is MISSING else {'timeout': t}), **({} if k == 3 else {'sync': 'sync'}))
    mark = len(vm.trace)
    r, exc = attempt(vm, lambda: vm.call(vm.getattr(c, 'send'), ['ping'], kw))
    w = events(vm, 'future.result', mark)
    if not vm.prove('a synchronous request waits once', len(w) == 1, w):
        return
    e = w[0]
    rid = ctr(vm.getattr(e.fut, 'call_id'))
    vm.prove('..for its own result', rid == c.ghost['nrid'].t, e)
    want = 10 if t is MISSING else t
    vm.prove('..for the given time', e.timeout is None if want is None else
             (e.timeout is not None and secs(vm, e.timeout) == secs(vm, want)), e)
    d = e.d
    if 'value' in d:
        vm.prove('..and returns the result', exc is None and eq(vm, r, d['value']), r)
    elif 'exc' in d:
        vm.prove('..or raises its error', exc is d['exc'], exc)
    else:
        vm.prove('..or TimeoutError', exc is not None and exc_isa(vm, exc, TimeoutError), exc)


@harness('C15', 'closed servers')
def closed(vm):
    """A server that processed its close request reads nothing more."""
    wire_dumps(vm, may_fail=False)
    s = mk_server(vm, clients=False, namespace=False, proxies=False)
    if vm.choose(2):
        mcall(vm, s, 'run_lazy')
    wire_loads(vm, lambda vm, d: None, may_fail=False)
    msg = DictObj(vm, kws(req_id=vm.fresh('int', 'rid'), action='close', return_type='auto', ser_type=SER[vm.choose(2)], opts=b''))
    _, exc = attempt(vm, lambda: mcall(vm, s, '_process_one', text_bytes(vm, 'caller'), msg))
    mark = len(vm.trace)
    for _ in range(2):
        _, exc = attempt(vm, lambda: mcall(vm, s, '_read_and_process_one'))
        vm.prove('closed: reading is refused', exc is not None and exc_isa(vm, exc, RuntimeError), exc)
    vm.prove('closed: nothing is read', not events(vm, 'recv', mark))
    vm.prove('closed: not running', vm.neg(zb(vm.truth_f(mcall(vm, s, 'running')))))
