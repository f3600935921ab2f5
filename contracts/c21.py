"""C21: a timer keeps its interval, its limit and its stop.

Rely/guarantee at lock granularity.  The timer thread (Timer._run) is verified against any start()
and stop() calls of other threads at every point where it does not hold the lock (acquiring it,
reading shared state without it, sleeping, running the callback); start() and stop() are verified to
be what that assumes."""
from .base import *

TM = TP + 'timer.Timer'
STATE = ('running', 'thread', '_last_call_time', '_call_count')


def bool_t(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x.t


class World:
    """A timer, what other threads do to it, and what the specification says about it."""
    def __init__(self, vm, callback=None, start=None):
        self.vm = vm
        self.quiet = 1          # no interference while > 0
        self.held = 0
        self.limit = pick(vm, None, 'int')
        if self.limit is not None:
            self.limit = vm.fresh('int', 'limit')
        self.interval = vm.fresh('real', 'interval')
        cb = callback(self) if callback else Native(self.callback, 'callback')
        kw = kws(limit=self.limit) if self.limit is not None or vm.choose(2) else kws()
        if start is not None:
            kw = kw + kws(start=start)
        vm.ghost['clock'] = vm.fresh('real', 'now').t
        self.t = vm.call(need(vm, TM), [cb, self.interval], kw)
        for f in STATE:
            if vm.dict_get(self.t.fields, f) is MISSING:
                raise Unsupported('timer state %s not found' % f)
        vm.ghost['on_acquire'] = self.acquire
        vm.ghost['on_release'] = self.release
        self.getattr = vm.getattr
        vm.getattr = self.read
        sleep = lib.EXT['time.sleep']

        def sleeping(vm, args, kw):
            sleep(vm, args, kw)
            self.others()
            self.point()
        vm.extover['time.sleep'] = sleeping
        # the specification
        self.active = False     # started, and not stopped since
        self.n = z3.IntVal(0)   # callbacks started since start()
        self.c = None           # when the last one of those started
        self.T = None           # the thread that runs the timer
        self.replaced = None    # state left behind by a later timer thread
        self.failed = None      # exception raised by the callback
        self.epoch = 0          # calls of start()
        self.point()

    def get(self, f):
        return field(self.vm, self.t, f)

    def set(self, **k):
        for f, v in k.items():
            setfield(self.vm, self.t, f, v)

    # ------------------------------------------------------------------ points of interference
    def acquire(self, vm, lock):
        self.held += 1
        if self.held == 1:
            self.others()

    def release(self, vm, lock):
        self.held -= 1
        self.point()

    def point(self):
        """What the timer thread goes on to do is decided by the state at this point."""
        self.at = self.active, self.epoch

    def read(self, o, name, *a):
        if o is self.t and name in STATE and not self.held:
            self.others()
            if name == 'running':
                self.at = self.active, self.at[1]
        return self.getattr(o, name, *a)

    def others(self):
        """Other threads may have called start() and stop() any number of times."""
        vm = self.vm
        if self.quiet:
            return
        if self.replaced is not None:
            return
        started = vm.choose(2)
        if self.T is not None and self.get('thread') is self.T:
            if started:
                r = vm.fresh('bool', 'running')
                self.set(running=r, _last_call_time=None, _call_count=0)
                self.active, self.n, self.c = r, z3.IntVal(0), None
                self.epoch += 1
            else:
                r = vm.fresh('bool', 'running')
                vm.assume(z3.Implies(r.t, bool_t(self.get('running'))))
                self.active = Sym('bool', z3.And(bool_t(self.active), r.t))
                self.set(running=Sym('bool', z3.And(bool_t(self.get('running')), r.t)))
        elif started and self.get('thread') is None:
            # a new timer thread, at any point of its life
            t2 = vm.fresh('opaque', 'thread2')
            self.set(thread=t2, running=vm.fresh('bool', 'running2'),
                     _last_call_time=pick(vm, None, vm.fresh('real', 'last2')), _call_count=vm.fresh('int', 'count2'))
            self.replaced = [self.get(f) for f in STATE]

    # ------------------------------------------------------------------ the callback
    def callback(self, vm, args, kw):
        vm.prove('callback: is called without arguments', not args and not kw, (args, kw))
        self.started()
        self.others()
        tick(vm, 'done')
        if vm.choose(2):
            self.failed = vm.sym_exc('callback')
            raise PyExc(self.failed)
        return None

    def started(self):
        vm = self.vm
        active, epoch = self.at
        vm.prove('no callback starts once stop() has returned', bool_t(active), 'stopped')
        vm.prove('no callback starts before start()', self.T is not None and self.replaced is None)
        vm.prove('the callback may itself start and stop the timer (no lock is held)', self.held == 0)
        if epoch != self.epoch:
            return              # it was already being started when start() was called again
        if self.limit is not None:
            vm.prove('the callback is never run more often than the limit', self.n + 1 <= self.limit.t, self.n)
        if self.c is not None:
            vm.prove('callbacks start at least an interval apart', vm.ghost['clock'] >= self.c + self.interval.t, self.c)
        self.n = self.n + 1
        self.c = vm.ghost['clock']

    # ------------------------------------------------------------------ running the thread
    def begin(self):
        """start() as verified in its own harness gives us the thread; returns its target."""
        vm = self.vm
        n = len(vm.trace)
        mcall(vm, self.t, 'start')
        st = events(vm, 'thread.start', n)
        if len(st) != 1:
            raise Unsupported('start() starts %d threads' % len(st))
        self.T = st[0].thread
        if self.get('thread') is not self.T:
            raise Unsupported('the timer thread is not kept in .thread')
        self.active = True
        vm.ghost['current_thread'] = self.T
        return self.T

    def general(self):
        """Any state in which the timer thread may be at the head of its loop."""
        vm = self.vm
        r = vm.fresh('bool', 'running')
        self.active = r
        self.failed = None
        self.point()
        count = vm.fresh('int', 'count')
        last = pick(vm, None, vm.fresh('real', 'last'))
        if last is not None and vm.choose(2):
            self.n, self.c = vm.fresh('int', 'n').t, vm.fresh('real', 'c').t
            vm.assume(z3.And(self.c <= last.t, self.c <= vm.ghost["clock"], self.n >= 1))
        else:
            self.n, self.c = z3.IntVal(0), None
        vm.assume(z3.And(count.t >= self.n, z3.Implies(r.t, count.t == self.n)))
        self.set(thread=self.T, running=r, _last_call_time=last, _call_count=count)

    def invariant(self, when):
        vm = self.vm
        vm.prove(when + ': the timer belongs to its thread', self.get('thread') is self.T)
        n = self.get('_call_count')
        n = vm.as_int(vm.num(n))
        vm.prove(when + ': callbacks are counted', z3.And(n >= self.n, z3.Implies(bool_t(self.active), n == self.n)), n)
        lc = self.get('_last_call_time')
        if self.c is not None:
            vm.prove(when + ': the time of the last callback is known', lc is not None and
                     vm.as_real(lc) >= self.c, lc)
        vm.prove(when + ': running means started and not stopped', z3.Implies(bool_t(self.get('running')), bool_t(self.active)))
        vm.prove(when + ': a started timer is running', z3.Implies(bool_t(self.active), bool_t(self.get('running'))))


class Loop(Rule):
    force = True

    def __init__(self, w):
        self.w = w

    def matches(self, vm, src, node):
        return src is None

    def init(self, vm, sp, env, locals_):
        self.w.quiet += 1
        self.w.invariant('entering the loop')
        self.w.quiet -= 1

    def havoc(self, vm, o):
        return o is self.w.t.fields or o is self.w.t or isinstance(o, InstObj)

    def assume_inv(self, vm, sp, env):
        self.w.general()

    def check_iter(self, vm, sp, env, x, evs):
        self.w.quiet += 1
        self.w.invariant('after a round')
        self.w.quiet -= 1


def run(vm, w):
    th = w.begin()
    vm.loop_rules.append(Loop(w))
    w.quiet = 0
    r, exc = attempt(vm, lambda: vm.call(th.ghost['target'], list(th.ghost['args'].segs)))
    w.quiet = 1
    return r, exc


def ended(vm, w, exc):
    """The timer thread has ended."""
    if w.replaced is not None:
        now = [w.get(f) for f in STATE]
        vm.prove('a thread that ends leaves a timer alone that was started again',
                 all(a is b for a, b in zip(now, w.replaced)), now)
    else:
        vm.prove('reports itself not running once it has ended', vm.neg(bool_t(w.get('running'))), w.get('running'))
        mark = len(vm.trace)
        r, e2 = attempt(vm, lambda: mcall(vm, w.t, 'start'))
        st = events(vm, 'thread.start', mark)
        vm.prove('starting again after it ended makes it run again', e2 is None and len(st) == 1 and
                 bool_t(w.get('running')), (e2, st))
        if exc is None:
            why = z3.Not(bool_t(w.active))
            if w.limit is not None:
                why = z3.Or(why, w.n >= w.limit.t)
            vm.prove('ends only when stopped, at its limit, or when the callback fails', why)
    if exc is not None:
        vm.prove('ends with an error only if the callback failed', exc is w.failed, exc)


@harness('C21', 'timer thread')
def thread(vm):
    w = World(vm)
    r, exc = run(vm, w)
    ended(vm, w, exc)


@harness('C21', 'timer thread with a proxy as callback')
def proxy_thread(vm):
    """The proxy used is one of the timer thread; getting it may fail."""
    def made(w):
        def call(vm, f, args, kw):
            return w.callback(vm, args[1:], kw)
        vm.contracts[TP + 'proxy.ObjectProxy.__call__'] = call

        def copy(vm, f, args, kw):
            if vm.choose(2):
                w.failed = vm.sym_exc('copy')
                raise PyExc(w.failed)
            return vm.proxy2
        p = mk_proxy(vm, options=False)
        vm.proxy2 = mk_proxy(vm, options=False)
        vm.contracts[TP + 'proxy.ObjectProxy._copy'] = copy
        return p
    w = World(vm, made)
    r, exc = run(vm, w)
    ended(vm, w, exc)


def any_state(w, quiet):
    """Any state of a timer: without a thread and not running, or with one."""
    vm = w.vm
    th = None
    if vm.choose(2):
        mcall(vm, w.t, 'start')
        th = w.get('thread')
        if th is None:
            raise Unsupported('the timer thread is not kept in .thread')
    w.set(running=vm.fresh('bool', 'running') if th is not None else False,
          _last_call_time=pick(vm, None, vm.fresh('real', 'last')), _call_count=vm.fresh('int', 'count'))
    w.T = th
    return th


class Others(World):
    """Seen from start() and stop(): the timer thread may progress or end, others may start it."""
    def others(self):
        vm = self.vm
        if self.quiet:
            return
        k = vm.choose(3)
        if k == 0:
            return
        th = self.get('thread')
        if k == 1:
            self.set(thread=None, running=False)
        else:
            if th is None:
                th = self.T2
            self.set(thread=th, running=vm.fresh('bool', 'running'))
        self.set(_last_call_time=pick(vm, None, vm.fresh('real', 'last')), _call_count=vm.fresh('int', 'count'))

    def threads(self):
        """The other thread that a concurrent start() may have made."""
        vm = self.vm
        mcall(vm, self.t, 'start')
        self.T2 = self.get('thread')
        self.set(thread=None, running=False)


@harness('C21', 'start')
def start(vm):
    w = Others(vm)
    w.threads()
    any_state(w, True)
    mark = len(vm.trace)
    state = {}

    def release(vm, lock):
        w.held -= 1
        if not w.held:
            state['at'] = [w.get(f) for f in STATE]
            state['th'] = [e.thread for e in events(vm, 'thread.start', mark)]

    def acquire(vm, lock):
        w.acquire(vm, lock)
        state['had'] = w.get('thread')
    vm.ghost['on_release'], vm.ghost['on_acquire'] = release, acquire
    w.quiet = 0
    r, exc = attempt(vm, lambda: mcall(vm, w.t, 'start'))
    w.quiet = 1
    vm.prove('start: raises nothing', exc is None, exc)
    if not state:
        raise Unsupported('start() does not use the lock')
    running, th, last, count = state['at']
    vm.prove('start: the timer is running', running is True, running)
    vm.prove('start: the interval is kept from now on', last is None, last)
    vm.prove('start: callbacks are counted from now on', eq(vm, count, 0), count)
    st = [e.thread for e in events(vm, 'thread.start', mark)]
    if state['had'] is not None:
        vm.prove('start: a timer that has a thread keeps it', th is state['had'] and not st, (th, st))
    else:
        vm.prove('start: a timer without thread gets one', len(st) == 1 and st[0] is th, (th, st))
        vm.prove('start: ..before others see it', len(state['th']) == 1)
    vm.prove('start: releases the lock', w.held == 0)


@harness('C21', 'stop')
def stop(vm):
    w = Others(vm)
    w.threads()
    any_state(w, True)
    state = {}
    mark = len(vm.trace)

    def acquire(vm, lock):
        w.acquire(vm, lock)
        state['had'] = [w.get(f) for f in STATE[1:]]

    def release(vm, lock):
        w.held -= 1
        state['at'] = [w.get(f) for f in STATE]
    vm.ghost['on_release'], vm.ghost['on_acquire'] = release, acquire
    w.quiet = 0
    r, exc = attempt(vm, lambda: mcall(vm, w.t, 'stop'))
    w.quiet = 1
    vm.prove('stop: raises nothing', exc is None, exc)
    if not state:
        raise Unsupported('stop() does not use the lock')
    vm.prove('stop: the timer is not running', state['at'][0] is False, state['at'])
    vm.prove('stop: leaves everything else alone', all(a is b for a, b in zip(state['at'][1:], state['had'])), state)
    vm.prove('stop: releases the lock', w.held == 0)
    vm.prove('stop: waits for nothing', not any(e.kind in ('thread.start', 'thread.join', 'sleep') for e in vm.trace[mark:]))


@harness('C21', 'creation')
def creation(vm):
    s = pick(vm, None, True, False)
    mark = len(vm.trace)
    w = World(vm, start=s)
    st = events(vm, 'thread.start', mark)
    vm.prove('creation: starts only if asked to', len(st) == (1 if s else 0), st)
    vm.prove('creation: running if started', bool_t(w.get('running')) if s else vm.neg(bool_t(w.get('running'))), w.get('running'))
    vm.prove('creation: has the interval given', vm.as_real(field(vm, w.t, 'interval')) == w.interval.t, field(vm, w.t, 'interval'))
    l = field(vm, w.t, 'limit')
    vm.prove('creation: has the limit given', l is None if w.limit is None else eq(vm, l, w.limit), l)
    if s:
        th = st[0].thread
        vm.prove('creation: the thread is the one of the timer', w.get('thread') is th)
