"""C18: stopping a child process really ends it."""
from .base import *

PR = TP + 'process.'


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


class Waiting(Rule):
    """Waiting needs no invariant beyond what it never changes (start time, timeout, process)."""
    def matches(self, vm, src, node):
        return src is None


def client(vm, replies=True):
    """The client of the handle; its requests are C11's and C14's subject."""
    c = InstObj(vm, need(vm, TP + 'client.RPCClient'))
    c.fields.meta = 'fields'
    vm.dict_set(c.fields, 'address', text_bytes(vm, 'addr'))

    def close(vm, f, args, kw):
        vm.event('close_server', client=args[0], args=Tup(args[1:]), kw=kw)
        k = vm.choose(4)
        if k == 0:
            return True
        if k == 1:
            return False
        if k == 2:
            return vm.fresh('any', 'closed')
        x = vm.sym_exc('close')
        vm.ghost['close_exc'] = x
        raise PyExc(x)
    vm.contracts[TP + 'client.RPCClient.close_server'] = close
    return c


def quirk(vm, p):
    """communicate() on a process with closed pipes may raise (see process.py)"""
    c = vm.choose(3)
    if c:
        vm.event('quirk')
        vm.throw((ValueError, AttributeError)[c - 1])


def child(vm):
    vm.ghost['clock'] = vm.fresh('real', 'begin').t
    vm.loop_rules.append(Waiting())
    vm.ghost['proc_quirks'] = quirk
    vm.assumption('Popen.poll/wait/communicate tell the truth about the process; an exit code is never None')
    p = vm.call(ExtCls('subprocess.Popen'), [Tup(['prog'])])
    sl = pick(vm, None, 'logger')
    if sl is not None:
        sl = InstObj(vm, need(vm, TP + 'log.stdio.StdioLogSender'))
    c = client(vm)
    h = vm.call(need(vm, PR + 'ChildProcess'), [p, c, vm.fresh('str', 'name'), vm.fresh('bool', 'qt'), sl])
    return h, p, c


def timeout_of(vm):
    k = vm.choose(2)
    t = vm.fresh(('real', 'int')[k], 'timeout')
    return t


def rc(p):
    return p.ghost['rc']


def is_timeout(vm, exc):
    return exc_isa(vm, exc, TimeoutError)


def check_wait(vm, p, r, exc, start, timeout, what):
    """Postcondition of waiting for the process, from `start` on."""
    if exc is None:
        vm.prove(what + ': returns only after the process has exited', rc(p) is not None, r)
        if rc(p) is not None:
            vm.prove(what + ': returns the exit code', eq(vm, r, rc(p)), r)
        return
    vm.prove(what + ': raises only TimeoutError', is_timeout(vm, exc), exc)
    vm.prove(what + ': a process that was seen to exit is not waited for any more', rc(p) is None, exc)
    if timeout is not None:
        vm.prove(what + ': gives up only after the timeout', vm.ghost['clock'] >= start + vm.as_real(timeout), timeout)


@harness('C18', 'wait')
def wait(vm):
    h, p, c = child(vm)
    if vm.choose(2):
        mcall(vm, h, 'poll')
    start = vm.ghost['clock']
    t = pick(vm, 'given', 'default')
    if t == 'given':
        t = timeout_of(vm)
        r, exc = attempt(vm, lambda: mcall(vm, h, 'wait', t))
    else:
        t = None
        r, exc = attempt(vm, lambda: mcall(vm, h, 'wait'))
    check_wait(vm, p, r, exc, start, t, 'wait')
    bad = [e for e in vm.trace if e.kind in ('proc.kill', 'proc.terminate', 'proc.signal', 'kill', 'close_server')]
    vm.prove('wait: only waits', not bad, bad)


@harness('C18', 'wait without limit')
def wait_for_ever(vm):
    h, p, c = child(vm)
    r, exc = attempt(vm, lambda: mcall(vm, h, 'wait', None))
    vm.prove('wait(None): gives the exit code and nothing else', exc is None and rc(p) is not None and eq(vm, r, rc(p)), (r, exc))


@harness('C18', 'poll')
def poll(vm):
    h, p, c = child(vm)
    r, exc = attempt(vm, lambda: mcall(vm, h, 'poll'))
    vm.prove('poll: raises nothing', exc is None, exc)
    if rc(p) is None:
        vm.prove('poll: None while the process runs', r is None, r)
    else:
        vm.prove('poll: the exit code of an exited process', eq(vm, r, rc(p)), r)
    vm.prove('poll: waits for nothing', not any(e.kind in ('proc.wait', 'proc.communicate', 'sleep') for e in vm.trace))


def dead_first(vm, h, p):
    """Has the process exited already, as far as anyone can tell?"""
    mcall(vm, h, 'poll')
    return rc(p) is not None


@harness('C18', 'kill')
def kill(vm):
    h, p, c = child(vm)
    dead = dead_first(vm, h, p)
    mark = len(vm.trace)
    start = vm.ghost['clock']
    r, exc = attempt(vm, lambda: mcall(vm, h, 'kill'))
    ev = vm.trace[mark:]
    sig = [e for e in ev if e.kind in ('proc.kill', 'proc.terminate', 'proc.signal', 'kill')]
    if dead:
        vm.prove('kill: does nothing to an exited process', not sig and exc is None, (sig, exc))
        vm.prove('kill: ..and does not wait for it', not any(e.kind in ('sleep', 'proc.wait', 'proc.communicate') for e in ev))
        return
    vm.prove('kill: asks the server nothing', not any(e.kind == 'close_server' for e in ev))
    if exc is None:
        vm.prove('kill: returns only after the process has exited', rc(p) is not None, r)
    else:
        vm.prove('kill: raises only TimeoutError', is_timeout(vm, exc), exc)
    if rc(p) is not None and not sig:
        # it was seen to have exited before anything was sent
        return
    vm.prove('kill: kills this process', len(sig) >= 1 and all(e.kind == 'proc.kill' and e.proc is p or (
        e.kind == 'proc.signal' and e.proc is p and e.sig == 9) for e in sig), sig)
    if exc is None:
        vm.prove('kill: gives the exit code', eq(vm, r, rc(p)), r)


@harness('C18', 'stop')
def stop(vm):
    h, p, c = child(vm)
    dead = dead_first(vm, h, p)
    mark = len(vm.trace)
    t = pick(vm, 'given', 'default')
    args = [timeout_of(vm)] if t == 'given' else []
    start = vm.ghost['clock']
    r, exc = attempt(vm, lambda: mcall(vm, h, 'stop', *args))
    ev = vm.trace[mark:]
    cl = [(i, e) for i, e in enumerate(ev) if e.kind == 'close_server']
    sig = [e for e in ev if e.kind in ('proc.kill', 'proc.terminate', 'proc.signal', 'kill')]
    vm.prove('stop: sends no signals', not sig, sig)
    if dead:
        vm.prove('stop: does nothing for an exited process', not cl and exc is None, (cl, exc))
        return
    if not cl:
        vm.prove('stop: asks the server of a running process to close', rc(p) is not None and exc is None, (r, exc))
        return
    vm.prove('stop: asks its own server, once', len(cl) == 1 and cl[0][1].client is c, cl)
    if 'close_exc' in vm.ghost:
        vm.prove('stop: a failing request is an error', exc is vm.ghost['close_exc'], exc)
        return
    # the reply
    exited = [i for i, e in enumerate(ev) if e.kind == 'proc.exited']
    if exc is None:
        vm.prove('stop: returns only after the process has exited', rc(p) is not None, r)
        if rc(p) is not None:
            vm.prove('stop: gives the exit code', eq(vm, r, rc(p)), r)
    else:
        ok = is_timeout(vm, exc) or exc_isa(vm, exc, AssertionError)
        vm.prove('stop: raises only AssertionError or TimeoutError', ok, exc)
        if is_timeout(vm, exc) and args:
            vm.prove('stop: gives up only after the timeout', vm.ghost['clock'] >= start + vm.as_real(args[0]))


@harness('C18', 'refused close')
def refused(vm):
    """A close request answered with anything but True is an error; True never is."""
    h, p, c = child(vm)
    ans = pick(vm, True, False, None, 'any')
    if ans == 'any':
        ans = vm.fresh('any', 'answer')
        vm.assume(vm.lift(ans) != vm.lift(True))
        vm.assume(vm.lift(ans) != vm.lift(1))
    vm.contracts[TP + 'client.RPCClient.close_server'] = lambda vm, f, a, k: vm.event('close_server') and None or ans
    r, exc = attempt(vm, lambda: mcall(vm, h, 'stop'))
    if not any(e.kind == 'close_server' for e in vm.trace):
        return
    if ans is True:
        vm.prove('stop: an accepted request is no error', exc is None or is_timeout(vm, exc), exc)
    else:
        vm.prove('stop: a refused request is an error', exc is not None and exc_isa(vm, exc, AssertionError), (ans, exc))


# ------------------------------------------------------------------------------- daemons
def daemon(vm):
    c = client(vm)
    pid = vm.fresh('int', 'pid')
    vm.assume(pid.t > 0)
    h = vm.call(need(vm, PR + 'DaemonProcess'), [c, vm.fresh('str', 'name'), vm.fresh('bool', 'qt'), pid])
    return h, pid, c


@harness('C18', 'daemon stop')
def daemon_stop(vm):
    h, pid, c = daemon(vm)
    vm.extover['os.kill'] = lambda vm, a, k: vm.event('kill', pid=a[0], sig=a[1]) and None
    ans = pick(vm, True, False, None, 'any')
    if ans == 'any':
        ans = vm.fresh('any', 'answer')
        vm.assume(vm.lift(ans) != vm.lift(True))
    fails = pick(vm, False, True)
    x = vm.sym_exc('close')

    def close(vm, f, args, kw):
        vm.event('close_server', client=args[0])
        if fails:
            raise PyExc(x)
        return ans
    vm.contracts[TP + 'client.RPCClient.close_server'] = close
    r, exc = attempt(vm, lambda: mcall(vm, h, 'stop'))
    cl = [e for e in vm.trace if e.kind == 'close_server']
    vm.prove('daemon stop: asks its own server, once', len(cl) == 1 and cl[0].client is c, cl)
    if fails:
        vm.prove('daemon stop: a failing request is an error', exc is x, exc)
    elif ans is True:
        vm.prove('daemon stop: succeeds when the server closes', exc is None, exc)
    else:
        vm.prove('daemon stop: a refused close is an error', exc is not None and exc_isa(vm, exc, AssertionError), (ans, exc))
    vm.prove('daemon stop: sends no signals', not any(e.kind == 'kill' for e in vm.trace))


@harness('C18', 'daemon kill')
def daemon_kill(vm):
    h, pid, c = daemon(vm)

    def os_kill(vm, args, kw):
        vm.event('kill', pid=args[0], sig=args[1])
        k = vm.choose(3)
        if k:
            vm.throw((ProcessLookupError, PermissionError)[k - 1])
    vm.extover['os.kill'] = os_kill
    r, exc = attempt(vm, lambda: mcall(vm, h, 'kill'))
    vm.prove('daemon kill: raises nothing, also when it is gone already', exc is None, exc)
    k = [e for e in vm.trace if e.kind == 'kill']
    vm.prove('daemon kill: kills exactly the daemon', len(k) == 1 and eq(vm, k[0].pid, pid), k)
    vm.prove('daemon kill: with a signal it cannot ignore', len(k) == 1 and eq(vm, k[0].sig, 9), k)
    vm.prove('daemon kill: asks the server nothing', not any(e.kind == 'close_server' for e in vm.trace))


@harness('C18', 'kill by pid')
def by_pid(vm):
    pid = vm.fresh('int', 'pid')
    fails = pick(vm, False, True)

    def os_kill(vm, args, kw):
        vm.event('kill', pid=args[0], sig=args[1])
        if fails:
            vm.throw(ProcessLookupError)
    vm.extover['os.kill'] = os_kill
    r, exc = attempt(vm, lambda: vm.call(need(vm, TP + 'util.kill_pid'), [pid]))
    k = [e for e in vm.trace if e.kind == 'kill']
    vm.prove('kill_pid: one signal to exactly this process', len(k) == 1 and eq(vm, k[0].pid, pid) and eq(vm, k[0].sig, 9), k)
    vm.prove('kill_pid: a process that does not exist is an error', (exc is not None) == fails, exc)
