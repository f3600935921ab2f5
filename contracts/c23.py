"""C23: searching, killing and checking processes touches exactly those it was asked about."""
from .base import *
import re

UT = TP + 'util.'
STR = z3.StringVal
isdigit = z3.Function('isdigit', z3.StringSort(), z3.BoolSort())


def strip_fn(n):
    return z3.Function('str.%s.0' % n, z3.StringSort(), z3.StringSort())


# ------------------------------------------------------------------------- find_procs
class Ps:
    """Output of ps: perhaps a header line, any processes, and the end."""
    def __init__(self, vm):
        self.vm, self.header, self.calls = vm, True, 0
        vm.extover['subprocess.check_output'] = lambda vm, a, k: self.run(vm, a, k)

    def run(self, vm, args, kw):
        vm.trust('ps -e -ww -o pid,command prints a header and a line for every process: its pid, right '
                 'aligned, a space, and its command line, without newlines')
        a = vm.norm(args[0])
        d = dict((l[1], l[2]) for l in kw)
        if isinstance(a, (ListObj, Tup)) and all(isinstance(x, str) for x in a.segs):
            words = list(a.segs)
        elif isinstance(a, str) and d.get('shell') is True:
            words = a.split()
        else:
            raise Unsupported('command')
        if words[:1] not in (['ps'], ['/bin/ps'], ['/usr/bin/ps']):
            raise Unsupported('command %s' % words)
        fmt, every, wide = None, False, 0
        it = iter(words[1:])
        for w in it:
            w = {'-eo': '-e -o', '-Ao': '-A -o', '-ef': 'f', '--format': '-o', 'axo': 'ax -o', '-wweo': '-e -ww -o',
                 '-ewwo': '-e -ww -o', 'axwwo': '-e -ww -o', 'auxww': 'f'}.get(w, w).split()
            for x in w:
                if x in ('-e', '-A', 'ax', '-ax'):
                    every = True
                elif x in ('-ww', 'ww'):
                    wide = 2
                elif x in ('-w', 'w'):
                    wide += 1
                elif x in ('-o', 'o'):
                    fmt = next(it, None)
                else:
                    raise Unsupported('ps option ' + x)
        m = re.fullmatch(r'pid(=?),(command|args|cmd)(=?)', fmt or '')
        if not m:
            raise Unsupported('ps format %s' % fmt)
        vm.prove('search: every process is looked at', every)
        vm.prove('search: whole command lines are looked at', wide >= 2)
        self.header = not (m.group(1) and m.group(3))
        self.calls += 1
        if d.get('text') or d.get('universal_newlines') or d.get('encoding'):
            return vm.fresh('str', 'ps')
        out = vm.fresh('bytes', 'ps')
        vm.assume(F_isutf8(out.t))
        return out

    def line(self, vm):
        self.pid = None
        k = vm.choose(3 if self.header else 2)
        if k == 0:
            return ''
        if k == 2:
            return '    PID COMMAND'
        pid, cmd, pad = vm.fresh('int', 'pid'), vm.fresh('str', 'cmd'), vm.fresh('str', 'pad')
        vm.assume(pid.t > 0)
        n = F_itos(pid.t)
        vm.assume(F_stoi(n) == pid.t)
        vm.assume(F_isint(n))
        vm.assume(isdigit(n))
        vm.assume(z3.And(n != STR(''), *[z3.Not(z3.Contains(n, STR(c))) for c in ' \t\n']))
        vm.assume(z3.InRe(pad.t, z3.Star(z3.Re(' '))))
        vm.assume(z3.And(cmd.t != STR(''), z3.Not(z3.Contains(cmd.t, STR('\n')))))
        rest = z3.Concat(n, STR(' '), cmd.t)
        t = z3.Concat(pad.t, rest)
        white = z3.Or([z3.SuffixOf(STR(c), cmd.t) for c in ' \t'])
        k = vm.ghost['known_strings'] = {}

        def known(f, x, r):
            x = strip_fn(f)(x)
            k[x.get_id()] = (x, r)
        known('lstrip', t, rest)
        vm.assume(z3.Not(white))
        known('strip', t, rest)
        known('rstrip', t, t)
        known('rstrip', rest, rest)
        self.pid, self.cmd = pid, cmd
        return S_str(t)


@harness('C23', 'search')
def search(vm):
    ps = Ps(vm)
    text = vm.fresh('str', 'text')
    vm.assume(z3.And(text.t != STR(''), z3.Not(z3.Contains(text.t, STR('\n')))))

    def check(vm, x, evs, ch):
        if ps.pid is None:
            vm.prove('search: finds only processes', not ch, ch)
            return
        has = z3.Contains(ps.cmd.t, text.t)
        n = [v for o, vs in ch for v in vs]
        vm.prove('search: a process is found if its command line contains the text', z3.Implies(has, z3.BoolVal(len(n) == 1)), n)
        vm.prove('search: ..and only then', z3.Implies(z3.Not(has), z3.BoolVal(not n)), n)
        for v in n:
            v = vm.norm(v)
            if not (isinstance(v, Tup) and len(v.segs) == 2):
                vm.prove('search: reports pid and command', False, v)
                continue
            vm.prove('search: reports its pid', vm.kind(v.segs[0]) == 'int' and eq(vm, v.segs[0], ps.pid), v)
            vm.prove('search: reports its command', vm.kind(v.segs[1]) == 'str' and
                     z3.Contains(vm.as_str(v.segs[1]), ps.cmd.t), v)
    g = Gather(lambda vm, src, node: src is not None and src[0] == 'split', ps.line, check)
    vm.loop_rules.append(g)
    r, exc = attempt(vm, lambda: vm.call(need(vm, UT + 'find_procs'), [text]))
    vm.prove('search: succeeds', exc is None, exc)
    if exc is None:
        vm.prove('search: looks once', ps.calls == 1)
        if not g.gathered(vm, r):
            raise Unsupported('the result of find_procs is not gathered by one loop')
    vm.prove('search: sends no signals', not [e for e in vm.trace if e.kind == 'kill'])


# ------------------------------------------------------------------------- killing
class Kill:
    """os.kill: succeeds, or the process is gone."""
    def __init__(self, vm, others=False):
        self.ok, self.others = {}, others
        vm.extover['os.kill'] = self.kill

    def kill(self, vm, args, kw):
        k = vm.choose(2)
        vm.event('kill', pid=args[0], sig=args[1], ok=not k)
        if k:
            vm.throw(ProcessLookupError)


def one_kill(vm, what, evs, pid):
    """Exactly one deadly signal, to this process."""
    ks = [e for e in evs if e.kind == 'kill']
    vm.prove(what + ': every one is killed', len(ks) == 1, ks)
    for e in ks:
        vm.prove(what + ': nobody else is killed', eq(vm, e.pid, pid), e.pid)
        vm.prove(what + ': with a signal that cannot be ignored', eq(vm, e.sig, 9), e.sig)
    return len(ks) == 1 and ks[0].ok


@harness('C23', 'kill by search')
def kill_procs(vm):
    Kill(vm)
    text = vm.fresh('str', 'text')
    wait = pick(vm, None, vm.fresh('real', 'wait'), vm.fresh('int', 'waiti'))
    calls = []
    # (the searches are decided on their own: find_procs is cut at its contract)
    first = vm.choose(2)
    second = vm.choose(2)
    vm.ghost['clock'] = vm.fresh('real', 'now').t

    def find(vm, f, args, kw):
        b = dict((l[1], l[2]) for l in kw)
        s = args[0] if args else b.get('search')
        vm.prove('kill by search: looks for the text given', eq(vm, s, text), s)
        n = len(calls)
        calls.append(vm.ghost['clock'])
        if (first, second)[min(n, 1)] == 0:
            return ListObj(vm, [])
        sp = vm.fresh_list('procs%d' % n, None, src=('found', n))
        vm.assume(sp.t != L.nil)
        return ListObj(vm, [sp])
    vm.contracts[UT + 'find_procs'] = find
    item = {}

    def elem(vm):
        item['pid'], item['line'] = vm.fresh('int', 'pid'), vm.fresh('str', 'line')
        return Tup([item['pid'], item['line']])
    box = {}

    def match(vm, src, node):
        if src is not None and src[0] == 'found':
            box['n'] = src[1]
            return True
        return False

    def check(vm, x, evs, ch):
        if box['n'] == 0:
            vm.prove('kill by search: nobody is killed before the grace period',
                     not any(e.kind == 'kill' for e in evs))
            raise Unsupported('a loop over the first search')
        ok = one_kill(vm, 'kill by search', evs, item['pid'])
        n = [v for o, vs in ch for v in vs]
        vm.prove('kill by search: reports those that were killed, only', len(n) == int(ok), (n, ok))
        for v in n:
            vm.prove('kill by search: reports pid and command', eq(vm, v, Tup([item['pid'], item['line']])), v)
    g = Gather(match, elem, check)
    vm.loop_rules.append(g)
    args = [text]
    if wait is not None:
        vm.assume(wait.t >= 0)
        args.append(wait)
    n0 = len(vm.trace)
    r, exc = attempt(vm, lambda: vm.call(need(vm, UT + 'kill_procs'), args))
    vm.prove('kill by search: succeeds', exc is None, exc)
    if exc is not None:
        return
    ks = [e for e in vm.trace[n0:] if e.kind == 'kill']
    loops = has_loop_event(vm, ['kill'], n0)
    if not first:
        vm.prove('kill by search: nothing found: nothing done', not ks and not loops)
        vm.prove('kill by search: nothing found: nothing reported', empty(vm, r), r)
        return
    vm.prove('kill by search: searches again', len(calls) == 2, calls)
    if len(calls) == 2:
        w = z3.RealVal(5) if wait is None else vm.as_real(wait)
        vm.prove('kill by search: after the grace period', calls[1] >= calls[0] + w)
    if not second:
        vm.prove('kill by search: all gone: nothing done', not ks and not loops)
        vm.prove('kill by search: all gone: nothing reported', empty(vm, r), r)
    else:
        vm.prove('kill by search: only what was found is killed', not ks, ks)
        if not g.lists or not g.gathered(vm, r):
            raise Unsupported('the result of kill_procs is not gathered by one loop')


def empty(vm, r):
    r = vm.norm(r)
    return isinstance(r, (ListObj, Tup)) and not r.segs


@harness('C23', 'checking pids')
def pids_dead(vm):
    Kill(vm)
    sp = vm.fresh_list('pids', None, src=('pids',))
    item = {}

    def elem(vm):
        item['pid'] = vm.fresh('int', 'pid')
        return item['pid']

    def check(vm, x, evs, ch):
        ok = one_kill(vm, 'check', evs, item['pid'])
        n = [v for o, vs in ch for v in vs]
        vm.prove('check: names those that were alive, only', len(n) == int(ok), (n, ok))
        for v in n:
            vm.prove('check: names them', eq(vm, v, item['pid']), v)
    g = Gather(lambda vm, src, node: src is not None and src[0] == 'pids', elem, check)
    vm.loop_rules.append(g)
    seq = ListObj(vm, [sp]) if vm.choose(2) else Tup([sp])
    n0 = len(vm.trace)
    r, exc = attempt(vm, lambda: vm.call(need(vm, UT + 'assert_pids_dead'), [seq]))
    if not g.lists:
        raise Unsupported('the pids still alive are not gathered by one loop')
    killed = g.lists[0]
    vm.prove('check: the list starts empty', not g.before[id(killed)])
    t = killed.segs[0].t
    if exc is None:
        vm.prove('check: passes only if nobody was alive', t == L.nil)
    else:
        vm.prove('check: fails only if somebody was alive', t != L.nil)
        vm.prove('check: fails with AssertionError', exc_isa(vm, exc, AssertionError), exc)
        names(vm, 'check: the error names them', exc, killed)


def names(vm, what, exc, lst):
    m = vm.str_(exc)
    vm.prove(what, z3.Contains(vm.as_str(m), vm.as_str(vm.str_(lst))), m)


@harness('C23', 'checking one pid')
def pid_dead(vm):
    Kill(vm)
    pid = vm.fresh('int', 'pid')
    n0 = len(vm.trace)
    r, exc = attempt(vm, lambda: vm.call(need(vm, UT + 'assert_pid_dead'), [pid]))
    ok = one_kill(vm, 'check one', vm.trace[n0:], pid)
    vm.prove('check one: fails exactly if it was alive', (exc is not None) == ok, exc)
    if exc is not None:
        vm.prove('check one: fails with AssertionError', exc_isa(vm, exc, AssertionError), exc)
        vm.prove('check one: the error names it', z3.Contains(vm.as_str(vm.str_(exc)), vm.as_str(vm.str_(pid))))


# ------------------------------------------------------------------------- the cleanup context
@harness('C23', 'cleanup')
def cleanup(vm):
    Kill(vm)
    c = vm.call(need(vm, UT + 'ProcessCleaner'), [])
    r = mcall(vm, c, '__enter__')
    vm.prove('cleanup: the context is itself', r is c, r)
    # any number of processes registered before
    st = [(k, v) for s, k, v in c.fields.layers if s == 'set' and isinstance(v, ListObj) and not v.segs]
    if len(st) != 1:
        raise Unsupported('the registered processes')
    lst = st[0][1]
    reg = []

    def add():
        name, pid = vm.fresh('str', 'name'), vm.fresh('int', 'pid')
        vm.assume(pid.t > 0)
        if vm.choose(2):
            mcall(vm, c, 'add', name, pid)
        else:
            p = lib.new_ext(vm, 'process')
            vm.dict_set(p.fields, 'name', name)
            vm.dict_set(p.fields, 'pid', pid)
            mcall(vm, c, 'add', p)
        reg.append((name, pid))
    add()
    if len(lst.segs) != 1:
        raise Unsupported('the registered processes')
    form = vm.norm(lst.segs[0])
    if not (isinstance(form, Tup) and len(form.segs) == 2):
        raise Unsupported('how a process is registered')
    vm.prove('cleanup: registered under its name and pid', same(vm, form, reg[0]), form)
    order = 0 if vm.kind(form.segs[0]) == 'str' else 1
    item = {}

    def elem(vm):
        n, p = vm.fresh('str', 'name'), vm.fresh('int', 'pid')
        vm.assume(p.t > 0)
        item['name'], item['pid'] = n, p
        return Tup([n, p] if order == 0 else [p, n])

    def check(vm, x, evs, ch):
        ok = one_kill(vm, 'cleanup', evs, item['pid'])
        n = [v for o, vs in ch for v in vs]
        vm.prove('cleanup: remembers those that were alive, only', len(n) == int(ok), (n, ok))
        for v in n:
            vm.prove('cleanup: by name', eq(vm, v, item['name']), v)
    g = Gather(lambda vm, src, node: src is not None and src[0] == 'registered', elem, check)
    vm.loop_rules.append(g)
    lst.segs = [vm.fresh_list('registered', None, src=('registered',))]
    failed = vm.choose(3)
    if failed == 0:
        ex = (None, None, None)
    else:
        x = vm.sym_exc('body') if failed == 1 else vm.sym_exc('body2')
        ex = (vm.fresh('any', 'type'), x, vm.fresh('any', 'tb'))
        vm.assume(vm.lift(ex[0]) != vm.lift(None))
    r, exc = attempt(vm, lambda: mcall(vm, c, '__exit__', *ex))
    if not g.lists:
        raise Unsupported('the processes still alive are not gathered by one loop')
    fl = g.lists[0]
    vm.prove('cleanup: the list starts empty', not g.before[id(fl)])
    t = fl.segs[0].t
    if failed:
        vm.prove('cleanup: raises nothing if the body failed', exc is None, exc)
    elif exc is None:
        vm.prove('cleanup: passes only if nobody was alive', t == L.nil)
    else:
        vm.prove('cleanup: fails only if somebody was alive', t != L.nil)
        vm.prove('cleanup: fails with AssertionError', exc_isa(vm, exc, AssertionError), exc)
        names(vm, 'cleanup: the error names them', exc, fl)
    if exc is None:
        vm.prove('cleanup: the error of the body is not swallowed', z3.Not(vm.truth_f(r)), r)


def same(vm, form, reg):
    return z3.Or(z3.And(eq(vm, form.segs[0], reg[0]), eq(vm, form.segs[1], reg[1])),
                 z3.And(eq(vm, form.segs[0], reg[1]), eq(vm, form.segs[1], reg[0])))
