"""C24: captured output is logged line by line, complete."""
from .base import *

ST = TP + 'log.stdio.'
LEVEL = {'stdout': 20, 'stderr': 30}
METHODS = {'debug': 10, 'info': 20, 'warning': 30, 'warn': 30, 'error': 40, 'exception': 40, 'critical': 50, 'fatal': 50}
NL = z3.StringVal('\n')


class Pipe:
    """Any stream of bytes: lines, perhaps a last one without newline, and the end."""
    def __init__(self, vm, name):
        self.o = lib.new_ext(vm, 'io.BufferedReader', on_readline=self.readline)
        self.name = name
        self.state = 'lines'        # lines | last (an unterminated line was read) | end
        self.read = []              # contents of the lines read

    def readline(self, vm, pipe):
        k = vm.choose(3) if self.state == 'lines' else 2
        if k == 2:
            self.state = 'end'
            return b''
        c = vm.fresh('bytes', self.name + '.line')
        vm.assume(z3.Not(z3.SuffixOf(NL, c.t)))
        decoders = (F_dec, decoder('backslashreplace'), decoder('surrogateescape'), decoder('replace'), decoder('ignore'))
        for f in decoders:
            vm.assume(z3.Not(z3.SuffixOf(NL, f(c.t))))
        if k == 0:
            line = Sym('bytes', z3.Concat(c.t, NL))
            # a newline is a character of its own, whatever stands before it
            vm.assume(F_isutf8(line.t) == F_isutf8(c.t))
            for f in decoders:
                vm.assume(f(line.t) == z3.Concat(f(c.t), NL))
        else:
            vm.assume(z3.Length(c.t) > 0)
            line = c
            self.state = 'last'
        self.read.append(c)
        return line


def decoder(errors):
    return z3.Function('utf8dec.' + errors, z3.StringSort(), z3.StringSort())


class Lines(Rule):
    force = True

    def __init__(self, w):
        self.w = w

    def matches(self, vm, src, node):
        return src is None or src[0] == 'calls'

    def assume_inv(self, vm, sp, env):
        for p in self.w.pipes.values():
            p.state = 'end' if p.state == 'end' else ('lines', 'last', 'end')[vm.choose(3)]
            p.read = []
        self.w.mark = len(vm.trace)

    def check_iter(self, vm, sp, env, x, evs):
        self.w.logged()


class World:
    def __init__(self, vm, addr=None):
        self.vm = vm
        self.pipes = {n: Pipe(vm, n) for n in ('stdout', 'stderr')}
        proc = lib.new_ext(vm, 'subprocess.Popen')
        for n, p in self.pipes.items():
            vm.dict_set(proc.fields, n, p.o)
        vm.dict_set(proc.fields, 'stdin', None)
        vm.dict_set(proc.fields, 'pid', vm.fresh('int', 'pid'))
        self.name = vm.fresh('str', 'name')
        self.addr = addr
        self.level = pick(vm, None, vm.fresh('int', 'level'))
        kw = {}
        if addr is not None or vm.choose(2):
            kw['log_addr'] = addr
        if self.level is not None or vm.choose(2):
            kw['log_level'] = self.level
        n = len(vm.trace)
        self.s = vm.call(need(vm, ST + 'StdioLogSender'), [proc, self.name], kws(**kw))
        self.events = vm.trace[n:]
        self.logger = field(vm, self.s, 'logger')
        self.threads = [e.thread for e in self.events if e.kind == 'thread.start' and
                        vm.entails(self.is_poller(e.thread))]
        self.current = None
        self.mark = len(vm.trace)

    def is_poller(self, th):
        c = getattr(th, 'cls', None)
        return isinstance(c, ClassVal) and c is need(self.vm, ST + 'PipePoller')

    def logged(self):
        """What has been read since the mark is exactly what has been logged since."""
        vm = self.vm
        p = self.pipes[self.current]
        logs = [e for e in vm.trace[self.mark:] if e.kind == 'log' and e.logger is self.logger]
        vm.prove('each line becomes one message', len(logs) == len(p.read), (p.read, logs))
        other = [q for q in self.pipes.values() if q is not p and q.read]
        vm.prove('each stream has a reader of its own', not other)
        for c, e in zip(p.read, logs):
            a = list(e.args.segs)
            if e.level == 'log':
                lv, a = a[0], a[1:]
            else:
                lv = METHODS[e.level]
            vm.prove(self.current + ': logged at its level', eq(vm, lv, LEVEL[self.current]), lv)
            m = a[0]
            if a[1:]:
                m = lib.pct_format(vm, m, Tup(a[1:]))
            if vm.kind(m) != 'str':
                vm.prove(self.current + ': the message is text', False, m)
                continue
            pre = vm.concat(vm.concat('[', self.name), '.%s] ' % self.current)
            got = vm.as_str(m)
            valid = got == vm.as_str(vm.concat(pre, S_str(F_dec(c.t))))
            vm.prove(self.current + ': the message is the prefix and the line, unchanged',
                     z3.Implies(F_isutf8(c.t), valid), m)
            lossless = z3.Or([got == vm.as_str(vm.concat(pre, S_str(decoder(e)(c.t))))
                              for e in ('backslashreplace', 'surrogateescape')])
            vm.prove(self.current + ': bytes that are not text lose nothing', z3.Implies(z3.Not(F_isutf8(c.t)), lossless), m)


@harness('C24', 'captured output')
def captured(vm):
    w = World(vm)
    vm.prove('both streams are read', len(w.threads) == 2, w.threads)
    seen = []
    for i, th in enumerate(w.threads):
        pass
    if not w.threads:
        return
    th = w.threads[vm.choose(len(w.threads))]
    # the stream this thread reads
    mine = [n for n, p in w.pipes.items() if any(v is p.o for v in values(vm, th))]
    if len(mine) != 1:
        raise Unsupported('the stream of a poller')
    w.current = mine[0]
    vm.prove('the two streams have different readers', len({id(v) for t in w.threads for v in values(vm, t)
             if any(v is p.o for p in w.pipes.values())}) == 2)
    vm.loop_rules.append(Lines(w))
    w.mark = len(vm.trace)
    r, exc = attempt(vm, lambda: mcall(vm, th, 'run'))
    vm.prove('reading ends without an error', exc is None, exc)
    if exc is None:
        vm.prove('reading ends only at the end of the stream', w.pipes[w.current].state == 'end')
        w.logged()


def values(vm, o):
    return [l[2] for l in o.fields.layers if l[0] == 'set']


@harness('C24', 'where it goes')
def where(vm):
    addr = pick(vm, None, vm.fresh('str', 'addr'))
    if addr is not None:
        vm.assume(addr.t != z3.StringVal(''))
    w = World(vm, addr)
    con = [e for e in w.events if e.kind == 'connect']
    att = [e for e in w.events if e.kind == 'addHandler']
    if addr is None:
        vm.prove('without an address: messages go where log messages go', not con and not att and
                 propagate(vm, w.logger) is True, (con, att))
    else:
        vm.prove('with an address: connected to that server', len(con) == 1 and eq(vm, con[0].addr, addr), con)
        vm.prove('with an address: the logger sends there', len(att) == 1 and att[0].logger is w.logger and
                 is_sender(vm, att[0].handler), att)
        vm.prove('with an address: and nowhere else', propagate(vm, w.logger) is False, propagate(vm, w.logger))
    if w.level is not None:
        lv = [e.level for e in w.events if e.kind == 'setLevel' and e.logger is w.logger]
        lv = lv[-1] if lv else vm.dict_get(w.logger.fields, 'level')
        vm.prove('the logger has the level asked for', lv is not MISSING and eq(vm, lv, w.level), lv)
    # the output of another process
    w2 = World(vm, pick(vm, None, vm.fresh('str', 'addr2')))
    a, b = w.logger, w2.logger
    vm.prove('each process has a logger of its own', a is not b)
    if a is not b:
        na, nb = (vm.as_str(x.ghost['name']) for x in (a, b))
        dot = z3.StringVal('.')
        for t in itos_terms(na) + itos_terms(nb):
            # decimal representations have no dots, and differ for different numbers
            vm.assume(F_stoi(t) == t.arg(0))
            vm.assume(z3.Not(z3.Contains(t, dot)))
        vm.prove('..that inherits nothing from the one of another process', z3.And(
            na != nb, z3.Not(z3.PrefixOf(z3.Concat(na, dot), nb)), z3.Not(z3.PrefixOf(z3.Concat(nb, dot), na))), (na, nb))


def itos_terms(t):
    out = [t] if z3.is_app(t) and t.decl().eq(F_itos) else []
    for c in t.children():
        out += itos_terms(c)
    return out


def propagate(vm, lg):
    v = vm.dict_get(lg.fields, 'propagate')
    return True if v is MISSING else v


def is_sender(vm, h):
    return isinstance(h, InstObj) and h.cls is need(vm, TP + 'log.remote.LogSender')
