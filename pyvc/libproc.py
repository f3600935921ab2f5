"""Trusted contracts of process starting: subprocess.Popen, fork, the argument parser, the shell and
the python command line."""
import re as _re
import z3
from .core import *
from .lib import calls_until, ext, extm, extp, cls, EXT, EXT_CONST, P, kwd, SS
from .libext import snap, sysconst, _logger
from .interp import class_lookup, IterVal

EXT_CONST['sys.argv'] = lambda vm: vm.ghost['sys.argv']

# ---------------------------------------------------------------- subprocess.Popen
_popen = cls('subprocess.Popen')
POPEN_ARGS = ('args bufsize executable stdin stdout stderr preexec_fn close_fds shell cwd env '
              'universal_newlines startupinfo creationflags restore_signals start_new_session '
              'pass_fds').split()


@extm(_popen, '__init__')
def _(vm, self, args, kw):
    d = dict(zip(POPEN_ARGS, args))
    d.update(kwd(kw))
    self.ghost.update(popen=d, rc=None, killed=False)
    n = vm.fresh('int', 'pid')
    vm.assume(n.t > 0)
    vm.dict_set(self.fields, 'pid', n)
    vm.dict_set(self.fields, 'returncode', None)
    for s in ('stdin', 'stdout', 'stderr'):
        v = d.get(s)
        vm.dict_set(self.fields, s, InstObj(vm, ExtCls('io.BufferedReader')) if v == -1 and isinstance(v, int) else None)
    vm.event('popen', proc=self, args=d)


def exit_now(vm, p):
    """the process is seen to have exited"""
    if p.ghost['rc'] is None:
        vm.world.journal(p)
        p.ghost['rc'] = vm.fresh('int', 'exitcode')
        vm.dict_set(p.fields, 'returncode', p.ghost['rc'])
        vm.event('proc.exited', proc=p)
    return p.ghost['rc']


def proc_time(vm, least=None):
    last = vm.ghost.get('clock')
    if last is not None:
        n = vm.fresh('real', 'proc.at')
        vm.assume(n.t >= last)
        if least is not None:
            vm.assume(n.t >= last + least)
        vm.ghost['clock'] = n.t


@extm(_popen, 'poll')
def _(vm, self, args, kw):
    vm.event('proc.poll', proc=self)
    if self.ghost['rc'] is not None:
        return self.ghost['rc']
    if vm.choose(2) == 0:
        return exit_now(vm, self)
    return None


def _await(vm, self, to, what):
    vm.event(what, proc=self, timeout=to, at=vm.ghost.get('clock'))
    q = vm.ghost.get('proc_quirks')
    if q is not None and what == 'proc.communicate':
        q(vm, self)
    if self.ghost['rc'] is not None:
        return self.ghost['rc']
    if to is not None and vm.choose(2) == 1:
        t = vm.num(to)
        if vm.kind(t) not in ('int', 'real'):
            vm.throw(TypeError)
        proc_time(vm, vm.as_real(t))
        raise PyExc(vm.mkexc(ExtCls('subprocess.TimeoutExpired'), 'cmd', to))
    proc_time(vm)
    return exit_now(vm, self)


@extm(_popen, 'wait')
def _(vm, self, args, kw):
    return _await(vm, self, args[0] if args else kwd(kw).get('timeout'), 'proc.wait')


@extm(_popen, 'communicate')
def _(vm, self, args, kw):
    i, t = P(vm, args, kw, 'input= timeout=')
    _await(vm, self, None if t is MISSING else t, 'proc.communicate')
    return Tup([None, None])


@extm(_popen, 'kill')
def _(vm, self, args, kw):
    vm.event('proc.kill', proc=self, dead=self.ghost['rc'] is not None)
    self.ghost['killed'] = True


@extm(_popen, 'terminate')
def _(vm, self, args, kw):
    vm.event('proc.terminate', proc=self)


@extm(_popen, 'send_signal')
def _(vm, self, args, kw):
    vm.event('proc.signal', proc=self, sig=args[0])


@extm(_popen, '__enter__')
def _(vm, self, args, kw):
    return self


# ---------------------------------------------------------------- fork and descriptors
@ext('os.fork')
def _(vm, args, kw):
    """Both processes go on from here: the parent with the pid of the child, the child with 0."""
    h = vm.ghost.get('on_fork')
    child = h(vm) if h is not None else vm.choose(2) == 0
    vm.event('fork', child=child)
    if child:
        return 0
    n = vm.fresh('int', 'child')
    vm.assume(n.t > 0)
    return n


for _n in ('setsid', 'dup2', 'umask', 'chdir'):
    EXT['os.' + _n] = lambda vm, a, k, _n=_n: vm.event(_n, args=Tup(a)) and None
for _n in ('faulthandler.enable', 'sys.stdout.flush', 'sys.stderr.flush', 'sys.stdin.close'):
    EXT[_n] = lambda vm, a, k: None
EXT_CONST['sys.stdout'] = Ext('sys.stdout')
EXT_CONST['sys.stderr'] = Ext('sys.stderr')

_pipe = cls('io.BufferedReader')


@extm(_pipe, 'readline')
def _(vm, self, args, kw):
    h = self.ghost.get('on_readline')
    if h is None or args:
        raise Unsupported('readline')
    x = h(vm, self)
    vm.event('readline', pipe=self, line=x)
    return x


@extm(_pipe, '__iter__')
def _(vm, self, args, kw):
    return IterVal([calls_until(vm, vm.getattr(self, 'readline'), b'')])


_file = cls('io.TextIOWrapper')


@ext('builtins.open')
def _(vm, args, kw):
    o = InstObj(vm, _file)
    o.ghost['path'] = args[0]
    o.ghost['fd'] = vm.fresh('int', 'fd')
    vm.event('open', path=args[0], mode=args[1] if len(args) > 1 else kwd(kw).get('mode', 'r'), file=o)
    return o


@extm(_file, 'fileno')
def _(vm, self, args, kw):
    return self.ghost['fd']


@extm(_file, 'close', 'flush')
def _(vm, self, args, kw):
    return None


# ---------------------------------------------------------------- words of a command line
F_quote = z3.Function('shlex.quote', SS, SS)
SAFE = _re.compile(r'[\w@%+=:,./-]+\Z', _re.ASCII)


@ext('shlex.quote')
def _(vm, args, kw):
    s = vm.norm(args[0])
    if isinstance(s, str):
        import shlex
        return shlex.quote(s)
    if vm.kind(s) != 'str':
        vm.throw(TypeError)
    return Sym('str', F_quote(s.t))


@ext('shlex.join')
def _(vm, args, kw):
    out = ''
    for i, x in enumerate(vm.iter_segs(args[0])):
        if isinstance(x, Splice):
            raise Unsupported('shlex.join of unknown words')
        out = vm.concat(vm.concat(out, ' ' if i else ''), EXT['shlex.quote'](vm, [x], []))
    return out


def pieces(t):
    """A string term as literal and non-literal parts."""
    out = []

    def go(x):
        if z3.is_string_value(x):
            s = unescape(x.as_string())
            if out and isinstance(out[-1], str):
                out[-1] += s
            elif s:
                out.append(s)
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            for c in x.children():
                go(c)
        else:
            out.append(x)
    go(t)
    return out


def unescape(s):
    return _re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)


def word(parts):
    ts = [z3.StringVal(p) if isinstance(p, str) else p for p in parts]
    if not ts:
        return ''
    if len(parts) == 1 and isinstance(parts[0], str):
        return parts[0]
    return Sym('str', ts[0] if len(ts) == 1 else z3.Concat(*ts))


def shell_words(vm, line, plain=()):
    """What a POSIX shell makes of a command line: its words, or None when it depends on characters
    of unquoted text (plain: texts known to contain no special characters)."""
    import shlex
    if isinstance(line, str):
        return shlex.split(line)
    words, cur, lit = [], [], False
    for p in pieces(vm.as_str(line)):
        if isinstance(p, str):
            for tok in _re.findall(r'\s+|\S+', p):
                if tok.isspace():
                    if cur:
                        words.append(cur)
                    cur = []
                elif SAFE.match(tok):
                    cur = cur + [tok]
                else:
                    return None
        elif z3.is_app(p) and p.decl().eq(F_quote):
            cur = cur + pieces(p.arg(0))
        elif any(z3.eq(p, x) for x in plain) or (z3.is_app(p) and p.decl().eq(F_itos)):
            cur = cur + [p]
        else:
            return None
    if cur:
        words.append(cur)
    return [word(w) for w in words]


# ---------------------------------------------------------------- argparse
_parser = cls('argparse.ArgumentParser')
_ns = cls('argparse.Namespace')


@extm(_ns, '__init__')
def _(vm, self, args, kw):
    for k, v in kwd(kw).items():
        vm.dict_set(self.fields, k, v)


@extm(_parser, '__init__')
def _(vm, self, args, kw):
    d = kwd(kw)
    if set(d) - {'description', 'prog', 'epilog', 'usage', 'add_help', 'allow_abbrev'}:
        raise Unsupported('argument parser options %s' % sorted(d))
    self.ghost.update(actions=[], abbrev=d.get('allow_abbrev', True))


@extm(_parser, 'add_argument')
def _(vm, self, args, kw):
    d = kwd(kw)
    names = list(args)
    if not all(isinstance(n, str) for n in names):
        raise Unsupported('argument names')
    a = dict(names=names, positional=not names[0].startswith('-'), action=d.pop('action', 'store'),
             nargs=d.pop('nargs', None), const=d.pop('const', None), default=d.pop('default', MISSING),
             type=d.pop('type', None), choices=d.pop('choices', None), dest=d.pop('dest', None),
             required=d.pop('required', False))
    d.pop('help', None)
    d.pop('metavar', None)
    if d or a['action'] not in ('store', 'store_true', 'store_false') or a['nargs'] not in (None, '?') \
            or not isinstance(a['required'], bool):
        raise Unsupported('argument %r' % (names,))
    if a['dest'] is None:
        long = [n for n in names if n.startswith('--')] or names
        a['dest'] = long[0].lstrip('-').replace('-', '_')
    if a['default'] is MISSING:
        a['default'] = {'store_true': False, 'store_false': True}.get(a['action'])
    self.ghost['actions'] = self.ghost['actions'] + [a]
    return InstObj(vm, ExtCls('argparse.Action'))


def _usage(vm, why):
    vm.event('usage-error', why=why)
    vm.throw(SystemExit, 2)


def _convert(vm, a, v):
    if a['type'] is not None:
        try:
            v = vm.call(a['type'], [v])
        except PyExc as e:
            for t in (ValueError, TypeError):
                if vm.exc_is(e.value, TypeVal(t)):
                    _usage(vm, 'invalid value')
            raise
    if a['choices'] is not None and not vm.truth(vm.call(vm.getattr(a['choices'], '__contains__'), [v])):
        _usage(vm, 'invalid choice')
    return v


def classify(vm, x):
    """('A', value) or ('O', option text, explicit value or None) of one command line word"""
    if isinstance(x, str):
        if not x.startswith('-') or x == '-':
            return ('A', x)
        o, eq, v = x.partition('=')
        return ('O', o, v if eq else None)
    ps = pieces(vm.as_str(x))
    if ps and isinstance(ps[0], str) and ps[0].startswith('-'):
        if '=' in ps[0]:
            o, _, v = ps[0].partition('=')
            return ('O', o, word(([v] if v else []) + ps[1:]))
        raise Unsupported('option name depends on its value')
    if vm.branch(z3.PrefixOf(z3.StringVal('-'), vm.as_str(x))):
        if vm.choose(2):
            raise Unsupported('option name depends on a parameter')
        vm.assume(vm.as_str(x) == z3.StringVal('-?'))    # one of the texts that are taken for an unknown option
        return ('?', x)
    return ('A', x)


@extm(_parser, 'parse_args')
def _(vm, self, args, kw):
    a0, n0 = P(vm, args, kw, 'args= namespace=')
    if n0 is not MISSING:
        raise Unsupported('parse_args namespace')
    if a0 is MISSING or a0 is None:
        argv = list(vm.iter_segs(vm.ghost['sys.argv']))[1:]
    else:
        argv = list(vm.iter_segs(a0))
    if any(isinstance(x, Splice) for x in argv):
        raise Unsupported('unknown number of arguments')
    vm.event('parse_args', argv=Tup(argv))
    acts = self.ghost['actions']
    pos = [a for a in acts if a['positional']]
    opts = {n: a for a in acts if not a['positional'] for n in a['names']}
    if len(pos) > 1:
        raise Unsupported('several positional arguments')
    cut = next(i for i, x in enumerate(argv) if isinstance(x, str) and x == '--') if '--' in [x for x in argv if isinstance(x, str)] else len(argv)
    res, seen, words = {}, set(), [classify(vm, x) for x in argv[:cut]]
    if cut < len(argv):
        words += [('--',)] + [('A', x) for x in argv[cut + 1:]]
    i = 0
    while i < len(words):
        w = words[i]
        if w[0] == '--':
            i += 1
            continue
        if w[0] == '?':
            _usage(vm, 'unrecognized arguments')
        if w[0] == 'A':
            if not pos:
                _usage(vm, 'unrecognized arguments')
            a = pos.pop()
            res[a['dest']] = _convert(vm, a, w[1])
            seen.add(id(a))
            i += 1
            continue
        _, o, v = w
        a = opts.get(o)
        if a is None and o.startswith('--') and self.ghost['abbrev']:
            c = [n for n in opts if n.startswith(o)]
            if len(c) > 1:
                _usage(vm, 'ambiguous option')
            a = opts[c[0]] if c else None
        if a is None:
            if o in ('-h', '--help'):
                vm.throw(SystemExit, 0)
            if not o.startswith('--'):
                raise Unsupported('short option')
            _usage(vm, 'unrecognized arguments')
        i += 1
        seen.add(id(a))
        if a['action'] != 'store':
            if v is not None:
                _usage(vm, 'ignored explicit argument')
            res[a['dest']] = a['action'] == 'store_true'
            continue
        if v is None and i < len(words) and words[i][0] == 'A':
            v = words[i][1]
            i += 1
        if v is None:
            if a['nargs'] is None:
                _usage(vm, 'expected one argument')
            res[a['dest']] = a['const'] if not isinstance(a['const'], str) else _convert(vm, a, a['const'])
        else:
            res[a['dest']] = _convert(vm, a, v)
    ns = InstObj(vm, _ns)
    ns.fields.meta = 'fields'
    for a in acts:
        if id(a) not in seen:
            if a['required'] or (a['positional'] and a['nargs'] is None):
                _usage(vm, 'required argument missing')
            d = a['default']
            res[a['dest']] = _convert(vm, a, d) if isinstance(d, str) and a['type'] is not None else d
        vm.dict_set(ns.fields, a['dest'], res[a['dest']])
    return ns


# ---------------------------------------------------------------- queue.Queue
_queue = cls('queue.Queue', alias=('queue.SimpleQueue',))


@extm(_queue, '__init__')
def _(vm, self, args, kw):
    if args or kw:
        raise Unsupported('a queue with a limit')
    self.ghost['queue'] = True


@extm(_queue, 'put', 'put_nowait')
def _(vm, self, args, kw):
    vm.event('queue.put', queue=self, item=args[0])


@extm(_queue, 'get', 'get_nowait')
def _(vm, self, args, kw):
    h = vm.ghost.get('on_queue_get')
    if h is None:
        raise Unsupported('queue.get')
    return h(vm, self)


# ---------------------------------------------------------------- Qt application
_app = ExtCls('qt.QApplication')
EXT['qt.QApplication'] = lambda vm, a, k: InstObj(vm, _app)
extm(_app, 'setQuitOnLastWindowClosed')(lambda vm, self, a, k: None)
extm(_app, 'exec', 'exec_')(lambda vm, self, a, k: vm.event('qt.exec') and 0)
