"""C22: shared arrays share memory, and clean up only what they own."""
from .base import *
from pyvc import libnp as N

S = TP + 'shmem.'


def some_blocks(vm):
    return vm.fresh_list('blocks', lambda vm: N.attach(vm, N.new_block(vm, vm.fresh('int', 'size').t, z3.String('m')), True),
                         ('blocks',))


def blocks(vm):
    """The module's list of the blocks to clean up: any blocks from before."""
    mod = need(vm, S + 'SharedNDArray').module
    names = [n for n, v in mod.ns.items() if isinstance(v, ListObj) and not n.startswith('__')]
    if len(names) != 1:
        raise Unsupported('where the blocks to clean up are kept')
    old = some_blocks(vm)
    vm.setattr(mod, names[0], ListObj(vm, [old]))
    return mod, names[0], old


def shm_of(vm, a):
    v = vm.getattr(a, 'shmem')
    if not (isinstance(v, InstObj) and 'block' in v.ghost):
        raise Unsupported('shmem attribute')
    return v


def data_of(vm, a):
    d = vm.getattr(a, 'data')
    if not (isinstance(d, InstObj) and 'dt' in d.ghost):
        raise Unsupported('data attribute')
    return d


def any_shape(vm):
    k = vm.choose(4)
    if k == 0:
        sp = vm.fresh_list('shape', lambda vm: vm.fresh('int', 'dim'), ('shape',))
        return Tup([sp]), Tup([sp])
    if k == 1:
        return Tup([]), Tup([])
    n = vm.fresh('int', 'n')
    vm.assume(n.t >= 0)
    if k == 2:
        return n, Tup([n])
    m = vm.fresh('int', 'm')
    vm.assume(m.t >= 0)
    return ListObj(vm, [n, m]), Tup([n, m])


def any_dtype(vm):
    d = z3.Const(vm.uname('dtype'), V)
    o = N.mk_dtype(vm, d)
    if vm.choose(2):
        vm.assume(z3.Not(N.F_struct(d)))
        return S_str(N.F_dtstr2(d)), d
    return o, d


def checks(vm, what, r, sh, d, buf, before, close, ev):
    mod, name, old = before
    a, m = data_of(vm, r), shm_of(vm, r)
    g = a.ghost
    vm.prove(what + ': the array lies in the shared memory', g.get('mem') is m.ghost['block'], g.get('mem'))
    if g.get('mem') is not m.ghost['block']:
        return
    vm.prove(what + ': it has the requested shape', vm.lift(g['shape']) == vm.lift(sh), g['shape'])
    vm.prove(what + ': it has the requested dtype', g['dt'] == d, g['dt'])
    n = N.nbytes(vm, d, sh)
    if buf is None:
        buf = N.zeros(vm, n)
    vm.prove(what + ': it has the requested contents', vm.as_bytes(N.contents(vm, a)) == buf, N.contents(vm, a))
    vm.prove(what + ': the memory holds all of it', m.ghost['block'].ghost['size'] >= n, m.ghost['block'].ghost['size'])
    made = [e.shm for e in ev if e.kind == 'shm.create']
    vm.prove(what + ': the memory was created for it', made == [m], made)
    registered(vm, what, before, m, close)


def registered(vm, what, before, m, close):
    mod, name, old = before
    now = vm.getattr(mod, name)
    if not isinstance(now, ListObj):
        raise Unsupported('where the blocks to clean up are kept')
    segs = list(now.segs)
    mine = [x for x in segs if x is m]
    vm.prove(what + ': cleaned up exactly if it was asked for', len(mine) == (1 if close else 0), (segs, close))
    vm.prove(what + ': what others registered stays', len(segs) == 1 + len(mine) and any(x is old for x in segs), segs)


@harness('C22', 'creating')
def creating(vm):
    before = blocks(vm)
    cls = need(vm, S + 'SharedNDArray')
    close = pick(vm, True, False, None)
    kw = {} if close is None else {'close': close}
    n = len(vm.trace)
    if vm.choose(2):
        arg, sh = any_shape(vm)
        dt, d = any_dtype(vm)
        r, exc = attempt(vm, lambda: vm.call(vm.getattr(cls, 'zeros'), [arg, dt], kws(**kw)))
        what, buf = 'zeros', None
    else:
        a = N.any_array(vm)
        d, sh, buf = a.ghost['dt'], a.ghost['shape'], vm.as_bytes(a.ghost['buf'])
        r, exc = attempt(vm, lambda: vm.call(vm.getattr(cls, 'copy'), [a], kws(**kw)))
        what = 'copy'
        if exc is None:
            vm.prove('copy: the original is left alone', vm.as_bytes(N.contents(vm, a)) == buf)
    vm.prove(what + ': arrays of any shape and dtype can be made', exc is None, exc)
    if exc is not None:
        return
    checks(vm, what, r, sh, d, buf, before, close in (True, None), vm.trace[n:])
    vm.cover(what)


@harness('C22', 'sending')
def sending(vm):
    cls = need(vm, S + 'SharedNDArray')
    k = vm.choose(3)
    if k == 0:
        arg, sh = any_shape(vm)
        dt, d = any_dtype(vm)
        a, exc = attempt(vm, lambda: vm.call(vm.getattr(cls, 'zeros'), [arg, dt]))
    elif k == 1:
        a, exc = attempt(vm, lambda: vm.call(vm.getattr(cls, 'copy'), [N.any_array(vm)]))
    else:
        # an array with any strides
        d = z3.Const(vm.uname('dtype'), V)
        N.dtype_term(vm, d)
        sh = Tup([vm.fresh_list('shape', lambda vm: vm.fresh('int', 'dim'), ('shape',))])
        st = Tup([vm.fresh_list('strides', lambda vm: vm.fresh('int', 'stride'), ('strides',))])
        size = vm.fresh('int', 'size')
        vm.assume(z3.And(size.t > 0, N.F_extent(d, vm.lift(sh), vm.lift(st)) <= size.t))
        m = N.attach(vm, N.new_block(vm, size.t, z3.String('m')), True)
        arr = N.mk_array(vm, d, sh, None, z3.Bool('cc'), mem=m.ghost['block'], strides=st, offset=z3.IntVal(0))
        a, exc = attempt(vm, lambda: vm.call(cls, [m, arr], kws(close=pick(vm, True, False))))
    if exc is not None:
        raise PathEnd()
    da, m = data_of(vm, a), shm_of(vm, a)
    # something written since then
    t = z3.String(vm.uname('written'))
    vm.assume(z3.Length(t) == N.nbytes(vm, da.ghost['dt'], da.ghost['shape']))
    N.store(vm, da, t)
    red, exc = attempt(vm, lambda: mcall(vm, a, '__reduce__'))
    vm.prove('a shared array can be sent', exc is None, exc)
    if exc is not None:
        return
    if not isinstance(red, Tup) or len(red.segs) != 2 or not isinstance(red.segs[1], Tup):
        raise Unsupported('how a shared array is sent')
    fn, args = red.segs
    # in the receiving process: the same module, its own list of blocks
    before = blocks(vm)
    n = len(vm.trace)

    def travel(x):
        x = vm.norm(x)
        if x is m or (isinstance(x, InstObj) and 'block' in x.ghost):
            return N.attach(vm, x.ghost['block'], False)     # (attached by its name)
        if isinstance(x, InstObj) and x.cls is ExtCls('numpy.dtype'):
            return N.mk_dtype(vm, x.ghost['dt'])
        if isinstance(x, Tup):
            return Tup([y if isinstance(y, Splice) else travel(y) for y in x.segs])
        if isinstance(x, (int, str, bytes, type(None), Sym, bool)):
            return x
        if isinstance(x, ClassVal):
            return x
        raise Unsupported('%r is sent' % (x,))
    r, exc = attempt(vm, lambda: vm.call(fn, [travel(x) for x in args.segs]))
    vm.prove('it can be received', exc is None, exc)
    if exc is not None:
        return
    vm.prove('what arrives is a shared array', isinstance(r, InstObj) and r.cls is cls, r)
    if not (isinstance(r, InstObj) and r.cls is cls):
        return
    db, m2 = data_of(vm, r), shm_of(vm, r)
    g, h = da.ghost, db.ghost
    vm.prove('it lies in the same memory', h.get('mem') is m.ghost['block'] and m2.ghost['block'] is m.ghost['block'], h.get('mem'))
    if h.get('mem') is not m.ghost['block']:
        return
    vm.prove('it begins at the same place', h['offset'] == g['offset'], h['offset'])
    vm.prove('it has the same shape', vm.lift(h['shape']) == vm.lift(g['shape']), h['shape'])
    vm.prove('it has the same dtype', h['dt'] == g['dt'], h['dt'])
    vm.prove('it has the same strides', N.strides_term(vm, da) == N.strides_term(vm, db), h['strides'])
    registered(vm, 'received', before, m2, False)
    vm.prove('receiving creates no memory', not [e for e in vm.trace[n:] if e.kind in ('shm.create', 'shm.unlink')])
    # both see the same elements, whoever writes
    vm.prove('both see the same elements', vm.as_bytes(N.contents(vm, db)) == vm.as_bytes(N.contents(vm, da)))
    t = z3.String(vm.uname('written'))
    vm.assume(z3.Length(t) == N.nbytes(vm, da.ghost['dt'], da.ghost['shape']))
    N.store(vm, db, t)
    vm.prove('..whoever writes them', vm.as_bytes(N.contents(vm, da)) == t)
    vm.cover('received')


class Each(Rule):
    force = True

    def __init__(self, mod, name):
        self.mod, self.name = mod, name

    def matches(self, vm, src, node):
        return src is not None and src[0] == 'blocks' or src is None

    def init(self, vm, sp, env, locals_):
        self.list = vm.getattr(self.mod, self.name)

    def havoc(self, vm, o):
        if o is self.list and isinstance(o, ListObj):
            o.segs = [some_blocks(vm)]       # (those that are left)
            return True
        return False

    def assume_inv(self, vm, sp, env):
        self.mark = len(vm.trace)
        self.sp = sp

    def begin_iter(self, vm, env):
        self.left = list(self.list.segs)

    def check_iter(self, vm, sp, env, x, evs):
        un = [e.shm for e in vm.trace[self.mark:] if e.kind == 'shm.unlink']
        if sp is None:
            # while there are blocks: one is taken from the list
            b, l = self.left, self.list.segs
            if vm.getattr(self.mod, self.name) is not self.list or len(l) > 1 or len(b) != 1 or len(un) != 1:
                if len(un) == 1 or self.left == self.list.segs and not un:
                    raise Unsupported('a loop that cleans up')
                vm.prove('each block to clean up is unlinked once', False, un)
            t = l[0].t if l else L.nil
            u = vm.lift(un[0])
            vm.prove('each block to clean up is unlinked once', z3.Or(b[0].t == L.cons(u, t), b[0].t == F_app(t, L.cons(u, L.nil))), un)
            vm.cover('a block is cleaned up')
            return
        vm.prove('each block to clean up is unlinked once', un == [x], un)
        vm.cover('a block is cleaned up')


@harness('C22', 'cleaning up')
def cleaning(vm):
    mod, name, old = blocks(vm)
    vm.ghost['shm.may_fail'] = True
    f = need(vm, S + 'close_all')
    vm.loop_rules.append(Each(mod, name))
    n = len(vm.trace)
    r, exc = attempt(vm, lambda: vm.call(f, []))
    vm.prove('no block keeps the others from being cleaned up', exc is None, exc)
    if exc is not None:
        return
    now = vm.getattr(mod, name)
    loops = [e for e in vm.trace[n:] if e.kind == 'loop' and (e.d.get('sp') is not None or isinstance(e.d.get('rule'), Each))]
    vm.prove('all blocks to clean up are visited', len(loops) == 1 and (loops[0].sp is old or loops[0].sp is None) or
             not loops and vm.entails(old.t == L.nil), loops)
    vm.prove('no other block is unlinked', not [e for e in vm.trace[n:] if e.kind == 'shm.unlink'])
    vm.prove('none is left to be unlinked again', isinstance(now, ListObj) and vm.segs_empty(now.segs), now)
    at = vm.world.__dict__.get('boot_atexit', [])
    vm.prove('cleaned up at the latest when the process exits', any(g is f for g in at), at)
    # what was created meanwhile is cleaned up next time
    now.segs = []
    vm.loop_rules.pop()
    m = N.attach(vm, N.new_block(vm, vm.fresh('int', 'size').t, z3.String('m')), True)
    d = z3.Const(vm.uname('dtype'), V)
    arr = N.mk_array(vm, d, Tup([]), None, True, mem=m.ghost['block'], strides=None, offset=z3.IntVal(0))
    cls = need(vm, S + 'SharedNDArray')
    close = pick(vm, True, False)
    vm.call(cls, [m, arr], kws(close=close))
    n = len(vm.trace)
    r, exc = attempt(vm, lambda: vm.call(f, []))
    vm.prove('no block keeps the others from being cleaned up (again)', exc is None, exc)
    un = [e.shm for e in vm.trace[n:] if e.kind == 'shm.unlink']
    vm.prove('only what was created with cleanup requested is unlinked', un == ([m] if close else []), un)
