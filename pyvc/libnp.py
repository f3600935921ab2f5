"""Trusted contracts of the value libraries: numpy arrays, dtypes and scalars, datetime, base64.

An array is its dtype, its shape and its contents in C order (a byte string); how it lies in memory
is only visible through flags, strides and F-order access."""
import z3
from .core import *
from .lib import ext, extm, extp, cls, EXT, EXT_CONST, P, kwd, new_ext, to_int, to_float, F_isascii
from .interp import issub

SS, IS, BS = z3.StringSort(), z3.IntSort(), z3.BoolSort()

_nd = cls('numpy.ndarray')
_dt = cls('numpy.dtype')
_num = cls('numpy.number')
_bool = cls('numpy.bool_')
_integer, _floating = ExtCls('numpy.integer'), ExtCls('numpy.floating')
_cfloat = ExtCls('numpy.complexfloating')
# representatives of the scalar types
NP_INT = cls('numpy.some_int', _integer)               # int8 .. uint64
NP_FLOAT = cls('numpy.some_float', _floating)          # float16, float32
NP_F64 = cls('numpy.float64', _floating, float)
NP_LONG = cls('numpy.longdouble', _floating)
NP_COMPLEX = cls('numpy.some_complex', _cfloat)
NP_TD = cls('numpy.timedelta64', _integer)
EXT_CONST['numpy.generic'] = lambda vm: ExtCls('numpy.generic')
EXT_CONST['numpy.signedinteger'] = _integer

F_dtstr = z3.Function('np.dtype.str', V, SS)           # str(dtype)
F_dtstr2 = z3.Function('np.dtype.code', V, SS)         # dtype.str
F_struct = z3.Function('np.dtype.structured', V, BS)
F_buffered = z3.Function('np.dtype.exposes_buffer', V, BS)
F_isize = z3.Function('np.dtype.itemsize', V, IS)
F_istext = z3.Function('np.dtype.istext', SS, BS)
F_oftext = z3.Function('np.dtype.of_text', SS, V)
F_eval = z3.Function('python.eval', SS, V)
F_isdesc = z3.Function('np.dtype.isdescr', V, BS)
F_ofdesc = z3.Function('np.dtype.of_descr', V, V)
F_nbytes = z3.Function('np.nbytes', V, V, IS)          # dtype, shape
F_forder = z3.Function('np.forder', V, V, SS, SS)      # contents in Fortran order
F_round = z3.Function('np.round', V, z3.RealSort(), z3.RealSort())
F_wrap = z3.Function('np.fits', V, IS, BS)
F_tofloat = z3.Function('np.tofloat', z3.RealSort(), z3.RealSort())
F_iso = z3.Function('datetime.isoformat', V, SS)
F_isiso = z3.Function('datetime.isiso', SS, BS)
F_fromiso = z3.Function('datetime.fromisoformat', SS, V)
F_diso = z3.Function('date.isoformat', V, SS)
F_isdiso = z3.Function('date.isiso', SS, BS)
F_fromdiso = z3.Function('date.fromisoformat', SS, V)
F_b64 = z3.Function('b64encode', SS, SS)
F_unb64 = z3.Function('b64decode', SS, SS)
F_u64 = z3.Function('urlsafe_b64encode', SS, SS)
F_unu64 = z3.Function('urlsafe_b64decode', SS, SS)
F_isu64 = z3.Function('isurlsafebase64', SS, BS)
F_isb64 = z3.Function('isbase64', SS, BS)


# ------------------------------------------------------------------------------------- dtypes
def dtype_term(vm, t):
    """Facts about any dtype."""
    done = vm.ghost.setdefault('np.dtypes', set())
    if t.get_id() in done:
        return t
    vm.ghost['np.dtypes'] = done | {t.get_id()}
    s = F_dtstr(t)
    br = z3.Or(z3.PrefixOf(z3.StringVal('['), s), z3.PrefixOf(z3.StringVal('{'), s))
    vm.assume(F_struct(t) == br)
    vm.assume(z3.Length(s) > 0)
    for f in (s, F_dtstr2(t)):
        vm.assume(z3.Implies(z3.Not(F_struct(t)), z3.And(F_istext(f), F_oftext(f) == t)))
    vm.assume(z3.Implies(F_struct(t), z3.Not(F_istext(s))))
    e = F_eval(s)
    vm.assume(z3.Implies(F_struct(t), z3.And(F_isdesc(e), F_ofdesc(e) == t, z3.Not(V.is_str(e)), z3.Not(V.is_none(e)))))
    vm.assume(F_isize(t) > 0)
    return t


def mk_dtype(vm, t):
    return new_ext(vm, 'numpy.dtype', value=dtype_term(vm, t), dt=t)


def as_dtype(vm, x):
    """The dtype term that numpy makes of a dtype argument; TypeError if none."""
    x = vm.norm(x)
    if isinstance(x, InstObj) and 'dt' in x.ghost and x.cls is _dt:
        return x.ghost['dt']
    if vm.kind(x) == 'str':
        t = vm.as_str(x)
        if not vm.branch(F_istext(t)):
            vm.throw(TypeError, 'data type not understood')
        return F_oftext(t)
    if isinstance(x, Sym) and x.k == 'any':
        if not vm.branch(F_isdesc(x.t)):
            vm.throw(TypeError, 'data type not understood')
        return F_ofdesc(x.t)
    if isinstance(x, Native) and x.name.startswith('numpy.type'):
        raise Unsupported('dtype of a scalar type')
    raise Unsupported('dtype of %r' % (x,))


@extm(_dt, '__str__')
def _(vm, self, args, kw):
    return S_str(F_dtstr(self.ghost['dt']))


@extm(_dt, '__eq__')
def _(vm, self, args, kw):
    o = args[0]
    if isinstance(o, InstObj) and 'dt' in o.ghost and o.cls is _dt:
        return vm.wrapb(self.ghost['dt'] == o.ghost['dt'])
    raise Unsupported('comparison of a dtype')


@extp(_dt, 'itemsize')
def _(vm, self):
    return Sym('int', F_isize(self.ghost['dt']))


@extp(_dt, 'str')
def _(vm, self):
    return S_str(F_dtstr2(self.ghost['dt']))


@extp(_dt, 'type')
def _(vm, self):
    d = self.ghost['dt']
    return Native(lambda vm, a, k: scalar_of(vm, d, a, k), 'numpy.type')


def _dtype_ctor(vm, args, kw):
    return mk_dtype(vm, as_dtype(vm, P(vm, args, kw, 'dtype')))


_dt.ctor = _dtype_ctor


# ------------------------------------------------------------------------------------- scalars
def mk_scalar(vm, c, d, num):
    """A numpy scalar: class, dtype term, Python number (Sym)."""
    vm.ghost.setdefault('np.kind', {})
    vm.ghost['np.kind'] = dict(vm.ghost['np.kind'], **{str(d): c})
    return new_ext(vm, c.dotted, value=vm.lift(num), dt=dtype_term(vm, d), num=num)


def scalar_of(vm, d, args, kw):
    """dtype.type(x)"""
    x = vm.norm(P(vm, args, kw, 'x'))
    c = vm.ghost.get('np.kind', {}).get(str(d))
    if c is None:
        for k, c2 in vm.ghost.get('np.kind', {}).items():
            pass
        raise Unsupported('scalar of an unknown dtype')
    if isinstance(x, InstObj) and 'num' in x.ghost:
        x = x.ghost['num']
    if c is _bool:
        return mk_scalar(vm, c, d, vm.wrapb(vm.truth_f(x)))
    if c is NP_INT:
        n = to_int(vm, [x])
        t = vm.as_int(n)
        if not vm.branch(F_wrap(d, t)):
            vm.throw(OverflowError, 'out of bounds')
        return mk_scalar(vm, c, d, n)
    if c in (NP_FLOAT, NP_F64, NP_LONG):
        r = vm.as_real(to_float(vm, [x]))
        return mk_scalar(vm, c, d, Sym('real', F_round(d, r)))
    return mk_scalar(vm, c, d, vm.fresh('real', 'converted'))


for _c in (_num, _bool):
    @extp(_c, 'dtype')
    def _(vm, self):
        return mk_dtype(vm, self.ghost['dt'])

    @extp(_c, 'itemsize')
    def _(vm, self):
        if self.cls is NP_LONG:
            return 16
        if self.cls is NP_F64 or self.cls is NP_TD:
            return 8
        n = F_isize(self.ghost['dt'])
        if self.cls in (NP_INT, NP_FLOAT):
            vm.assume(z3.And(n >= 1, n <= (8 if self.cls is NP_INT else 4)))
        return Sym('int', n)

    @extm(_c, '__bool__')
    def _(vm, self, args, kw):
        return vm.wrapb(vm.truth_f(self.ghost['num']))

    @extm(_c, '__int__')
    def _(vm, self, args, kw):
        if issub(self.cls, _integer):
            return self.ghost['num'] if self.cls is NP_INT else vm.fresh('int', 'ticks')
        if self.cls is _bool:
            return to_int(vm, [self.ghost['num']])
        return vm.fresh('int', 'truncated')

    @extm(_c, '__float__')
    def _(vm, self, args, kw):
        if self.cls in (NP_FLOAT, NP_F64):
            return self.ghost['num']
        if self.cls is NP_LONG:
            return Sym('real', F_tofloat(self.ghost['num'].t))
        return vm.fresh('real', 'as float')

    @extm(_c, 'item', 'tolist')
    def _(vm, self, args, kw):
        if self.cls in (NP_FLOAT, NP_F64, NP_INT, _bool):
            return self.ghost['num']
        raise Unsupported('item()')


def any_scalar(vm, c, hint='n'):
    """An arbitrary scalar of this class."""
    d = z3.Const(vm.uname(hint + '.dtype'), V)
    if c is _bool:
        return mk_scalar(vm, c, d, vm.fresh('bool', hint))
    if c is NP_INT:
        n = vm.fresh('int', hint)
        vm.assume(F_wrap(d, n.t))
        return mk_scalar(vm, c, d, n)
    r = vm.fresh('real', hint)
    vm.assume(F_round(d, r.t) == r.t)
    if c is NP_LONG:
        # some numbers do not fit a Python float
        x = F_round(d, F_tofloat(r.t))
        vm.assume(z3.Or(x == r.t, x != r.t))
    vm.assume(z3.Not(F_struct(d)))
    return mk_scalar(vm, c, d, r)


# ------------------------------------------------------------------------------------- arrays
def mk_array(vm, d, shape, buf, c=True, f=None, **more):
    """shape: Tup; buf: bytes (C-order contents); c, f: contiguity (True or z3 Bool)."""
    f = f if f is not None else z3.Bool(vm.uname('f_contiguous'))
    return new_ext(vm, 'numpy.ndarray', value=V.none, dt=dtype_term(vm, d), shape=shape, buf=buf,
                   cc=c, fc=f, **more)


def any_array(vm, hint='a'):
    d = z3.Const(vm.uname(hint + '.dtype'), V)
    dtype_term(vm, d)
    shape = Tup([vm.fresh_list(hint + '.shape', lambda vm: vm.fresh('int', 'dim'), ('shape',))])
    buf = vm.fresh('bytes', hint + '.contents')
    n = F_nbytes(d, vm.lift(shape))
    vm.assume(z3.Length(buf.t) == n)
    c, f = z3.Bool(vm.uname('c_contiguous')), z3.Bool(vm.uname('f_contiguous'))
    vm.assume(z3.Implies(shape.segs[0].t == L.nil, z3.And(c, f)))
    vm.assume(z3.Implies(n == 0, z3.And(c, f)))
    return mk_array(vm, d, shape, buf, c, f)


def arr(vm, x):
    if not (isinstance(x, InstObj) and x.cls is _nd and 'buf' in x.ghost):
        raise Unsupported('array expected, got %r' % (x,))
    return x.ghost


def contents(vm, a):
    """The elements of an array in C order, now."""
    g = a.ghost
    if 'mem' not in g:
        return g['buf']
    n = nbytes(vm, g['dt'], g['shape'])
    m = g['mem'].ghost['content']
    if g['strides'] is None and vm.entails(g['offset'] == 0):
        if m is ZEROS:
            return Sym('bytes', zeros(vm, n))
        return Sym('bytes', z3.simplify(z3.SubString(m, z3.IntVal(0), n)))
    if m is ZEROS:
        return Sym('bytes', zeros(vm, n))
    return Sym('bytes', F_view(m, g['dt'], vm.lift(g['shape']), strides_term(vm, a), g['offset']))


def store(vm, a, t):
    """Replace all elements of an array."""
    g = a.ghost
    if 'mem' not in g:
        vm.world.journal(a)
        g['buf'] = Sym('bytes', t)
        return
    b = g['mem']
    vm.world.journal(b)
    n = nbytes(vm, g['dt'], g['shape'])
    if g['strides'] is None and vm.entails(g['offset'] == 0):
        old = b.ghost['content']
        size = b.ghost['size']
        rest = zeros(vm, size - n) if old is ZEROS else z3.SubString(old, n, size - n)
        if old is ZEROS and vm.entails(t == zeros(vm, n)):
            return
        vm.assume(z3.Length(t) == n)
        b.ghost['content'] = z3.Concat(t, rest)
        return
    m = z3.String(vm.uname('memory'))
    b.ghost['content'] = m
    vm.assume(F_view(m, g['dt'], vm.lift(g['shape']), strides_term(vm, a), g['offset']) == t)


ZEROS = 'zeros'
F_view = z3.Function('np.view', SS, V, V, V, IS, SS)
F_cstrides = z3.Function('np.cstrides', V, V, V)       # dtype, shape
F_extent = z3.Function('np.extent', V, V, V, IS)       # dtype, shape, strides: bytes spanned
F_zeros = z3.Function('zeros', IS, SS)
F_prod = z3.Function('np.prod', V, IS)
F_bcast = z3.Function('np.broadcast', V, V, SS, SS)
F_cast = z3.Function('np.cast', V, V, SS, SS)
F_filled = z3.Function('np.filled', V, V, V, SS)
F_fillzero = z3.Function('np.fill0_gives_zeros', V, BS)


def zeros(vm, n):
    t = F_zeros(n)
    vm.assume(z3.Length(t) == n)
    return t


def prod(vm, shape):
    """The number of elements (mathematically)."""
    t = F_prod(vm.lift(shape))
    if not any(isinstance(x, Splice) for x in shape.segs):
        n = z3.IntVal(1)
        for x in shape.segs:
            n = n * vm.as_int(x)
        vm.assume(t == n)
    vm.assume(t >= 0)
    for x in shape.segs:
        if isinstance(x, Splice):
            vm.assume(z3.Implies(vm.lift(shape) == V.tup(L.nil), t == 1))
    return t


def nbytes(vm, d, shape):
    t = F_nbytes(d, vm.lift(shape))
    vm.assume(t == prod(vm, shape) * F_isize(d))
    vm.assume(t >= 0)
    vm.assume(F_isize(d) > 0)
    return t


def strides_term(vm, a):
    g = a.ghost
    if g.get('strides') is not None:
        return vm.lift(g['strides'])
    return F_cstrides(g['dt'], vm.lift(g['shape']))


@extp(_nd, 'strides')
def _(vm, self):
    g = self.ghost
    if g.get('strides') is not None:
        return g['strides']
    if 'mem' not in g and g['cc'] is not True:
        raise Unsupported('strides')
    # a tuple of the strides of C order
    t = F_cstrides(g['dt'], vm.lift(g['shape']))
    key = ('cstrides', str(t))
    sp = vm.ghost.get(key)
    if sp is None:
        sp = vm.ghost[key] = vm.fresh_list('strides', lambda vm: vm.fresh('int', 'stride'), ('strides',))
        vm.assume(t == vm.lift(Tup([sp])))
    return Tup([sp])


def shape_of(vm, x):
    x = vm.norm(x)
    if isinstance(x, (Tup, ListObj)):
        return dims(vm, [x])
    if isinstance(x, int) and not isinstance(x, bool) or isinstance(x, Sym) and x.k == 'int':
        return Tup([x])
    raise Unsupported('shape %r' % (x,))


@ext('numpy.prod', 'math.prod')
def _(vm, args, kw):
    x = P(vm, args, kw, 'a')
    return Sym('int', prod(vm, shape_of(vm, x)))


@ext('numpy.zeros', 'numpy.empty')
def _(vm, args, kw):
    sh, d, o = P(vm, args, kw, 'shape dtype= order=')
    if d in (MISSING, None) or o is not MISSING:
        raise Unsupported('zeros options')
    t = dtype_term(vm, as_dtype(vm, d))
    sh = shape_of(vm, sh)
    return mk_array(vm, t, sh, Sym('bytes', zeros(vm, nbytes(vm, t, sh))), True)


def _array_ctor(vm, args, kw):
    sh, d, b, off, st, o = P(vm, args, kw, 'shape dtype= buffer= offset= strides= order=')
    if d in (MISSING, None) or b in (MISSING, None) or o not in (MISSING, None, 'C'):
        raise Unsupported('ndarray options')
    t = dtype_term(vm, as_dtype(vm, d))
    sh = shape_of(vm, sh)
    if not (isinstance(b, InstObj) and b.cls is _mv and 'block' in b.ghost):
        raise Unsupported('ndarray over %r' % (b,))
    blk = b.ghost['block']
    n = nbytes(vm, t, sh)
    offset = z3.IntVal(0) if off is MISSING else vm.as_int(off)
    st = None if st is MISSING else st
    if st is not None:
        st = vm.norm(st)
        if not isinstance(st, (Tup, ListObj)):
            raise Unsupported('strides %r' % (st,))
        st = Tup(list(st.segs))
        if vm.entails(vm.lift(st) == F_cstrides(t, vm.lift(sh))):
            st = None
    ext_ = n if st is None else F_extent(t, vm.lift(sh), vm.lift(st))
    if not vm.branch(offset + ext_ <= blk.ghost['size']):
        vm.throw(TypeError, 'buffer is too small for requested array')
    c = True if st is None else z3.Bool(vm.uname('c_contiguous'))
    return mk_array(vm, t, sh, None, c, mem=blk, strides=st, offset=offset)


_nd.ctor = _array_ctor


def whole(vm, self, k):
    """Does this index select the whole array?  IndexError if it does not fit."""
    if isinstance(k, Ext) and k.dotted == 'builtins.Ellipsis':
        return
    if isinstance(k, Tup) and not k.segs:
        return
    if isinstance(k, InstObj) and isinstance(k.cls, ExtCls) and k.cls.dotted == 'builtins.slice' and \
            all(vm.dict_get(k.fields, n) is None for n in ('start', 'stop', 'step')):
        if vm.branch(vm.lift(self.ghost['shape']) == V.tup(L.nil)):
            vm.throw(IndexError, 'too many indices for array')
        return
    raise Unsupported('array index %r' % (k,))


@extm(_nd, '__getitem__')
def _(vm, self, args, kw):
    whole(vm, self, args[0])
    return self


@extm(_nd, '__setitem__')
def _(vm, self, args, kw):
    whole(vm, self, args[0])
    assign(vm, self, args[1])


@ext('numpy.copyto')
def _(vm, args, kw):
    a, b = P(vm, args, kw, 'dst src')
    assign(vm, a, b)


def assign(vm, self, v):
    g = arr(vm, self)
    v = vm.norm(v)
    if isinstance(v, int) and v == 0 or v is False:
        return fill0(vm, self)
    h = arr(vm, v)
    t = vm.as_bytes(contents(vm, v))
    if not vm.entails(g['dt'] == h['dt']):
        if vm.branch(g['dt'] == h['dt']):
            pass
        else:
            t = F_cast(h['dt'], g['dt'], t)
    sa, sb = vm.lift(g['shape']), vm.lift(h['shape'])
    if not vm.entails(sa == sb):
        if not vm.branch(sa == sb):
            if not vm.entails(sb == V.tup(L.nil)):
                raise Unsupported('broadcasting')
            n = nbytes(vm, g['dt'], g['shape'])
            u = F_bcast(g['dt'], sa, t)
            vm.assume(z3.Implies(t == zeros(vm, F_isize(g['dt'])), u == zeros(vm, n)))
            vm.assume(z3.Length(u) == n)
            if vm.entails(u == zeros(vm, n)):
                u = zeros(vm, n)
            t = u
    store(vm, self, t)


def fill0(vm, self):
    g = arr(vm, self)
    n = nbytes(vm, g['dt'], g['shape'])
    # text starts out as '0', not as zeros
    if vm.branch(F_fillzero(g['dt'])):
        store(vm, self, zeros(vm, n))
    else:
        if vm.choose(2):
            vm.throw(TypeError, 'fill')
        u = z3.String(vm.uname('filled'))
        vm.assume(z3.Length(u) == n)
        store(vm, self, u)


@extm(_nd, 'fill')
def _(vm, self, args, kw):
    v = vm.norm(args[0])
    if isinstance(v, int) and v == 0:
        return fill0(vm, self)
    g = arr(vm, self)
    u = F_filled(g['dt'], vm.lift(g['shape']), vm.lift(v))
    vm.assume(z3.Length(u) == nbytes(vm, g['dt'], g['shape']))
    store(vm, self, u)


# ------------------------------------------------------------------------------------- shared memory
_shm = cls('multiprocessing.shared_memory.SharedMemory')


def new_block(vm, size, content, hint='block'):
    """A block of memory of the system."""
    return new_ext(vm, 'numpy.block', size=size, content=content, id=z3.Int(vm.uname(hint)))


def attach(vm, block, owner):
    o = new_ext(vm, 'multiprocessing.shared_memory.SharedMemory', block=block, created=owner)
    vm.dict_set(o.fields, 'name', vm.fresh('str', 'shm.name'))
    return o


def _shm_ctor(vm, args, kw):
    name, create, size = P(vm, args, kw, 'name= create= size=')
    if name not in (MISSING, None) or create is MISSING or not vm.branch(vm.truth_f(create)):
        raise Unsupported('attaching to shared memory by name')
    n = z3.IntVal(0) if size is MISSING else vm.as_int(size)
    if not vm.branch(n > 0):
        vm.throw(ValueError, "'size' must be a positive number different from zero")
    b = new_block(vm, n, ZEROS)      # (the system hands out zeroed memory)
    o = attach(vm, b, True)
    vm.event('shm.create', shm=o, block=b)
    return o


_shm.ctor = _shm_ctor


@extp(_shm, 'buf')
def _(vm, self):
    return new_ext(vm, 'builtins.memoryview', block=self.ghost['block'])


@extp(_shm, 'size')
def _(vm, self):
    return Sym('int', self.ghost['block'].ghost['size'])


@extm(_shm, 'close')
def _(vm, self, args, kw):
    vm.event('shm.close', shm=self)
    if vm.ghost.get('shm.may_fail') and vm.choose(2):
        vm.throw(BufferError, 'cannot close exported pointers exist')


@extm(_shm, 'unlink')
def _(vm, self, args, kw):
    vm.event('shm.unlink', shm=self)
    if vm.ghost.get('shm.may_fail') and vm.choose(2):
        vm.throw(FileNotFoundError, 2, 'no such file')


@extp(_nd, 'dtype')
def _(vm, self):
    return mk_dtype(vm, self.ghost['dt'])


@extp(_nd, 'shape')
def _(vm, self):
    return self.ghost['shape']


@extp(_nd, 'ndim')
def _(vm, self):
    return vm.length(self.ghost['shape'])


@extp(_nd, 'itemsize')
def _(vm, self):
    return Sym('int', F_isize(self.ghost['dt']))


@extp(_nd, 'nbytes')
def _(vm, self):
    return Sym('int', F_nbytes(self.ghost['dt'], vm.lift(self.ghost['shape'])))


_flags = cls('numpy.flags')


@extp(_nd, 'flags')
def _(vm, self):
    return new_ext(vm, 'numpy.flags', of=self)


def flag(vm, a, name):
    g = a.ghost
    n = name.lower()
    if n in ('c_contiguous', 'c', 'contiguous'):
        return vm.wrapb(g['cc'])
    if n in ('f_contiguous', 'f', 'fortran'):
        return vm.wrapb(g['fc'])
    if n == 'forc':
        return vm.wrapb(vm.disj([g['cc'], g['fc']]))
    return vm.fresh('bool', 'flag.' + n)


@extm(_flags, '__getitem__')
def _(vm, self, args, kw):
    if not isinstance(args[0], str):
        raise Unsupported('flags[%r]' % (args[0],))
    return flag(vm, self.ghost['of'], args[0])


for _n in ('c_contiguous', 'f_contiguous', 'contiguous', 'forc', 'owndata', 'writeable', 'aligned'):
    extp(_flags, _n)(lambda vm, self, _n=_n: flag(vm, self.ghost['of'], _n))


@extm(_nd, 'tobytes', 'tostring')
def _(vm, self, args, kw):
    o = P(vm, args, kw, 'order=')
    g = self.ghost
    o = 'C' if o is MISSING or o is None else o
    if not isinstance(o, str):
        raise Unsupported('tobytes order')
    if o in ('A', 'K'):
        o = 'F' if vm.branch(vm.conj([g['fc'], vm.neg(g['cc'])])) else 'C'
    if o == 'C':
        return contents(vm, self)
    return Sym('bytes', F_forder(g['dt'], vm.lift(g['shape']), vm.as_bytes(contents(vm, self))))


_mv = cls('builtins.memoryview')


@extp(_nd, 'data')
def _(vm, self):
    if not vm.branch(F_buffered(self.ghost['dt'])):
        vm.throw(ValueError, 'cannot include dtype in a buffer')
    return new_ext(vm, 'builtins.memoryview', of=self)


@extm(_mv, 'tobytes')
def _(vm, self, args, kw):
    return vm.call(vm.getattr(self.ghost['of'], 'tobytes'), args, kw)


def buffer_bytes(vm, x):
    """The bytes a function that takes a contiguous buffer sees."""
    x = vm.norm(x)
    if vm.kind(x) == 'bytes':
        return x
    if isinstance(x, InstObj) and x.cls is _mv:
        x = x.ghost['of']
    elif isinstance(x, InstObj) and x.cls is _nd:
        if not vm.branch(F_buffered(arr(vm, x)['dt'])):
            vm.throw(ValueError, 'cannot include dtype in a buffer')
    if isinstance(x, InstObj) and x.cls is _nd:
        if not vm.branch(x.ghost['cc']):
            vm.throw(BufferError, 'ndarray is not C-contiguous')
        return contents(vm, x)
    if vm.kind(x) == 'str' or x is None:
        vm.throw(TypeError, 'a bytes-like object is required')
    raise Unsupported('buffer of %r' % (x,))


def dims(vm, args):
    """shape argument(s) -> Tup"""
    if len(args) == 1 and not isinstance(args[0], Splice):
        x = vm.norm(args[0])
        if isinstance(x, (Tup, ListObj)):
            args = x.segs
        elif isinstance(x, Sym) and x.k == 'any':
            raise Unsupported('shape %r' % (x,))
    for a in args:
        if not isinstance(a, (int, Splice)) and not (isinstance(a, Sym) and a.k in ('int', 'any')):
            raise Unsupported('dimension %r' % (a,))
        if isinstance(a, int) and a < 0:
            raise Unsupported('unknown dimension')
    return Tup(list(args))


@extm(_nd, 'reshape')
def _(vm, self, args, kw):
    d = kwd(kw)
    o = d.pop('order', 'C')
    if 'shape' in d:
        args = [d.pop('shape')]
    if d:
        raise Unsupported('reshape options')
    g = self.ghost
    sh = dims(vm, args)
    if not vm.branch(F_nbytes(g['dt'], vm.lift(sh)) == F_nbytes(g['dt'], vm.lift(g['shape']))):
        vm.throw(ValueError, 'cannot reshape array')
    buf = contents(vm, self)
    if o != 'C':
        buf = vm.fresh('bytes', 'reordered')
    return mk_array(vm, g['dt'], sh, buf, g['cc'])


@extm(_nd, 'copy')
def _(vm, self, args, kw):
    g = self.ghost
    return mk_array(vm, g['dt'], g['shape'], contents(vm, self), True)


@ext('numpy.ascontiguousarray')
def _(vm, args, kw):
    a, d = P(vm, args, kw, 'a dtype=')
    g = arr(vm, a)
    if d not in (MISSING, None):
        raise Unsupported('conversion')
    sh = g['shape']
    if vm.branch(vm.lift(sh) == vm.lift(Tup([]))):
        sh = Tup([1])
        vm.assume(F_nbytes(g['dt'], vm.lift(sh)) == F_nbytes(g['dt'], vm.lift(Tup([]))))
    return mk_array(vm, g['dt'], sh, contents(vm, a), True)


@ext('numpy.frombuffer', 'numpy.fromstring')
def _(vm, args, kw):
    b, d, count, offset = P(vm, args, kw, 'buffer dtype= count= offset=')
    if count not in (MISSING, -1) or offset not in (MISSING, 0):
        raise Unsupported('frombuffer options')
    b = buffer_bytes(vm, b)
    if d is MISSING:
        raise Unsupported('frombuffer without dtype')
    t = dtype_term(vm, as_dtype(vm, d))
    n = vm.fresh('int', 'count')
    vm.assume(n.t >= 0)
    sh = Tup([n])
    vm.assume(F_nbytes(t, vm.lift(sh)) == z3.Length(vm.as_bytes(b)))
    return mk_array(vm, t, sh, b, True)


def same_array(vm, a, b):
    """Formula: same dtype, shape and contents."""
    g, h = arr(vm, a), arr(vm, b)
    return z3.And(g['dt'] == h['dt'], vm.lift(g['shape']) == vm.lift(h['shape']),
                  vm.as_bytes(contents(vm, a)) == vm.as_bytes(contents(vm, b)))


# ------------------------------------------------------------------------------------- datetime
_date = cls('datetime.date')
_datetime = cls('datetime.datetime', _date)


def any_datetime(vm, c=None, hint='when'):
    t = z3.Const(vm.uname(hint), V)
    return new_ext(vm, (c or _datetime).dotted, value=t)


@extm(_datetime, 'isoformat')
def _(vm, self, args, kw):
    sep, ts = P(vm, args, kw, 'sep= timespec=')
    t = self.ghost['value']
    if (sep is MISSING or isinstance(sep, str)) and ts in (MISSING, 'auto', 'microseconds'):
        s = F_iso(t)
        vm.assume(z3.And(F_isiso(s), F_fromiso(s) == t))
        return S_str(s)
    s = vm.fresh('str', 'rounded')
    vm.assume(F_isiso(s.t))
    return s


@extm(_date, 'isoformat')
def _(vm, self, args, kw):
    t = self.ghost['value']
    s = F_diso(t)
    vm.assume(z3.And(F_isdiso(s), F_fromdiso(s) == t))
    return S_str(s)


@ext('datetime.datetime.fromisoformat')
def _(vm, args, kw):
    s = vm.as_str(P(vm, args, kw, 's'))
    if not vm.branch(F_isiso(s)):
        vm.throw(ValueError, 'Invalid isoformat string')
    return new_ext(vm, 'datetime.datetime', value=F_fromiso(s))


@ext('datetime.date.fromisoformat')
def _(vm, args, kw):
    s = vm.as_str(P(vm, args, kw, 's'))
    if not vm.branch(F_isdiso(s)):
        vm.throw(ValueError, 'Invalid isoformat string')
    return new_ext(vm, 'datetime.date', value=F_fromdiso(s))


_datetime.methods['fromisoformat'] = EXT['datetime.datetime.fromisoformat']
_date.methods['fromisoformat'] = EXT['datetime.date.fromisoformat']


# ------------------------------------------------------------------------------------- base64
@ext('base64.b64encode', 'base64.standard_b64encode')
def _(vm, args, kw):
    b = P(vm, args, kw, 's')
    t = vm.as_bytes(buffer_bytes(vm, b))
    r = F_b64(t)
    vm.assume(z3.And(F_isutf8(r), F_isascii(r), F_isb64(r), F_unb64(r) == t))
    return Sym('bytes', r)


@ext('base64.b64decode', 'base64.standard_b64decode')
def _(vm, args, kw):
    b = P(vm, args, kw, 's')
    if vm.kind(b) == 'str':
        b = vm.call(vm.getattr(b, 'encode'), [])
    t = vm.as_bytes(buffer_bytes(vm, b))
    if not vm.branch(F_isb64(t)):
        vm.throw(ValueError, 'Incorrect padding')
    return Sym('bytes', F_unb64(t))


# the same with another alphabet; only some texts are valid in both
@ext('base64.urlsafe_b64encode')
def _(vm, args, kw):
    b = P(vm, args, kw, 's')
    t = vm.as_bytes(buffer_bytes(vm, b))
    r = F_u64(t)
    vm.assume(z3.And(F_isutf8(r), F_isascii(r), F_isu64(r), F_unu64(r) == t))
    return Sym('bytes', r)


@ext('base64.urlsafe_b64decode')
def _(vm, args, kw):
    b = P(vm, args, kw, 's')
    if vm.kind(b) == 'str':
        b = vm.call(vm.getattr(b, 'encode'), [])
    t = vm.as_bytes(buffer_bytes(vm, b))
    if not vm.branch(F_isu64(t)):
        vm.throw(ValueError, 'Incorrect padding')
    return Sym('bytes', F_unu64(t))
