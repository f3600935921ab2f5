"""Random values and deep comparison for the transport properties."""
import datetime
import math
import string

import numpy as np

TZ = [None, datetime.timezone.utc, datetime.timezone(datetime.timedelta(hours=5, minutes=30)),
      datetime.timezone(-datetime.timedelta(hours=3, seconds=7)),
      datetime.timezone(datetime.timedelta(seconds=1, microseconds=5)),
      datetime.timezone(datetime.timedelta(hours=1), 'X')]
DTYPES = ['?', 'b', 'B', '<i2', '>i2', '<u4', '>u4', '<i8', '>u8', '<f2', '>f4', '<f8', '>f8', '<c8', '>c16', 'g',
          'S3', '<U2', '>U3', 'V5']
DATES = ['<M8[ns]', '>M8[D]', '<m8[s]', 'M8[us]']
STRUCTS = [
    np.dtype([('a', '<i4'), ('b', '>f8')]),
    np.dtype([('a', 'u1'), ('b', '<i8', (2, 3)), ('c', 'S5')]),
    np.dtype([('n', [('x', '<f4'), ('y', '<f4')]), ('z', '?')]),
    np.dtype([('a', 'u1'), ('b', '<f8')], align=True),
    np.dtype({'names': ['a', 'b'], 'formats': ['<i2', '<f4'], 'offsets': [0, 8], 'itemsize': 20}),
    np.dtype([("it's", 'i4'), ('x y', 'f4')]),
    np.dtype([(('title', 'name'), 'i4')]),
]
INTS = [0, 1, -1, 127, 128, 255, 256, -128, -129, 2 ** 31, -2 ** 31 - 1, 2 ** 32, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63, 2 ** 63,
        2 ** 64 - 1, 2 ** 64, -2 ** 63 - 1, 2 ** 200, -2 ** 200]
FLOATS = [0.0, -0.0, 1.0, 0.1, 1e308, -1e-308, 5e-324, 1 / 3, 2.0 ** 60, float('inf'), float('-inf'), float('nan')]
SCALARS = ['?', 'i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'f2', 'f4', 'f8', '>i4', '>f4', '>u8']


class Gen:
    def __init__(self, rnd, json):
        self.r, self.json = rnd, json
        self.np = np.random.RandomState(rnd.randrange(2 ** 32))

    def text(self):
        r = self.r
        al = string.ascii_letters + ' _"\'\\\n\t\0é€😀\u2028'
        return ''.join(r.choice(al) for _ in range(r.choice([0, 1, 3, 40, 300])))

    def bytes(self):
        return bytes(self.r.randrange(256) for _ in range(self.r.choice([0, 1, 3, 40, 300])))

    def int(self):
        r = self.r
        return r.choice(INTS) if r.random() < .5 else r.randrange(-2 ** r.randrange(1, 70), 2 ** r.randrange(1, 70))

    def float(self):
        return self.r.choice(FLOATS) if self.r.random() < .5 else self.r.uniform(-1, 1) * 10 ** self.r.randrange(-30, 30)

    def datetime(self):
        r = self.r
        d = datetime.datetime(r.choice([1, 1970, 2024, 9999]), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24),
                              r.randrange(60), r.randrange(60), r.choice([0, 1, 1000, 999999, r.randrange(10 ** 6)]),
                              tzinfo=r.choice(TZ), fold=r.randrange(2))
        return d

    def date(self):
        r = self.r
        return datetime.date(r.choice([1, 1970, 2024, 9999]), r.randrange(1, 13), r.randrange(1, 29))

    def dtype(self):
        r = self.r
        if r.random() < .3:
            return r.choice(STRUCTS)
        return np.dtype(r.choice(DTYPES + DATES))

    def array(self):
        r = self.r
        dt = self.dtype()
        while self.json and (dt.kind in 'mM'):
            dt = self.dtype()
        sh = r.choice([(), (0,), (1,), (5,), (2, 3), (3, 0, 2), (2, 1, 3), (1, 1)])
        n = int(np.prod(sh))
        if dt.kind == '?':
            a = self.np.randint(0, 2, sh).astype('?')
        elif dt.kind == 'b':
            a = (self.np.randint(0, 2, sh) > 0).astype(dt)
        elif dt.kind == 'U':
            a = np.array([self.r.choice(['', 'a', 'é€']) for _ in range(n)], dtype=dt).reshape(sh)
        elif dt.kind == 'O':
            raise AssertionError
        elif dt.names or dt.kind in 'VS':
            a = np.zeros(sh, dt)
            if dt.names:
                for f in dt.names:
                    if a[f].dtype.kind in 'iuf':
                        a[f] = self.np.randint(0, 100, a[f].shape)
            elif n:
                a = np.frombuffer(self.np.bytes(n * dt.itemsize), dt).reshape(sh)
        else:
            a = (self.np.uniform(-100, 100, sh)).astype('i8' if dt.kind in 'mM' else 'f8').astype(dt) if dt.kind != 'u' \
                else self.np.randint(0, 200, sh).astype(dt)
        a = np.asarray(a)
        lay = r.randrange(6)
        if lay == 1:
            a = np.asfortranarray(a) if a.ndim else a
        elif lay == 2 and a.ndim:
            a = np.repeat(a, 2, axis=0)[::2]
        elif lay == 3 and a.ndim:
            a = a[::-1]
        elif lay == 4 and a.ndim > 1:
            a = a.swapaxes(0, -1)
        elif lay == 5:
            a = np.broadcast_to(a, (2,) + a.shape)
        return a

    def scalar(self):
        r = self.r
        c = r.choice(SCALARS)
        while self.json and c == 'f8':
            c = r.choice(SCALARS)
        dt = np.dtype(c)
        if dt.kind == 'b':
            return np.bool_(r.randrange(2))
        if dt.kind in 'iu':
            i = np.iinfo(dt)
            return dt.type(r.choice([i.min, i.max, 0, 1, r.randrange(int(i.min), int(i.max) + 1)]))
        f = np.finfo(dt)
        return dt.type(r.choice([f.max, f.min, f.tiny, 0.1, -0.0, 1 / 3, float('inf'), float('nan'), r.uniform(-9, 9)]))

    def key(self):
        k = self.r.randrange(1 if self.json else 3)
        return (self.text, self.bytes, self.int64)[k]()

    def int64(self):
        return self.r.randrange(-2 ** 63, 2 ** 64)

    def value(self, depth=3):
        r = self.r
        leaves = [lambda: None, lambda: r.random() < .5, self.int, self.float, self.text, self.bytes, self.datetime,
                  self.date, self.dtype, self.array, self.scalar]
        if depth == 0 or r.random() < .3:
            return r.choice(leaves)()
        k = r.randrange(3)
        n = r.choice([0, 1, 2, 4])
        if k == 0:
            return [self.value(depth - 1) for _ in range(n)]
        if k == 1:
            return tuple(self.value(depth - 1) for _ in range(n))
        return {self.key(): self.value(depth - 1) for _ in range(n)}


def snapshot(x):
    """Deep copy of containers, to see whether encoding changed them."""
    if isinstance(x, list):
        return [snapshot(y) for y in x]
    if isinstance(x, tuple):
        return tuple(snapshot(y) for y in x)
    if isinstance(x, dict):
        return {k: snapshot(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return x.copy()
    return x


def diff(a, b, json=False):
    """None if b is an equal value of the same type, else a description."""
    if json and type(a) is tuple:
        a = list(a)
    if type(a) is not type(b):
        if not (isinstance(a, np.dtype) and isinstance(b, np.dtype)):
            return 'type %s became %s' % (type(a), type(b))
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return 'length %d became %d' % (len(a), len(b))
        for x, y in zip(a, b):
            d = diff(x, y, json)
            if d:
                return d
        return None
    if isinstance(a, dict):
        if len(a) != len(b):
            return 'keys %r became %r' % (list(a), list(b))
        own = {k: k for k in b}
        for k in a:
            if k not in b:
                return 'key %r lost' % (k,)
            kb = own[k]
            if type(kb) is not type(k):
                return 'key %r became %r' % (k, kb)
            d = diff(a[k], b[k], json)
            if d:
                return d
        return None
    if isinstance(a, np.ndarray):
        if a.dtype != b.dtype or a.shape != b.shape:
            return 'array %s %s became %s %s' % (a.dtype, a.shape, b.dtype, b.shape)
        if a.tobytes() != b.tobytes():
            if a.dtype.names or a.dtype.kind == 'V' or not np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc'):
                if a.dtype.names and all(a[n].tobytes() == b[n].tobytes() for n in a.dtype.names):
                    return None
                return 'array contents %r became %r' % (a, b)
        return None
    if isinstance(a, np.generic):
        return None if a.dtype == b.dtype and a.tobytes() == b.tobytes() else 'scalar %r became %r' % (a, b)
    if isinstance(a, float):
        same = (math.isnan(a) and math.isnan(b)) or (a == b and math.copysign(1, a) == math.copysign(1, b))
        return None if same else 'float %r became %r' % (a, b)
    if isinstance(a, datetime.datetime):
        if a != b or (a.tzinfo is None) != (b.tzinfo is None) or a.utcoffset() != b.utcoffset():
            return 'datetime %r became %r' % (a, b)
        return None
    return None if a == b else '%r became %r' % (a, b)
