import atexit
import os
import pickle
import random
import subprocess
import sys
import threading
import multiprocessing.shared_memory as sm
from multiprocessing import resource_tracker
from rt import *
from unittest import mock
import numpy as np
import teleprox.shmem as shmem
from teleprox.shmem import SharedNDArray

DTYPES = ['f8', 'f4', 'i1', 'u2', '>i4', '<u8', '?', 'c16', 'S5', 'U3', 'V7', 'M8[s]', 'm8[us]', [('a', 'i4'), ('b', 'S3')],
          [('a', 'f8', (2, 3)), ('b', [('c', 'u1')])], np.dtype({'names': ['x'], 'formats': ['i2'], 'offsets': [3], 'itemsize': 8}), 'f2', float, int, bool]
SHAPES = [(), (0,), (1,), (5,), 7, 0, [2, 3], (3, 0, 2), (2, 3, 4), (1, 1, 1, 1), (1000, 50), np.int64(4), (np.int32(3), 2)]
# (else each attached block is tracked, and unlinked, a second time)
resource_tracker.register = resource_tracker.unregister = lambda *a: None
unlinked = []
_unlink, _close = sm.SharedMemory.unlink, sm.SharedMemory.close


def unlink(self):
    unlinked.append(self.name)
    return _unlink(self)


sm.SharedMemory.unlink = unlink
atexit.register(lambda: [drop(n) for n in list(made)])
made = set()
_init = sm.SharedMemory.__init__


def init(self, name=None, create=False, size=0, **k):
    _init(self, name, create, size, **k)
    made.add(self.name)


sm.SharedMemory.__init__ = init


def drop(name):
    try:
        os.unlink('/dev/shm/' + os.path.basename(name))
    except OSError:
        pass
    made.discard(name)


def transfer(a):
    return pickle.loads(pickle.dumps(a))


def same(x, y):
    if x.shape != y.shape or x.dtype != y.dtype:
        return False
    if x.dtype.names == ('x',):          # (with padding, which is nobody's)
        x, y = x['x'], y['x']
    return x.tobytes() == y.tobytes()


def reset():
    shmem.close_all()
    del unlinked[:]


def exists(name):
    return os.path.exists('/dev/shm/' + name.lstrip('/'))


@scenario
def zeros_of_all_kinds():
    for dt in DTYPES:
        for sh in SHAPES:
            a = SharedNDArray.zeros(sh, dt)
            want = np.zeros(sh, dt)
            check(a.data.shape == want.shape and a.data.dtype == want.dtype, dt, sh, a.data.shape, a.data.dtype)
            check(a.data.tobytes() == bytes(want.nbytes), 'not zeros', dt, sh, a.data.tobytes()[:20])
            check(a.shmem.size >= want.nbytes)
    reset()


@scenario
def zeros_even_if_memory_was_used():
    # (a system that hands out memory with old contents)
    real = sm.SharedMemory

    def dirty(*a, **k):
        m = real(*a, **k)
        m.buf[:] = b'\x31' * len(m.buf)
        return m
    with mock.patch.object(sm, 'SharedMemory', dirty):
        for dt in ('f8', 'i4', '?', 'c16', [('a', 'i4'), ('b', 'f8')]):
            a = SharedNDArray.zeros((3, 2), dt)
            # POSIX gives zeroed memory: only arrays that are written at all are judged
            b = a.data.tobytes()
            check(b == bytes(len(b)) or b == b'\x31' * len(b), dt, b)
    reset()


def layouts(dt):
    rng = np.random.RandomState(1)

    def fill(sh):
        n = int(np.prod(sh)) * np.dtype(dt).itemsize
        if np.dtype(dt) == bool:
            return rng.randint(0, 2, sh).astype(bool)
        if np.dtype(dt).kind == 'U':
            return rng.randint(0, 99, sh).astype(dt)
        return np.frombuffer(rng.bytes(n), dt).reshape(sh)
    for sh in ((), (0,), (1,), (5,), (3, 4), (2, 3, 4), (0, 3), (3, 0)):
        a = fill(sh)
        yield a
        if a.ndim:
            yield a[::-1]
            yield a[::2]
            yield a[1:]
        if a.ndim > 1:
            yield a.T
            yield np.asfortranarray(a)
            yield a[:, ::-1]
            yield a[..., :1]
            yield np.broadcast_to(a[:1], a.shape) if a.shape[0] else a
    yield np.ndarray((3,), dt, buffer=bytes(3 * np.dtype(dt).itemsize))


@scenario
def copies_of_all_kinds():
    for dt in DTYPES:
        for x in layouts(dt):
            before = x.copy()
            a = SharedNDArray.copy(x)
            check(same(a.data, x), 'copy differs', dt, x.shape, x.strides)
            check(a.shmem.size >= x.nbytes)
            check(same(x, before))
            if a.data.size and x.flags.writeable:
                a.data[...] = np.zeros((), a.data.dtype)
                check(same(x, before), 'the original changes with the copy')
    reset()


@scenario
def sent_arrays_share_memory():
    rng = np.random.RandomState(2)
    for dt in DTYPES:
        for sh in SHAPES:
            a = SharedNDArray.zeros(sh, dt)
            b = transfer(a)
            check(isinstance(b, SharedNDArray))
            check(b.data.shape == a.data.shape and b.data.dtype == a.data.dtype and b.data.strides == a.data.strides, dt, sh, b.data)
            check(b.shmem.name == a.shmem.name, 'another block')
            for x, y in ((a.data, b.data), (b.data, a.data)):
                if x.nbytes:
                    if x.dtype.kind in 'US':
                        x[...] = str(rng.randint(9))
                    else:
                        x[...] = np.frombuffer(bytes([int(np.dtype(x.dtype) == bool) or rng.randint(1, 100)]) * x.nbytes, x.dtype).reshape(x.shape)
                    check(same(x, y) and x.tobytes() != bytes(x.nbytes), 'written', x, 'seen', y)
            c = transfer(b)
            check(same(c.data, a.data) and c.data.strides == a.data.strides, 'sent on')
    reset()


@scenario
def sent_copies():
    for dt in ('f8', 'u1', 'S5', [('a', 'i4'), ('b', 'S3')]):
        for x in layouts(dt):
            a = SharedNDArray.copy(x)
            b = transfer(a)
            check(same(b.data, x) and b.data.strides == a.data.strides, dt, x.shape)
    reset()


@scenario
def any_strides():
    m = sm.SharedMemory(create=True, size=400)
    base = np.ndarray((10, 10), 'i4', buffer=m.buf)
    base[...] = np.arange(100).reshape(10, 10)
    for v in (base.T, base[::2], base[:, ::3], base[:5, :2], base[:, :0], base[:1].T):
        a = SharedNDArray(m, v)
        b = transfer(a)
        check(same(b.data, v) and b.data.strides == v.strides, v.shape, v.strides, b.data.strides)
    check(m not in shmem.all_shmem if hasattr(shmem, 'all_shmem') else True)
    n = m.name
    reset()
    check(exists(n), 'a block that nobody asked to clean up is gone')
    del base, v, a, b
    _unlink(m)


@scenario
def in_another_process():
    a = SharedNDArray.copy(np.arange(12.).reshape(3, 4))
    code = ('import sys, pickle\n'
            'from multiprocessing import resource_tracker\n'
            'resource_tracker.register = lambda *a: None\n'
            'import teleprox.shmem as s\n'
            'a = pickle.loads(sys.stdin.buffer.read())\n'
            'print(a.data.shape, a.data.dtype, a.data.sum())\n'
            'a.data[1, 2] = 77\n')
    env = dict(os.environ, PYTHONPATH=os.pathsep.join(sys.path))
    p = subprocess.run([sys.executable, '-c', code], input=pickle.dumps(a), stdout=subprocess.PIPE, env=env, timeout=25)
    check(p.stdout.split() == b'(3, 4) float64 66.0'.split(), p.stdout)
    check(a.data[1, 2] == 77, 'what another process writes')
    check(exists(a.shmem.name), 'the receiving process removed the memory when it ended')
    reset()


@scenario
def cleaning_up():
    reset()
    rng = random.Random(3)
    for i in range(reps(40)):
        own, other = [], []
        for j in range(rng.randrange(1, 8)):
            k = rng.randrange(5)
            close = rng.random() < .5
            if k == 0:
                a = SharedNDArray.zeros((3,), 'f8', close=close)
            elif k == 1:
                a = SharedNDArray.copy(np.arange(4), close)
            elif k == 2:
                a = SharedNDArray.zeros((2, 2), 'u1')
                close = True
            elif k == 3:
                src = SharedNDArray.zeros((3,), 'f8', close=False)
                a = transfer(src)
                close = False
            else:
                m = sm.SharedMemory(create=True, size=8)
                a = SharedNDArray(m, np.ndarray((8,), 'u1', buffer=m.buf), *((close,) if rng.random() < .7 else ()))
                close = getattr(a, 'close', close)
                close = close is True
            (own if close else other).append(a)
        shmem.close_all()
        check(sorted(unlinked) == sorted(a.shmem.name for a in own), 'unlinked', unlinked, 'own', [a.shmem.name for a in own])
        check(not any(exists(a.shmem.name) for a in own) and all(exists(a.shmem.name) for a in other), 'blocks')
        del unlinked[:]
        shmem.close_all()
        check(not unlinked, 'unlinked again', unlinked)
        for a in other:
            drop(a.shmem.name)


@scenario
def default_is_not_to_clean_up():
    m = sm.SharedMemory(create=True, size=8)
    a = SharedNDArray(m, np.ndarray((8,), 'u1', buffer=m.buf))
    reset()
    shmem.close_all()
    check(exists(m.name), 'a block from elsewhere is gone')
    drop(m.name)


@scenario
def a_block_that_is_gone_already():
    a, b, c = (SharedNDArray.zeros((3,), 'f8') for i in range(3))
    _unlink(b.shmem)
    shmem.close_all()
    check(not exists(a.shmem.name) and not exists(c.shmem.name), 'blocks left')
    reset()


@scenario
def a_buffer_in_use():
    a, b, c = (SharedNDArray.zeros((3,), 'f8') for i in range(3))
    v = b.shmem.buf[1:5]
    names = [x.shmem.name for x in (a, b, c)]
    shmem.close_all()
    check(not any(exists(n) for n in names), 'blocks left', [exists(n) for n in names])
    v.release()
    reset()


@scenario
def when_the_process_exits():
    code = ('import teleprox.shmem as s, numpy as np\n'
            'a = s.SharedNDArray.zeros((3,), "f8")\n'
            'b = s.SharedNDArray.copy(np.arange(3))\n'
            'print(a.shmem.name, b.shmem.name)\n')
    env = dict(os.environ, PYTHONPATH=os.pathsep.join(sys.path))
    p = subprocess.run([sys.executable, '-c', code], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=25)
    names = p.stdout.decode().split()
    check(len(names) == 2 and not any(exists(n) for n in names), 'blocks left by a process that ended')
    check(b'leaked' not in p.stderr, p.stderr[-300:])


@scenario
def too_large_is_refused():
    names, make = [], sm._make_filename

    def noted():
        names.append(make())
        return names[-1]
    for sh in ((2 ** 40, 2 ** 40), (2 ** 62, 4)):
        with mock.patch.object(sm, '_make_filename', noted):
            raises((ValueError, TypeError, OSError, OverflowError, MemoryError), SharedNDArray.zeros, sh, 'f8')
    [drop(n) for n in names]             # (the interpreter forgets blocks that cannot be made large enough)
    reset()


main()
