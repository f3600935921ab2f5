"""Concrete scenarios on the real code: a scenario fails by raising, or by not ending in time."""
import argparse
import faulthandler
import inspect
import json
import os
import random
import sys
import threading
import time
import traceback

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
THOROUGH = os.environ.get('VERIF_TIER') == 'thorough'
SCENARIOS = []


def scenario(fn=None, limit=30, name=None):
    def d(f):
        SCENARIOS.append((name or f.__name__, f, limit))
        return f
    return d(fn) if fn else d


def reps(quick, thorough=None):
    return (thorough or quick * 10) if THOROUGH else quick


class Fail(AssertionError):
    pass


def check(cond, *info):
    if not cond:
        raise Fail(' '.join(str(i) for i in info))


def raises(exc, fn, *a, **k):
    try:
        r = fn(*a, **k)
    except exc as e:
        return e
    raise Fail('no %s from %s%r %r: returned %r' % (exc, getattr(fn, '__name__', fn), a, k, r))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--out')
    ap.add_argument('--only')
    ap.add_argument('--skip', default='')
    a = ap.parse_args()
    only = set(a.only.split(',')) if a.only else None
    skip = set(a.skip.split(','))
    out = open(a.out, 'w') if a.out else sys.stdout

    def emit(**d):
        out.write(json.dumps(d, default=repr) + '\n')
        out.flush()
    cur = [None, 0]

    def watch():
        while True:
            time.sleep(0.2)
            n, dl = cur
            if n is not None and time.time() > dl:
                try:
                    frames = sys._current_frames()
                    main_id = threading.main_thread().ident
                    st = ''.join(traceback.format_stack(frames[main_id])[-6:]) if main_id in frames else ''
                except Exception:
                    st = ''
                emit(name=n, ok=False, detail='did not end in time\n' + st)
                os._exit(3)
    threading.Thread(target=watch, daemon=True).start()
    bad = 0
    for name, fn, limit in SCENARIOS:
        if (only is not None and name not in only) or name in skip:
            continue
        emit(name=name, start=True)
        cur[:] = [name, time.time() + limit * (5 if THOROUGH else 1)]
        t = time.time()
        try:
            if len(inspect.signature(fn).parameters):
                n = fn(random.Random('%s/%s' % (SEED, name)))
            else:
                n = fn()
            cur[0] = None
            emit(name=name, ok=True, n=n if isinstance(n, int) else 1, s=round(time.time() - t, 2))
        except BaseException as e:
            cur[0] = None
            bad += 1
            emit(name=name, ok=False, s=round(time.time() - t, 2),
                 detail=''.join(traceback.format_exception(type(e), e, e.__traceback__)[-4:])[-1800:])
    emit(finished=True)
    out.flush()
    sys.stdout.flush()
    os._exit(1 if bad else 0)
