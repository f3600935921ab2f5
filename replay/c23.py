import os
import random
import signal
import subprocess
import sys
import time
from rt import *
from unittest import mock
import teleprox.util as util
import teleprox


class System:
    """Stands for the operating system: no signal ever leaves this class."""
    def __init__(self, procs=(), other=None):
        self.procs = dict(procs)         # pid -> command
        self.kills = []
        self.log = []
        self.errors = {}
        self.slept = 0
        self.on_sleep = None
        self.searches = 0
        self.on_search = None
        self.on_kill = None

    def kill(self, pid, sig):
        self.kills.append((pid, sig))
        self.log.append(('kill', pid))
        if self.on_kill:
            self.on_kill(pid)
        if pid not in self.procs:
            raise ProcessLookupError(3, 'No such process')
        if sig == 9:
            del self.procs[pid]

    def output(self, cmd, *a, **k):
        if isinstance(cmd, str):
            cmd = cmd.split()
        check(os.path.basename(cmd[0]) == 'ps', 'unexpected command', cmd)
        self.log.append('ps')
        self.searches += 1
        if self.on_search:
            self.on_search(self.searches)
        rows = ['%7s %s' % (p, c) for p, c in self.procs.items()]
        fmt = ' '.join(map(str, cmd))
        head = [] if 'pid=' in fmt else ['    PID COMMAND']
        out = '\n'.join(head + rows) + '\n'
        text = k.get('text') or k.get('encoding') or k.get('universal_newlines')
        return out if text else out.encode()

    def run(self, cmd, *a, **k):
        return subprocess.CompletedProcess(cmd, 0, self.output(cmd, *a, **k), '')

    def sleep(self, t):
        self.slept += t
        self.log.append(('sleep', t))
        if self.on_sleep:
            self.on_sleep()

    def __enter__(self):
        self.ps = [mock.patch.object(os, 'kill', self.kill), mock.patch.object(os, 'killpg', self.never),
                   mock.patch.object(subprocess, 'check_output', self.output),
                   mock.patch.object(subprocess, 'run', self.run),
                   mock.patch.object(time, 'sleep', self.sleep)]
        for n in ('kill', 'sleep', 'check_output'):
            if hasattr(util, n):        # imported by name
                self.ps.append(mock.patch.object(util, n, {'kill': self.kill, 'sleep': self.sleep,
                                                           'check_output': self.output}[n]))
        for p in self.ps:
            p.start()
        return self

    def never(self, *a):
        raise Fail('a whole process group is killed', a)

    def __exit__(self, *a):
        for p in reversed(self.ps):
            p.stop()


NAMES = {11: 'python3 -m teleprox.bootstrap worker', 5: '/usr/bin/zsh -l', 1234567: 'teleprox_x 123',
         42: 'name with  two blanks', 99: '-dash', 123: 'prog 11 5 42', 77: 'x', 8: 'PID 8'}


def pids(found):
    return sorted(p for p, c in found)


@scenario
def search_finds_those_with_the_text():
    with System(NAMES):
        for text in ['python', 'teleprox', 'worker', '11', '5', '42', ' ', '  ', 'two', '-dash', 'x', 'PID', 'COMMAND',
                     'nothing at all', 'zsh -l', '-l', '1234567', '99', 'p', 'm t', '77', 'bootstrap worker', '8']:
            want = sorted(p for p, c in NAMES.items() if text in c)
            got = util.find_procs(text)
            check(pids(got) == want, repr(text), 'found', got, 'not', want)
            for p, c in got:
                check(type(p) is int and NAMES[p] in c, p, c)


@scenario
def search_random():
    rng = random.Random(SEED)
    for i in range(reps(100, 2000)):
        procs = {rng.randrange(1, 4 * 10 ** 6): ''.join(rng.choice('ab1 %d-' '\xe4') for _ in range(rng.randrange(1, 9))) + 'e'
                 for _ in range(rng.randrange(8))}
        text = ''.join(rng.choice('ab1 %d-') for _ in range(rng.randrange(1, 3)))
        with System(procs) as s:
            got = util.find_procs(text)
            check(pids(got) == sorted(p for p, c in procs.items() if text in c), procs, repr(text), got)
            check(not s.kills)


@scenario
def search_real():
    mark = 'mark%d_%d' % (os.getpid(), SEED)
    code = 'import sys; sys.stdin.read()'
    ps = [subprocess.Popen([sys.executable, '-c', code] + a, stdin=-1) for a in
          ([mark], ['x' * 500 + mark + 'end'], ['other'], [mark + '\xe9'])]
    try:
        time.sleep(.2)
        for cols in (None, '40'):
            with mock.patch.dict(os.environ, {'COLUMNS': cols} if cols else {}):
                got = pids(util.find_procs(mark))
                check(got == sorted(p.pid for i, p in enumerate(ps) if i != 2), 'columns', cols, got, [p.pid for p in ps])
                check(pids(util.find_procs(mark + 'end')) == [ps[1].pid])
        check(util.find_procs(mark + 'nowhere') == [])
    finally:
        for p in ps:
            p.stdin.close()
            p.wait(10)


@scenario
def kill_nothing_found():
    with System(NAMES) as s:
        check(list(util.kill_procs('no such text')) == [])
        check(s.kills == [], s.kills)


@scenario
def kill_exactly_those_still_there():
    for wait in (0, .5, 3):
        for gone in ([], [11], [11, 1234567]):
            with System(NAMES) as s:
                s.on_sleep = lambda: [s.procs.pop(p, None) for p in gone]
                k = util.kill_procs('teleprox', wait)
                want = sorted(p for p in (11, 1234567) if p not in gone)
                check(sorted(s.kills) == [(p, 9) for p in want], s.kills, want)
                check(pids(k) == want, k, want)
                check(all(NAMES[p] in c for p, c in k), k)
                check(s.slept >= wait)
                if want:
                    first = next(i for i, e in enumerate(s.log) if e[0] == 'kill')
                    check('ps' in s.log[s.log.index(('sleep', wait)):first], s.log)


@scenario
def kill_waits_five_seconds_by_default():
    with System(NAMES) as s:
        util.kill_procs('teleprox')
        check(s.slept >= 5, s.slept)
        i = s.log.index('ps')
        check([e for e in s.log[:i] if e != 'ps'] == [], s.log)


@scenario
def kill_also_those_that_appeared():
    with System(NAMES) as s:
        s.on_sleep = lambda: s.procs.update({2000: 'new teleprox'})
        k = util.kill_procs('teleprox', 1)
        check(pids(k) == [11, 2000, 1234567], k)
        check(sorted(s.kills) == [(11, 9), (2000, 9), (1234567, 9)], s.kills)


@scenario
def kill_goes_on_when_one_is_gone():
    for g in (11, 1234567):
        with System(NAMES) as s:
            s.on_kill = lambda pid: s.procs.pop(g, None)
            k = util.kill_procs('teleprox', 1)
            want = [p for p in (11, 1234567) if p != g]
            check(pids(k) == want, k, want)
            check(set(s.kills) == {(11, 9), (1234567, 9)}, s.kills)


@scenario
def kill_other_search_texts():
    prefix = getattr(teleprox.process, 'PROCESS_NAME_PREFIX', 'teleprox')
    procs = dict(NAMES)
    procs[300] = prefix + 'x'
    for text in ('zsh', 'blanks', '-dash', 'prog'):
        with System(procs) as s:
            want = sorted(p for p, c in procs.items() if text in c)
            check(pids(util.kill_procs(text, .1)) == want)
            check(sorted(s.kills) == [(p, 9) for p in want], text, s.kills)


@scenario
def dead_pids_pass():
    with System(NAMES) as s:
        util.assert_pids_dead([])
        util.assert_pids_dead([1001, 1002])
        util.assert_pid_dead(1003)
        check(s.procs == NAMES)


def numbers(e):
    import re
    return sorted(int(x) for x in re.findall(r'\d+', str(e)))


@scenario
def live_pids_are_killed_and_named():
    rng = random.Random(SEED)
    for i in range(reps(60, 600)):
        live = rng.sample(range(100, 200), rng.randrange(4))
        dead = rng.sample(range(200, 300), rng.randrange(4))
        all_ = live + dead
        rng.shuffle(all_)
        with System({p: 'x' for p in live}) as s:
            if not live:
                util.assert_pids_dead(all_)
            else:
                e = raises(AssertionError, util.assert_pids_dead, all_)
                check(numbers(e) == sorted(live), str(e), live)
            check(not s.procs, 'left alive', s.procs)
            check(all(p in all_ and g == 9 for p, g in s.kills), s.kills)


@scenario
def one_live_pid():
    with System(NAMES) as s:
        e = raises(AssertionError, util.assert_pid_dead, 42)
        check(numbers(e) == [42], e)
        check(s.kills == [(42, 9)], s.kills)


@scenario
def pids_from_an_iterator():
    with System(NAMES) as s:
        e = raises(AssertionError, util.assert_pids_dead, (p for p in (42, 43, 5)))
        check(numbers(e) == [5, 42], e)


class P:
    def __init__(self, name, pid):
        self.name, self.pid = name, pid


@scenario
def cleanup_kills_every_live_process():
    rng = random.Random(SEED + 1)
    for i in range(reps(60, 600)):
        live = {'live%d_' % p: p for p in rng.sample(range(100, 200), rng.randrange(4))}
        dead = {'dead%d_' % p: p for p in rng.sample(range(200, 300), rng.randrange(4))}
        items = list(live.items()) + list(dead.items())
        rng.shuffle(items)
        body = rng.choice([None, None, ValueError('body'), AssertionError('body'), KeyboardInterrupt(), SystemExit(0)])
        with System({p: 'x' for p in live.values()}) as s:
            err = None
            c = util.ProcessCleaner()
            try:
                with c as cc:
                    check(cc is c)
                    for n, p in items:
                        if rng.random() < .5:
                            c.add(n, p)
                        else:
                            c.add(P(n, p))
                    check(not s.kills, 'killed before the end of the block')
                    if body is not None:
                        raise body
            except BaseException as e:
                if isinstance(e, Fail):
                    raise
                err = e
            check(not s.procs, 'left alive', s.procs)
            check(all(p in dict(items).values() and g == 9 for p, g in s.kills), s.kills)
            if body is not None:
                check(err is body, 'body failed with', body, 'but', repr(err))
            elif live:
                check(type(err) is AssertionError, repr(err))
                check(all(n in str(err) for n in live) and not any(n in str(err) for n in dead), str(err))
            else:
                check(err is None, repr(err))


@scenario
def cleanup_of_two_contexts():
    with System(NAMES) as s:
        a, b = util.ProcessCleaner(), util.ProcessCleaner()
        with a:
            a.add('gone', 4000)
            e = None
            try:
                with b:
                    b.add('forty-two', 42)
            except AssertionError as x:
                e = x
            check(e is not None and 'forty-two' in str(e))
        check(s.kills == [(42, 9), (4000, 9)], s.kills)


@scenario
def cleanup_twice():
    with System(NAMES) as s:
        c = util.ProcessCleaner()
        c.add('a', 42)
        raises(AssertionError, c.__exit__, None, None, None)
        check(not c.__exit__(None, None, None))


@scenario
def real_processes():
    ps = [subprocess.Popen([sys.executable, '-c', 'import sys; sys.stdin.read()'], stdin=-1) for i in range(3)]
    try:
        ps[1].stdin.close()
        ps[1].wait(10)
        e = raises(AssertionError, util.assert_pids_dead, [p.pid for p in ps[:2]])
        check(numbers(e) == [ps[0].pid], e)
        check(ps[0].wait(10) == -9)
        check(ps[2].poll() is None, 'another process was killed')
        c = util.ProcessCleaner()
        err = None
        try:
            with c:
                c.add('third', ps[2].pid)
        except AssertionError as x:
            err = x
        check(err is not None and 'third' in str(err))
        check(ps[2].wait(10) == -9)
    finally:
        for p in ps:
            p.poll() is None and p.kill()
            p.wait(10)


main()
