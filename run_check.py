#!/opt/veriftools/pyvenv/bin/python
"""Decide one property:  run_check.py <property id>

1. The contracts of the property (contracts/<id>.py) are verified against the functions in
   /repo's current working tree: every harness is executed symbolically path by path by pyvc and
   each postcondition / invariant becomes an obligation for z3.
2. The same property is exercised on the real code with concrete inputs (replay/<id>.py): the
   replay of refuted obligations, and the labelled-bounded stand-in for what could not be decided.

exit 0: every obligation discharged (or undecided, and the bounded stand-in found nothing)
exit 1: VIOLATION line (an obligation is refuted, or a concrete scenario fails on the real code)
"""
import collections
import importlib
import json
import multiprocessing as mp
import multiprocessing.pool
import os
import re
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
VENV = '/opt/venv/bin/python'
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
BUDGET = 420 if TIER == 'quick' else 3000       # seconds for the whole verification phase


def job(a):
    prop, idx, limit, solver_ms, keep = a
    from pyvc.interp import World
    from pyvc.core import Explorer, Unsupported
    m = importlib.import_module('contracts.' + prop.lower())   # noqa: F841
    from contracts import base
    name, fn, opts = base.HARNESSES[prop][idx]
    t = time.time()
    out = dict(name=name, vcs={}, refutations=[], unsupported=[], taints=[], paths=0, reached=0,
               solver_s=0.0, queries=0, functions=[], trusted=[], assumptions=[], contracts=[], smt2=[])
    try:
        w = World(REPO)
        ex = Explorer(w, name, fn, **{'time_limit': limit, 'solver_ms': solver_ms, 'keep_smt': keep,
                                      **opts.get('ex', {})})
        r = ex.run()
        out.update(vcs=r.vcs, refutations=r.refutations, unsupported=list(r.unsupported),
                   taints=sorted(map(str, r.taints)), paths=r.paths, reached=r.reached,
                   solver_s=r.solver_s, queries=r.queries, functions=sorted(r.functions),
                   trusted=sorted(r.trusted), assumptions=sorted(r.assumptions),
                   contracts=sorted(r.contracts_used), smt2=r.smt2)
    except Unsupported as e:
        out['unsupported'].append('load: %s' % e)
    except SyntaxError as e:
        out['unsupported'].append('load: %r' % e)
    except Exception as e:
        import traceback
        out['unsupported'].append('engine: %r %s' % (e, traceback.format_exc()[-600:]))
    out['wall'] = time.time() - t
    return out


def verify(prop):
    mod = os.path.join(HERE, 'contracts', prop.lower() + '.py')
    if not os.path.exists(mod):
        return []
    importlib.import_module('contracts.' + prop.lower())
    from contracts import base
    n = len(base.HARNESSES[prop])
    limit = 240 if TIER == 'quick' else 1500
    ms = 8000 if TIER == 'quick' else 30000
    t0 = time.time()
    outs = []
    with mp.get_context('fork').Pool(8, maxtasksperchild=4) as pool:
        rs = [(i, pool.apply_async(job, ((prop, i, limit, ms, TIER == 'thorough'),))) for i in range(n)]
        for i, r in rs:
            left = max(1.0, BUDGET - (time.time() - t0))
            try:
                outs.append(r.get(timeout=left))
            except mp.TimeoutError:
                outs.append(dict(name=base.HARNESSES[prop][i][0], vcs={}, refutations=[],
                                 unsupported=['time budget exhausted'], taints=[], paths=0, reached=0,
                                 solver_s=0.0, queries=0, functions=[], trusted=[], assumptions=[],
                                 contracts=[], smt2=[], wall=left))
        pool.terminate()
    return outs


def replay_env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', QT_QPA_PLATFORM='offscreen',
             XDG_RUNTIME_DIR=os.environ.get('XDG_RUNTIME_DIR', '/tmp'),
             PYTHONPATH=REPO + os.pathsep + os.path.join(HERE, 'replay'), VERIF_TIER=TIER,
             VERIF_SEED=str(SEED))
    return e


def run_replay(prop, names=None, timeout=200):
    """Run the concrete scenarios; returns list of dict(name, ok, detail, n)."""
    f = os.path.join(HERE, 'replay', prop.lower() + '.py')
    if not os.path.exists(f):
        return []
    done = []
    t0 = time.time()
    if TIER == 'thorough':
        timeout *= 5
    skip = set()
    for attempt in range(6):
        with tempfile.TemporaryDirectory() as d:
            o = os.path.join(d, 'out.json')
            cmd = [VENV, f, '--out', o]
            if names:
                cmd += ['--only', ','.join(names)]
            if skip:
                cmd += ['--skip', ','.join(sorted(skip))]
            env = replay_env()
            env['TMPDIR'] = d
            try:
                p = subprocess.run(cmd, env=env, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, timeout=max(20, timeout - (time.time() - t0)),
                                   start_new_session=True)
                tail = p.stdout.decode('utf-8', 'replace')[-1500:]
                rc = p.returncode
            except subprocess.TimeoutExpired as e:
                tail = (e.stdout or b'').decode('utf-8', 'replace')[-1500:]
                rc = 'timeout'
            rs = []
            try:
                with open(o) as fh:
                    rs = [json.loads(l) for l in fh if l.strip()]
            except (OSError, ValueError):
                pass
            fin = any(r.get('finished') for r in rs)
            started = [r['name'] for r in rs if r.get('start')]
            ended = [r for r in rs if 'ok' in r]
            done += ended
            if fin:
                return done
            pending = [n for n in started if n not in {r['name'] for r in ended}]
            for n in pending:
                done.append(dict(name=n, ok=False, detail='process ended (%s) or hung: %s' % (rc, tail)))
            if not started and not ended:
                done.append(dict(name='(import)', ok=False, detail='cannot run: %s %s' % (rc, tail)))
                return done
            skip |= set(started)
            if names:
                names = [n for n in names if n not in skip]
                if not names:
                    return done
            if time.time() - t0 > timeout:
                return done
    return done


def concrete(prop):
    rs = run_replay(prop)
    bad = [r for r in rs if not r['ok']]
    if bad:
        # once more, alone: only what fails again counts
        again = run_replay(prop, [r['name'] for r in bad]) if bad[0]['name'] != '(import)' else run_replay(prop)
        still = {r['name'] for r in again if not r['ok']}
        for r in bad:
            if r['name'] not in still:
                r['ok'] = True
                r['detail'] = 'failed once, not repeatable: ' + str(r.get('detail'))[:300]
    return rs


def cvc5_recheck(outs, limit):
    """Second opinion on discharged obligations (thorough tier)."""
    jobs = [(n, s) for o in outs for n, s in o['smt2']]
    step = max(1, len(jobs) // 400)
    jobs = jobs[::step]
    res = collections.Counter()
    bad = []
    t0 = time.time()
    with mp.get_context('fork').Pool(8) as pool:
        for n, v in pool.imap_unordered(cvc5_one, jobs):
            res[v] += 1
            if v == 'sat':
                bad.append(n)
            if time.time() - t0 > limit:
                pool.terminate()
                res['not run'] = len(jobs) - sum(res.values())
                break
    return dict(res), bad


def cvc5_one(a):
    n, s = a
    try:
        p = subprocess.run(['cvc5', '--strings-exp', '--tlimit=8000', '-q', '-'], input=('(set-logic ALL)\n' + s).encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=20)
        o = p.stdout.decode().strip().splitlines()
        v = o[-1] if o else 'none'
        return n, v if v in ('sat', 'unsat', 'unknown') else 'not accepted'
    except subprocess.TimeoutExpired:
        return n, 'unknown'


def known(prop):
    out = []
    try:
        with open(os.path.join(HERE, 'known-findings.txt')) as fh:
            for l in fh:
                m = re.match(r'finding: property=(\S+) scenario="([^"]*)" (.*)', l.strip())
                if m and m.group(1) == prop:
                    out.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return out


def main():
    prop = sys.argv[1]
    t0 = time.time()
    with mp.pool.ThreadPool(1) as tp:
        fut = tp.apply_async(concrete, (prop,))
        outs = verify(prop)
        conc = fut.get()
    vcs = collections.OrderedDict()
    for o in outs:
        for k, v in o['vcs'].items():
            d = vcs.setdefault('%s: %s' % (o['name'], k), dict(proved=0, refuted=0, unknown=0, trivial=0))
            for x in d:
                d[x] += v.get(x, 0)
    refuted = [r for o in outs for r in o['refutations']]
    unsup = ['%s: %s' % (o['name'], u) for o in outs for u in o['unsupported']]
    unknown = [k for k, v in vcs.items() if v['unknown']]
    vacuous = [o['name'] for o in outs if not o['unsupported'] and not o['refutations']
               and (o['reached'] == 0 or not o['vcs'])]
    cond = [k for k, v in vcs.items() if not v['refuted'] and not v['unknown']]
    total = sum(v['proved'] + v['refuted'] + v['unknown'] for v in vcs.values())
    ok = sum(v['proved'] for v in vcs.values())
    failing = [c for c in conc if not c['ok']]
    kn = known(prop)
    listed = []
    for c in list(failing):
        for scen, what in kn:
            if c['name'] == scen:
                failing.remove(c)
                listed.append(what)
                break
    recheck = None
    if TIER == 'thorough' and outs:
        recheck, bad = cvc5_recheck(outs, 900)
        for n in bad:
            unknown.append('cvc5 disagrees on: ' + n)
    for w in listed:
        print('KNOWN-FINDING: property=%s %s' % (prop, w))

    violation = bool(refuted or failing)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    line = None
    if violation:
        rp = os.path.join(HERE, 'evidence', 'replay-%s.json' % prop)
        with open(rp, 'w') as fh:
            json.dump(dict(property=prop,
                           failed_obligations=sorted({'%s: %s' % (r['harness'], r['obligation']) for r in refuted}),
                           verifier_output=refuted[:40],
                           failing_inputs=failing,
                           reproduce='PYTHONPATH=%s:%s/replay %s %s/replay/%s.py --only %s' % (
                               REPO, HERE, VENV, HERE, prop.lower(),
                               ','.join(c['name'] for c in failing)) if failing else
                           'VERIF_TIER=%s python3-vt %s/run_check.py %s' % (TIER, HERE, prop)),
                      fh, indent=1, default=str)
        line = 'VIOLATION property=%s replay=%s' % (prop, rp)
        if not failing:
            line += ' no-failing-input-found'

    undecided = unsup + ['%s: undecided' % k for k in unknown] + ['%s: vacuous' % v for v in vacuous]
    level = 'proof' if not undecided and outs else 'exploration'
    trusted = sorted({t for o in outs for t in o['trusted']})
    assum = sorted({t for o in outs for t in o['assumptions']})
    functions = sorted({f for o in outs for f in o['functions']})
    contracts_used = sorted({f for o in outs for f in o['contracts']})
    doc = sys.modules.get('contracts.' + prop.lower())
    extra = list(getattr(doc, 'ASSUMPTIONS', ()) or ())
    ev = dict(
        property=prop, tier=TIER, seed=SEED, level='proof',
        coverage=dict(
            obligations=total, discharged=ok,
            checker_cmd='python3-vt /verif/run_check.py %s (pyvc: symbolic execution of /repo\'s source, '
                        'obligations to z3 %s)' % (prop, z3v()),
            trusted_base=['pyvc (/verif/pyvc): the Python semantics it gives to the source text',
                          'z3 solver'] + ['library contract: ' + t for t in trusted],
            named_obligations=len(vcs), named_fully_discharged=len(cond),
            undecided=undecided[:60], decided=not undecided and not refuted,
            functions_under_contract=functions, contracts_cut_at=contracts_used,
            harnesses=[dict(name=o['name'], paths=o['paths'], paths_reaching_the_end=o['reached'],
                            obligations=sum(v['proved'] + v['refuted'] + v['unknown'] for v in o['vcs'].values()),
                            discharged=sum(v['proved'] for v in o['vcs'].values()),
                            solver_s=round(o['solver_s'], 2), queries=o['queries'],
                            wall_s=round(o.get('wall', 0), 2)) for o in outs],
            solver_s=round(sum(o['solver_s'] for o in outs), 2),
            back_ends={'z3': ok, **({'cvc5 re-check': recheck} if recheck else {})},
            obligation_names=list(vcs)[:400],
            bounded_concrete=dict(
                label='bounded cross-check on the real code; not counted as proof',
                scenarios=len(conc), failed=len([c for c in conc if not c['ok']]),
                cases=sum(int(c.get('n') or 1) for c in conc),
                names=[c['name'] for c in conc][:200],
                notes=[c['name'] + ': ' + str(c['detail'])[:300] for c in conc if c['ok'] and c.get('detail')])),
        assumptions=assum + extra,
        wall_s=round(time.time() - t0, 2),
        violations=([line] if line else []))
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    print('%s: %d obligations, %d discharged (%d named), %d refuted, %d undecided notes; %d concrete '
          'scenarios, %d failed; %.1f s' % (prop, total, ok, len(vcs), sum(v['refuted'] for v in vcs.values()),
                                            len(undecided), len(conc), len(failing), time.time() - t0))
    for u in undecided[:12]:
        print('  undecided:', str(u)[:300])
    if refuted:
        for k in sorted({'%s: %s' % (r['harness'], r['obligation']) for r in refuted})[:20]:
            print('  refuted:', k)
    for c in failing[:10]:
        print('  failing input: %s: %s' % (c['name'], str(c['detail'])[-500:]))
    if not outs and not conc:
        print('no obligations and no scenarios')
        return 2
    if line:
        print(line)
        return 1
    if outs and total == 0 and not undecided:
        print('zero obligations')
        return 2
    return 0


def z3v():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    import multiprocessing.pool   # noqa: F401
    sys.exit(main())
