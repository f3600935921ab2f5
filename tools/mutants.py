"""mutants.py PROP file.py : apply each mutation of the file's MUTS list [(source file, old, new)] to a
scratch copy of the repository and show what the check of PROP says about it (development aid)."""
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ONE = '''
import sys; sys.path.insert(0, %r)
import run_check as r
with r.mp.pool.ThreadPool(1) as tp:
    fut = tp.apply_async(r.concrete, (sys.argv[1],))
    outs = r.verify(sys.argv[1]); conc = fut.get()
ref = sorted({x['obligation'] for o in outs for x in o['refutations']})
und = [str(u)[:110] for o in outs for u in o['unsupported']] + [k for o in outs for k, v in o['vcs'].items() if v['unknown']]
bad = [c['name'] for c in conc if not c['ok']]
print('%%-6s refuted %%s | failing %%s | undecided %%s' %% ('CAUGHT' if ref or bad else 'MISSED', [x[:60] for x in ref[:4]], bad[:5], und[:2]))
''' % HERE


def main():
    prop, f = sys.argv[1:3]
    only = [int(x) for x in sys.argv[3:]]
    muts = runpy.run_path(f)['MUTS']
    for i, (fn, old, new) in enumerate(muts):
        if only and i not in only:
            continue
        d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
        try:
            shutil.copytree('/repo/teleprox', d + '/teleprox', symlinks=True)
            p = d + '/teleprox/' + fn
            s = open(p).read()
            if s.count(old) < 1:
                print(i, 'NOT FOUND', old[:60])
                continue
            open(p, 'w').write(s.replace(old, new, 1))
            r = subprocess.run(['python3-vt', '-c', ONE, prop], env=dict(os.environ, VERIF_REPO=d),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            print(i, new[:60].replace('\n', ' '), '::', r.stdout.strip()[-700:] or r.stderr[-400:], flush=True)
        finally:
            shutil.rmtree(d)


main()
