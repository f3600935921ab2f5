"""Write MANIFEST.json from the properties that have contracts."""
import json
import os
import importlib.util

HERE = os.path.dirname(os.path.abspath(__file__))
NA = {
    'C26': 'Progress of mutually calling servers is a liveness property of the joint schedule of several '
           'threads and processes; contracts on single functions state partial correctness of one call '
           'and cannot express that every fair schedule eventually completes. The safety half that can '
           'be a contract (a waiting client serves its own server) is decided under C15.',
    'C27': 'Whether a daemon survives its parent and holds no parent stream is behaviour of the operating '
           'system (sessions, signals, inherited descriptors) after fork/exec; no function in the '
           'repository has a postcondition that states it. The part the code decides (arguments, double '
           'fork sequence, streams given to Popen) is decided under C17.',
}
TECH = ('contract-based deductive verification: postconditions and invariants on the real functions, '
        'extracted from /repo on every run, discharged path by path by symbolic execution (pyvc) and z3')


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    notes = json.load(open(os.path.join(HERE, 'level_notes.json')))
    for p in props:
        i = p['id']
        if i in NA:
            na.append(dict(property=i, reason=NA[i]))
        elif os.path.exists(os.path.join(HERE, 'contracts', i.lower() + '.py')) and i in notes:
            checks.append(dict(property=i, quick_cmd='python3-vt run_check.py %s' % i,
                               thorough_cmd='VERIF_TIER=thorough python3-vt run_check.py %s' % i,
                               technique=TECH, level='proof', level_note=notes[i]))
        else:
            na.append(dict(property=i, reason='check under construction'))
    m = dict(version=1, setup_cmd='python3-vt -c "import z3" && test -x /opt/venv/bin/python',
             checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'not applicable')


main()
