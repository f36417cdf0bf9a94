"""writes MANIFEST.json from properties.jsonl and the harnesses that exist"""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
NOTE = ('Every path of the real source (instrumented at import from /repo on each run) within the bounds in '
        'evidence is decided by z3; counterexamples are replayed on the unmodified code under PyPy before they are '
        'reported, completed paths are sampled and replayed too. Trusted: the symx rewriting and its models of '
        'built-in types and C library functions, z3, the harness oracles. Nothing is claimed outside the bounds; '
        'paths that could not be decided are counted in the evidence.')
EXTRA = json.load(open(os.path.join(R, 'tools', 'notes.json'))) if os.path.exists(os.path.join(R, 'tools', 'notes.json')) else {}
checks, na = [], []
for line in open(os.path.join(R, 'properties.jsonl')):
    p = json.loads(line)['id']
    if os.path.exists(os.path.join(R, 'harness', p.lower() + '.py')):
        checks.append(dict(
            property=p, quick_cmd='python3-vt -m symx.check %s --tier quick' % p,
            thorough_cmd='python3-vt -m symx.check %s --tier thorough' % p,
            evidence_file='evidence/%s.json' % p,
            technique='symbolic execution of the real Python source with an SMT solver (z3)',
            level='model_checking', level_note=NOTE + (' ' + EXTRA[p] if p in EXTRA else '')))
    else:
        na.append(dict(property=p, reason=EXTRA.get('na', {}).get(p, 'check not built yet')))
m = dict(version=1, setup_cmd='python3-vt -c "import z3"',
         checks=checks, not_applicable=na,
         notes='No hooks: nothing in /repo is changed for the checks. See DESIGN.md.')
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
