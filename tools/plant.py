"""Plant bugs: python3 tools/plant.py SPEC.py [ID...]

SPEC.py defines BUGS, a list of dicts: id, property, edits [(file, old, new)],
needs, breaks, demo (python text; `doc`/`load` helpers are prepended).
For each one: writes seeded/<id>/, confirms demo(clean)==0, build+tests with
the patch keep the baseline, demo(patched)!=0, runs the property's check.
PLANT_REPO names a clone to work on instead of /repo (patches still apply to /repo).
With --recheck (no SPEC): runs the checks against all (or the named) existing ones.
"""
import json, os, subprocess, sys, shutil, time
REPO, SEED = os.environ.get('PLANT_REPO', '/repo'), '/verif/seeded'
PRE = '''import json, os, shutil, sys, tempfile
sys.path.insert(0, os.getcwd())
import pyswagger
assert os.path.abspath(pyswagger.__file__).startswith(os.getcwd() + os.sep)
from pyswagger import App


def load(doc, prepare=True, strict=False, **files):
    """ load a description via a getter that reads from memory """
    from pyswagger.getter import SimpleGetter
    from pyswagger.resolve import Resolver
    docs = {'http://h.test/api/swagger.json': doc}
    for k, v in files.items():
        docs['http://h.test/api/' + k + '.json'] = v

    class G(SimpleGetter):
        __simple_getter_callback__ = lambda path: json.dumps(docs[path])

    app = App.load('http://h.test/api/swagger.json', resolver=Resolver(default_getter=G))
    if prepare:
        app.prepare(strict=strict)
    return app


def doc(paths=None, **more):
    d = {'swagger': '2.0', 'info': {'title': 't', 'version': '1'}, 'paths': paths or {}}
    d.update(more)
    return d


def op_app(parameters=(), responses=None, path='/p', method='get', top=None, **op):
    o = {'operationId': 'op', 'responses': responses or {'default': {'description': 'd'}},
         'parameters': list(parameters)}
    o.update(op)
    return load(doc({path: {method: o}}, **(top or {})))


def produce(schema, value, read=True, **definitions):
    app = load(doc(definitions=dict(definitions, X=schema)))
    return app.root.definitions['X']._prim_(value, app.prim_factory, ctx=dict(read=read))


def raises(fn, *a, **k):
    try:
        fn(*a, **k)
    except Exception:
        return True
    return False


'''
SH = '''#!/bin/bash
# exit 0: the property holds for this input; nonzero: it is broken
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec timeout 120 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)

def clean():
    r = sh('cd ' + REPO + ' && git checkout -q -- . && ' + ('git clean -fdq && ' if REPO != '/repo' else '') + 'git status --short')
    assert not r.stdout.strip(), r.stdout

def check(prop):
    t = time.time()
    r = sh('cd /verif && PYSWAGGER_REPO=' + REPO + ' python3-vt -m symx.check %s --tier quick' % prop)
    return r.returncode, time.time() - t, [l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'INCONC' in l][:3], r.stdout

def tests():
    if REPO == '/repo':
        return sh('bash /verif/tools/t.sh')
    r = sh('cd %s && PYTHONPATH=%s PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -x -q -W ignore -p no:cacheprovider --timeout=60 pyswagger/tests' % (REPO, REPO))
    if r.returncode == 0:
        r.stdout += 'missing []'
    return r

def main():
    args = sys.argv[1:]
    if args and args[0] == '--recheck':
        ids = args[1:] or sorted(os.listdir(SEED))
        for i in ids:
            d = os.path.join(SEED, i)
            p = json.load(open(d + '/meta.json'))['property']
            a = sh('git -C %s apply %s/patch.diff' % (REPO, d))
            try:
                if a.returncode: print(i, p, 'DOES NOT APPLY', a.stdout); continue
                rc, t, v, out = check(p)
            finally:
                clean()
            print(i, p, 'caught' if rc == 1 else 'MISSED rc=%s' % rc, '%.0fs' % t, v[:1], flush=True)
        return
    ns = {}
    exec(open(args[0]).read(), ns)
    clean()
    for b in ns['BUGS']:
        if args[1:] and b['id'] not in args[1:]: continue
        d = os.path.join(SEED, b['id'])
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.py', 'w').write(PRE + b.get('helpers', '') + b['demo'].strip() + '\n')
        open(d + '/demo.sh', 'w').write(SH)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        r0 = sh('bash %s/demo.sh' % d, cwd=REPO)
        bad = None
        try:
            for f, old, new in b['edits']:
                p = os.path.join(REPO, f)
                s = open(p).read()
                if s.count(old) != 1:
                    bad = 'edit: %d occurrences in %s: %r' % (s.count(old), f, old); break
                open(p, 'w').write(s.replace(old, new))
            if bad: print(b['id'], bad); continue
            open(d + '/patch.diff', 'w').write(sh('git -C ' + REPO + ' diff').stdout)
            t = tests()
            r1 = sh('bash %s/demo.sh' % d, cwd=REPO)
            rc, tm, v, out = check(b['property'])
        finally:
            clean()
        ok = r0.returncode == 0 and 'missing []' in t.stdout and r1.returncode != 0
        print(b['id'], b['property'], 'VALID' if ok else 'INVALID', 'demo %d/%d' % (r0.returncode, r1.returncode), 'tests', 'missing []' in t.stdout,
              'caught' if rc == 1 else 'MISSED rc=%s' % rc, '%.0fs' % tm, v[:1], flush=True)
        if r0.returncode: print(r0.stdout[-1500:])
        if 'missing []' not in t.stdout: print(t.stdout[-800:])
        if ok and r1.returncode: print('   demo:', r1.stdout.strip().splitlines()[-1:])
        if rc != 1: print(out[-1500:])
        if not ok: print('   (left in place: remove or fix)')
    if REPO == '/repo':
        sh('bash /opt/vp/build.sh')

main()
