"""decide one property:  python3-vt -m symx.check C01 [--tier quick|thorough]

exit 0: no violation within what was explored (evidence/<id>.json says what that is);
exit 1: "VIOLATION property=<id> replay=<path>", reproduced on the real code;
exit 2: the machinery is wrong or broken (a counterexample that does not reproduce, ...)."""
import argparse
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import time
import traceback
from multiprocessing.connection import wait

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['TZ'] = 'UTC'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable, '-m', 'symx.check'] + sys.argv[1:])

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYSWAGGER_REPO', '/repo')
PYPY = os.environ.get('SYMX_PYPY', '/opt/venv/bin/python')
os.chdir('/')
sys.path.insert(0, ROOT)
sys.path = [p for p in sys.path if p not in ('', '.')]
sys.setrecursionlimit(6000)

from symx import api, core, instrument          # noqa: E402

SLICE = 8.0


# ---------------------------------------------------------------- native replayer
class Replayer(object):
    def __init__(self, module, known_ids):
        self.module = module
        self.known_ids = sorted(known_ids)
        self.p = None

    def start(self):
        env = dict(os.environ, PYTHONPATH='', TZ='UTC', PYTHONDONTWRITEBYTECODE='1',
                   PYSWAGGER_REPO=REPO, PYTHONHASHSEED='0')
        self.p = subprocess.Popen([PYPY, os.path.join(ROOT, 'symx', 'native.py')], cwd='/', env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True)

    def send(self, ob, case, values):
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.p.stdin.write(json.dumps({
            'module': self.module, 'ob': ob, 'case': api.enc(case), 'known_ids': self.known_ids,
            'values': {k: api.enc(v) for k, v in values.items()}}) + '\n')
        self.p.stdin.flush()

    def recv(self, timeout=60):
        r = wait([self.p.stdout], timeout)
        line = self.p.stdout.readline() if r else ''
        if not line:
            self.p.kill()
            self.p.wait()
            self.p = None
            if not r:
                return {'status': 'hang', 'msg': 'the real code does not terminate (within %d s)' % timeout}
            return {'status': 'error', 'msg': 'replay died'}
        return json.loads(line)

    def run(self, ob, case, values, timeout=60):
        try:
            self.send(ob, case, values)
            return self.recv(timeout)
        except (OSError, ValueError) as e:
            self.p = None
            return {'status': 'error', 'msg': repr(e)}

    def close(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(10)
            except Exception:
                self.p.kill()


# ---------------------------------------------------------------- workers
class Executed(object):
    """which functions of the repository ran (PEP 669, first call only)"""

    def __init__(self):
        self.seen = {}
        m = sys.monitoring
        try:
            m.use_tool_id(3, 'symx')
        except ValueError:
            return
        m.register_callback(3, m.events.PY_START, self.on)
        m.set_events(3, m.events.PY_START)

    def on(self, code, off):
        f = code.co_filename
        if f.startswith(REPO + '/') or f.startswith('/usr/lib/pypy') or f.startswith('/opt/venv'):
            self.seen[(f, code.co_qualname)] = 1
        return sys.monitoring.DISABLE


def worker(conn, obs, snap, known_ids, seed):
    ex = Executed()
    while True:
        try:
            t = conn.recv()
        except EOFError:
            return
        if t is None:
            return
        oi, ci, case, prefixes, slice_s, path_s, wits = t
        ob = obs[oi]
        from symx.jsonm import to_sx
        e = core.Explorer(budget_s=slice_s, path_s=path_s, witnesses=wits, seed=seed)
        e.known_ids = known_ids
        from symx.symapi import Symbolic
        cur = []

        def reset():
            while cur:
                cur.pop().undo()
            snap.restore()

        def fn():
            S = Symbolic(e)
            cur.append(S)
            ob.fn(S, **to_sx(api.dec(case)))
        e.before_path.append(reset)
        err = None
        try:
            e.run(fn, prefixes)
        except BaseException:
            err = traceback.format_exc()
        try:
            reset()
        except Exception:
            err = err or traceback.format_exc()
        conn.send(dict(
            err=err, left=e.worklist, stats=e.stats, reached=e.reached, unsupported=e.unsupported_msgs,
            violations=[(v.kind, v.msg, v.inputs) for v in e.violations],
            suspects=e.suspects, witnesses=e.witnesses,
            known={k: (v.msg, v.inputs) for k, v in e.known_seen.items()},
            seen=sorted(ex.seen)))
        ex.seen = {}


def add_stats(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v


# ---------------------------------------------------------------- main
def known_findings():
    """lines of known_findings.txt:
    known: property=<id> <finding id> <text>
    fixed: property=<id> <commit> <text>      (suppresses nothing)"""
    p = os.path.join(ROOT, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p):
            w = line.strip().split(None, 3)
            if len(w) == 4 and w[0] in ('known:', 'fixed:') and w[1].startswith('property='):
                out.append(dict(status=w[0][:-1], property=w[1][9:], id=w[2], text=w[3]))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--only', default=None, help='only the obligations whose name contains this')
    ap.add_argument('--case', type=int, default=None)
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--keep-going', action='store_true')
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    total = a.budget or (float(os.environ.get('SYMX_QUICK_S', 150)) if tier == 'quick' else 780.0)
    t0 = time.time()
    prop = a.prop
    modname = 'harness.' + prop.lower()

    instrument.install({'pyswagger': REPO, 'harness': ROOT})
    try:
        obs = api.load_module(modname)
    except Exception:
        # the module does not even import: does it natively?
        traceback.print_exc()
        print('ERROR property=%s the harness or the code under test cannot be loaded' % prop)
        return 2
    if a.only:
        obs = [o for o in obs if a.only in o.name]
    snap = instrument.Snapshot()
    findings = [f for f in known_findings() if f['property'] == prop]
    known_ids = {f['id'] for f in findings if f['status'] == 'known'}

    ctx = mp.get_context('fork')
    rng = random.Random(seed)

    # per case record
    recs = {}
    queue = []
    for oi, o in enumerate(obs):
        cases = o.thorough if tier == 'thorough' else o.cases
        for ci, c in enumerate(cases):
            if a.case is not None and ci != a.case:
                continue
            recs[oi, ci] = dict(ob=o.name, case=c, open=1, stats={}, reached={}, unsupported={},
                                used=0.0, left=0, cut=False, suspects=[], witnesses=[], known={},
                                err=None, wall=0)
            queue.append((oi, ci, None))
    ncases = max(1, len(recs))
    path_s = 30.0 if tier == 'quick' else 90.0
    wits = max(2, min(40, 240 // ncases))

    workers = []
    for _ in range(max(1, min(a.jobs, 64))):
        pc, cc = ctx.Pipe()
        p = ctx.Process(target=worker, args=(cc, obs, snap, known_ids, seed), daemon=True)
        p.start()
        cc.close()
        workers.append([p, pc, None, 0])

    rep = Replayer(modname, known_ids)
    told = set()
    violations, spurious, errors, funcs = [], [], [], set()
    soft = []       # exceptions that the real code does not raise: inconclusive
    stop = False
    hangs = 0
    deadline = t0 + total

    def confirm(oi, ci, kind, msg, inputs):
        o = obs[oi]
        r = rep.run(o.name, recs[oi, ci]['case'], inputs)
        rec = dict(property=prop, obligation=o.name, case=api.enc(recs[oi, ci]['case']), module=modname,
                   values={k: api.enc(v) for k, v in inputs.items()}, kind=kind, message=msg, replay=r)
        if r['status'] in ('fail', 'exception'):
            violations.append(rec)
            return True
        if kind == 'exception':
            soft.append(rec)
        else:
            spurious.append(rec)
        return False

    while True:
        busy = [w for w in workers if w[2] is not None]
        now = time.time()
        if stop or now > deadline:
            for it in queue:
                recs[it[0], it[1]]['cut'] = True
            queue = []
        for w in workers:
            if w[2] is None and queue:
                # round robin over the cases that have used least
                queue.sort(key=lambda it: recs[it[0], it[1]]['used'])
                it = queue.pop(0)
                oi, ci, pre = it
                w[2] = it
                w[3] = now
                sl = max(1.0, min(SLICE if pre is not None else SLICE / 2, deadline - now))
                try:
                    w[1].send((oi, ci, api.enc(recs[oi, ci]['case']), pre, sl, path_s, wits))
                except OSError:
                    errors.append('a worker process died')
                    w[2] = None
                    queue.append(it)
                    workers.remove(w)
                    if not workers:
                        return 2
                    break
        busy = [w for w in workers if w[2] is not None]
        if not busy:
            if queue:
                continue
            break
        ready = wait([w[1] for w in busy], 5.0)
        for w in busy:
            if w[1] not in ready:
                if time.time() - w[3] > SLICE + path_s * 2 + 60:
                    w[0].kill()
                continue
            oi, ci, pre = w[2]
            rec = recs[oi, ci]
            dt = time.time() - w[3]
            w[2] = None
            try:
                m = w[1].recv()
            except (EOFError, OSError):
                rec['cut'] = True
                rec['err'] = 'worker died'
                errors.append('%s: worker died' % rec['ob'])
                pc, cc = ctx.Pipe()
                p = ctx.Process(target=worker, args=(cc, obs, snap, known_ids, seed), daemon=True)
                p.start()
                cc.close()
                w[0], w[1] = p, pc
                continue
            rec['used'] += dt
            if m['err']:
                errors.append('%s: %s' % (rec['ob'], m['err']))
                rec['cut'] = True
            add_stats(rec['stats'], m['stats'])
            add_stats(rec['reached'], m['reached'])
            add_stats(rec['unsupported'], m['unsupported'])
            rec['suspects'] += m['suspects']
            for why, v in m['suspects']:
                # a path that does not end: nor on the real code?
                if why == 'path timeout' and hangs < 3 and not violations:
                    hangs += 1
                    r = rep.run(obs[oi].name, rec['case'], v, 25)
                    if r['status'] == 'hang':
                        violations.append(dict(property=prop, obligation=obs[oi].name, module=modname,
                                               case=api.enc(rec['case']), kind='hang', message=r['msg'], replay=r,
                                               values={k: api.enc(x) for k, x in v.items()}))
                        stop = True
            rec['witnesses'] += m['witnesses']
            rec['known'].update(m['known'])
            funcs.update(map(tuple, m['seen']))
            for kind, msg, inputs in m['violations']:
                if a.keep_going:
                    # one of each kind
                    if (oi, msg) not in told:
                        told.add((oi, msg))
                        confirm(oi, ci, kind, msg, inputs)
                elif len(violations) < 5 and confirm(oi, ci, kind, msg, inputs):
                    stop = True
            if m['violations'] and not m['left'] == [] and not violations:
                pass
            left = m['left']
            if left:
                cap = obs[oi].budget * (1 if tier == 'quick' else 8)
                if rec['used'] > max(cap, total * a.jobs / ncases) and rec['used'] > cap:
                    rec['cut'] = True
                    rec['left'] += len(left)
                elif len(soft) + len(spurious) > 30:
                    rec['cut'] = True
                else:
                    # share the rest: shallow prefixes first (they hold most of the tree)
                    idle = sum(1 for x in workers if x[2] is None)
                    n = min(len(left), max(1, min(8, idle + 1 - len(queue))))
                    for k in range(n):
                        queue.append((oi, ci, left[k::n]))
    for w in workers:
        try:
            w[1].send(None)
        except OSError:
            pass

    # suspects: paths that could not be followed; try their inputs on the real code
    sus_n = 0
    if not violations:
        allsus = [(k, why, v) for k, r in recs.items() for why, v in r['suspects']]
        rng.shuffle(allsus)
        t1 = time.time()
        for (oi, ci), why, v in allsus[:300 if tier == 'quick' else 3000]:
            if time.time() - t1 > (40 if tier == 'quick' else 100):
                break
            r = rep.run(obs[oi].name, recs[oi, ci]['case'], v)
            sus_n += 1
            if r['status'] in ('fail', 'exception') and not r['missing']:
                violations.append(dict(property=prop, obligation=obs[oi].name, module=modname,
                                       case=api.enc(recs[oi, ci]['case']), kind='concrete',
                                       values={k: api.enc(x) for k, x in v.items()},
                                       message=r['msg'], replay=r))
                break

    # witnesses: completed paths must behave the same on the real code
    validated, mismatches, samples = 0, [], []
    t1 = time.time()
    if not violations:
        allw = [(k, v, obs_) for k, r in recs.items() for v, obs_ in r['witnesses']]
        rng.shuffle(allw)
        # every case has its share
        turn, n = [], {}
        for x in allw:
            n[x[0]] = n.get(x[0], 0) + 1
            turn.append((n[x[0]], len(turn)))
        allw = [allw[j] for _, j in sorted(turn)]
        reps = [rep] + [Replayer(modname, known_ids) for _ in range(3)]
        pend = {}
        i = 0
        limit = 400 if tier == 'quick' else 4000
        allw = allw[:limit]
        wt = 45 if tier == 'quick' else 120
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(4) as tp:
            def go(j):
                out = []
                for x in allw[j::4]:
                    if time.time() - t1 > wt:
                        break
                    (oi, ci), v, o = x
                    out.append((x, reps[j].run(obs[oi].name, recs[oi, ci]['case'], v)))
                return out
            for res in tp.map(go, range(4)):
                for ((oi, ci), v, o), r in res:
                    want = [[k, api.canon(api.enc(x))] for k, x in o]
                    got = [[k, api.canon(x)] for k, x in r.get('observed', [])]
                    want = json.loads(json.dumps(want))
                    if r['status'] == 'ok' and want == got:
                        validated += 1
                        if len(samples) < 6:
                            samples.append(dict(obligation=obs[oi].name, case=api.enc(recs[oi, ci]['case']),
                                                values={k: api.enc(x) for k, x in v.items()},
                                                observed=r['observed']))
                    elif r['status'] in ('fail', 'exception'):
                        # the engine followed this path to its end without a violation
                        violations.append(dict(property=prop, obligation=obs[oi].name, module=modname,
                                               case=api.enc(recs[oi, ci]['case']), kind='replay',
                                               values={k: api.enc(x) for k, x in v.items()},
                                               message=r['msg'], replay=r))
                        mismatches.append((obs[oi].name, 'status', v, r))
                    elif r['status'] in ('ok',):
                        mismatches.append((obs[oi].name, 'observed', v, want, got))
                    elif r['status'] != 'known':
                        mismatches.append((obs[oi].name, r['status'], v, r.get('msg')))
        for x in reps[1:]:
            x.close()

    # known findings that show
    kf = {}
    for (oi, ci), r in recs.items():
        for fid, (msg, inputs) in r['known'].items():
            if fid not in kf:
                rr = rep.run(obs[oi].name, r['case'], inputs)
                if rr['status'] == 'known' and rr['id'] == fid:
                    kf[fid] = inputs
                else:
                    spurious.append(dict(obligation=r['ob'], finding=fid, replay=rr,
                                         values={k: api.enc(x) for k, x in inputs.items()}))
    rep.close()

    # ---- report
    tot = {}
    for r in recs.values():
        add_stats(tot, r['stats'])
    vac = [r['ob'] for r in recs.values() if not r['cut'] and not r['stats'].get('asserts')
           and not r['stats'].get('unsupported')]
    exhausted = [r for r in recs.values() if not r['cut'] and not r['stats'].get('unsupported')
                 and not r['stats'].get('timeouts') and not r['stats'].get('unknown') and not r['err']
                 and not r['left']]
    wall = time.time() - t0
    fl = {}
    for f, q in sorted(funcs):
        if f.startswith(REPO + '/'):
            fl.setdefault(os.path.relpath(f, REPO), []).append(q)
    lib = sorted({f for f, q in funcs if not f.startswith(REPO + '/')})
    shas = {os.path.relpath(p, REPO): s for n, (m, p, s) in instrument.INSTRUMENTED.items()
            if p.startswith(REPO + '/')}
    unsup = {}
    for r in recs.values():
        add_stats(unsup, r['unsupported'])
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    ev = dict(
        property=prop, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=tot.get('paths', 0), transitions=tot.get('decisions', 0),
            traces_validated_against_impl=validated, samples=samples,
            exhaustive=len(exhausted) == len(recs),
            cases=len(recs), cases_exhausted=len(exhausted),
            paths=tot.get('paths', 0), infeasible=tot.get('infeasible', 0),
            assertions=tot.get('asserts', 0), assertion_queries=tot.get('assert_queries', 0),
            solver_queries=tot.get('queries', 0), solver_s=round(tot.get('solver_s', 0), 2),
            solver_unknown=tot.get('unknown', 0), path_timeouts=tot.get('timeouts', 0),
            unsupported_paths=tot.get('unsupported', 0),
            unsupported=dict(sorted(unsup.items(), key=lambda x: -x[1])[:20]),
            inconclusive_exceptions=[dict(ob=s['obligation'], msg=s['message']) for s in soft[:10]],
            suspects_replayed=sus_n, witness_mismatches=len(mismatches),
            solver='z3 ' + __import__('z3').get_version_string(),
            obligations=[dict(name=r['ob'], case=api.enc(r['case']), paths=r['stats'].get('paths', 0),
                              exhausted=r in exhausted, asserts=r['stats'].get('asserts', 0),
                              queries=r['stats'].get('queries', 0), cpu_s=round(r['used'], 2),
                              reached=r['reached'])
                         for r in recs.values()],
            bounds={o.name: o.bounds for o in obs},
            functions_encoded=fl, library_files_encoded=lib,
            source_sha256_16={k: v for k, v in shas.items() if k in fl},
        ),
        assumptions=sorted({o.stubs for o in obs if o.stubs}),
        wall_s=round(wall, 2), violations=len(violations))
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')

    print('%s %s: %d obligation cases, %d exhausted, %d paths, %d assertions, %d queries (%.1f s solver), '
          '%d traces validated, %d unsupported, %d timeouts, wall %.1f s' % (
              prop, tier, len(recs), len(exhausted), tot.get('paths', 0), tot.get('asserts', 0),
              tot.get('queries', 0), tot.get('solver_s', 0), validated, tot.get('unsupported', 0),
              tot.get('timeouts', 0), wall))
    if a.v:
        for (oi, ci), r in sorted(recs.items()):
            print('  %-28s %-50s paths=%-6d asserts=%-6d used=%.1f %s%s' % (
                r['ob'], str(r['case'])[:50], r['stats'].get('paths', 0), r['stats'].get('asserts', 0), r['used'],
                'exhausted' if r in exhausted else 'PARTIAL left=%d' % r['left'],
                ' unsup=%s' % r['unsupported'] if r['unsupported'] else ''))
            for k, n in sorted(r['reached'].items()):
                if a.v and os.environ.get('SYMX_REACH'):
                    print('      %6d %s' % (n, k))
    for s in soft[:5]:
        print('INCONCLUSIVE %s case=%s %s values=%s replay=%s' % (
            s['obligation'], s['case'], s['message'], s['values'], s['replay'].get('status')))
    for fid in sorted(kf):
        f = [x for x in findings if x['id'] == fid][0]
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, fid, f['text']))
    for e in errors[:5]:
        print('ERROR', e)
    rc = 0
    if violations:
        d = os.path.join(ROOT, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        for i, v in enumerate(violations[:100 if a.keep_going else 3]):
            p = os.path.join(d, '%s-%d.json' % (prop, i))
            with open(p, 'w') as f:
                json.dump(v, f, indent=1)
            print('  %s %s: %s' % (v['obligation'], v['case'], v['message']))
            print('  values: %s' % json.dumps(v['values'])[:600])
            print('  real code: %s' % v['replay'].get('msg'))
            print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    if spurious:
        for s in spurious[:4]:
            print('ERROR counterexample does not reproduce:', json.dumps(s)[:1200])
        rc = 2
    if mismatches:
        for s in mismatches[:4]:
            print('ERROR witness mismatch:', repr(s)[:1500])
        rc = 2
    if vac:
        print('ERROR vacuous obligations (no assertion reached): %s' % sorted(set(vac)))
        rc = 2
    if errors:
        rc = 2
    return rc


if __name__ == '__main__':
    sys.exit(main())
