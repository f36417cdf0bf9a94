"""replay: run an obligation on concrete values against the real code (PyPy).
protocol: one JSON request per line on stdin, one JSON reply per line on stdout."""
import json
import os
import sys
import traceback


def main():
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.dont_write_bytecode = True
    sys.path.insert(0, root)
    sys.path.insert(0, os.environ.get('PYSWAGGER_REPO', '/repo'))
    os.chdir('/')
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    from symx import api
    mods = {}
    for line in sys.stdin:
        req = json.loads(line)
        res = {}
        try:
            m = req['module']
            if m not in mods:
                mods[m] = {o.name: o for o in api.load_module(m)}
            ob = mods[m][req['ob']]
            S = api.Native({k: api.dec(v) for k, v in req['values'].items()})
            S.known_ids = req.get('known_ids', ())
            try:
                ob.fn(S, **api.dec(req['case']))
                res['status'] = 'ok'
            except api.CheckFailed as e:
                res['status'] = 'fail'
                res['msg'] = str(e)
            except api.Skip:
                res['status'] = 'skip'
            except api.Known as e:
                res['status'] = 'known'
                res['id'], res['msg'] = e.args
            except Exception as e:
                res['status'] = 'exception'
                res['msg'] = 'unexpected %s: %s' % (type(e).__name__, e)
                res['type'] = type(e).__name__
                res['trace'] = traceback.format_exc()[-3000:]
            finally:
                S.undo()
            res['missing'] = S.missing
            res['observed'] = [[k, api.enc(v)] for k, v in S.observed]
        except Exception as e:
            res = {'status': 'error', 'msg': traceback.format_exc()[-3000:]}
        out.write(json.dumps(res) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
