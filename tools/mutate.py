"""Mutants that the repository's tests do not notice, to find what the checks miss.

python3-vt tools/mutate.py make OUT.json FILE...     list the mutants of these files
python3-vt tools/mutate.py tests OUT.json CLONE...   run the repository's tests on each (one worker per clone)
python3-vt tools/mutate.py checks OUT.json CLONE...  run the checks of the properties anchored at the file on the survivors
python3-vt tools/mutate.py show OUT.json             survivors that no check reports
Only clones of the repository are touched.
"""
import warnings
warnings.simplefilter("ignore")
import ast, copy, json, os, subprocess, sys, threading, queue, time

V = '/verif'
SRC = os.environ.get('MUTATE_SRC', '/repo')


def seg(src, node):
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l) + 1)

    def o(line, col):
        return off[line - 1] + len(lines[line - 1].encode()[:col].decode())
    return o(node.lineno, node.col_offset), o(node.end_lineno, node.end_col_offset)


CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}


def mutants(src):
    tree = ast.parse(src)
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0].value)

    def skip(n):
        # messages and logging
        return 'logger' in ast.dump(n)[:400]

    def expr(n, new, what):
        a, b = seg(src, n)
        t = '(' + (ast.unparse(new) if isinstance(new, ast.AST) else new) + ')'
        return (n.lineno, what, a, b, t)
    for n in ast.walk(tree):
        if isinstance(n, ast.Raise):
            for x in ast.walk(n):
                x._msg = True
        if isinstance(n, ast.Call) and skip(n):
            for x in ast.walk(n):
                x._msg = True
    for n in ast.walk(tree):
        if getattr(n, '_msg', False) and not isinstance(n, ast.Raise):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            m = copy.copy(n)
            m.ops = [CMP[type(n.ops[0])]()]
            yield expr(n, m, 'cmp')
        elif isinstance(n, ast.BoolOp):
            m = copy.copy(n)
            m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            yield expr(n, m, 'boolop')
            for i in range(len(n.values)):
                m = copy.copy(n)
                m.values = n.values[:i] + n.values[i + 1:]
                yield expr(n, m if len(m.values) > 1 else m.values[0], 'drop operand %d' % i)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield expr(n, n.operand, 'not')
        elif isinstance(n, ast.IfExp):
            yield expr(n, n.body, 'ifexp then')
            yield expr(n, n.orelse, 'ifexp else')
        elif isinstance(n, ast.BinOp):
            if isinstance(n.op, (ast.Add, ast.Sub)):
                m = copy.copy(n)
                m.op = ast.Sub() if isinstance(n.op, ast.Add) else ast.Add()
                if not any(isinstance(x, ast.Constant) and isinstance(x.value, (str, bytes)) for x in ast.walk(n)):
                    yield expr(n, m, 'arith')
                yield expr(n, n.left, 'left only')
                yield expr(n, n.right, 'right only')
        elif isinstance(n, ast.Constant) and n not in docs:
            if isinstance(n.value, bool):
                yield expr(n, repr(not n.value), 'flip')
            elif isinstance(n.value, int):
                yield expr(n, repr(n.value + 1), 'const')
            elif isinstance(n.value, str) and n.value and getattr(n, 'lineno', None):
                yield expr(n, repr(n.value + '~'), 'str')
            elif n.value == '':
                yield expr(n, repr('~'), 'str')
        elif isinstance(n, (ast.If, ast.While)):
            if isinstance(n, ast.If):
                yield expr(n.test, 'True', 'if True')
            yield expr(n.test, 'False', 'if False')
        elif isinstance(n, ast.Call) and n.keywords:
            for i in range(len(n.keywords)):
                m = copy.copy(n)
                m.keywords = n.keywords[:i] + n.keywords[i + 1:]
                yield expr(n, m, 'drop keyword %d' % i)
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            yield expr(n, n.value, 'no slice')
        if isinstance(n, ast.Call) and len(n.args) == 1 and not n.keywords and isinstance(n.func, (ast.Name, ast.Attribute)) and not isinstance(n.args[0], ast.Starred):
            yield expr(n, n.args[0], 'argument instead of call')
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and len(n.args) <= 1:
            yield expr(n, n.func.value, 'receiver instead of call')
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Break, ast.Delete)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and not skip(n)):
            a, b = seg(src, n)
            yield (n.lineno, 'delete', a, b, 'pass')
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            a, b = seg(src, n)
            yield (n.lineno, 'return None', a, b, 'return None')
        if isinstance(n, ast.ExceptHandler):
            pass


def make(out, files):
    r = []
    for f in files:
        src = open(os.path.join(SRC, f)).read()
        seen = set()
        for line, what, a, b, t in mutants(src):
            new = src[:a] + t + src[b:]
            if new in seen or new == src:
                continue
            try:
                ast.parse(new)
            except SyntaxError:
                continue
            if ast.dump(ast.parse(new)) == ast.dump(ast.parse(src)):
                continue
            seen.add(new)
            r.append(dict(file=f, line=line, what=what, a=a, b=b, t=t, old=src[a:b], tests=None, checks={}))
    json.dump(r, open(out, 'w'))
    print(len(r), 'mutants')


def sh(cmd, cwd, env=None, timeout=600):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 99, ''


def run(out, clones, work, todo):
    ms = json.load(open(out))
    q = queue.Queue()
    for i in range(len(ms)):
        if todo(ms[i]):
            q.put(i)
    lock, done, start = threading.Lock(), [0], time.time()
    total = q.qsize()

    def worker(c):
        while True:
            try:
                i = q.get_nowait()
            except queue.Empty:
                return
            m = ms[i]
            p = os.path.join(c, m['file'])
            src = open(os.path.join(SRC, m['file'])).read()
            open(p, 'w').write(src[:m['a']] + m['t'] + src[m['b']:])
            try:
                work(m, c)
            finally:
                open(p, 'w').write(src)
            with lock:
                done[0] += 1
                if done[0] % 5 == 0:
                    json.dump(ms, open(out + '.tmp', 'w'))
                    os.replace(out + '.tmp', out)
                    print(done[0], '/', total, '%d s' % (time.time() - start), flush=True)
    ts = [threading.Thread(target=worker, args=(c,)) for c in clones]
    [t.start() for t in ts]
    [t.join() for t in ts]
    json.dump(ms, open(out, 'w'))


def tests(m, c):
    e = dict(PYTHONPATH=c, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPYCACHEPREFIX='/opt/vp/pycache-none')
    rc, o = sh('timeout 120 /opt/venv/bin/python -m pytest -x -q -W ignore -p no:cacheprovider --timeout=60 pyswagger/tests', c, e)
    m['tests'] = rc == 0
    sh('git checkout -q -- . ; git clean -qfd', c)


def props():
    r = {}
    for l in open(V + '/properties.jsonl'):
        p = json.loads(l)
        for f in p['anchors']['files']:
            r.setdefault(f, []).append(p['id'])
    return r


# which checks are tried first, per file and last line (of the tree the mutants were made from)
FIRST = {
    'utils.py': [(89, 'C22'), (105, 'C24'), (200, 'C07'), (226, 'C36'), (250, 'C19'), (280, 'C20 C21 C25'), (292, 'C15'), (326, 'C36 C31'),
                 (358, 'C21 C20'), (425, 'C20'), (438, 'C36 C32'), (481, 'C24'), (566, 'C30'), (574, 'C27'), (590, 'C31 C36'), (9999, 'C18 C16')],
    'core.py': [(160, 'C38 C22 C36'), (194, 'C21 C36 C27'), (234, 'C33 C27 C37'), (261, 'C32'), (296, 'C36 C32 C38'), (377, 'C36 C23 C27 C22'), (440, 'C21 C25 C19'),
                (460, 'C19 C26'), (530, 'C15'), (580, 'C14'), (620, 'C16'), (9999, 'C34 C15')],
    'io.py': [(68, 'C11 C13 C14'), (90, 'C11 C09 C29'), (155, 'C12'), (190, 'C14'), (340, 'C09 C10 C11 C13 C14'), (9999, 'C17 C13 C29')],
    'getter.py': [(34, 'C33'), (137, 'C31 C36 C33'), (9999, 'C36 C38 C33')],
    'scan.py': [(9999, 'C32 C25')], 'resolve.py': [(9999, 'C36 C21')],
    'codec.py': [(9999, 'C29 C17')], 'render.py': [(9999, 'C28')], 'comm.py': [(9999, 'C01 C12')], '_int.py': [(9999, 'C01')], '_float.py': [(9999, 'C01')], '_str.py': [(9999, 'C02')],
    '_array.py': [(9999, 'C03 C04')], '_model.py': [(9999, 'C05 C06')], '_time.py': [(9999, 'C07')], '_byte.py': [(9999, 'C08')], '_uuid.py': [(9999, 'C08')], '_file.py': [(9999, 'C12')],
    'upgrade.py': [(9999, 'C27 C22')], 'v1_2/validate.py': [(9999, 'C32')], 'v2_0/validate.py': [(9999, 'C32')], 'yaml.py': [(9999, 'C33')], 'merge.py': [(9999, 'C25 C23')],
    'patch_obj.py': [(9999, 'C23 C27')], 'aggt.py': [(9999, 'C24 C06')], 'assign_parent.py': [(9999, 'C23')], 'v2_0/resolve.py': [(9999, 'C21 C25')], 'type_reducer.py': [(9999, 'C22 C37')],
    'cycle_detector.py': [(9999, 'C24')], 'base.py': [(9999, 'C26 C30')], 'requests.py': [(9999, 'C34')], 'flask.py': [(9999, 'C34')], 'tornado.py': [(9999, 'C34')]}


def first(m):
    for k in sorted(FIRST, key=len, reverse=True):
        if m['file'].endswith('/' + k):
            for last, ids in FIRST[k]:
                if m['line'] <= last:
                    return ids.split()
    return []


def checks(m, c, only=None):
    ids = first(m)
    if not ids or os.environ.get('MUTATE_ALL'):
        ids = ids + [p for p in props().get(m['file'], []) if p not in ids]
    for p in ids if not only else only:
        if p in m['checks']:
            continue
        rc, o = sh('timeout 600 python3-vt -m symx.check %s --jobs 1' % p, c + '.v', dict(PYSWAGGER_REPO=c), 700)
        if rc in (0, 1, 2):
            m['checks'][p] = rc
        if rc == 1:
            break


if __name__ == '__main__':
    cmd, out = sys.argv[1:3]
    if cmd == 'make':
        make(out, sys.argv[3:])
    elif cmd == 'tests':
        run(out, sys.argv[3:], tests, lambda m: m['tests'] is None)
    elif cmd == 'checks':
        run(out, sys.argv[3:], checks, lambda m: m['tests'] and 1 not in m['checks'].values() and not set(first(m)) <= set(m['checks']))
    elif cmd == 'show':
        ms = json.load(open(out))
        print(len(ms), 'mutants', sum(1 for m in ms if m['tests']), 'survive the tests', sum(1 for m in ms if 1 in m['checks'].values()), 'reported by checks')
        for i, m in enumerate(ms):
            if m['tests'] and 1 not in m['checks'].values():
                print(i, m['file'], m['line'], m['what'], '|', ' '.join(m['old'].split())[:110], '=>', m['t'][:110], m['checks'])
