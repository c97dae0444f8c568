#!/usr/bin/env python3
"""Mutation analysis of the machinery: small changes to /repo's sources that keep the stable tests passing, and
whether the quick checks see them.
  mutants.py make DIR            lists the mutants in DIR/mutants.json
  mutants.py test DIR [JOBS]     which of them keep the stable tests passing (resumable)
  mutants.py check DIR [JOBS]    runs the checks of the properties anchored in the file until one sees it (resumable)
  mutants.py show DIR            the mutants that keep the tests passing and that no check sees
Everything happens in DIR and copies under /tmp.
"""
import warnings
warnings.simplefilter("ignore")
import ast, sys, os, json, random, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PROPS = {'mvcontext.py': 'C28 C26 C22 C29', 'context.py': 'C01 C02 C13 C14 C10 C03 C07 C15 C26 C29', 'concept.py': 'C05 C04 C03 C29', 'concept_lattice.py': 'C04 C03 C29',
         'concept_system.py': 'C05 C04 C23 C25 C29', 'norris.py': 'C03 C04', 'closure_operators.py': 'C06 C07 C02 C08',
         'dg_basis.py': 'C07 C08 C18 C16', 'aibasis.py': 'C09 C02', 'implication_covers.py': 'C11', 'implication.py': 'C12 C06 C18 C29',
         'algorithms/exploration.py': 'C15 C29', 'exploration_/exploration.py': 'C16 C18', 'exploration2/exploration.py': 'C17',
         'partial_context.py': 'C18 C29', 'compare_context.py': 'C18', 'factors.py': 'C19 C20', 'cxt.py': 'C21',
         'tab_separated.py': 'C22', 'comma_separated.py': 'C22', 'fimi.py': 'C22', 'xml_.py': 'C23', 'dot.py': 'C24',
         'filtering/': 'C25', 'scaling.py': 'C26', 'fca/scale.py': 'C26', 'patterns.py': 'C27'}
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
SYM = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.In: 'in', ast.NotIn: 'not in',
       ast.Is: 'is', ast.IsNot: 'is not', ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.BitAnd: '&', ast.BitOr: '|',
       ast.BitXor: '^', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**', ast.LShift: '<<', ast.RShift: '>>'}
BIN = {'+': ['-'], '-': ['+'], '*': ['+'], '/': ['*'], '&': ['|'], '|': ['&', '-'], '^': ['|'], '//': ['/'], '**': ['*'], '<<': ['>>']}


def props(f):
    k = [x for x in PROPS if ('/' in x and x in f) or f.endswith('/' + x)]
    return PROPS[k[0]].split() if k else []


def mutants(f):
    src = open(os.path.join(REPO, f)).read()
    tree = ast.parse(src)
    starts = [0]
    for line in src.split('\n'):
        starts.append(starts[-1] + len(line) + 1)
    lines = src.split('\n')

    def pos(l, c):
        return starts[l - 1] + len(lines[l - 1].encode()[:c].decode())

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def text(n):
        a, b = span(n)
        return src[a:b]
    out = []

    def put(n, new, why):
        a, b = span(n)
        if src[a:b] != new:
            out.append((n.lineno, a, b, new, why))

    def put_between(x, y, old, new, why):
        a, b = span(x)[1], span(y)[0]
        i = src.find(old, a, b)
        if i >= 0:
            out.append((x.lineno, i, i + len(old), new, why))

    def visit(n, doc=False):
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and text(n.test).startswith('__name__'):
            return
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name in ('__repr__', 'print_context'):
            pass
        if isinstance(n, (ast.If, ast.While)):
            if isinstance(n, ast.If):
                put(n.test, 'True', 'if -> True')
            put(n.test, 'False', 'test -> False')
            if isinstance(n.test, (ast.Name, ast.Call)):
                put(n.test, 'not (%s)' % text(n.test), 'negated')
        if isinstance(n, ast.IfExp):
            put(n.test, 'True', 'ifexp'), put(n.test, 'False', 'ifexp')
        if isinstance(n, ast.Compare):
            xs = [n.left] + n.comparators
            for x, op, y in zip(xs, n.ops, n.comparators):
                for new in CMP[type(op)]:
                    put_between(x, y, SYM[type(op)], new, 'compare')
        if isinstance(n, ast.BoolOp):
            for v in n.values:
                put(v, 'True' if isinstance(n.op, ast.And) else 'False', 'drop operand')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, text(n.operand), 'drop not')
        if isinstance(n, ast.BinOp):
            s = SYM.get(type(n.op))
            for new in BIN.get(s, []):
                put_between(n.left, n.right, s, new, 'operator')
            if s in ('-', '&', '|', '+') and not isinstance(n.left, ast.Constant):
                put(n, text(n.left), 'left operand only')
                put(n, text(n.right), 'right operand only')
        if isinstance(n, ast.AugAssign):
            s = SYM.get(type(n.op))
            for new in BIN.get(s, []):
                put_between(n.target, n.value, s + '=', new + '=', 'augmented')
        if isinstance(n, ast.Constant) and not doc:
            if n.value is True or n.value is False:
                put(n, str(not n.value), 'constant')
            elif type(n.value) is int:
                put(n, str(n.value + 1), 'constant')
                if n.value > 0:
                    put(n, str(n.value - 1), 'constant')
            elif type(n.value) is str and 0 < len(n.value) < 12 and text(n)[0] in '\'"':
                put(n, "''", 'text')
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'strip') and not n.args:
                put(n, text(n.func.value), 'drop ' + n.func.attr)
            elif isinstance(n.func, ast.Name) and n.func.id in ('sorted', 'set', 'copy', 'deepcopy', 'reversed', 'str', 'list', 'frozenset') \
                    and len(n.args) == 1:
                put(n, '(%s)' % text(n.args[0]) if not isinstance(n.args[0], ast.GeneratorExp) else 'list' + text(n)[len(n.func.id):], 'drop ' + n.func.id)
            elif isinstance(n.func, ast.Name) and n.func.id in ('any', 'all', 'min', 'max'):
                put(n.func, {'any': 'all', 'all': 'any', 'min': 'max', 'max': 'min'}[n.func.id], 'other quantifier')
            if isinstance(n.func, ast.Attribute):
                new = {'append': None, 'union': 'intersection', 'intersection': 'union', 'issubset': 'issuperset', 'issuperset': 'issubset',
                       'add': 'discard', 'remove': 'discard', 'update': 'intersection_update', 'difference': 'union'}.get(n.func.attr)
                if new:
                    put(n.func, text(n.func.value) + '.' + new, 'other method')
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            put(n, text(n.value), 'drop slice')
        if isinstance(n, ast.comprehension):
            for c in n.ifs:
                put(c, 'True', 'drop filter')
        if isinstance(n, (ast.Break, ast.Continue)):
            put(n, 'pass', 'drop ' + text(n))
            put(n, 'continue' if isinstance(n, ast.Break) else 'break', 'other jump')
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) or isinstance(n, (ast.AugAssign, ast.Delete, ast.Raise)):
            put(n, 'pass', 'drop statement')
        if isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name):
            put(n, 'pass', 'drop assignment')
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            put(n, 'return None', 'return nothing')
        for name, val in ast.iter_fields(n):
            for i, x in enumerate(val if isinstance(val, list) else [val]):
                if isinstance(x, ast.AST):
                    d = isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)
                    if not d:
                        visit(x)
    visit(tree)
    seen, res = set(), []
    for line, a, b, new, why in out:
        s = src[:a] + new + src[b:]
        if s in seen:
            continue
        seen.add(s)
        try:
            compile(s, f, 'exec')
        except SyntaxError:
            continue
        res.append(dict(file=f, line=line, a=a, b=b, old=src[a:b], new=new, why=why))
    return res


def sh(cmd, **k):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def copy(m, where):
    os.makedirs(where)
    sh('git -C %s archive HEAD | tar -x -C %s' % (REPO, where), shell=True)
    p = os.path.join(where, m['file'])
    s = open(p).read()
    assert s[m['a']:m['b']] == m['old']
    open(p, 'w').write(s[:m['a']] + m['new'] + s[m['b']:])


def test(m):
    w = tempfile.mkdtemp(prefix='mu_')
    try:
        copy(m, w + '/r')
        r = w + '/r'
        runs = [['-x', 'tests/test_implication.py', 'tests/algorithms'] +
                ['fca/algorithms/%s/explorationtest.py' % x for x in ('exploration_', 'exploration2')]]
        if m['file'].endswith('scale.py'):
            runs.append(['-x', '--with-doctest', 'fca/scale.py'])
        if not any(x in m['file'] for x in ('readwrite', 'scal', 'pattern', 'explor', 'filter', 'partial')):
            runs.append(['-x', 'tests/test_context.py'])
        for x in runs:
            try:
                rc, o = sh(['/opt/venv/bin/python', '-W', 'ignore', '/opt/vp/run_nose.py'] + x, cwd=r, timeout=100,
                           env=dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0'))
            except subprocess.TimeoutExpired:
                return 'killed'
            if rc:
                return 'killed'
        return 'survives'
    finally:
        shutil.rmtree(w)


def check(m):
    w = tempfile.mkdtemp(prefix='mu_')
    try:
        copy(m, w + '/r')
        v = w + '/verif'
        os.makedirs(v)
        sh('cp -a %s/bin %s/harness %s/spec %s/known_findings.txt %s/MANIFEST.json %s' % (V, V, V, V, V, v), shell=True)
        for p in props(m['file']):   # mutants are seen in traces; the design models need not run again
            with open(v + '/harness/props/%s.py' % p.lower(), 'a') as f:
                f.write("\nMODELS = {'quick': [], 'thorough': []}\n")
        if not os.environ.get('MUT_FULL'):      # a part of the scenarios first; MUT_FULL=1 for what that misses
            for q, x, y in (('gen.py', 'quick * 4', 'quick'), ('vlib.py', 'NSH = 8', 'NSH = 2')):
                t = open(v + '/harness/' + q).read()
                assert x in t
                open(v + '/harness/' + q, 'w').write(t.replace(x, y))
        odd = []
        for p in props(m['file']):
            try:
                rc, o = sh([v + '/bin/check', p], cwd=v, env=dict(os.environ, FCAV_REPO=w + '/r', VERIF_SEED='1'), timeout=600)
            except subprocess.TimeoutExpired:
                rc, o = -1, 'timeout'
            if rc == 1:
                return 'caught ' + p
            if rc:
                odd.append('%s: rc %s %s' % (p, rc, o[-300:]))
        return 'missed ' + ' '.join(odd)
    finally:
        shutil.rmtree(w)


def phase(d, name, todo, f, jobs):
    path = os.path.join(d, name + '.json')
    res = json.load(open(path)) if os.path.exists(path) else {}
    todo = [(k, m) for k, m in todo if k not in res]
    random.Random(1).shuffle(todo)
    with ThreadPoolExecutor(jobs) as ex:
        fs = {ex.submit(f, m): k for k, m in todo}
        for n, x in enumerate(as_completed(fs)):
            try:
                res[fs[x]] = x.result()
            except Exception as e:
                res[fs[x]] = 'error %r' % e
            if n % 10 == 0 or n == len(fs) - 1:
                json.dump(res, open(path + '~', 'w'))
                os.replace(path + '~', path)
    return res


if __name__ == '__main__':
    what, d = sys.argv[1:3]
    jobs = int(sys.argv[3]) if len(sys.argv) > 3 else 3
    if what == 'make':
        files = [x for x in sh(['git', '-C', REPO, 'ls-files', 'fca'])[1].split() if x.endswith('.py') and 'test' not in x and props(x)]
        ms = [m for f in files for m in mutants(f)]
        json.dump(ms, open(os.path.join(d, 'mutants.json'), 'w'))
        print(len(ms))
        sys.exit()
    ms = list(enumerate(json.load(open(os.path.join(d, 'mutants.json')))))
    ms = [(str(k), m) for k, m in ms]
    if what == 'test':
        phase(d, 'tests', ms, test, jobs)
    elif what == 'check':
        t = json.load(open(os.path.join(d, 'tests.json')))
        full = os.environ.get('MUT_FULL')
        if full:
            first = json.load(open(os.path.join(d, 'checks.json')))
        phase(d, 'full' if full else 'checks', [(k, m) for k, m in ms if t.get(k, 'survives') == 'survives' and (not full or first.get(k, 'caught')[:6] == 'missed')], check, jobs)
    else:
        c = json.load(open(os.path.join(d, 'checks.json')))
        if os.path.exists(os.path.join(d, 'full.json')):
            c.update(json.load(open(os.path.join(d, 'full.json'))))
        for k, m in ms:
            if c.get(k, 'caught')[:6] == 'missed':
                print(k, m['file'], m['line'], m['why'], '|', m['old'][:70].replace('\n', ' '), '->', m['new'][:70].replace('\n', ' '), '|', c[k][:200])
