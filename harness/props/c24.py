"""C24: diagrams of concept lattices as dot files."""
import os, re, tempfile, shutil, hashlib
from drv import call
import gen
from gen import rng

TRACE = 'Trace_Diagram'
BATCH = 400
CFG = '''INIT Init
NEXT %s
CONSTANTS N = %d M = %d
INVARIANT Labelled Recoverable Lean Connected
CHECK_DEADLOCK FALSE
'''
MODELS = {'quick': [dict(module='MC_Diagram', cfg=CFG % ('First', 3, 3), workers=3, min_states=3000),
                    dict(module='MC_Diagram', cfg=CFG % ('Draw', 2, 2), workers=1, min_states=300)],
          'thorough': [dict(module='MC_Diagram', cfg=CFG % ('First', 3, 4), workers=4, min_states=30000, timeout=2800),
                       dict(module='MC_Diagram', cfg=CFG % ('First', 4, 3), workers=4, min_states=30000, timeout=2800)]}
EVIDENCE = dict(
    rule='a scenario draws one or two lattices with both writers into a few files; non-trivial: a lattice with four or more concepts and a label',
    explanation='The file is parsed as a dot graph; nodes, edges and labels are compared with the drawing of the specification.')
NAMES = ['a', 'b', 'x y', '1', '5', '7', 'é', '字', 'g -> h', 'c0', 'c1 [width]', 'a;b', 'label=', 'n}', 'p{', 'q(', 'long name ' * 4, '#', '//', 'a&b', '<b>', '%d', '...', 'a,b', '&quot;']


def context(r, n, m):
    pool = NAMES if r.random() < .4 else []
    o = (r.sample(pool, n) if len(pool) >= n else ['g%d' % i for i in range(n)])
    a = (r.sample(pool, m) if len(pool) >= m else ['m%d' % i for i in range(m)])
    d = r.choice([.2, .5, .7, .9])
    rows = [[r.random() < d for _ in range(m)] for _ in range(n)]
    z = r.random()
    # repeated rows and columns give nodes with many labels
    if z < .4 and n > 1:
        for i in range(1, n):
            if r.random() < .75:
                rows[i] = list(rows[r.randrange(i)])
    if .25 < z < .65 and m > 1:
        for j in range(1, m):
            if r.random() < .75:
                k = r.randrange(j)
                for row in rows:
                    row[j] = row[k]
    return {"o": o, "a": a, "t": rows}


def scenarios(tier, seed):
    for n, m in [(0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (2, 1), (2, 2), (0, 3), (3, 0)] + ([(2, 3), (3, 2), (3, 3)] if tier == 'thorough' else []):
        for tbl in gen.masks(n, m) if n and m else [[[] for _ in range(n)]]:
            c = {"o": gen.onames(n), "a": gen.anames(m), "t": tbl}
            yield {"cxts": [c], "ops": [{"op": "draw", "c": 0, "how": h, "p": h, "via": "lattice"} for h in ('plain', 'count', 'full')]}
    # label counts around the abbreviations
    for k in range(0, 10):
        for side in 'oa':
            n, m = (k + 2, 2) if side == 'o' else (2, k + 2)
            t = [[(i < 2 and j == i) for j in range(2)] for i in range(n)] if side == 'o' else [[(j < 2 and j == i) for j in range(m)] for i in range(2)]
            if side == 'o':
                t = [[i >= 1, i == 0] for i in range(n)]
            else:
                t = [[j >= 1 for j in range(m)], [j == 0 for j in range(m)]]
            c = {"o": gen.onames(n), "a": gen.anames(m), "t": t}
            yield {"cxts": [c], "ops": [{"op": "draw", "c": 0, "how": h, "p": "f", "via": "lattice"} for h in ('plain', 'count', 'full')]}
    for i in range(gen.upto(tier, 6, 40)):         # many nodes, many labels
        r = rng(seed, 'c24l', i)
        if i % 2:
            n = m = 5
            c = {"o": gen.onames(n), "a": gen.anames(m), "t": [[int(x != y) for y in range(m)] for x in range(n)]}
        else:
            n, m = r.choice([(120, 3), (3, 120), (40, 12)])
            rows = [[r.choice([0, 1]) for _ in range(4)] for _ in range(4)]
            c = {"o": gen.onames(n), "a": gen.anames(m), "t": [[rows[x % 4 if x < 4 else 3][y % 4 if y < 4 else 2] for y in range(m)] for x in range(n)]}
        yield {"cxts": [c], "ops": [{"op": "draw", "c": 0, "how": h, "p": h, "via": v} for h in ('plain', 'count', 'full') for v in ('lattice', 'shuffled')]}
    for i in range(gen.upto(tier, 400, 6000)):
        r = rng(seed, 'c24', i)
        cs = [context(r, *r.choice([(3, 3), (4, 4), (5, 4), (4, 5), (6, 3), (3, 6), (8, 4), (4, 8), (10, 3), (3, 12), (14, 2), (2, 2)])) for _ in range(r.choice([1, 1, 2]))]
        ops = []
        for _ in range(r.choice([1, 2, 4])):
            e = {"op": "draw", "c": r.randrange(len(cs)), "how": r.choice(['plain', 'plain', 'count', 'full', 'full']),
                 "p": r.choice(['f', 'g.dot', 'h h']), "via": r.choice(['lattice', 'lattice', 'system', 'shuffled', 'part', 'part'])}
            if r.random() < .08:
                e['op'] = 'refuse'
            ops.append(e)
        yield {"cxts": cs, "ops": ops, "seed": i}


TOK = re.compile(r'"((?:[^"\\]|\\.)*)"|([\w.]+)|(->|[\[\]{}=;,])|(\s+)|(.)', re.S)


def parse(path):
    """a dot graph: nodes, edges, and labels at self loops"""
    bad = {"valid": False, "nodes": [], "edges": [], "labels": []}
    try:
        text = open(path, encoding='utf-8').read()
    except Exception:
        return bad
    toks = []
    for m in TOK.finditer(text):
        if m.group(4):
            continue
        if m.group(5):
            return bad
        toks.append(('id', m.group(1) if m.group(1) is not None else m.group(2)) if m.group(3) is None else (m.group(3), None))
    toks += [('end', None)] * 3
    i = [0]

    def eat(kind):
        k, v = toks[i[0]]
        if k != kind:
            raise ValueError
        i[0] += 1
        return v

    def attrs():
        d = {}
        while toks[i[0]][0] == '[':
            eat('[')
            while toks[i[0]][0] != ']':
                k = eat('id')
                eat('=')
                d[k] = eat('id')
                if toks[i[0]][0] in (',', ';'):
                    i[0] += 1
            eat(']')
        return d
    nodes, edges, labels = [], [], []

    def num(x):
        m = re.fullmatch(r'[a-zA-Z_]*(\d+)', x)
        return int(m.group(1)) + 1 if m else 0
    try:
        if eat('id') != 'digraph':
            raise ValueError
        if toks[i[0]][0] == 'id':
            eat('id')
        eat('{')
        while toks[i[0]][0] != '}':
            if toks[i[0]][0] == ';':
                i[0] += 1
                continue
            x = eat('id')
            if toks[i[0]][0] == '=':
                eat('=')
                eat('id')
            elif toks[i[0]][0] == '->':
                eat('->')
                y = eat('id')
                d = attrs()
                shown = [(k, w) for k, w in (('headlabel', 'obj'), ('taillabel', 'att')) if k in d]
                if shown and x == y:
                    for k, w in shown:
                        labels.append({"n": num(x), "kind": w, "names": re.split(r'\\n ?', d[k])})
                elif d:
                    raise ValueError
                else:
                    edges.append([num(x), num(y)])
            else:
                d = attrs()
                if x not in ('node', 'edge', 'graph'):
                    nodes.append(num(x))
        eat('}')
        eat('end')
    except ValueError:
        return bad
    return {"valid": True, "nodes": nodes, "edges": edges, "labels": labels}


def run(scn):
    import random
    from fca import Context, ConceptLattice, ConceptSystem
    from fca.readwrite.dot import write_dot, uwrite_dot
    d = tempfile.mkdtemp(dir=os.environ.get('FCAV_WORK'))
    r = random.Random(scn.get('seed', 0))
    ev, sums = [], {}

    def members(cs):
        try:
            return [[sorted(c.extent), sorted(c.intent), sorted(c.meta.items())] for c in [cs[k] for k in range(len(cs))]]
        except Exception:
            return [[['?'], ['?'], []]]

    def changed():
        new = {p: hashlib.md5(open(os.path.join(d, p), 'rb').read()).hexdigest() for p in os.listdir(d)}
        out = [p for p in set(new) | set(sums) if new.get(p) != sums.get(p)]
        sums.clear()
        sums.update(new)
        return sorted(out)
    cwd = os.getcwd()
    try:
        os.chdir(d)
        lats = []
        for c in scn['cxts']:
            ok, L = call(lambda: ConceptLattice(Context([list(x) for x in c['t']], list(c['o']), list(c['a']))))
            if not ok:
                return {"h": {}, "ev": [], "abort": "cannot build the lattice: %r" % L}
            lats.append(L)
        for op in scn['ops']:
            L = lats[op['c']]
            if op['via'] != 'lattice':
                C = list(L)
                if op['via'] != 'system':
                    r.shuffle(C)
                if op['via'] == 'part':
                    C = C[:r.randrange(len(C) + 1)]
                L = ConceptSystem(C)
            p = '' if op['op'] == 'refuse' else os.path.join(d, op['p'])
            e = {"op": op['op'], "how": op['how'], "p": op['p'], "before": members(L)}
            ok, v = call(write_dot, L, p) if op['how'] == 'plain' else \
                call(uwrite_dot, L, p, True) if op['how'] == 'full' else call(uwrite_dot, L, p)
            e.update(out="ok" if ok else "exc", after=members(L), changed=changed(), draw=parse(p) if p and ok else {})
            ev.append(e)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
    return {"h": {"x": 0}, "ev": ev}


def nontrivial(scn, tr):
    return any(len(e['before']) >= 4 and e.get('draw', {}).get('labels') for e in tr['ev'])
