"""C28: the editable many-valued context."""
import copy
from drv import call, generated
import gen
from gen import rng
from props.c26 import raw, number, nid

TRACE = 'Trace_ManyValued'
BATCH = 2500
CFG = '''INIT Init
NEXT Next
CONSTANTS Names = {%s} Vals = {%s} MaxO = %d MaxA = %d Depth = 0
CONSTRAINT Small
VIEW View
INVARIANT Invariant
CHECK_DEADLOCK FALSE
'''
GCFG = '''INIT Init
NEXT Random
CONSTANTS Names = {"x", "y", "z", "w"} Vals = {"p", "q", "r"} MaxO = 9 MaxA = 9 Depth = %d
INVARIANT Out
CHECK_DEADLOCK FALSE
'''
MODELS = {'quick': [dict(module='MC_ManyValued', cfg=CFG % ('"x", "y"', '"p", "q"', 2, 2), workers=3, min_states=300)],
          'thorough': [dict(module='MC_ManyValued', cfg=CFG % ('"x", "y", "z"', '"p", "q"', 2, 2), workers=4, min_states=1500, timeout=2800),
                       dict(module='MC_ManyValued', cfg=CFG % ('"x", "y"', '"p", "q", "r"', 2, 2), workers=4, min_states=1000, timeout=2800)]}
GEN = {'quick': [dict(module='MC_ManyValued', cfg=GCFG % 12, simulate=300, depth=13, min=50, timeout=300)],
       'thorough': [dict(module='MC_ManyValued', cfg=GCFG % 18, simulate=3000, depth=19, min=500, timeout=2500)]}
EVIDENCE = dict(
    rule='a scenario is a history of edits (accepted and refused), copies, transpositions, sub-contexts and reads of several many-valued contexts: '
         'behaviours of MC_ManyValued and seeded random histories; non-trivial: an accepted edit of a context with objects and attributes',
    explanation='Every outcome and the full contents of all live contexts after every event are validated against ManyValued.')
EDITS = ["add_object", "add_attribute", "delete_object", "delete_attribute", "delete_attributes", "rename_object", "rename_attribute"]


def scenarios(tier, seed):
    for n, b in enumerate(generated()):
        r = rng(seed, 'c28g', n)
        raws = [raw(r, 'f'), raw(r, 't'), raw(r, 'n')]
        ops = [{"op": "new", "k": "k0", "o": [], "a": [], "v": []}]
        for e in b:
            e = dict(e, k="k0")
            if 'row' in e:
                e['row'] = ["pqr".index(x) for x in e['row']]
            ops.append(e)
            if r.random() < .2 and len(ops) < 40:
                ops.append({"op": r.choice(["deepcopy", "transpose"]), "k": "d%d" % len(ops), "from": "k0"})
        yield {"raws": raws, "ops": ops}
    for i in range(gen.upto(tier, 500, 10000)):
        r = rng(seed, 'c28', i)
        raws = []
        kind = r.choice('tnif')
        while len(raws) < r.choice([2, 3, 5]):
            x = raw(r, kind if r.random() < .6 else r.choice('tnif'))
            if x not in raws:
                raws.append(x)
        if r.random() < .4:
            raws += [['i', '0'], ['s', ''], ['i', '1']]       # false and true as truth values
        ops, ks = [], []
        size = r.choice([(70, 3), (3, 70), (257, 2), (2, 257), (2, 1030)]) if i % 50 == 7 else None
        names = ['g1', 'g2', 'g3', 'x', 'y', 'g1_0', 'é', '1', 'name', 'm1', 'm2']

        def new():
            n, m = r.choice([(0, 0), (0, 2), (1, 1), (2, 2), (3, 2), (4, 3), (2, 4), (2, 0), (6, 3)])
            if size and not ks:
                n, m = size
            ks.append('k%d' % len(ks))
            o = [r.choice(names) for _ in range(n)] if r.random() < .15 else gen.onames(n, r)
            a = [r.choice(names) for _ in range(m)] if r.random() < .15 else gen.anames(m, r)
            v = [[r.randrange(len(raws)) for _ in range(m)] for _ in range(n)]
            ops.append({"op": "new", "k": ks[-1], "o": o, "a": a, "v": v})
        new()
        for _ in range(r.choice([4, 8, 14])):
            z = r.random()
            k = r.choice(ks)
            if z < .05 and len(ks) < 5:
                new()
            elif z < .25 and len(ks) < 5:
                w = r.choice(["deepcopy", "transpose", "extract", "condition", "values"])
                ks.append('k%d' % len(ks))
                ops.append({"op": w, "k": ks[-1], "from": k, "n": r.randrange(1 << 20), "bad": r.random() < .1})
            elif z < .35:
                ops.append({"op": "value", "k": k, "n": r.randrange(1 << 20)})
            else:
                ops.append({"op": r.choice(EDITS), "k": k, "n": r.randrange(1 << 20), "rnd": True, "name": r.choice(names) if r.random() < .5 else 'n%d' % len(ops),
                            "bad": r.random() < .08, "as": r.choice(['list', 'list', 'tuple'])})
        yield {"raws": raws, "ops": ops}


def run(scn):
    from fca import ManyValuedContext
    raws = scn['raws']
    values = [{'s': str, 'i': int, 'f': float}[x[0]](x[1]) for x in raws]

    def code(x):
        return {str: 's', int: 'i', float: 'f'}.get(type(x), '?') + ':' + (x if type(x) is str else repr(x))
    eq = {}
    for x, v in zip(raws, values):
        eq[code(v)] = 'text ' + x[1] if x[0] == 's' else nid(number(x))
    live, gone, ev = {}, set(), []

    def look(m):
        try:
            o, a = list(m.objects), list(m.attributes)
            rows = [[code(x) for x in m[i]] for i in range(len(m))]
            if [[code(x) for x in row] for row in m.table] != rows or [[code(x) for x in row] for row in m] != rows or len(o) != len(rows):
                raise ValueError
            if [[code(m.get_value(g, x)) for x in a] for g in o] != rows:
                raise LookupError
            return {"o": [str(x) for x in o], "a": [str(x) for x in a], "v": rows}
        except Exception as e:
            return {"o": ['?' + type(e).__name__], "a": [], "v": []}
    for op in scn['ops']:
        w = op['op']
        e = {"op": w, "k": op['k'], "g": '', "x": '', "got": ''}
        if op.get('from', op['k']) in gone or (w not in ('new',) and op.get('from', op['k']) not in live):
            gone.add(op['k'])
            continue
        args = []
        r = rng(op.get('n', 0), 'c28run')
        if w == 'new':
            args = [[[values[x] for x in row] for row in op['v']], list(op['o']), list(op['a'])]
            e.update(o=op['o'], a=op['a'], v=[[code(values[x]) for x in row] for row in op['v']])
            held = copy.deepcopy(args)
            ok, v = call(ManyValuedContext, *args)
        elif 'from' in op:
            m = live[op['from']]
            e['from'] = op['from']
            if w == 'deepcopy':
                held = args
                ok, v = call(copy.deepcopy, m)
            elif w == 'transpose':
                held = args
                ok, v = call(m.transpose)
            elif w == 'extract':
                names = r.sample(list(m.attributes), r.randrange(len(m.attributes) + 1)) + (['no such'] if op.get('bad') else [])
                args, held = [names], [list(names)]
                e['names'] = list(names)
                ok, v = call(m.extract_subcontext, *args)
            elif w == 'condition':
                mask = r.randrange(256)
                e['rows'] = [i + 1 for i in range(len(m)) if mask >> (i % 8) & 1]
                held = args
                ok, v = call(m.extract_subcontext_by_condition, lambda i: bool(mask >> (i % 8) & 1))
            else:
                want = {a: r.choice(values) for a in list(m.attributes)[:r.randrange(3)]}
                e['vals'] = [[a, code(x)] for a, x in want.items()]
                args, held = [want], [dict(want)]
                ok, v = call(m.extract_subcontext_by_attribute_values, want)
            if ok and not isinstance(v, ManyValuedContext):
                ok = False
        elif w == 'value':
            m = live[op['k']]
            e['g'] = r.choice(list(m.objects) + ['no such']) if r.random() < .1 or not m.objects else r.choice(list(m.objects))
            e['x'] = r.choice(list(m.attributes) + ['no such']) if r.random() < .1 or not m.attributes else r.choice(list(m.attributes))
            held = args
            ok, v = call(m.get_value, e['g'], e['x'])
            e['got'] = code(v) if ok else ''
        else:
            m = live[op['k']]
            o, a = list(m.objects), list(m.attributes)
            if op.get('rnd'):
                name, bad = op['name'], op.get('bad')
                pick = lambda xs: 'no such' if bad or not xs else r.choice(xs)
                p = {"name": name}
                if w in ('add_object', 'add_attribute'):
                    n = len(a if w == 'add_object' else o) + (r.choice([-1, 1]) if bad else 0)
                    p['row'] = [r.randrange(len(values)) for _ in range(max(n, 0))]
                elif w in ('delete_object', 'rename_object'):
                    p['old'] = pick(o)
                elif w in ('delete_attribute', 'rename_attribute'):
                    p['old'] = pick(a)
                else:
                    p['set'] = r.sample(a, r.randrange(len(a) + 1)) + (['no such'] if bad else [])
                if w[:6] == 'delete' and w != 'delete_attributes':
                    p['name'] = p.pop('old')
            else:
                p = op
            row = [values[x] for x in p.get('row', [])]
            if op.get('as') == 'tuple':
                row = tuple(row)
            e.update(name=p.get('name', ''), old=p.get('old', ''), set=list(p.get('set', [])), row=[code(x) for x in row])
            args = {"add_object": [row, e['name']], "add_attribute": [row, e['name']], "delete_attributes": [list(e['set'])],
                    "rename_object": [e['old'], e['name']], "rename_attribute": [e['old'], e['name']]}.get(w, [e['name']])
            held = copy.deepcopy(args)
            ok, v = call(getattr(m, w), *args)
        if w == 'new' or 'from' in op:
            if ok:
                live[op['k']] = v
        e.update(out='ok' if ok else 'exc', argsok=args == held, obs={k: look(x) for k, x in live.items()})
        ev.append(e)
    return {"h": {"eq": eq}, "ev": ev}


def nontrivial(scn, tr):
    return any(e['op'] in EDITS and e['out'] == 'ok' and e['obs'][e['k']]['v'] and e['obs'][e['k']]['a'] for e in tr['ev'])
