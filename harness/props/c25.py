"""C25: interest indices, filters, stored indices."""
from drv import call
import gen
from gen import rng

TRACE = 'Trace_Indices'
BATCH = 300
CFG = '''SPECIFICATION Spec
CONSTANTS N = %d M = %d Side = %d
INVARIANT Invariant
PROPERTY Ends
CHECK_DEADLOCK FALSE
'''
MODELS = {'quick': [dict(module='MC_Indices', cfg=CFG % (2, 3, 1), workers=2, min_states=250),
                    dict(module='MC_Indices', cfg=CFG % (3, 2, 2), workers=1, min_states=200)],
          'thorough': [dict(module='MC_Indices', cfg=CFG % (3, 3, 1), workers=4, min_states=2000, timeout=2800),
                       dict(module='MC_Indices', cfg=CFG % (3, 3, 2), workers=4, min_states=2000, timeout=2800)]}
EVIDENCE = dict(
    rule='a scenario computes, stores and filters by indices on one or two lattices; non-trivial: a lattice with three or more concepts and a value other than 0 or 1',
    explanation='Every recorded index is compared with the exact fraction of its definition; filter results with the ranks of the indices; '
                'annotations with the history of stored ones.')
FS = ['intensional', 'extensional', 'separation', 'extent size', 'intent size', 'probability']


def scenarios(tier, seed):
    shapes = [(0, 0), (0, 2), (2, 0), (1, 1), (1, 2), (2, 1), (2, 2)] + ([(2, 3)] if tier == 'quick' else [(2, 3), (3, 2), (3, 3)])
    for n, m in shapes:
        for tbl in gen.masks(n, m) if n and m else [[[] for _ in range(n)]]:
            yield {"cxts": [{"o": gen.onames(n), "a": gen.anames(m), "t": tbl}],
                   "ops": [{"op": "index", "lat": 1, "f": f} for f in FS]}
    for i in range(gen.upto(tier, 24, 160)):       # more subsets than machine integers or floating-point numbers hold
        r = rng(seed, 'c25b', i)
        n, m = [20, 33, 54, 66, 70, 130, 300, 1100][i % 8], r.choice([1, 2, 2, 3])
        kinds = [[r.random() < .6 for _ in range(m)] for _ in range(r.choice([2, 3, 4]))]
        tbl = [r.choice(kinds) for _ in range(n)]
        if i % 3 == 0:
            tbl[:-1] = [[True] * m] * (n - 1)
        if i // 8 % 2:
            n, m, tbl = m, n, [list(x) for x in zip(*tbl)]
        yield {"cxts": [{"o": gen.onames(n), "a": gen.anames(m), "t": [list(x) for x in tbl]}],
               "ops": [{"op": "index", "lat": 1, "f": f} for f in FS[:5 if n * m < 4000 else 2]]}
    for i in range(gen.upto(tier, 10, 60)):       # numbers of combinations beyond the machine word
        r = rng(seed, 'c25p', i)
        n, m = r.choice([(24, 3), (34, 3), (36, 3), (40, 2), (48, 2), (66, 2), (3, 30)])
        yield {"cxts": [{"o": gen.onames(n), "a": gen.anames(m), "t": [list(x) for x in gen.table(r, n, m, r.choice([.5, .7, .9]))]}],
               "ops": [{"op": "index", "lat": 1, "f": f} for f in ('probability', 'separation', 'intent size')]}
    for i in range(gen.upto(tier, 350, 5000)):
        r = rng(seed, 'c25', i)
        cs = []
        for _ in range(r.choice([1, 1, 2])):
            n, m = r.choice([(2, 3), (3, 3), (4, 4), (5, 4), (4, 5), (6, 5), (3, 6), (8, 4), (5, 6), (10, 3), (3, 9), (12, 4), (7, 5)])
            style = 3 if i % 9 == 5 else 0
            cs.append({"o": gen.onames(n, r, style), "a": gen.anames(m, r, style), "t": gen.table(r, n, m)})
            if i % 9 == 7:         # names that read alike
                for xs in (cs[-1]['o'], cs[-1]['a']):
                    xs[:2] = [1, '1']
                    r.shuffle(xs)
        ops = []
        for _ in range(r.choice([3, 5, 8])):
            lat = r.randrange(len(cs)) + 1
            z = r.random()
            f = r.choice(FS)
            if z < .35:
                ops.append({"op": "index", "lat": lat, "f": f})
            elif z < .6:
                ops.append({"op": "store", "lat": lat, "f": f, "name": r.choice(['A', 'B', 'Stab', 'A'])})
            elif z < .65:
                ops.append({"op": "annotate", "lat": lat, "k": r.randrange(1000), "name": r.choice(['A', 'note']), "value": r.choice([0.25, 7.0])})
            else:
                f = r.choice(FS + ['ties', 'ties', 'constant'])
                mode = r.choice(['value', 'abs', 'part'])
                ops.append({"op": "filter", "lat": lat, "f": f, "mode": mode, "at": r.random(), "seed": r.randrange(10 ** 6),
                            "how": r.choice(['equal', 'between', 'below', 'above']), "num": r.choice([0, 1, 2, 3, 4]), "n": r.choice([0, 1, 1, 2, 3, 5, 1000])})
        yield {"cxts": cs, "ops": ops, "menu": i % 3 == 1}


def run(scn):
    import fractions, random
    from fca import Context, ConceptLattice, ConceptSystem
    from fca.algorithms import filtering as F
    fs = {'intensional': F.compute_istability, 'extensional': F.compute_estability, 'separation': F.compute_separation_index,
          'extent size': F.compute_extent_size, 'intent size': F.compute_intent_size, 'probability': F.compute_probability}
    modes = {m: m for m in ('value', 'abs', 'part')}
    if scn.get('menu'):     # the functions and modes offered by name
        ok, d = call(F.get_compute_functions)
        ok2, ms = call(F.get_modes)
        full = {'intensional': 'Intensional stability', 'extensional': 'Extensional stability', 'separation': 'Separation index',
                'extent size': 'Extent size', 'intent size': 'Intent size', 'probability': 'Probability index'}

        def missing(*a):
            raise KeyError('not offered')
        fs = {k: (d.get(full[k], missing) if ok and isinstance(d, dict) else missing) for k in fs}
        modes = {m: (m if ok2 and m in list(ms) else 'not offered') for m in modes}
    lats, heads, ev, vals = [], [], [], {}

    def nm(x):
        return x if isinstance(x, str) else 'i:%d' % x

    def spell(xs):
        return sorted(map(nm, xs))

    def vid(v):
        return vals.setdefault(repr(v) if isinstance(v, str) else repr(float(v)), len(vals) + 1)
    for c in scn['cxts']:
        ok, L = call(lambda: ConceptLattice(Context([list(x) for x in c['t']], list(c['o']), list(c['a']))))
        if not ok:
            return {"h": {}, "ev": [], "abort": "cannot build the lattice: %r" % L}
        C = [L[k] for k in range(len(L))]
        lats.append((L, C))
        heads.append({"c": {"o": [nm(x) for x in c['o']], "a": [nm(x) for x in c['a']], "r": [[nm(a) for a, b in zip(c['a'], row) if b] for row in c['t']]},
                      "m": [[spell(x.extent), spell(x.intent)] for x in C]})

    def metas():
        try:
            return [[[[str(k), vid(v)] for k, v in sorted(x.meta.items())] for x in C] for L, C in lats]
        except Exception:
            return [[[['?', 0]]]]

    def same():
        return [[[spell(x.extent), spell(x.intent)] for x in [L[k] for k in range(len(L))]] for L, C in lats] == [h['m'] for h in heads]
    for op in scn['ops']:
        L, C = lats[op['lat'] - 1]
        c = scn['cxts'][op['lat'] - 1]
        if op['f'] in ('extent size', 'probability') and not c['o'] or op['f'] == 'intent size' and not c['a'] if 'f' in op else False:
            continue
        e = {"op": op['op'], "lat": op['lat'], "out": "ok"}
        if op['op'] == 'index':
            ok, v = call(fs[op['f']], L)
            e.update(out="ok" if ok else "exc", f=op['f'], v=[], complete=False, large=False)
            side = {'intensional': 'extent', 'extensional': 'intent'}.get(op['f'])
            e["large"] = bool(side) and any(len(getattr(x, side)) > 24 for x in C)
            if ok:
                try:
                    e["complete"] = len(v) == len(C) and all(x in v for x in C)
                    for x in C:
                        y = float(v[x])
                        if e["large"]:
                            z, digits = round(fractions.Fraction(y) * 10 ** 12) if 0 <= y <= 2 else 10 ** 16, []
                            while z:
                                digits.append(z % 10000)
                                z //= 10000
                            e["v"].append(digits)
                        elif op['f'] in ('intensional', 'extensional'):
                            z = y * 2 ** len(x.extent if op['f'] == 'intensional' else x.intent)
                            e["v"].append(round(z) if z == round(z) and z < 2 ** 30 else -1)
                        else:
                            y *= 10 ** 8 if op['f'] == 'probability' else 10 ** 5
                            e["v"].append(round(y) if 0 <= y < 10 ** 9 else -1)
                except Exception:
                    e["out"] = "malformed"
        elif op['op'] == 'store':
            ok, v = call(fs[op['f']], L)
            if not ok:
                return {"h": {}, "ev": [], "abort": "%s raises %r" % (op['f'], v)}
            ok, u = call(F.compute_index, L, fs[op['f']], op['name'])
            try:
                e.update(values=[vid(v[x]) for x in C])
            except Exception:
                return {"h": {}, "ev": [], "abort": "%s gives no value to a concept" % op['f']}
            e.update(out="ok" if ok else "exc", name=op['name'])
        elif op['op'] == 'annotate':
            k = op['k'] % len(C)
            ok, v = call(lambda: C[k].meta.__setitem__(op['name'], op['value']))
            e.update(k=k + 1, name=op['name'], value=vid(op['value']))
        else:
            r = random.Random(op['seed'])
            if op['f'] == 'ties':
                d = {x: r.choice([0.1, 0.2, 0.30000000000000004, 0.3, 0.5, 1.0]) for x in C}
            elif op['f'] == 'constant':
                d = {x: 0.5 for x in C}
            else:
                ok, d = call(fs[op['f']], L)
                if not ok:
                    return {"h": {}, "ev": [], "abort": "%s raises %r" % (op['f'], d)}
            f = fs.get(op['f']) or (lambda lattice: dict(d))
            try:
                u = sorted(set(d[x] for x in C))
                rank = [2 * u.index(d[x]) for x in C]
            except Exception:
                return {"h": {}, "ev": [], "abort": "%s gives no value to a concept" % op['f']}
            if op['mode'] == 'value':
                i = int(op['at'] * len(u))
                if op['how'] == 'equal':
                    opt, thr = u[i], 2 * i
                elif op['how'] == 'between' and i and u[i - 1] < (u[i] + u[i - 1]) / 2 < u[i]:
                    opt, thr = (u[i] + u[i - 1]) / 2, 2 * i - 1
                elif op['how'] == 'above':
                    opt, thr = u[-1] + 1, 2 * len(u)
                else:
                    opt, thr = u[0] - 1, -1
            elif op['mode'] == 'abs':
                opt = thr = op['n']
            else:
                opt, thr = op['num'] / 4, op['num']
            ok, v = call(F.filter_concepts, L, f, modes[op['mode']], opt)
            e.update(out="ok" if ok else "exc", mode=op['mode'], thr=thr, rank=rank, res=[])
            if ok:
                try:
                    pos = {id(x): k + 1 for k, x in enumerate(C)}
                    e["res"] = [pos.get(id(x), C.index(x) + 1 if x in C else 0) for x in [v[k] for k in range(len(v))]]
                    if not isinstance(v, ConceptSystem):
                        e["out"] = "malformed"
                except Exception:
                    e["out"] = "malformed"
        e["meta"], e["same"] = metas(), same()
        ev.append(e)
    return {"h": {"lats": heads}, "ev": ev}


def nontrivial(scn, tr):
    return any(len(h['m']) > 2 for h in tr['h']['lats'])
