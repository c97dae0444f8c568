"""C29: printed forms."""
from drv import call
import gen
from gen import rng

TRACE = 'Trace_Printing'
BATCH = 2500
CFG = '''INIT Init
NEXT Next
CONSTANTS Names = {"x", "y", "xy"} Vals = {%s} N = %d
INVARIANT Invariant
CHECK_DEADLOCK FALSE
'''
MODELS = {'quick': [dict(module='MC_Printing', cfg=CFG % ('"p", "q"', 2), workers=3, min_states=400)],
          'thorough': [dict(module='MC_Printing', cfg=CFG % ('"p", "q", "pq"', 2), workers=4, min_states=400, timeout=2800)]}
EVIDENCE = dict(
    rule='a scenario makes, edits and prints contexts (binary, many-valued, partial), implications, concepts, concept systems, lattices and explorations; '
         'non-trivial: something with at least two names printed',
    explanation='Every printed text is compared with the text Printing gives for the content, which the specification tracks through edits of contexts.')
NAMES = ['a', 'b', 'c', 'm1', 'm10', 'm2', 'x y', 'é', 'B', "o'k", 'say "q"', 'back\\slash', 'not (z)', 'G', 'M', '=>', '字', 'a,b', '0', '-1', 'X', '.', '?', '']
VALUES = [['i', '1'], ['i', '0'], ['f', '2.5'], ['s', 'red'], ['s', ''], ['s', 'x, y'], ['i', '10'], ['s', '1'], ['f', '-0.0'], ['f', '1e+16']]


def scenarios(tier, seed):
    for n, m in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2), (2, 2)):
        for T in gen.masks(n, m):
            o, a = ['g%d' % i for i in range(n)], ['m%d' % j for j in range(m)]
            yield {"ints": 0, "ops": [{"op": "new", "kind": "context", "k": "c", "o": o, "a": a, "x": T}, {"op": "show", "k": "c", "how": 'repr'},
                                      {"op": "lattice", "k": "c", "as": "lattice"}]}
            if n * m <= 2:
                for Q in gen.masks(n, m):
                    if all(x <= y for p, q in zip(T, Q) for x, y in zip(p, q)):
                        yield {"ints": 0, "ops": [{"op": "new", "kind": "partial", "k": "p", "o": o, "a": a, "x": T, "q": Q}, {"op": "show", "k": "p", "how": 'repr'}]}
    # longer than anything that gets shortened
    for i, (n, m) in enumerate([(2, 1100), (1100, 2), (130, 3), (3, 130), (12, 12)]):
        r = rng(seed, 'c29l', i)
        o, a = ['g%d' % x for x in range(n)], ['m%d' % x for x in range(m)]
        q = gen.table(r, n, m, .6)
        for kind in ("context", "many-valued", "partial"):
            yield {"ints": 0, "ops": [{"op": "new", "kind": kind, "k": "k", "o": o, "a": a, "x": [[int(b and r.random() < .5) for b in row] for row in q]
                                       if kind == 'partial' else q, "q": q, "v": [[r.randrange(len(VALUES)) for _ in range(m)] for _ in range(n)]},
                                      {"op": "show", "k": "k", "how": 'repr'}] +
                   ([{"op": "concept", "e": o, "i": a, "meta": [], "how": 'str'}, {"op": "implication", "p": a, "c": o, "neg": False, "how": 'str'}] if kind == 'partial' else [])}
    for i in range(gen.upto(tier, 8, 60)):
        r = rng(seed, 'c29m', i)
        n = r.choice([5, 6]) if i % 2 else 12
        m = 9 if i % 2 == 0 else n
        o, a = ['g%d' % x for x in range(n)], ['m%d' % x for x in range(m)]
        x = [[int(u != v) for v in range(m)] for u in range(n)] if i % 2 else gen.table(r, n, m, .4)
        yield {"ints": 0, "ops": [{"op": "new", "kind": "context", "k": "c", "o": o, "a": a, "x": x}, {"op": "lattice", "k": "c", "as": "lattice"},
                                  {"op": "lattice", "k": "c", "as": "concepts"},
                                  {"op": "exploration", "k": "c", "steps": [r.randrange(4) for _ in range(3)], "how": 'repr'}]}
    for i in range(gen.upto(tier, 700, 12000)):
        r = rng(seed, 'c29', i)
        ints = int(r.random() < .15)
        pool = r.sample(range(-3, 120), 30) if ints else r.sample(NAMES, len(NAMES)) + ['n%d' % j for j in range(6)]
        mixed = r.random() < .12            # numbers and their texts: not comparable, contexts only
        if mixed:
            pool = [f(x) for x in r.sample(range(8), 8) for f in (int, str)]
            r.shuffle(pool)
        n, m = r.choice([(0, 2), (1, 1), (2, 2), (3, 3), (4, 3), (3, 5), (2, 0), (5, 4), (6, 2), (12, 2), (2, 12)])
        if mixed:
            n, m = r.choice([(2, 2), (3, 3), (4, 2), (5, 4)])
        ops, ks = [], []
        fresh = lambda: pool.pop()
        o, a = [fresh() for _ in range(n)], [fresh() for _ in range(m)]
        names = o + a
        sub = lambda xs, k=9: r.sample(xs, r.randrange(min(len(xs), k) + 1))
        for _ in range(r.choice([3, 5, 8])):
            z = r.random()
            if z < .2 or not ks:
                kind = r.choice(["context", "context", "many-valued", "partial"])
                k = 'k%d' % len(ks)
                ks.append((k, kind, list(o), list(a)))
                q = gen.table(r, n, m)
                x = q if kind != 'partial' else [[int(b and r.random() < .5) for b in row] for row in q]
                ops.append({"op": "new", "kind": kind, "k": k, "o": list(o), "a": list(a), "x": x, "q": q, "v": [[r.randrange(len(VALUES)) for _ in range(m)] for _ in range(n)]})
                ops.append({"op": "show", "k": k, "how": r.choice(['repr', 'str', 'format'])})
            elif z < .4 and pool:
                k, kind, O, A = r.choice(ks)
                w = r.choice(["add_object", "add_object" if mixed else "complete"]) if kind == 'partial' else r.choice(["add_object", "add_attribute", "delete_object", "delete_attribute", "rename_object", "rename_attribute"])
                e = {"op": "edit", "k": k, "edit": w, "name": fresh(), "old": '', "row": []}
                if w == "complete":
                    e['imps'] = [[sub(A, 2), sub(A, 2)] for _ in range(r.randrange(1, 3))]
                elif w == "add_object":
                    e['qs'] = sub(A)
                    e['xs'] = sub(e['qs'])
                    e['row'] = [r.randrange(2 if kind == 'context' else len(VALUES)) for _ in A]
                    O.append(e['name'])
                elif w == "add_attribute":
                    e['row'] = [r.randrange(2 if kind == 'context' else len(VALUES)) for _ in O]
                    A.append(e['name'])
                else:
                    S = O if w.endswith('object') else A
                    if not S:
                        continue
                    y = r.choice(S)
                    if w[0] == 'd':
                        e['name'] = y
                        S.remove(y)
                    else:
                        e['old'] = y
                        S[S.index(y)] = e['name']
                ops.append(e)
                ops.append({"op": "show", "k": k, "how": r.choice(['repr', 'str', 'format'])})
            elif mixed:
                continue
            elif z < .55:
                ops.append({"op": "implication", "p": sub(names), "c": sub(names), "neg": r.random() < .3, "how": r.choice(['repr', 'str', 'format'])})
            elif z < .7:
                meta = [] if r.random() < .6 else [[r.choice(['k', 'weight']), r.choice(['v', 7, 'x y'])]]
                ops.append({"op": "concept", "e": sub(o), "i": sub(a), "meta": meta, "how": r.choice(['repr', 'str', 'format'])})
            elif z < .78:
                ops.append({"op": "system", "cs": [{"e": sub(o), "i": sub(a), "meta": [] if r.random() < .8 else [['s', 3]]} for _ in range(r.randrange(5))]})
            else:
                k = [x for x in ks if x[1] == 'context']
                if not k:
                    continue
                k = r.choice(k)
                ops.append({"op": "lattice", "k": k[0], "as": r.choice(["lattice", "concepts"])} if r.random() < .5 else
                           {"op": "exploration", "k": k[0], "steps": [r.randrange(4) for _ in range(r.randrange(4))], "how": r.choice(['repr', 'str'])})
        yield {"ints": ints, "ops": ops}


def run(scn):
    from fca import Context, ManyValuedContext, Concept, ConceptSystem, ConceptLattice, Implication
    from fca.implication import NegativeImplication
    from fca.partial_context import PartialContext
    from fca.algorithms.exploration import BasicExploration
    HOW = {'repr': repr, 'str': str, 'format': '{}'.format}
    values = [{'s': str, 'i': int, 'f': float}[t](x) for t, x in VALUES]
    key = lambda x: x if isinstance(x, str) else '#%d' % x      # names as the specification sees them
    vkey = lambda x: 'value ' + type(x).__name__ + ' ' + repr(x)
    seen, live, kinds, ev = {}, {}, {}, []

    def nm(xs):
        for x in xs:
            seen[key(x)] = x
        return [key(x) for x in xs]

    def content(x, kind):
        try:
            if kind == 'partial':
                return [list(x.objects), list(x.attributes), content(x.x_context, 'context'), content(x.q_context, 'context')]
            return [list(x.objects), list(x.attributes), [[repr(b) for b in row] for row in x]]
        except Exception as e:
            return repr(e)

    def sides(c):
        return {"e": sorted(nm(c.extent)), "i": sorted(nm(c.intent)), "meta": [[q(k), q(v)] for k, v in c.meta.items()]}

    def q(x):
        k = 'meta ' + repr(x)
        metas[k] = x
        return k
    metas = {}

    def show(e, what, f, x, snap):
        before = snap()
        ok, text = call(f, x)
        e.update(what=what, out='ok' if ok and isinstance(text, str) else 'exc', text=text if ok and isinstance(text, str) else '', kept=True)
        if snap() != before:
            e['kept'] = False
        ev.append(e)

    def imps(xs):
        return [{"p": sorted(nm(x.premise)), "c": sorted(nm(x.conclusion))} for x in xs]
    for op in scn['ops']:
        w = op['op']
        if w == 'new':
            o, a = list(op['o']), list(op['a'])
            e = {"op": w, "k": op['k'], "kind": op['kind'], "o": nm(o), "a": nm(a), "x": [[bool(b) for b in row] for row in op['x']],
                 "q": [[bool(b) for b in row] for row in op.get('q', op['x'])]}
            if op['kind'] == 'context':
                ok, v = call(Context, [list(x) for x in e['x']], o, a)
            elif op['kind'] == 'partial':
                ok, v = call(PartialContext, [list(x) for x in e['x']], [list(x) for x in e['q']], o, a)
            else:
                e['v'] = [[vkey(values[x]) for x in row] for row in op['v']]
                ok, v = call(ManyValuedContext, [[values[x] for x in row] for row in op['v']], o, a)
            e['out'] = 'ok' if ok else 'exc'
            ev.append(e)
            if not ok:
                break
            live[op['k']], kinds[op['k']] = v, op['kind']
        elif w == 'edit':
            c, kind = live[op['k']], kinds[op['k']]
            row = [values[x] for x in op['row']] if kind == 'many-valued' else [bool(x) for x in op['row']]
            e = {"op": w, "k": op['k'], "edit": op['edit'], "name": nm([op['name']])[0], "old": nm([op['old']])[0] if op['old'] != '' or op['edit'][0] == 'r' else '',
                 "row": [vkey(x) for x in row] if kind == 'many-valued' else row, "xs": nm(op.get('xs', [])), "qs": nm(op.get('qs', []))}
            e['imps'] = [{"p": nm(p), "c": nm(q)} for p, q in op.get('imps', [])]
            if op['edit'] == 'complete':
                ok, _ = call(c.complete, [Implication(set(p), set(q)) for p, q in op['imps']])
            elif kind == 'partial':
                ok, _ = call(c.add_object_with_intent, (set(op['xs']), set(op['qs'])), op['name'])
            else:
                args = {'a': [row, op['name']], 'd': [op['name']], 'r': [op['old'], op['name']]}[op['edit'][0]]
                ok, _ = call(getattr(c, op['edit']), *args)
            e['out'] = 'ok' if ok else 'exc'
            ev.append(e)
        elif w == 'show':
            kind = kinds[op['k']]
            show({"op": w, "k": op['k']}, 'a %s context' % kind, HOW[op['how']], live[op['k']], lambda: content(live[op['k']], kind))
        elif w == 'implication':
            x = (NegativeImplication if op['neg'] else Implication)(set(op['p']), set(op['c']))
            show({"op": w, "p": nm(op['p']), "c": nm(op['c']), "neg": op['neg']}, 'an implication', HOW[op['how']], x, lambda: [set(x.premise), set(x.conclusion)])
        elif w == 'concept':
            x = Concept(list(op['e']), list(op['i']))
            x.meta.update({k: v for k, v in op['meta']})
            show(dict(sides(x), op=w, e=nm(op['e']), i=nm(op['i'])), 'a concept', HOW[op['how']], x, lambda: sides(x))
        elif w == 'system':
            cs = [Concept(list(c['e']), list(c['i'])) for c in op['cs']]
            for x, c in zip(cs, op['cs']):
                x.meta.update({k: v for k, v in c['meta']})
            x = ConceptSystem(cs)
            show({"op": w, "cs": [sides(c) for c in cs]}, 'a concept system', str, x, lambda: [sides(c) for c in x])
        elif w == 'lattice':
            ok, x = call(ConceptLattice, live[op['k']]) if op['as'] == 'lattice' else call(lambda c: ConceptSystem(c.concepts), live[op['k']])
            if ok:
                show({"op": "system", "cs": [sides(c) for c in x]}, 'a lattice' if op['as'] == 'lattice' else 'a concept system', str, x, lambda: [sides(c) for c in x])
        elif w == 'exploration':
            ok, x = call(BasicExploration, live[op['k']])
            for s in op['steps']:
                f = [x.confirm_attribute_implication, x.confirm_object_implication][s % 2]
                call(f, 0)
            if ok:
                def snap():
                    return {"cx": {"o": nm(x.context.objects), "a": nm(x.context.attributes), "r": [[key(a) for a, b in zip(x.context.attributes, row) if b] for row in x.context]},
                            "ai": imps(x.attribute_implications), "ca": imps(x.confirmed_attribute_implications),
                            "oi": imps(x.object_implications), "co": imps(x.confirmed_object_implications)}
                show(dict(snap(), op=w), 'an exploration', HOW[op['how']], x, snap)
    sh = {k: str(x) for k, x in seen.items()}
    qu = {k: repr(x) for k, x in seen.items()}
    for x in values:
        sh[vkey(x)] = str(x)
    for k, x in metas.items():
        qu[k] = repr(x)
    return {"h": {"sh": sh, "qu": qu, "ord": [key(x) for x in sorted(seen.values(), key=lambda x: (isinstance(x, str), x))]}, "ev": ev}


def nontrivial(scn, tr):
    return any(e.get('text') and len(e['text']) > 12 for e in tr['ev'])
