"""C13: constructions of contexts from contexts."""
import gen
from gen import rng
from props.c01 import an_edit, some_set

TRACE = 'Trace_Context'
BATCH = 900
EVIDENCE = dict(
    rule='all contexts up to 2x2 (thorough 3x2, 2x3) through all constructions, products of all pairs of small '
         'matching contexts, seeded random histories of constructions, edits of operands and results, and equality '
         'tests; non-trivial: at least one accepted construction',
    explanation='Results are validated against module Constructions; operands and results stay live and are compared '
                'after every later edit, so independence is checked.')
CONS = ['transpose', 'complementary', 'compound', 'extract_subcontext', 'filter_by_attributes', 'deepcopy',
        'remove_empty_objects']


def cons(r, op, k, frm):
    d = {"op": op, "k": k, "from": frm}
    if op == 'remove_empty_objects':
        return {"op": op, "k": frm}
    if op in ('extract_subcontext', 'filter_by_attributes'):
        d["set"] = some_set(r)
        d["set"]["as"] = 'list' if op == 'extract_subcontext' else r.choice(['list', 'tuple', 'set'])
        d["set"].pop('rep', None)
        if r.random() < 0.2:
            d["set"]["m"] = 0
    if op == 'filter_by_attributes':
        d["mode"] = r.choice(['and', 'or'])
    return d


def scenarios(tier, seed):
    shapes = [(0, 0), (0, 2), (2, 0), (1, 1), (1, 2), (2, 1), (2, 2)] + ([(3, 2), (2, 3)] if tier == 'thorough' else [])
    for n, m in shapes:
        for i, tbl in enumerate(gen.masks(n, m)):
            r = rng(seed, 'c13', n, m, i)
            ops = [gen.new('c1', n, m, tbl)]
            for op in CONS[:3]:
                ops.append(cons(r, op, op, 'c1'))
            for mask in range(1 << m):
                ops.append({"op": "extract_subcontext", "k": "sub", "from": "c1", "set": {"m": mask, "as": "list"}})
                for mode in ('and', 'or'):
                    ops.append({"op": "filter_by_attributes", "k": "f" + mode, "from": "c1", "mode": mode,
                                "set": {"m": mask, "as": "list"}})
            ops += [{"op": "deepcopy", "k": "d", "from": "c1"}, {"op": "equal", "k": "d", "with": "c1"},
                    {"op": "remove_empty_objects", "k": "d"}, {"op": "equal", "k": "d", "with": "c1"}]
            yield {"ops": ops}
    # products
    for i in range(gen.upto(tier, 250, 4000)):
        r = rng(seed, 'c13p', i)
        n, m, p = r.choice([0, 1, 2, 3, 4]), r.choice([0, 1, 2, 3, 4]), r.choice([0, 1, 2, 3, 4])
        mid = gen.anames(m, r)
        if i % 7 == 3:
            n, m, p = r.choice([(3, 70, 3), (2, 300, 2), (40, 5, 40)])
            mid = gen.anames(m)
        mid2 = list(mid)
        if r.random() < 0.2 and m > 1:
            r.shuffle(mid2)
        elif r.random() < 0.1:
            mid2 = mid2[:-1]
        ops = [gen.new('l', n, m, gen.table(r, n, m, .9 if m > 20 else None), None, mid),
               gen.new('r', len(mid2), p, gen.table(r, len(mid2), p, .9 if m > 20 else None), mid2, None if p < 26 else gen.anames(p)),
               {"op": "product", "k": "p", "from": "l", "with": "r"}]
        if r.random() < 0.5:
            ops += [an_edit(r, r.choice(['p', 'l', 'r']), ['y'], ['w']) for _ in range(2)]
        yield {"ops": ops}
    for i, (n, m, p, d) in enumerate([(2, 256, 2, 1), (2, 512, 1, 1), (3, 300, 3, .97), (257, 2, 2, .5), (2, 2, 257, .5)]):
        r = rng(seed, 'c13big', i)
        mid = gen.anames(m)
        # inner products of all sizes around the width of a byte
        ops = [gen.new('l', n, m, [[1] * m] + gen.table(r, n - 1, m, d), None, mid),
               gen.new('r', m, p, gen.table(r, m, p, d), mid, gen.anames(p)),
               {"op": "product", "k": "p", "from": "l", "with": "r"}]
        for x in (255, 256, 257):
            if m >= x:
                ops += [gen.new('q', 1, m, [[1] * x + [0] * (m - x)], None, mid),
                        {"op": "product", "k": "p", "from": "q", "with": "r"}]
        yield {"ops": ops}
    # equality: permuted, perturbed, differently named
    for i in range(gen.upto(tier, 250, 3000)):
        r = rng(seed, 'c13e', i)
        n, m = gen.big(r, [(0, 0), (0, 2), (2, 0), (1, 1), (2, 2), (3, 3), (2, 4), (4, 4)])
        tbl, o, a = gen.table(r, n, m), gen.onames(n, r, r.choice([0, 0, 1])), gen.anames(m, r, r.choice([0, 0, 1]))
        po, pa = list(range(n)), list(range(m))
        r.shuffle(po)
        r.shuffle(pa)
        t2 = [[tbl[i][j] for j in pa] for i in po]
        o2, a2 = [o[i] for i in po], [a[j] for j in pa]
        z = r.randrange(8)
        if z == 7 and n > 1 and m > 1:       # as many crosses in every row and column as before
            for _ in range(20):
                x, y = r.sample(range(n), 2)
                u, v = r.sample(range(m), 2)
                if t2[x][u] and t2[y][v] and not t2[x][v] and not t2[y][u]:
                    t2[x][u] = t2[y][v] = 0
                    t2[x][v] = t2[y][u] = 1
                    break
        if z == 0 and n and m:
            x, y = r.randrange(n), r.randrange(m)
            t2[x][y] = 1 - t2[x][y]
        elif z == 1 and n:
            o2[r.randrange(n)] = 'other'
        elif z == 2 and m:
            a2[r.randrange(m)] = 'other'
        elif z == 3:
            # numbers and the texts that look like them
            o2 = [str(x) for x in o2]
            a2 = [str(x) for x in a2]
        elif z == 4 and m > 1:
            # names that print alike when joined
            a2 = [', '.join(map(str, a2[:2]))] + a2[2:]
            t2 = [row[1:] for row in t2]
        ops = [gen.new('x', n, m, tbl, o, a), gen.new('y', n, len(a2), t2, o2, a2),
               {"op": "equal", "k": "x", "with": "y"}, {"op": "equal", "k": "x", "with": "x"},
               {"op": "deepcopy", "k": "z", "from": "x"}, {"op": "equal", "k": "z", "with": "x"},
               an_edit(r, 'z', ['new'], ['new']), {"op": "equal", "k": "z", "with": "x"}]
        yield {"ops": ops}
    # two contexts with the same printed form
    yield {"ops": [gen.new('x', 1, 1, [[1]], ['g'], ['a, b']), gen.new('y', 1, 2, [[1, 1]], ['g'], ['a', 'b']),
                   {"op": "equal", "k": "x", "with": "y"}]}
    # random contexts: any size, no cross at density 0, all at density 1
    for i in range(gen.upto(tier, 40, 400)):
        r = rng(seed, 'c13r', i)
        n, m = r.choice([0, 1, 2, 3, 5, 12]), r.choice([0, 1, 2, 3, 5, 12])
        ops = [{"op": "random", "k": "x", "n": n, "m": m, "d": i % 3, "p": r.choice([.1, .5, .9]), "seed": r.randrange(10 ** 6)},
               cons(r, r.choice(CONS[:3]), 'z', 'x'), an_edit(r, 'x', ['y'], ['w']),
               {"op": "random", "k": "y", "n": m, "m": n, "d": 2, "p": .5, "seed": r.randrange(10 ** 6)}]
        yield {"ops": ops}
    for i in range(gen.upto(tier, 350, 5000)):
        r = rng(seed, 'c13h', i)
        n, m = r.choice([0, 1, 2, 3, 4, 5]), r.choice([0, 1, 2, 3, 4, 5])
        ops = [gen.new('c1', n, m, gen.table(r, n, m), gen.onames(n, r, 3 if i % 19 == 5 else 0), gen.anames(m, r, 3 if i % 19 == 5 else 0))]
        ks = ['c1']
        for _ in range(r.choice([5, 9])):
            if r.random() < 0.55:
                k = 'c%d' % (len(ks) + 1) if len(ks) < 4 else r.choice(ks[1:])
                ops.append(cons(r, r.choice(CONS), k, r.choice(ks)))
                if k not in ks:
                    ks.append(k)
            elif r.random() < 0.3:
                ops.append({"op": "equal", "k": r.choice(ks), "with": r.choice(ks)})
            else:
                ops.append(an_edit(r, r.choice(ks), ['g1', 'y'], ['a', 'z']))
        yield {"ops": ops}


MODELS = {'quick': [dict(module='MC_Constructions', workers=3, min_states=20,
                         cfg='INIT Init\nNEXT Next\nCONSTANTS N=2 M=2 P=2\nINVARIANTS Laws\nCHECK_DEADLOCK FALSE\n')],
          'thorough': [dict(module='MC_Constructions', workers=8, min_states=20, timeout=2000,
                            cfg='INIT Init\nNEXT Next\nCONSTANTS N=3 M=2 P=2\nINVARIANTS Laws\nCHECK_DEADLOCK FALSE\n')]}


def run(scn):
    import world
    return world.World().run(scn['ops'])


def nontrivial(scn, tr):
    return any(e['op'] in CONS + ['product', 'equal', 'random'] and e['out'] == 'ok' for e in tr['ev'])
