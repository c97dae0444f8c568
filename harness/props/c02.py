"""C02: derivation and closure operators."""
import gen
from gen import rng
from props.c01 import an_edit

TRACE = 'Trace_Context'
BATCH = 1200
EVIDENCE = dict(
    rule='a scenario is a context, an edit history and the derivations and closures of sets of attributes and objects '
         'through all entry points; all contexts up to 3x3 (thorough: 4x3, 3x4) with all subsets, seeded random ones '
         'up to 14x14; non-trivial: at least one derivation of a non-empty set',
    explanation='Answers are validated against Ext, Itn, ClA, ClO of module FCA in the abstract state of the context.')


def derive(k, side, mask, r=None, **kw):
    s = {"m": mask, "as": 'list'}
    if r:
        s = {"m": mask, "as": r.choice(['list', 'tuple', 'set', 'frozenset']), "rev": int(r.random() < 0.5), "rep": int(r.random() < 0.15)}
    return dict({"op": "derive", "k": k, "side": side, "set": s, "spoil": bool(r and r.random() < 0.5),
                 "again": bool(r and r.random() < 0.3)}, **kw)


def scenarios(tier, seed):
    # every small context with every subset
    shapes = [(0, 0), (0, 2), (2, 0), (1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3)]
    if tier == 'thorough':
        shapes += [(3, 3), (4, 2), (2, 4)]
    for n, m in shapes:
        for tbl in gen.masks(n, m):
            r = rng(seed, 'c02', n, m, tbl)
            ops = [gen.new('c1', n, m, tbl)]
            sets = [('att', x) for x in range(1 << m)] + [('obj', x) for x in range(1 << n)]
            r.shuffle(sets)
            for i, (side, x) in enumerate(sets):
                ops.append(derive('c1', side, x, r, views=i == len(sets) - 1))
            yield {"ops": ops}
    # more rows or columns than fit in a byte
    for i, (n, m, d) in enumerate([(300, 3, .97), (3, 300, .97), (257, 4, .5), (4, 257, .5), (700, 2, .999), (256, 1, 1)]
                                  * (1 if tier == 'quick' else 4)):
        r = rng(seed, 'c02big', i)
        ops = [gen.new('c1', n, m, gen.table(r, n, m, d))]
        for x in [0, (1 << 1000) - 1, r.getrandbits(1000), r.getrandbits(1000) | r.getrandbits(1000), 1, 2]:
            for side in ('att', 'obj'):
                ops.append(derive('c1', side, x, r, views=False))
        ops += [{"op": "add_object", "k": "c1", "row": {"m": (1 << 1000) - 1}, "name": "new"},
                derive('c1', 'att', 1, r), derive('c1', 'obj', (1 << 1000) - 1, r, views=False)]
        yield {"ops": ops}
    # as many elements given as a byte has values, and rows that differ from them by just as many
    for i, (size, more) in enumerate([(256, 0), (256, 1), (512, 0), (257, 3), (255, 1)]):
        r = rng(seed, 'c02byte', i)
        rows = [[1] * (size + more), [0] * (size + more), [0] * (size - 1) + [1] * (more + 1), [1] * (size % 256) + [0] * (size - size % 256 + more),
                [1] * size + [0] * more, [0] * more + [1] * size]
        for turned in (False, True):
            tbl = [list(x) for x in zip(*rows)] if turned else rows
            side, n, m = ('obj', size + more, 6) if turned else ('att', 6, size + more)
            yield {"ops": [gen.new('c1', n, m, tbl)] + [derive('c1', side, x, r, views=False) for x in
                                                       ((1 << size) - 1, (1 << size + more) - 1, (1 << size - 1) - 1)]}
    for i in range(gen.upto(tier, 500, 6000)):
        r = rng(seed, 'c02r', i)
        n, m = gen.big(r, [(3, 4), (4, 4), (5, 6), (6, 5), (8, 3), (2, 9), (14, 14), (0, 5), (5, 0)])
        tbl = gen.table(r, n, m)
        st = r.randrange(4)
        o, a = gen.onames(n, r, st), gen.anames(m, r, st)
        ops = [gen.new('c1', n, m, tbl, o, a)]
        ks = ['c1']
        for _ in range(r.choice([4, 8, 12])):
            z = r.random()
            k = r.choice(ks)
            if z < 0.35:
                e = an_edit(r, k, ['g1', 'g9', 'y', 'g1_0'] if st != 1 else [1, 9, 10],
                            ['a', 'z', 'b', 'a_0'] if st != 1 else [1, 9, 10])
                if e['op'].startswith('rename') or e['op'].startswith('add'):
                    # keep the kinds of names homogeneous: fresh names only where integers are used
                    if st == 1:
                        e['name'] = 100 + r.randrange(10 ** 6)
                ops.append(e)
            elif z < 0.42 and len(ks) < 3:
                ks.append('c%d' % (len(ks) + 1))
                ops.append({"op": "deepcopy", "k": ks[-1], "from": k})
            else:
                w = max(14, n, m) + 2
                x = r.choice([0, r.randrange(1 << w), r.randrange(1 << w) & r.randrange(1 << w), 1 << r.randrange(w),
                              (1 << w) - 1, r.randrange(1 << min(n, m) + 1)])
                ops.append(derive(k, r.choice(['att', 'obj']), x, r))
        yield {"ops": ops}


MODELS = {'quick': [gen.theory(3, 3, 0, ['Galois'])], 'thorough': [gen.theory(4, 4, 0, ['Galois'], workers=8)]}


def run(scn):
    import world
    return world.World().run(scn['ops'])


def nontrivial(scn, tr):
    return any(e['op'] == 'derive' and e['set'] for e in tr['ev'])
