"""C04: concept lattices report the true concept order."""
import gen
from gen import rng

TRACE = 'Trace_Context'
BATCH = 400
EVIDENCE = dict(
    rule='all contexts up to 3x3 (thorough: 4x3, 3x4) and seeded random ones up to 7x7; order queries on every concept '
         '(a dozen of them on large lattices) in random order, with members and with equal concepts, before and '
         'after an index is stored; non-trivial: lattice with at least four concepts',
    explanation='Answers are compared with UpperCovers/LowerCovers/strict order of module FCA.')


def scenarios(tier, seed):
    shapes = [(n, m) for n in range(4) for m in range(4)]
    if tier == 'thorough':
        shapes += [(4, 3), (3, 4), (2, 4), (4, 2)]
    for n, m in shapes:
        for i, tbl in enumerate(gen.masks(n, m)):
            yield {"ops": [gen.new('c1', n, m, tbl), {"op": "lattice", "k": "c1", "seed": i, "index": i % 2,
                                                      "most": 9 if tier == 'thorough' else 5}]
                            + ([{"op": "lattice", "k": "c1", "seed": i, "prop": True, "spoil": True, "most": 2},
                                {"op": "lattice", "k": "c1", "seed": i, "prop": True, "most": 2}]
                               if i % 8 == 3 else [])}
    for i in range(gen.upto(tier, 180, 3000)):
        r = rng(seed, 'c04', i)
        n, m = gen.big(r, [(4, 4), (5, 5), (6, 4), (4, 6), (7, 7), (5, 3)])
        st = r.randrange(4)
        ops = [gen.new('c1', n, m, gen.table(r, n, m), gen.onames(n, r, st), gen.anames(m, r, st)),
               {"op": "lattice", "k": "c1", "seed": i, "index": r.random() < 0.6, "most": 6}]
        z = rng(seed, 'c04p', i)
        ops[1].update(prop=z.random() < .5, spoil=z.random() < .3)
        if ops[1]['spoil']:
            ops.append({"op": "lattice", "k": "c1", "seed": i + 3, "prop": z.random() < .7, "most": 3})
        if r.random() < 0.3:
            ops.append({"op": "add_object", "k": "c1", "row": {"m": r.randrange(1 << m)}, "name": "new"
                        if st != 1 else 77})
            ops.append({"op": "lattice", "k": "c1", "seed": i + 7, "index": True, "most": 6})
        yield {"ops": ops}


MODELS = {'quick': [gen.theory(3, 3, 0, ['Concepts', 'Covers']), gen.algorithm('MC_Norris', 'N=3 M=3', 'Exact Handed Covers', 'Grows Ends', 2, 6000)],
          'thorough': [gen.theory(4, 3, 0, ['Concepts', 'Covers'], workers=8), gen.algorithm('MC_Norris', 'N=4 M=3', 'Exact Handed Covers', 'Grows Ends', 4, 40000)]}


def run(scn):
    import world
    return world.World().run(scn['ops'])


def nontrivial(scn, tr):
    return any(e['op'] == 'lattice' and len(e['cs']) > 3 for e in tr['ev'])
