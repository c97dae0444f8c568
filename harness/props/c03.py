"""C03: every formal concept exactly once."""
import gen
from gen import rng
from props.c01 import an_edit

TRACE = 'Trace_Context'
BATCH = 700
EVIDENCE = dict(
    rule='all contexts up to 3x3 (thorough: 4x3, 3x4) and seeded random ones up to 9x9, through all entry points, with '
         'interleaved, abandoned and exhausted iterators; non-trivial: context with at least two concepts',
    explanation='Lists of concepts are compared with Concepts(c) of module FCA; iterators step by step.')


def walk(r, ks, steps):
    """interleaved iterators over unedited contexts"""
    ops, open_, h = [], [], 0
    for _ in range(steps):
        z = r.random()
        if z < 0.35 or not open_:
            h += 1
            open_.append('h%d' % h)
            ops.append({"op": "it_new", "h": open_[-1], "k": r.choice(ks), "kind": "concepts", "plain": r.random() < 0.4})
        elif z < 0.8:
            ops.append({"op": "it_next", "h": r.choice(open_), "n": r.choice([1, 1, 2, 5, 4000])})
        elif z < 0.9:
            x = r.choice(open_)
            open_.remove(x)
            ops.append({"op": "it_end", "h": x})
        else:
            ops.append({"op": "concepts", "k": r.choice(ks), "ways": ['concepts'], "spoil": r.random() < .4})
    for x in open_:
        if r.random() < 0.7:
            ops.append({"op": "it_next", "h": x, "n": 4000})
        ops.append({"op": "it_end", "h": x})
    return ops


def scenarios(tier, seed):
    shapes = [(n, m) for n in range(4) for m in range(4)]
    if tier == 'thorough':
        shapes += [(4, 3), (3, 4), (4, 1), (4, 2), (1, 4), (2, 4), (0, 4), (4, 0), (5, 2)]
    for n, m in shapes:
        for i, tbl in enumerate(gen.masks(n, m)):
            r = rng(seed, 'c03', n, m, i)
            ways = None if i % 16 == 0 else r.sample(['concepts', 'iterate_concepts', 'norris', 'lattice.concepts'], 2)
            op = {"op": "concepts", "k": "c1"}
            if ways:
                op["ways"] = ways
            yield {"ops": [gen.new('c1', n, m, tbl), {"op": "it_new", "h": "h", "k": "c1", "kind": "concepts"},
                           {"op": "it_next", "h": "h", "n": 4000}, {"op": "it_end", "h": "h"}, op]
                   + ([dict(op, spoil=True), op] if i % 8 == 5 else [])}
    for i in range(gen.upto(tier, 250, 4000)):
        r = rng(seed, 'c03r', i)
        n, m = gen.big(r, [(4, 4), (5, 5), (6, 4), (4, 7), (7, 7), (9, 3), (3, 9), (9, 9), (8, 8)])
        st = r.randrange(4)
        ops = [gen.new('c1', n, m, gen.table(r, n, m, r.choice([.2, .35, .5, .6]) if n * m > 40 else None),
                       gen.onames(n, r, st), gen.anames(m, r, st))]
        ks = ['c1']
        if r.random() < 0.3:
            ks.append('c2')
            ops.append({"op": "deepcopy", "k": "c2", "from": "c1"})
        ops += walk(r, ks, r.choice([3, 6, 9]))
        if r.random() < 0.4:
            for _ in range(3):
                ops.append(an_edit(r, r.choice(ks), ['g1', 'y', 'z9'], ['a', 'zz', 'b']))
            ops += walk(r, ks, 4)
        ops.append({"op": "concepts", "k": r.choice(ks), "spoil": r.random() < .4})
        yield {"ops": ops}


MODELS = {'quick': [gen.theory(3, 3, 0, ['Concepts']), gen.algorithm('MC_Norris', 'N=3 M=3', 'Exact Handed Covers', 'Grows Ends', 2, 6000)],
          'thorough': [gen.theory(4, 4, 0, ['Concepts'], workers=8), gen.algorithm('MC_Norris', 'N=4 M=3', 'Exact Handed Covers', 'Grows Ends', 4, 40000), gen.algorithm('MC_Norris', 'N=3 M=4', 'Exact Handed Covers', 'Grows Ends', 4, 40000)]}


def run(scn):
    import world
    return world.World().run(scn['ops'])


def nontrivial(scn, tr):
    return any(e['op'] == 'concepts' and len(e['groups'][0]['v']) > 1 for e in tr['ev'])
