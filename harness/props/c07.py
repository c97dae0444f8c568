"""C07: the Duquenne-Guigues basis is exactly the set of pseudo-intents."""
import gen
from gen import rng

TRACE = 'Trace_Context'
BATCH = 600
EVIDENCE = dict(
    rule='all contexts up to 3x3 (thorough: 4x3, 3x4, 2x5) through every entry point, seeded random ones up to 8x8 in '
         'random attribute order, iterators consumed step by step; non-trivial: non-empty basis',
    explanation='Bases are compared with the pseudo-intents computed from their recursive definition (up to six '
                'attributes) or with an equivalent recogniser (model-checked against the definition in MC_Theory).')


def ways(r, few):
    allw = ['compute_dg_basis (defaults)', 'attribute_implications', 'get_attribute_implications()',
            'attribute_implications_iter', 'compute_dg_basis', 'compute_dg_basis with simple closure',
            'compute_dg_basis_simple', 'compute_dg_basis_simple with lin closure', 'get_attribute_implications',
            'dg_basis_iter_simple', 'dg_basis_iter_simple with lin closure',
            'get_attribute_implications with the iterator', 'generalized_compute_dg_basis', 'generalized_dg_basis_iter']
    return r.sample(allw, 4) if few else allw


def scenarios(tier, seed):
    shapes = [(n, m) for n in range(4) for m in range(4)]
    if tier == 'thorough':
        shapes += [(4, 3), (3, 4), (2, 4), (4, 2), (2, 5), (1, 5), (1, 6)]
    for n, m in shapes:
        for i, tbl in enumerate(gen.masks(n, m)):
            r = rng(seed, 'c07', n, m, i)
            yield {"ops": [gen.new('c1', n, m, tbl), {"op": "basis", "k": "c1", "ways": ways(r, i % 8)}]}
    for i in range(gen.upto(tier, 300, 4000)):
        r = rng(seed, 'c07r', i)
        n, m = gen.big(r, [(4, 4), (5, 5), (6, 5), (4, 6), (8, 6), (3, 6), (6, 7), (8, 8), (12, 5), (0, 6), (1, 7)], wide=False)
        st = r.randrange(4)
        ops = [gen.new('c1', n, m, gen.table(r, n, m), gen.onames(n, r, st), gen.anames(m, r, st)),
               {"op": "basis", "k": "c1", "ways": ways(r, True), "spoil": r.random() < 0.5}]
        hs = ['h%d' % j for j in range(r.choice([1, 2, 3]))]
        for h in hs:
            ops.append({"op": "it_new", "h": h, "k": "c1", "kind": "imps", "plain": r.random() < 0.5})
        for _ in range(r.choice([2, 5, 9])):
            ops.append({"op": "it_next", "h": r.choice(hs), "n": r.choice([1, 1, 2, 3])})
            if r.random() < 0.2:
                ops.append({"op": "basis", "k": "c1", "ways": ways(r, True)[:1]})
        for h in hs:
            if r.random() < 0.7:
                ops.append({"op": "it_next", "h": h, "n": 4000})
            ops.append({"op": "it_end", "h": h})
        if r.random() < 0.5:
            ops.append({"op": "add_object", "k": "c1", "row": {"m": r.randrange(1 << m)}, "name": "new"
                        if st != 1 else 77})
            ops.append({"op": "basis", "k": "c1", "ways": ways(r, True)})
        yield {"ops": ops}


MODELS = {'quick': [gen.theory(3, 3, 0, ['Basis', 'Complete']), gen.algorithm('MC_NextClosure', 'N=3 M=3 K=0', 'Exact Prefix Closed', 'Progress Ends', 2, 2000)],
          'thorough': [gen.theory(3, 4, 0, ['Basis', 'Complete'], workers=8), gen.algorithm('MC_NextClosure', 'N=3 M=4 K=0', 'Exact Prefix Closed', 'Progress Ends', 4, 20000)]}


def run(scn):
    import world
    return world.World().run(scn['ops'])


def nontrivial(scn, tr):
    return any(e['op'] == 'basis' and any(g['v'] for g in e['groups']) for e in tr['ev'])
