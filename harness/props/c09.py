"""C09: the attribute-incremental algorithm computes the canonical basis."""
import gen, itertools
from gen import rng

TRACE = 'Trace_Context'
BATCH = 600
WAYS = ['compute_canonical_basis', 'compute_canonical_basis with lin closure', 'get_attribute_canonical_basis']
EVIDENCE = dict(
    rule='all contexts up to 3x3 (thorough: 4x3, 3x4) and random ones up to 8x8; every table is also run with its '
         'attributes in other orders (column permutations); non-trivial: non-empty basis',
    explanation='Bases are compared with the pseudo-intents computed from their recursive definition or with the '
                'recogniser proved equivalent in MC_Theory.')


def scenarios(tier, seed):
    shapes = [(n, m) for n in range(4) for m in range(4)]
    if tier == 'thorough':
        shapes += [(4, 3), (3, 4), (2, 4), (4, 2), (2, 5), (1, 5)]
    for n, m in shapes:
        for i, tbl in enumerate(gen.masks(n, m)):
            yield {"ops": [gen.new('c1', n, m, tbl), {"op": "basis", "k": "c1", "ways": WAYS if i % 4 == 0 else [WAYS[i % 3]]}]}
    for i in range(gen.upto(tier, 400, 5000)):
        r = rng(seed, 'c09r', i)
        n, m = gen.big(r, [(4, 4), (5, 5), (6, 5), (4, 6), (8, 6), (3, 6), (6, 7), (8, 8), (12, 5), (0, 6), (1, 7)], wide=False)
        st = r.randrange(4)
        tbl, o, a = gen.table(r, n, m), gen.onames(n, r, st), gen.anames(m, r, st)
        ops = []
        for q in range(3):
            p = list(range(m))
            if q:
                r.shuffle(p)
            ops.append(gen.new('c%d' % q, n, m, [[row[j] for j in p] for row in tbl], o, [a[j] for j in p]))
            ops.append({"op": "basis", "k": 'c%d' % q, "ways": [r.choice(WAYS)], "spoil": r.random() < 0.3})
        if r.random() < 0.3:
            ops.append({"op": "add_attribute", "k": "c0", "row": {"m": r.randrange(1 << n)}, "name": "zz"
                        if st != 1 else 99})
            ops.append({"op": "basis", "k": "c0", "ways": WAYS})
        yield {"ops": ops}


MODELS = {'quick': [gen.theory(3, 3, 0, ['Basis', 'Complete']), gen.algorithm('MC_AttributeIncremental', 'N=3 M=3', 'Exact Preclosed', 'Ends', 2, 8000)],
          'thorough': [gen.theory(3, 4, 0, ['Basis', 'Complete'], workers=8), gen.algorithm('MC_AttributeIncremental', 'N=3 M=4', 'Exact Preclosed', 'Ends', 4, 50000)]}


def run(scn):
    import world
    return world.World().run(scn['ops'])


def nontrivial(scn, tr):
    return any(e['op'] == 'basis' and any(g['v'] for g in e['groups']) for e in tr['ev'])
