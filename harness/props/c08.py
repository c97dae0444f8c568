"""C08: the basis relative to background knowledge."""
import gen, itertools
from gen import rng

TRACE = 'Trace_Context'
BATCH = 500
EVIDENCE = dict(
    rule='contexts up to 3x3 with every single valid background implication and sampled lists of them (repeated, '
         'redundant, unit and full conclusions), seeded random contexts up to 7x7 with random backgrounds and '
         'conditions; non-trivial: non-empty background',
    explanation='Bases are compared with RelativeBasis of module FCA (recursive definition, or the recogniser proved '
                'equivalent in MC_Theory); conditional bases with the clauses of the property.')


def closure(tbl, m, B):
    rows = [set(j for j in range(m) if r[j]) for r in tbl]
    out = set(range(m))
    for r in rows:
        if B <= r:
            out &= r
    return out


def valid(r, tbl, m, a, k):
    """k valid implications with random premises and conclusions"""
    out = []
    for _ in range(k):
        B = set(j for j in range(m) if r.random() < r.choice([0.15, 0.3, 0.5]))
        C = closure(tbl, m, B)
        z = r.random()
        if z < 0.4:
            D = C
        elif z < 0.7:
            D = set(j for j in C if r.random() < 0.6)
        else:
            D = set(C - B)
        if r.random() < 0.1 and out:
            out.append(r.choice(out))
            continue
        out.append([[a[j] for j in sorted(B)], [a[j] for j in sorted(D)]])
    return out


def cond(r, a):
    z = r.randrange(7)
    return [["all"], ["none"], ["max", r.randrange(4)], ["min", r.randrange(4)], ["has", r.choice(a) if a else "zz"],
            ["hasnot", r.choice(a) if a else "zz"], ["even"]][z]


WAYS = ['compute_dg_basis', 'compute_dg_basis with simple closure', 'compute_dg_basis_simple',
        'compute_dg_basis_simple with lin closure', 'get_attribute_implications', 'dg_basis_iter_simple',
        'dg_basis_iter_simple with lin closure', 'get_attribute_implications with the iterator',
        'generalized_compute_dg_basis', 'generalized_dg_basis_iter']


def enc(x):
    return x if isinstance(x, str) else '#%d' % x


def scenarios(tier, seed):
    shapes = [(0, 2), (1, 2), (2, 2), (3, 2), (0, 3), (1, 3), (2, 3), (3, 3)]
    if tier == 'thorough':
        shapes += [(2, 4), (4, 3), (1, 4)]
    for n, m in shapes:
        a = gen.anames(m)
        for i, tbl in enumerate(gen.masks(n, m)):
            r = rng(seed, 'c08', n, m, i)
            ops = [gen.new('c1', n, m, tbl)]
            single = []
            for p in range(1 << m):
                B = set(j for j in range(m) if p >> j & 1)
                C = closure(tbl, m, B)
                if C != B:
                    single.append([[a[j] for j in sorted(B)], [a[j] for j in sorted(C)]])
            picks = single if tier == 'thorough' else r.sample(single, min(2, len(single)))
            for im in picks:
                ops.append({"op": "basis", "k": "c1", "ways": r.sample(WAYS, 2), "bg": [im], "views": False})
            for _ in range(2):
                ops.append({"op": "basis", "k": "c1", "ways": r.sample(WAYS, 3), "bg": valid(r, tbl, m, a, r.choice([2, 3])),
                            "same": r.random() < 0.2})
            ops.append({"op": "basis", "k": "c1", "ways": r.sample(WAYS, 3), "bg": valid(r, tbl, m, a, r.choice([0, 1, 2])),
                        "cond": cond(r, a)})
            yield {"ops": ops}
    for i in range(gen.upto(tier, 250, 4000)):
        r = rng(seed, 'c08r', i)
        n, m = gen.big(r, [(4, 4), (5, 5), (6, 5), (4, 6), (8, 6), (0, 5), (5, 7), (7, 7)], wide=False)
        st = r.randrange(4)
        a = gen.anames(m, r, st)
        tbl = gen.table(r, n, m)
        ops = [gen.new('c1', n, m, tbl, gen.onames(n, r, st), a)]
        an = [enc(x) for x in a]
        for _ in range(3):
            ops.append({"op": "basis", "k": "c1", "ways": r.sample(WAYS, 2), "bg": valid(r, tbl, m, an, r.choice([1, 2, 4, 6])),
                        "same": r.random() < 0.2, "spoil": r.random() < 0.3,
                        "cond": ["all"] if r.random() < 0.6 else cond(r, an)})
        yield {"ops": ops}


MODELS = {'quick': [gen.theory(2, 3, 2, ['Basis', 'Complete', 'Closure']), gen.algorithm('MC_NextClosure', 'N=2 M=3 K=1', 'Exact Prefix Closed', 'Progress Ends', 2, 3000)],
          'thorough': [gen.theory(3, 3, 2, ['Basis', 'Complete', 'Closure'], workers=8),
                       gen.theory(2, 4, 1, ['Basis', 'Complete'], workers=8),
                       gen.algorithm('MC_NextClosure', 'N=2 M=3 K=2', 'Exact Prefix Closed', 'Progress Ends', 4, 10000), gen.algorithm('MC_NextClosure', 'N=3 M=3 K=1', 'Exact Prefix Closed', 'Progress Ends', 4, 10000)]}


def run(scn):
    import world
    return world.World().run(scn['ops'])


def nontrivial(scn, tr):
    return any(e['op'] == 'basis' and any(g['bg'] for g in e['groups']) for e in tr['ev'])
