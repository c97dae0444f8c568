"""C11: object-incremental covers and minimisation."""
import gen, string
from gen import rng
from props.c06 import rand_list

TRACE = 'Trace_Imp'
BATCH = 3000
EVIDENCE = dict(
    rule='covers of all contexts up to 3x3 (thorough 4x3, 3x4) and seeded random ones up to 9x7 with minimisation of the '
         'cover, minimisation of random lists with repeated, equivalent and redundant members; non-trivial: at least '
         'two implications',
    explanation='Covers are judged by SoundFor and CompleteFor of module FCA (completeness recogniser model-checked in '
                'MC_Theory), minimised lists by Equivalent and IrredundantList.')


def scenarios(tier, seed):
    shapes = [(n, m) for n in range(4) for m in range(4)] + ([(4, 3), (3, 4), (2, 4)] if tier == 'thorough' else [])
    for n, m in shapes:
        a = gen.anames(m)
        for i, tbl in enumerate(gen.masks(n, m)):
            yield {"ops": [{"op": "cover", "o": gen.onames(n), "a": a, "r": [[a[j] for j in range(m) if x[j]] for x in tbl],
                            "minimize": True}]}
    for i in range(gen.upto(tier, 350, 5000)):
        r = rng(seed, 'c11', i)
        n, m = gen.big(r, [(4, 4), (5, 5), (6, 5), (4, 6), (8, 6), (9, 7), (3, 6), (12, 5)], wide=False)
        a = gen.anames(m, r, 3 if i % 19 == 5 else 0)
        yield {"ops": [{"op": "cover", "o": gen.onames(n), "a": a,
                        "r": [[a[j] for j in range(m) if x[j]] for x in gen.table(r, n, m)],
                        "minimize": r.random() < 0.7, "close": r.choice([None, 'simple_closure', 'lin_closure'])}]}
    subs = [[], ['a'], ['b'], ['a', 'b']]
    imps = [["imp", p, c] for p in subs for c in subs]
    for i in imps:
        for j in imps:
            yield {"ops": [{"op": "minimize", "imps": [i, j]}]}
    for i in range(gen.upto(tier, 600, 9000)):
        r = rng(seed, 'c11m', i)
        names = list(string.ascii_lowercase[:r.choice([2, 3, 4, 6])])
        L = rand_list(r, names, r.choice([1, 2, 3, 5, 8]))
        L = [x if x[0] == 'same' else ["imp", x[1], x[2]] for x in L]
        ops = [{"op": "minimize", "imps": L, "close": r.choice([None, None, 'lin_closure'])}]
        pl = [[x[1], x[2]] for x in L if x[0] != 'same']
        q = [[x for x in names if r.random() < .4], [x for x in names if r.random() < .4]]
        ops.append({"op": "redundant", "imps": pl, "imp": q})
        if pl:
            ops.append({"op": "redundant", "imps": pl[1:], "imp": pl[0]})
        yield {"ops": ops}


MODELS = {'quick': [gen.theory(2, 3, 2, ['Complete']), gen.algorithm('MC_ObjectIncremental', 'N=2 M=3', 'Exact Kept Minimised', 'Ends', 2, 2500)],
          'thorough': [gen.theory(3, 3, 2, ['Complete'], workers=8), gen.algorithm('MC_ObjectIncremental', 'N=3 M=3', 'Exact Kept Minimised', 'Ends', 4, 20000)]}


def run(scn):
    import impdrv
    return impdrv.Imps().run(scn['ops'])


def nontrivial(scn, tr):
    return any(len(e.get('v', [])) >= 2 if e['op'] == 'cover' else len(e.get('before', [])) >= 2 for e in tr['ev'])
