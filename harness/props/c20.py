"""C20: weighted and conditional factorisation."""
import gen, factdrv
from gen import rng
from factdrv import run, CFG

TRACE = 'Trace_Factors'
BATCH = 1500
MODELS = {'quick': [dict(module='MC_Factors', cfg=CFG % (2, 3, '0, 1, 2', '100, 50', '"weighted", "conditional"', 0), workers=3,
                         min_states=5000),
                    dict(module='MC_Factors', cfg=CFG % (6, 4, '2, 3', '100', '"conditional"', 12), workers=3, min_states=500)],
          'thorough': [dict(module='MC_Factors', cfg=CFG % (3, 3, '0, 1, 2, 3', '100, 50', '"weighted", "conditional"', 0), workers=8,
                            min_states=50000, timeout=2900, heap='10g'),
                       dict(module='MC_Factors', cfg=CFG % (6, 5, '1, 2, 3', '100, 60', '"conditional", "weighted"', 300),
                            workers=8, min_states=5000, timeout=2900, heap='10g')]}
HARD = [[[int(x) for x in w] for w in v.split()] for v in (
    '101011 100110 010000 010010 110111 110000 101111 111111', '011101 000010 110101 111111 110111 011000 101000 000010',
    '000011 001011 111111 110100 101111 101101 101111 011101 011111', '1010010 0010100 1111111 1000111 0000001 1001110 1110011',
    '001101 111111 111111 100111 111101 010001 001111 100010 010001', '100110 001111 100101 111111 011100 000011 101101 011111 010001')]
HARD += [[[1, 0, 1, 0], [1, 1, 0, 1], [0, 0, 0, 1], [0, 0, 1, 1], [1, 1, 1, 1]],
        [[1, 0, 0, 0], [0, 1, 1, 0], [1, 0, 0, 1], [1, 0, 1, 0], [1, 0, 1, 0]],
        [[1, 0, 1, 1], [1, 0, 1, 1], [0, 1, 0, 1], [1, 0, 1, 1], [1, 0, 1, 0]]]
EVIDENCE = dict(
    rule='a scenario is one to three weighted or conditional factorisations taking turns on one or two contexts, with '
         'fidelity, minimum size, repetition and shape option; non-trivial: two factors',
    explanation='Every run is checked against the conditions of Factors; the design model shows that the algorithm, with '
                'ties left open, meets them and ends on all small contexts.')


def params(r):
    return {"min": r.choice([0, 1, 1, 2, 2, 3]), "objs_ge_atts": r.random() < .4, "rep": r.random() < .5}


def scenarios(tier, seed):
    shapes = [(1, 2), (2, 1), (2, 2)] if tier == 'quick' else [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3)]
    for n, m in shapes:
        for tbl in gen.masks(n, m):
            o, a = gen.onames(n), gen.anames(m)
            c = {"o": o, "a": a, "r": [[a[j] for j in range(m) if row[j]] for row in tbl]}
            runs = [{"op": "weighted", "c": 0, "fid": [1, 1]}]
            for k in (0, 1, 2):
                for g in (False, True):
                    for rep in (False, True):
                        runs.append({"op": "conditional", "c": 0, "fid": [1, 1], "p": {"min": k, "objs_ge_atts": g, "rep": rep}})
            yield {"cxts": [c], "runs": runs}
    # large factors that cover nothing new come up on the way, depending on the order in which ties are tried
    for i in range(gen.upto(tier, 200, 4000)):
        r = rng(seed, 'c20h', i)
        if r.random() < .4:
            tbl = r.choice(HARD)
            n, m = len(tbl), len(tbl[0])
        else:
            n, m = r.choice([(5, 4), (6, 4), (8, 5), (9, 5), (7, 6)])
            tbl = [[int(r.random() < .6) for _ in range(m)] for _ in range(n)]
        o, a = gen.onames(n), gen.anames(m, r)
        c = {"o": o, "a": a, "r": [sorted(a[j] for j in range(m) if row[j]) for row in tbl]}
        yield {"cxts": [c], "runs": [{"op": "conditional", "c": 0, "fid": [1, 1],
                                      "p": {"min": k, "objs_ge_atts": g, "rep": rep}} for k in (2, 3) for g in (True, False) for rep in (True, False)]}
    for i in range(gen.upto(tier, 900, 12000)):
        r = rng(seed, 'c20', i)
        n, m = gen.big(r, [(2, 3), (3, 3), (3, 4), (4, 4), (5, 4), (4, 5), (6, 5), (5, 6), (7, 7), (10, 8), (0, 2), (2, 0), (6, 3)])
        cs = [factdrv.context(r, n, m, gen, r.choice([None, .6, .75])) for _ in range(r.choice([1, 1, 2]))]
        total = sum(len(x) for x in cs[0]['r']) or 1
        runs = []
        for _ in range(r.choice([1, 2, 3])):
            fid = r.choice([[1, 1], [1, 1], [1, 1], [0, 1], [1, 2], [3, 4], [r.randrange(total + 1), total], [r.randrange(101), 100]])
            runs.append({"op": r.choice(["weighted", "conditional", "conditional"]), "c": r.randrange(len(cs)), "fid": fid, "p": params(r)})
            if r.random() < .1:
                runs[-1]['stop'] = r.randrange(4)
        yield {"cxts": cs, "runs": runs}


def nontrivial(scn, tr):
    return any(len(e['fs']) > 1 for e in tr['ev'])
