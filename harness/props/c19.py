"""C19: factorisation by formal concepts."""
import gen, factdrv
from gen import rng
from factdrv import run, CFG

TRACE = 'Trace_Factors'
BATCH = 1000
MODELS = {'quick': [dict(module='MC_Factors', cfg=CFG % (2, 3, '0', '100, 50', '"greedy"', 0), workers=3, min_states=500)],
          'thorough': [dict(module='MC_Factors', cfg=CFG % (3, 4, '0', '100, 70, 40', '"greedy"', 0), workers=8, min_states=20000,
                            timeout=2900, heap='10g')]}
EVIDENCE = dict(
    rule='a scenario is one to three factorisations taking turns, on one or two contexts, with a fidelity, exhausted or '
         'abandoned, and factor contexts built from them or from other lists of concepts; non-trivial: two factors',
    explanation='Every factor is checked against the greedy construction with all ties left open; factor contexts against '
                'extents and intents, and their Boolean product against the relation.')


def scenarios(tier, seed):
    shapes = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3)] if tier == 'quick' else [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (1, 4)]
    for n, m in shapes:
        for tbl in gen.masks(n, m):
            o, a = gen.onames(n), gen.anames(m)
            c = {"o": o, "a": a, "r": [[a[j] for j in range(m) if row[j]] for row in tbl]}
            yield {"cxts": [c], "runs": [{"op": "greedy", "c": 0, "fid": [1, 1], "contexts": True}]}
    for i in range(gen.upto(tier, 12, 100)):       # more than ten factors
        r = rng(seed, 'c19m', i)
        n = r.choice([11, 12, 13])
        o, a = gen.onames(n), gen.anames(n)
        tbl = [[x == y or r.random() < .04 for y in range(n)] for x in range(n)]
        r.shuffle(tbl)
        c = {"o": o, "a": a, "r": [[a[j] for j in range(n) if row[j]] for row in tbl]}
        yield {"cxts": [c], "runs": [{"op": "greedy", "c": 0, "fid": r.choice([[1, 1], [1, 1], [19, 20]]), "contexts": True}]}
    for i in range(gen.upto(tier, 500, 7000)):
        r = rng(seed, 'c19', i)
        n, m = gen.big(r, [(2, 3), (3, 3), (3, 4), (4, 4), (5, 4), (4, 5), (6, 5), (5, 6), (7, 4), (0, 2), (2, 0), (8, 6)])
        cs = [factdrv.context(r, n, m, gen) for _ in range(r.choice([1, 1, 2]))]
        total = sum(len(x) for x in cs[0]['r']) or 1
        runs = []
        for _ in range(r.choice([1, 1, 2, 3])):
            fid = r.choice([[1, 1], [1, 1], [0, 1], [1, 2], [3, 4], [r.randrange(total + 1), total], [r.randrange(101), 100]])
            runs.append({"op": "greedy", "c": r.randrange(len(cs)), "fid": fid, "contexts": r.random() < .6})
            if fid == [1, 1]:
                runs[-1]['default'] = r.random() < .4
            if r.random() < .2:
                runs[-1]['stop'] = r.randrange(4)
        if r.random() < .3:
            fs = []
            for _ in range(r.choice([0, 1, 2, 3, 4])):
                c = cs[0]
                b = {x for x in c['a'] if r.random() < .4}
                x = [g for g, row in zip(c['o'], c['r']) if b <= set(row)]
                y = [z for z in c['a'] if all(z in row for row in c['r'] if b <= set(row))]
                r.shuffle(x)
                fs.append({"x": x, "b": y})
            runs.append({"op": "contexts", "c": 0, "fid": [1, 1], "fs": fs, "as": 'none' if not fs and r.random() < .5 else 'list'})
        yield {"cxts": cs, "runs": runs}


def nontrivial(scn, tr):
    return any(len(e['fs']) > 1 for e in tr['ev'])
