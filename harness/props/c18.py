"""C18: partial contexts, and exploration over them."""
from drv import call, generated, enc_bool
import gen
from gen import rng

TRACE = 'Trace_Partial'
BATCH = 1200
CFG = '''INIT Init
NEXT Next
CONSTANTS O = {"g", "h"} M = {%s} MaxO = %d MaxBg = %d Depth = 0
CONSTRAINT Small
INVARIANT Invariant
CHECK_DEADLOCK FALSE
'''
GCFG = '''INIT Init
NEXT Random
CONSTANTS O = {"g", "h", "i", "j"} M = {%s} MaxO = 4 MaxBg = 9 Depth = %d
INVARIANT Out
CHECK_DEADLOCK FALSE
'''
MODELS = {'quick': [dict(module='MC_Partial', cfg=CFG % ('"a", "b"', 2, 2), workers=3, min_states=1000)],
          'thorough': [dict(module='MC_Partial', cfg=CFG % ('"a", "b"', 3, 3), workers=8, min_states=5000, timeout=2800),
                       dict(module='MC_Partial', cfg=CFG % ('"a", "b", "c"', 1, 1), workers=8, min_states=500, timeout=2800)]}
GEN = {'quick': [dict(module='MC_Partial', cfg=GCFG % ('"a", "b"', 10), simulate=60, depth=11, min=20, timeout=300),
                 dict(module='MC_Partial', cfg=GCFG % ('"a", "b", "c"', 10), simulate=140, depth=11, min=50, timeout=300)],
       'thorough': [dict(module='MC_Partial', cfg=GCFG % ('"a", "b", "c"', 14), simulate=1500, depth=15, min=500, timeout=2500)]}
EVIDENCE = dict(
    rule='a scenario is a history of creating, extending, completing, transposing, copying and querying partial contexts '
         'and of exploration databases over them; non-trivial: an uncertain incidence and a completion or a report',
    explanation='Every event is validated against Partial: completion, certain/possible closure, reported implications.')


def nested(r, m):
    x = [r.random() < .4 for _ in range(m)]
    return x, [b or r.random() < .5 for b in x]


def scenarios(tier, seed):
    for b in generated():
        ops = [{"op": "new", "k": "p", "o": [], "a": b[0]['a'], "tx": [], "tq": []},
               {"op": "db_start", "k": "p", "cond": ["all"], "exact": True}]
        yield {"src": "gen", "ops": ops + [dict(e, k="p", exact=True) for e in b[1:]]}
    # small partial contexts, all of them in the thorough tier
    import itertools
    for n, m in ([(1, 1), (1, 2), (2, 1)] if tier == 'quick' else [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3)]):
        for cells in itertools.product([(0, 0), (0, 1), (1, 1), (1, 0)], repeat=n * m):
            tx = [[bool(cells[i * m + j][0]) for j in range(m)] for i in range(n)]
            tq = [[bool(cells[i * m + j][1]) for j in range(m)] for i in range(n)]
            yield {"ops": [{"op": "new", "k": "p", "o": gen.onames(n), "a": gen.anames(m), "tx": tx, "tq": tq},
                           {"op": "closures", "k": "p"}, {"op": "implications", "k": "p", "how": "method"},
                           {"op": "complete", "k": "p", "seed": sum(3 ** i * c[0] + c[1] for i, c in enumerate(cells)), "count": 2}]}
    for i in range(gen.upto(tier, 500, 8000)):
        r = rng(seed, 'c18', i)
        n, m = r.choice([(0, 2), (0, 3), (1, 3), (2, 2), (2, 3), (3, 3), (3, 4), (2, 5), (1, 1), (4, 4), (5, 3), (2, 0), (0, 0)])
        ops, style = [], 3 if i % 19 == 5 else 0
        if i % 45 == 13:
            n, m = r.choice([(70, 3), (3, 20), (150, 2)])

        def new(k):
            rows = [nested(r, m) for _ in range(n)]
            tx, tq = [x for x, q in rows], [q for x, q in rows]
            z = r.random()
            if z < .1:
                tq = [list(x) for x in tx]
            elif z < .18 and n and m:
                i, j = r.randrange(n), r.randrange(m)
                tx[i][j], tq[i][j] = True, False
            elif z < .22 and n:
                (tx if r.random() < .5 else tq).pop()
            elif z < .26 and m:
                for row in (tx if r.random() < .5 else tq):
                    row.pop()
            ops.append({"op": "new", "k": k, "o": gen.onames(n, r, style), "a": gen.anames(m, r, style), "tx": tx, "tq": tq})
        new('p')
        ks, dbs = ['p'], []
        if r.random() < .3:
            ops.append({"op": "subset", "k": "p", "tx": [[r.random() < .5 for _ in range(3)] for _ in range(r.choice([0, 2, 4]))],
                        "tq": [[r.random() < .8 for _ in range(r.choice([3, 3, 2]))] for _ in range(r.choice([0, 2, 4]))]})
            q = ops[-1]['tq']
            if q:
                w = len(q[0])
                ops[-1]['tq'] = [[r.random() < .8 for _ in range(w)] for _ in q]
        for step in range(r.choice([4, 8, 12])):
            z = r.random()
            e = {"k": r.choice(ks), "seed": r.randrange(10 ** 6), "name": 'n%d' % step}
            if z < .16:
                e.update(op="add", bad=r.random() < .12, extra=r.random() < .06)
            elif z < .3:
                e.update(op="complete", count=r.choice([0, 1, 1, 2, 3, 5]), soft=r.random() < .75, again=r.random() < .3)
            elif z < .38:
                e.update(op="closures")
            elif z < .52:
                e.update(op="implications", count=r.choice([0, 0, 1, 2, 3]), how=r.choice(["method", "function"]),
                         cond=r.choice([["all"]] * 5 + [["max", 1], ["min", 1], ["none"]]))
            elif z < .62 and len(ks) < 4:
                ks.append('k%d' % len(ks))
                e.update(op=r.choice(["transpose", "deepcopy", "deepcopy"]), k2=ks[-1])
            elif z < .72 and len(dbs) < 2:
                e.update(op="db_start", count=r.choice([0, 0, 1, 2]), cond=r.choice([["all"]] * 5 + [["max", 1]]))
                if e['k'] in dbs:
                    continue
                dbs.append(e['k'])
            elif dbs:
                e['k'] = r.choice(dbs)
                e.update(op=r.choice(["db_confirm", "db_confirm_complete", "db_confirm_complete", "db_unconfirm", "db_add", "db_add",
                                      "db_reject", "db_reject", "db_reject", "db_complete", "db_touch"]),
                         how=r.choice(["open", "open", "any"]), count=r.choice([1, 1, 2, 3]), good=r.random() < .7)
            else:
                continue
            ops.append(e)
        yield {"ops": ops}
    # exploration of a hidden total context by partial answers until nothing is open
    for i in range(gen.upto(tier, 60, 1200)):
        r = rng(seed, 'c18e', i)
        n, m = r.choice([(2, 2), (2, 3), (3, 3), (4, 3), (4, 4), (5, 4)])
        ops = [{"op": "new", "k": "p", "o": [], "a": gen.anames(m, r), "tx": [], "tq": []}, {"op": "db_start", "k": "p", "count": 0, "cond": ["all"]},
               {"op": "explore", "k": "p", "dom": gen.table(r, n, m), "seed": i, "hide": r.choice([0, .3, .6])}]
        yield {"ops": ops}


def run(scn):
    import random
    from copy import deepcopy
    from fca import Implication
    from fca.partial_context import PartialContext
    from fca.compare_context import subseteq_table
    from fca.algorithms.dg_basis import compute_partial_dg_basis
    from fca.algorithms.exploration_.exploration import ExplorationDB, AttributeExploration
    live, dbs, ev = {}, {}, []

    def px(p):
        try:
            O, A = [str(o) for o in p.objects], [str(a) for a in p.attributes]
            rows = [(sorted(map(str, x)), sorted(map(str, q))) for x, q in p.intents()]
            d = {"o": O, "a": A, "x": [x for x, q in rows], "q": [q for x, q in rows]}
            for c, w in ((p.x_context, 'x'), (p.q_context, 'q')):
                if [str(o) for o in c.objects] != O or [str(a) for a in c.attributes] != A or \
                        [sorted(str(a) for a in c.get_object_intent(o)) for o in c.objects] != d[w] or \
                        [[str(o) for o in p.objects if o in c.get_attribute_extent(a)] for a in p.attributes] != \
                        [[o for o, row in zip(O, d[w]) if a in row] for a in A]:
                    raise ValueError
            return d
        except Exception:
            return {"o": ['?'], "a": ['?'], "x": [], "q": []}

    def imps(L):
        try:
            return [[sorted(map(str, i.premise)), sorted(map(str, i.conclusion))] for i in L]
        except Exception:
            return [[['?'], ['?']], [['?'], ['?']]]

    def emit(e, ok, **kw):
        d = {"op": e['op'], "k": e['k'], "out": "ok" if ok else "exc", "imps": [], "names": [], "xs": [], "qs": []}
        d.update(kw)
        d["obs"] = {k: px(p) for k, p in live.items()}
        if e['k'] in dbs and e['op'].startswith('db_'):
            db, ae, ex = dbs[e['k']]
            a, b = imps(db.open_implications), imps(ae.get_open_implications())
            d["db"] = {"bg": imps(db.base), "open": a if a == b else [[['?'], ['?']], [['?'], ['?']]]}
            if [str(o) for o in db.objects] != d['obs'][e['k']]['o'] or [str(x) for x in db.attributes] != d['obs'][e['k']]['a']:
                d['db']['open'] = [[['?'], ['?']], [['?'], ['?']]]
        ev.append(d)

    def mk(i):
        return Implication(set(i[0]), set(i[1]))

    def cond(c):
        return {'all': lambda s: True, 'none': lambda s: False, 'max': lambda s: len(s) <= c[1],
                'min': lambda s: len(s) >= c[1]}[c[0]]

    def close(S, L):
        S = set(S)
        for _ in range(20):
            for p, q in L:
                if set(p) <= S:
                    S |= set(q)
        return S

    def anyimp(p, r, soft=True):
        """an implication, mostly one no partial object refutes"""
        A = list(p.attributes)
        if not A:
            return None
        P = {a for a in A if r.random() < .35}
        C = set(A)
        if soft:
            for x, q in p.intents():
                if P <= set(x):
                    C &= set(q)
        C = {a for a in sorted(C - P) if r.random() < .6}
        return [sorted(P), sorted(C)] if C else None

    def several(p, r, n, soft=True):
        return [i for i in [anyimp(p, r, soft) for _ in range(n)] if i]

    class Expert:
        answer = None

        def provide_counterexample(self, imp):
            return self.answer

    for op in scn['ops']:
        k = op['k']
        r = random.Random(op.get('seed', 0))
        ex = op.get('exact')
        if op['op'] == 'new':
            ok, p = call(PartialContext, [list(x) for x in op['tx']], [list(x) for x in op['tq']], list(op['o']), list(op['a']))
            if ok:
                live[k] = p
            emit(op, ok, o=op['o'], a=op['a'], tx=op['tx'], tq=op['tq'])
            continue
        if op['op'] == 'subset':
            ok, v = call(subseteq_table, op['tx'], op['tq'])
            emit(op, ok, tx=op['tx'], tq=op['tq'], answer=enc_bool(v) if ok else False)
            continue
        if k not in live:
            continue
        p = live[k]
        A = [str(a) for a in p.attributes]
        if op['op'] == 'add':
            x, q = nested(r, len(A))
            x, q = {a for a, b in zip(A, x) if b}, {a for a, b in zip(A, q) if b}
            if op['bad'] and A:
                a = r.choice(A)
                x.add(a)
                q.discard(a)
            if op['extra']:
                q.add('unknown')
            ok, v = call(p.add_object_with_intent, (set(x), set(q)), op['name'])
            emit(op, ok, names=[op['name']], xs=[sorted(x)], qs=[sorted(q)])
        elif op['op'] == 'complete':
            L = several(p, r, op['count'], op.get('soft', True))
            for _ in range(2 if op.get('again') else 1):
                ok, v = call(p.complete, [mk(i) for i in L])
                emit(op, ok, imps=L)
        elif op['op'] == 'closures':
            ans = []
            for _ in range(min(2 ** len(A), 8)):
                B = {a for a in A if r.random() < .4}
                ok, v = call(p.xq_aclosure, set(B))
                ans.append([sorted(B), sorted(map(str, v)) if ok else ['?']])
            emit(op, True, ans=ans)
        elif op['op'] == 'implications':
            L = several(p, r, op.get('count', 0))
            c = op.get('cond', ["all"])
            f = p.get_attribute_implications if op['how'] == 'method' else lambda **kw: compute_partial_dg_basis(
                p, imp_basis=kw.get('confirmed', []), **({'cond': kw['cond']} if 'cond' in kw else {}))
            kw = {}
            if L or r.random() < .5:
                kw['confirmed'] = [mk(i) for i in L]
            if c != ["all"]:
                kw['cond'] = cond(c)
            ok, v = call(f, **kw)
            emit(op, ok, imps=L, cond=c, rep=imps(v) if ok else [], how=op['how'])
        elif op['op'] in ('transpose', 'deepcopy'):
            ok, v = call(p.transpose) if op['op'] == 'transpose' else call(deepcopy, p)
            if not ok:
                return {"h": {}, "ev": [], "abort": "%s raises %r" % (op['op'], v)}
            live[op['k2']] = v
            emit(op, ok, k2=op['k2'])
        elif op['op'] == 'db_start':
            L = [] if ex else several(p, r, op['count'])
            arg = [mk(i) for i in L]
            ok, v = call(ExplorationDB, p, arg) if op['cond'] == ["all"] else call(ExplorationDB, p, arg, cond(op['cond']))
            if not ok:
                return {"h": {}, "ev": [], "abort": "ExplorationDB raises %r" % v}
            e = Expert()
            dbs[k] = (v, AttributeExploration(v, e), e)
            emit(op, ok, imps=L, cond=op['cond'])
        elif op['op'] == 'explore':
            db, ae, exp = dbs[k]
            dom = [{a for a, b in zip(A, row) if b} for row in op['dom']]
            finished = False
            for step in range(2 ** len(A) * (len(A) + 1) + 2):
                L = ae.get_open_implications()
                if not L:
                    finished = True
                    break
                i = imps([L[r.randrange(len(L))]])[0]
                no = [D for D in dom if set(i[0]) <= D and not set(i[1]) <= D]
                if not no:
                    ok, v = call(ae.confirm_implications, [mk(i)])
                    emit({"op": "db_confirm_complete", "k": k}, ok, imps=[i])
                else:
                    D = r.choice(no)
                    miss = r.choice(sorted(set(i[1]) - D))
                    x = {a for a in D if a in i[0] or r.random() >= op['hide']}
                    q = {a for a in A if a in D or (a != miss and r.random() < op['hide'])}
                    exp.answer = (['c%d' % step], [(set(x), set(q))])
                    ok, v = call(ae.reject_implication, mk(i))
                    emit({"op": "db_reject", "k": k}, ok, imps=[i], names=['c%d' % step], xs=[sorted(x)], qs=[sorted(q)])
                if not ok:
                    break
            emit({"op": "db_done", "k": k}, True, finished=finished,
                 c={"o": list(range(len(dom))), "a": A, "r": [sorted(D) for D in dom]})
        else:
            if k not in dbs:
                continue
            db, ae, exp = dbs[k]
            bg, opens = imps(db.base), imps(db.open_implications)
            e = {}
            if ex:
                e = {y: op[y] for y in ('imps', 'names', 'xs', 'qs') if y in op}
            elif op['op'] in ('db_confirm', 'db_confirm_complete', 'db_reject'):
                i = r.choice(opens) if opens and op['how'] == 'open' else anyimp(p, r)
                if not i:
                    continue
                e['imps'] = [i]
                if op['op'] == 'db_confirm_complete' and op['count'] > 1:
                    j = anyimp(p, r)
                    e['imps'] += [j] if j else []
            elif op['op'] == 'db_unconfirm':
                i = r.choice(bg) if bg and op['how'] == 'open' else anyimp(p, r)
                if not i:
                    continue
                e['imps'] = [i]
            if not ex and op['op'] in ('db_add', 'db_reject'):
                e.update(names=[], xs=[], qs=[])
                for c in range(op['count'] if op['op'] == 'db_reject' else 1):
                    x, q = nested(r, len(A))
                    x, q = {a for a, b in zip(A, x) if b}, {a for a, b in zip(A, q) if b}
                    if op['op'] == 'db_reject' and c == 0:
                        x |= set(e['imps'][0][0])
                    if op['good']:
                        x = close(x, bg)
                        q |= x
                    if op['op'] == 'db_reject' and c == 0 and set(e['imps'][0][1]) <= q:
                        y = r.choice(e['imps'][0][1])
                        if op['good']:
                            x = close(e['imps'][0][0], bg)
                        q = (q | x) - {y}
                        x.discard(y) if op['good'] else 0
                    e['names'].append(r.choice([op['name'] + '_%d' % c] * 9 + list(p.objects)[:1]))
                    e['xs'].append(sorted(x))
                    e['qs'].append(sorted(q))
            if op['op'] == 'db_confirm':
                ok, v = call(db.confirm_implication, mk(e['imps'][0]))
            elif op['op'] == 'db_confirm_complete':
                ok, v = call(ae.confirm_implications, [mk(i) for i in e['imps']])
            elif op['op'] == 'db_unconfirm':
                ok, v = call(db.unconfirm_implication, mk(e['imps'][0]))
            elif op['op'] == 'db_add':
                ok, v = call(db.add_example, e['names'][0], (set(e['xs'][0]), set(e['qs'][0])))
            elif op['op'] == 'db_reject':
                exp.answer = (list(e['names']), [(set(x), set(q)) for x, q in zip(e['xs'], e['qs'])])
                ok, v = call(ae.reject_implication, mk(e['imps'][0]))
            elif op['op'] == 'db_complete':
                ok, v = call(db.complete)
            else:
                ok, v = call(db.touch)
            emit(op, ok, **e)
    return {"h": {"x": 0}, "ev": ev}


def nontrivial(scn, tr):
    return any(any(x != q for x, q in zip(p['x'], p['q'])) for e in tr['ev'] for p in e['obs'].values()) and \
        any(e['op'] in ('complete', 'implications', 'db_complete', 'db_confirm_complete', 'db_reject') for e in tr['ev'])
