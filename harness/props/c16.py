"""C16: the exploration database and attribute exploration with an expert."""
from drv import call, generated
import gen
from gen import rng

TRACE = 'Trace_ExplorationDB'
BATCH = 1200
CFG = '''INIT Init
NEXT Next
CONSTANTS O = {"g", "h"} A = {"a", "b", "c"} MaxO = %d MaxA = %d MaxBg = %d Depth = 0
CONSTRAINT Small
INVARIANT Invariant
PROPERTY Kept
CHECK_DEADLOCK FALSE
'''
ECFG = '''SPECIFICATION Spec
CONSTANTS N = %d M = %d
INVARIANTS Learned Sound Bounded
PROPERTY Ends
CHECK_DEADLOCK FALSE
'''
GCFG = '''INIT Init
NEXT Random
CONSTANTS O = {"g", "h", "i", "j"} A = {"a", "b", "c", "d"} MaxO = 4 MaxA = 4 MaxBg = 9 Depth = %d
INVARIANT Out
CHECK_DEADLOCK FALSE
'''
MODELS = {'quick': [dict(module='MC_ExplorationDB', cfg=CFG % (1, 2, 2), workers=3, min_states=1000),
                    dict(module='MC_Expert', cfg=ECFG % (2, 2), workers=2, min_states=200)],
          'thorough': [dict(module='MC_ExplorationDB', cfg=CFG % (2, 2, 3), workers=8, min_states=10000, timeout=2800),
                       dict(module='MC_Expert', cfg=ECFG % (3, 3), workers=8, min_states=10000, timeout=2800, heap='8g')]}
GEN = {'quick': [dict(module='MC_ExplorationDB', cfg=GCFG % 11, simulate=200, depth=12, min=50, timeout=300)],
       'thorough': [dict(module='MC_ExplorationDB', cfg=GCFG % 15, simulate=1500, depth=16, min=500, timeout=2500)]}
EVIDENCE = dict(
    rule='a scenario is a history of operations on one or two exploration databases (behaviours of MC_ExplorationDB and '
         'seeded random ones), or an exploration with an expert of a domain until nothing is open; non-trivial: at least '
         'one confirmation or accepted example, and one more accepted change',
    explanation='Every event is validated against ExplorationDB; open implications must be the canonical basis relative '
                'to the background.')


def scenarios(tier, seed):
    for b in generated():
        c = b[0]['c']
        ops = [{"op": "start", "x": "x", "o": c['o'], "a": c['a'], "r": c['r'], "imps": [], "cond": ["all"]}]
        ops += [dict(e, x="x", exact=True) for e in b[1:]]
        yield {"src": "gen", "ops": ops}
    for i in range(gen.upto(tier, 400, 6000)):
        r = rng(seed, 'c16', i)
        n, m = r.choice([(0, 2), (0, 3), (1, 3), (2, 2), (2, 3), (3, 3), (3, 4), (2, 4), (1, 1), (4, 4), (5, 5)])
        ops, xs = [], []
        for x in ['x', 'y'][:r.choice([1, 1, 2])]:
            wide = i % 40 == 13
            if wide:
                n, m = r.choice([(70, 4), (4, 24), (12, 16), (300, 2)])
            a, o = gen.anames(m, r, 3 if i % 19 == 5 else 0), gen.onames(n, r, 3 if i % 19 == 5 else 0)
            tbl = gen.blocks(r, n, m) if wide else gen.table(r, n, m)
            ops.append({"op": "start", "x": x, "o": o, "a": a, "r": [[a[j] for j in range(m) if row[j]] for row in tbl],
                        "imps": r.choice([[], [], 'open1', 'valid']), "k": r.randrange(9),
                        "cond": r.choice([["all"]] * 6 + [["max", 1], ["max", 2], ["has", a[0]], ["hasnot", a[-1]], ["none"]])})
            xs.append(x)
        fresh = 0
        for _ in range(r.choice([5, 9, 14])):
            z = r.random()
            x = r.choice(xs)
            fresh += 1
            e = {"x": x, "n": r.randrange(20), "k": r.randrange(1000), "name": r.choice(['new%d' % fresh] * 5 + ['=']),
                 "close": r.random() < .6, "extra": r.random() < .06}
            if z < 0.22:
                e.update(op="confirm", how=r.choice(["open", "open", "valid"]), via=r.choice(["db", "ae1", "ae"]),
                         count=r.choice([1, 1, 1, 2, 3]))
            elif z < 0.30:
                e.update(op="unconfirm", how=r.choice(["bg", "bg", "bg", "other"]), via=r.choice(["db", "ae"]))
            elif z < 0.46:
                e.update(op="reject", hit=r.random() < .75, count=r.choice([0, 0, 0, 1, 2, 3]), how=r.choice(["open", "open", "valid"]))
            elif z < 0.6:
                e.update(op="add_example")
            elif z < 0.66:
                e.update(op="delete_example")
            elif z < 0.76:
                e.update(op="edit_example", flip=r.random() < .4)
            elif z < 0.82:
                e.update(op="add_attribute")
            elif z < 0.86:
                e.update(op="delete_attribute")
            elif z < 0.92:
                e.update(op="edit_attribute", flip=r.random() < .5)
            elif z < 0.96:
                e.update(op="touch", none=r.random() < .3)
            else:
                e.update(op=r.choice(["look", "spoil", "complete"]))
            ops.append(e)
        yield {"ops": ops}
    for i in range(gen.upto(tier, 120, 2500)):
        r = rng(seed, 'c16e', i)
        n, m = r.choice([(0, 2), (1, 3), (2, 2), (3, 3), (4, 4), (5, 4), (5, 5), (7, 5), (6, 6)])
        wide = i % 40 == 13
        if wide:
            n, m = r.choice([(70, 4), (4, 24), (12, 16)])
        a, o = gen.anames(m, r, 3 if i % 19 == 5 else 0), gen.onames(n, r, 3 if i % 19 == 5 else 0)
        tbl = gen.blocks(r, n, m) if wide else gen.table(r, n, m)
        yield {"expert": {"o": o, "a": a, "r": [[a[j] for j in range(m) if row[j]] for row in tbl],
                          "known": [k for k in range(n) if r.random() < r.choice([0, .3])],
                          "seed": r.randrange(10 ** 6), "mode": r.choice(['first', 'last', 'random', 'minimal'])}}


def run(scn):
    import random
    from fca import Context, Implication
    from fca.algorithms.exploration_.exploration import ExplorationDB, AttributeExploration
    live, ev = {}, []

    def cx(c):
        try:
            O, A = list(c.objects), list(c.attributes)
            return {"o": [str(x) for x in O], "a": [str(x) for x in A],
                    "r": [sorted(str(a) for a in c.get_object_intent(o)) for o in O]}
        except Exception:
            return {"o": ['?'], "a": ['?'], "r": []}

    def imps(L):
        try:
            return [[sorted(map(str, i.premise)), sorted(map(str, i.conclusion))] for i in L]
        except Exception:
            return [[['?'], ['?']], [['?'], ['?']]]

    def obs(x):
        c, db, ae = live[x]['c'], live[x]['db'], live[x]['ae']
        d = cx(c)
        try:
            if [str(y) for y in db.objects] != d['o'] or [str(y) for y in db.attributes] != d['a']:
                d = {"o": ['?'], "a": ['?'], "r": []}
        except Exception:
            d = {"o": ['?'], "a": ['?'], "r": []}
        op, op2 = imps(db.open_implications), imps(ae.get_open_implications())
        bg, bg2 = imps(db.base), imps(db.get_base())
        return {"c": d, "bg": bg if bg == bg2 else [[['?'], ['?']]], "open": op if op == op2 else [[['?'], ['?']]]}

    def emit(e, ok):
        d = {"op": e['op'], "x": e['x'], "s": sorted(e.get('s', [])), "name": e.get('name', ''), "old": e.get('old', ''),
             "imps": e.get('imps', []), "names": e.get('names', []), "sets": [sorted(s) for s in e.get('sets', [])],
             "out": "ok" if ok else "exc", "obs": obs(e['x']),
             "others": [{"x": y, "obs": obs(y)} for y in live if y != e['x']]}
        for k in ('c', 'cond', 'finished'):
            if k in e:
                d[k] = e[k]
        ev.append(d)

    class Expert:
        def __init__(self):
            self.answer = None

        def provide_counterexample(self, imp):
            return self.answer

    def mk(i):
        return Implication(set(i[0]), set(i[1]))

    def cond(c):
        return {'all': lambda s: True, 'none': lambda s: False, 'max': lambda s: len(s) <= c[1],
                'has': lambda s: c[1] in s, 'hasnot': lambda s: c[1] not in s}[c[0]]

    def valid(c, r):
        """an implication that holds in the context"""
        names = list(c.attributes)
        P = {a for a in names if r.random() < .4}
        C = set(names)
        for o in c.objects:
            if P <= set(c.get_object_intent(o)):
                C &= set(c.get_object_intent(o))
        C -= P
        C = {a for a in sorted(C) if r.random() < .7}
        return [sorted(P), sorted(C)] if C else None

    def close(S, L):
        S = set(S)
        for _ in range(20):
            for p, q in L:
                if set(p) <= S:
                    S |= set(q)
        return S

    def start(op, c, L):
        x = op['x']
        before = cx(c)
        want = [list(i) for i in L]
        arg = [mk(i) for i in L]
        ok, db = call(ExplorationDB, c, arg, cond(op['cond'])) if op['cond'][0] != 'all' else call(ExplorationDB, c, arg)
        if not ok:
            return "ExplorationDB raises %r" % db
        ex = Expert()
        live[x] = {"c": c, "db": db, "ae": AttributeExploration(db, ex), "ex": ex}
        emit({"op": "start", "x": x, "c": before, "imps": want, "cond": op['cond']}, True)

    if 'expert' in scn:
        s = scn['expert']
        r = random.Random(s['seed'])
        K = s['known']
        c = Context([[a in s['r'][k] for a in s['a']] for k in K], [s['o'][k] for k in K], s['a'])
        bad = start({"x": "x", "cond": ["all"]}, c, [])
        if bad:
            return {"h": {}, "ev": [], "abort": bad}
        x = live['x']
        finished = False
        for _ in range(2 ** len(s['a']) + len(s['o']) + 2):
            L = imps(x['ae'].get_open_implications())
            if not L:
                finished = True
                break
            if s['mode'] == 'minimal':
                L.sort(key=lambda i: len(i[0]))
            i = {'first': 0, 'minimal': 0, 'last': -1}.get(s['mode'], r.randrange(len(L)))
            i = L[i]
            obj = next(j for j in x['ae'].get_open_implications() if imps([j]) == [i])
            P, C = set(i[0]), set(i[1])
            no = [k for k in range(len(s['o'])) if P <= set(s['r'][k]) and not C <= set(s['r'][k])]
            if not no:
                ok, v = call(x['ae'].confirm_implication, obj)
                emit({"op": "confirm", "x": "x", "imps": [i]}, ok)
            else:
                k = r.choice(no)
                x['ex'].answer = (s['o'][k], set(s['r'][k]))
                ok, v = call(x['ae'].reject_implication, obj)
                emit({"op": "reject", "x": "x", "imps": [i], "names": [s['o'][k]], "sets": [s['r'][k]]}, ok)
            if not ok:
                break
        emit({"op": "done", "x": "x", "finished": finished, "c": {"o": s['o'], "a": s['a'], "r": s['r']}}, True)
        return {"h": {"x": 0}, "ev": ev}

    for n, op in enumerate(scn['ops']):
        r = random.Random('%s/%s' % (n, op.get('k', 0)))
        k = op['x']
        if op['op'] == 'start':
            c = Context([[a in row for a in op['a']] for row in op['r']], list(op['o']), list(op['a']))
            L = op['imps']
            if L == 'open1':
                L = imps(c.get_attribute_implications())[:1]
            elif L == 'valid':
                L = [i for i in [valid(c, r) for _ in range(2)] if i]
            bad = start(op, c, L)
            if bad:
                return {"h": {}, "ev": [], "abort": bad}
            continue
        x = live[k]
        c, db, ae = x['c'], x['db'], x['ae']
        A, O = list(c.attributes), list(c.objects)
        bg, opens = imps(db.base), imps(db.open_implications)
        ment = set()
        for i in bg:
            ment |= set(i[0]) | set(i[1])
        e = {"op": op['op'], "x": k}
        ex = op.get('exact')
        if ex:
            e.update({y: op[y] for y in ('name', 'old', 's', 'imps', 'names', 'sets') if y in op})
            if 'imp' in op:
                e['imps'] = [op['imp']]
            e['s'] = set(e.get('s', []))
            via = 'ae' if len(repr(op)) % 2 else 'db'
        else:
            via = op.get('via')
            e['name'] = op['name']
        kind = op['op']

        def rset(names, L):
            s = {a for a in names if r.random() < .5}
            if op['close']:
                s = close(s, L)
            if op['extra']:
                s.add('unknown')
            return s
        if kind == 'confirm':
            if not ex:
                e['imps'] = []
                for _ in range(op['count']):
                    i = r.choice(opens) if opens and op['how'] == 'open' else valid(c, r)
                    if i:
                        e['imps'].append(i)
            if via == 'db' or not e['imps']:
                if not e['imps']:
                    continue
                e['imps'] = e['imps'][:1]
                ok, v = call(db.confirm_implication, mk(e['imps'][0]))
            elif len(e['imps']) == 1 and via == 'ae1':
                ok, v = call(ae.confirm_implication, mk(e['imps'][0]))
            else:
                ok, v = call(ae.confirm_implications, [mk(i) for i in e['imps']])
        elif kind == 'unconfirm':
            if not ex:
                i = r.choice(bg) if bg and op['how'] == 'bg' else valid(c, r)
                if not i:
                    continue
                e['imps'] = [i]
            ok, v = call((db if via == 'db' else ae).unconfirm_implication, mk(e['imps'][0]))
        elif kind == 'reject':
            if not ex:
                i = r.choice(opens) if opens and op['how'] == 'open' else valid(c, r)
                if not i:
                    continue
                s = close(rset(A, []) | set(i[0]), bg) if op['close'] else rset(A, bg) | set(i[0])
                if op['hit'] and set(i[1]) <= s:
                    s = close(set(i[0]), bg)
                    if set(i[1]) <= s:
                        s -= set(sorted(i[1])[:1])
                e.update(imps=[i], names=[e['name'] if e['name'] != '=' or not O else r.choice(O)], sets=[s])
                for q in range(op['count'] - 1 if op['count'] else 0):
                    e['names'].append(r.choice(['%s_%d' % (e['names'][0], q)] * 4 + O[:1]))
                    e['sets'].append(close(rset(A, bg), bg if r.random() < .8 else []))
            several = (op.get('count', 0) > 0 and not ex)
            x['ex'].answer = (list(e['names']), [set(s) for s in e['sets']]) if several else (e['names'][0], set(e['sets'][0]))
            ok, v = call(ae.reject_implication, mk(e['imps'][0]))
        elif kind == 'add_example':
            if not ex:
                e['s'] = rset(A, bg)
                if e['name'] == '=':
                    e['name'] = r.choice(O + ['new'])
            ok, v = call(db.add_example, e['name'], set(e['s']))
        elif kind == 'delete_example':
            if not ex:
                e['name'] = r.choice(O * 5 + ['nowhere'])
            ok, v = call(db.delete_example, e['name'])
        elif kind == 'edit_example':
            if not ex:
                e['old'] = r.choice(O * 9 + ['nowhere'])
                e['name'] = r.choice([e['old'], e['old'], e['name'] if e['name'] != '=' else r.choice(O + ['q'])])
                e['s'] = rset(A, bg)
                if op['flip'] and e['old'] in O and A:
                    e['s'] = set(c.get_object_intent(e['old'])) ^ ({r.choice(A)} if r.random() < .7 else set())
            ok, v = call(db.edit_example, e['name'], e['old'], set(e['s']))
        elif kind == 'add_attribute':
            if not ex:
                e['s'] = rset(O, [])
                if e['name'] == '=':
                    e['name'] = r.choice(A + ['new'])
            ok, v = call(db.add_attribute, e['name'], set(e['s']))
        elif kind == 'delete_attribute':
            if not ex:
                e['name'] = r.choice([a for a in A if a not in ment] * 9 + ['nowhere'])
            ok, v = call(db.delete_attribute, e['name'])
        elif kind == 'edit_attribute':
            if not ex:
                e['old'] = r.choice(A * 9 + ['nowhere'])
                e['s'] = rset(O, [])
                if op['flip'] and e['old'] in A:
                    e['s'] = set(c.get_attribute_extent(e['old'])) ^ ({r.choice(O)} if O and r.random() < .7 else set())
                if e['old'] in ment:
                    e['name'] = e['old']
                else:
                    e['name'] = r.choice([e['old'], e['name'] if e['name'] != '=' else r.choice(A + ['q'])])
            ok, v = call(db.edit_attribute, e['name'], e['old'], set(e['s']))
        elif kind == 'touch':
            if not ex:
                e['s'] = close({a for a in A if r.random() < .5}, bg)
                if op['none'] or e['name'] == '=':
                    e['name'] = ''
            if e['name']:
                c.add_object_with_intent(set(e['s']), e['name'])
            ok, v = call(db.touch)
        elif kind == 'complete':
            ok, v = call(db.complete)
        elif kind == 'spoil':
            for L in (db.open_implications, db.get_open_implications(), db.base, db.get_base(), ae.get_open_implications()):
                del L[:]
            ok = True
        else:
            ok = True
            for y in (db.open_implications, db.base):
                call(repr, y)
        emit(e, ok)
    return {"h": {"x": 0}, "ev": ev}


def nontrivial(scn, tr):
    return sum(e['out'] == 'ok' and e['op'] not in ('look', 'start', 'spoil', 'touch', 'done') for e in tr['ev']) > 1
