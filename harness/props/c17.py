"""C17: exploration sessions."""
from drv import call, generated
import gen
from gen import rng

TRACE = 'Trace_Sessions'
BATCH = 1500
CFG = '''INIT Init
NEXT Next
CONSTANTS O = {"g", "h"%s} MaxO = %d MaxBg = %d Depth = 0
CONSTRAINT Small
INVARIANTS Invariant Settles NothingLeft
CHECK_DEADLOCK FALSE
'''
GCFG = '''INIT Init
NEXT Random
CONSTANTS O = {"g", "h", "i", "j", "k", "l"} MaxO = 4 MaxBg = 9 Depth = %d
INVARIANT Out
CHECK_DEADLOCK FALSE
'''
MODELS = {'quick': [dict(module='MC_Sessions', cfg=CFG % ('', 2, 2), workers=3, min_states=500)],
          'thorough': [dict(module='MC_Sessions', cfg=CFG % (', "i", "j"', 4, 4), workers=8, min_states=5000, timeout=2800)]}
GEN = {'quick': [dict(module='MC_Sessions', cfg=GCFG % 11, simulate=200, depth=12, min=50, timeout=300)],
       'thorough': [dict(module='MC_Sessions', cfg=GCFG % 14, simulate=1500, depth=15, min=500, timeout=2500)]}
EVIDENCE = dict(
    rule='a scenario is a history of accepting, rejecting, adding and modifying returned collections in one to three '
         'sessions (of the same or different explorations); non-trivial: an accepted implication and a later honoured '
         'or refused rejection or addition',
    explanation='Every event is validated against Sessions; candidates must be the canonical basis relative to the '
                'accepted implications.')


def scenarios(tier, seed):
    for b in generated():
        c = b[0]['c']
        ops = [{"op": "start", "x": "x", "o": c['o'], "a": c['a'], "r": c['r']}]
        yield {"src": "gen", "ops": ops + [dict(e, x="x", exact=True) for e in b[1:]]}
    for i in range(gen.upto(tier, 450, 7000)):
        r = rng(seed, 'c17', i)
        n, m = r.choice([(0, 2), (0, 3), (1, 3), (2, 2), (2, 3), (3, 3), (3, 4), (2, 4), (1, 1), (4, 4), (5, 5)])
        ops, xs = [], []

        def start(x, same=None):
            n1, m1 = r.choice([(70, 4), (4, 24), (12, 16), (300, 2)]) if i % 40 == 13 else (n, m)
            a, o = gen.anames(m1, r, 3 if i % 19 == 5 else 0), gen.onames(n1, r, 3 if i % 19 == 5 else 0)
            tbl = gen.blocks(r, n1, m1) if i % 40 == 13 else gen.table(r, n, m)
            op = {"op": "start", "x": x, "o": o, "a": a, "r": [[a[j] for j in range(m1) if row[j]] for row in tbl],
                  "set": r.random() < .2}
            if same:
                op = {"op": "start", "x": x, "same": same}
                if r.random() < .5:
                    # a session made by hand on the context of one that is over
                    op = {"op": "start", "x": x, "on": same}
                    xs.remove(same)
            ops.append(op)
            xs.append(x)
        start('s0')
        made = 0
        for k in range(r.choice([5, 9, 14])):
            z = r.random()
            e = {"x": r.choice(xs), "n": r.randrange(20), "k": r.randrange(1000), "name": r.choice(['new%d' % k] * 9 + ['=']),
                 "extra": r.random() < .06}
            if z < .1 and len(xs) < 3:
                made += 1
                start('s%d' % made, r.choice([None, r.choice(xs)]))
                continue
            elif z < .35:
                e.update(op="accept", how=r.choice(["cand", "cand", "cand", "valid"]))
            elif z < .65:
                e.update(op="reject", how=r.choice(["cand", "cand", "valid", "accepted"]), hit=r.random() < .7, close=r.random() < .6)
            elif z < .9:
                e.update(op="add", close=r.random() < .5)
            else:
                e.update(op=r.choice(["look", "spoil", "spoil"]))
            ops.append(e)
        yield {"ops": ops}


def run(scn):
    import random
    from fca import Context, Implication
    from fca.algorithms.exploration2 import exploration as X
    live, ev, origin = {}, [], {}

    def cx(c):
        try:
            O, A = [str(x) for x in c.objects], [str(x) for x in c.attributes]
            r = [sorted(str(a) for a in c.get_intent(o)) for o in c.objects]
            cols = [sorted(str(o) for o in c.get_extent(a)) for a in c.attributes]
            if [sorted(o for k, o in enumerate(O) if a in r[k]) for a in A] != cols:
                return {"o": ['?'], "a": ['?'], "r": []}
            return {"o": O, "a": A, "r": r}
        except Exception:
            return {"o": ['?'], "a": ['?'], "r": []}

    def imps(L):
        try:
            return [[sorted(map(str, i.premise)), sorted(map(str, i.conclusion))] for i in L]
        except Exception:
            return [[['?'], ['?']], [['?'], ['?']]]

    def obs(x, cand=True):
        s = live[x]
        d = {"c": cx(s.context), "bg": imps(s.get_accepted_implications())}
        if cand:
            ok, v = call(s.get_candidates)
            d["cand"] = imps(v) if ok else [[['?'], ['?']], [['?'], ['?']]]
        return d

    def emit(e, ok):
        d = {"op": e['op'], "x": e['x'], "s": sorted(e.get('s', [])), "name": e.get('name', ''), "imp": e.get('imp', []),
             "out": "ok" if ok else "exc", "obs": obs(e['x']),
             "others": [{"x": y, "obs": obs(y, False), "same": origin[y] is origin[e['x']]} for y in live if y != e['x']]}
        if 'c' in e:
            d['c'] = e['c']
        ev.append(d)

    def close(S, L):
        S = set(S)
        for _ in range(20):
            for p, q in L:
                if set(p) <= S:
                    S |= set(q)
        return S

    def mk(i):
        return Implication(set(i[0]), set(i[1]))

    def valid(d, r):
        P = {a for a in d['a'] if r.random() < .4}
        C = set(d['a'])
        for row in d['r']:
            if P <= set(row):
                C &= set(row)
        C = {a for a in sorted(C - P) if r.random() < .7}
        return [sorted(P), sorted(C)] if C else None

    for n, op in enumerate(scn['ops']):
        r = random.Random('%s/%s' % (n, op.get('k', 0)))
        k = op['x']
        if op['op'] == 'start':
            if 'on' in op:
                c = live[op['on']].context
                del live[op['on']]
                live[k], origin[k] = X.ExplorationSession(c), origin[op['on']]
                emit({"op": "start", "x": k, "c": cx(c)}, True)
                continue
            if 'same' in op:
                E = origin[op['same']]
                before = cx(live[op['same']].context)
            else:
                c = Context([[a in row for a in op['a']] for row in op['r']], list(op['o']), list(op['a']))
                E = X.Exploration(X.ExplorationContext(c))
                if op.get('set'):
                    E.set_context(X.ExplorationContext(c))
                before = {"o": list(op['o']), "a": list(op['a']), "r": [sorted(x) for x in op['r']]}
            ok, s = call(E.create_session)
            if not ok:
                return {"h": {}, "ev": [], "abort": "create_session raises %r" % s}
            live[k], origin[k] = s, E
            if 'same' in op:
                # whether a new session sees objects of an earlier one is left open
                before = cx(s.context)
            emit({"op": "start", "x": k, "c": before}, True)
            continue
        s = live[k]
        d, bg, cand = cx(s.context), imps(s.get_accepted_implications()), imps(s.get_candidates())
        A, O = d['a'], d['o']
        e = {"op": op['op'], "x": k}
        ex = op.get('exact')
        if ex:
            e.update({y: op[y] for y in ('name', 's', 'imp') if y in op})
            e['s'] = set(e.get('s', []))
        else:
            e['name'] = op['name'] if op['name'] != '=' else r.choice(O + ['new'])
            if op['op'] in ('accept', 'reject'):
                pool = {'cand': cand, 'accepted': bg, 'valid': []}[op['how']]
                i = r.choice(pool) if pool else valid(d, r)
                if not i:
                    continue
                e['imp'] = i
            if op['op'] in ('reject', 'add'):
                S = {a for a in A if r.random() < .5}
                if op['op'] == 'reject' and op['hit']:
                    S |= set(i[0])
                    if op['close']:
                        S = close(S, bg)
                    if set(i[1]) <= S:
                        S = close(i[0], bg)
                        if set(i[1]) <= S:
                            S -= set(i[1][:1])
                elif op['close']:
                    S = close(S, bg)
                if op['extra']:
                    S.add('unknown')
                e['s'] = S
        if e['op'] == 'accept':
            if not ex and op['how'] == 'cand' and op['n'] % 2:
                L = [j for j in s.get_candidates() if imps([j]) == [e['imp']]]
                ok, v = call(s.accept_implication, L[0] if L else mk(e['imp']))
            else:
                ok, v = call(s.accept_implication, mk(e['imp']))
        elif e['op'] == 'reject':
            ok, v = call(s.reject_implication, mk(e['imp']), e['name'], set(e['s']))
        elif e['op'] == 'add':
            ok, v = call(s.context.add_object, e['name'], set(e['s']))
        elif e['op'] == 'spoil':
            del s.get_accepted_implications()[:]
            del s.get_candidates()[:]
            del s.context.objects[:]
            del s.context.attributes[:]
            s.context.get_objects().append('spoilt')
            s.context.get_attributes().append('spoilt')
            s.get_accepted_implications().append(Implication(set(), set(A)))
            for o in O:
                s.context.get_intent(o).clear()
                s.context.get_intent(o).update(A)
            for a in A:
                s.context.get_extent(a).clear()
                s.context.get_extent(a).update(O)
            ok = True
        else:
            call(repr, s.get_candidates())
            ok = True
        emit(e, ok)
    return {"h": {"x": 0}, "ev": ev}


def nontrivial(scn, tr):
    c = [i for i, e in enumerate(tr['ev']) if e['op'] == 'accept']
    return bool(c) and any(e['op'] in ('reject', 'add') for e in tr['ev'][c[0] + 1:])
