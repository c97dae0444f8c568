"""C27: exploration of patterns."""
from drv import call, generated, listed
import gen
from gen import rng

TRACE = 'Trace_Patterns'
BATCH = 1200
CFG = '''INIT Init
NEXT Next
CONSTANTS M = {%s} MaxP = %d MaxN = %d MaxC = %d Depth = 0
CONSTRAINT Small
VIEW View
INVARIANT Invariant
PROPERTY SoundStep
CHECK_DEADLOCK FALSE
'''
GCFG = '''INIT Init
NEXT Random
CONSTANTS M = {"a", "b", "c"} MaxP = 9 MaxN = 9 MaxC = 9 Depth = %d
INVARIANT Out
CHECK_DEADLOCK FALSE
'''
MODELS = {'quick': [dict(module='MC_Patterns', cfg=CFG % ('"a", "b"', 2, 2, 2), workers=3, min_states=1000)],
          'thorough': [dict(module='MC_Patterns', cfg=CFG % ('"a", "b"', 3, 2, 3), workers=4, min_states=10000, timeout=2800),
                       dict(module='MC_Patterns', cfg=CFG % ('"a", "b", "c"', 2, 1, 1), workers=4, min_states=1000, timeout=2800)]}
GEN = {'quick': [dict(module='MC_Patterns', cfg=GCFG % 12, simulate=250, depth=13, min=50, timeout=300)],
       'thorough': [dict(module='MC_Patterns', cfg=GCFG % 18, simulate=2500, depth=19, min=500, timeout=2500)]}
EVIDENCE = dict(
    rule='a scenario is a history of confirmations, positive and negative examples, queries and edits of initial contexts '
         'over one to three explorations: behaviours of MC_Patterns and seeded random histories; non-trivial: a pattern '
         'confirmed and a later example accepted or refused',
    explanation='Every outcome, every answer and the full state of all explorations and initial contexts after every event are validated against Patterns.')
QUERIES = ["examples", "unexplained", "explained", "listed", "patterns", "ask"]


def scenarios(tier, seed):
    A = ['a', 'b', 'c']
    for n, b in enumerate(generated()):
        r = rng(seed, 'c27g', n)
        ops = [{"op": "context", "k": "p", "o": [], "a": A, "r": []}, {"op": "context", "k": "n", "o": [], "a": A, "r": []},
               {"op": "start", "x": "x", "pos": "p", "neg": "n"}]
        for e in b:
            ops.append(dict(e, x="x", none=not e.get('p') and r.random() < .5))
            if r.random() < .4:
                ops.append({"op": r.choice(QUERIES), "x": "x", "p": r.sample(A, r.randrange(4))})
        yield {"ops": ops}
    for i in range(gen.upto(tier, 700, 12000)):
        r = rng(seed, 'c27', i)
        m = r.choice([1, 2, 3, 3, 4, 4]) if i % 50 != 13 else r.choice([3, 8, 12])
        A = gen.anames(m, r, 3 if i % 11 == 5 else 0)
        ops, ks, xs = [], [], []

        def context(a):
            n = r.choice([0, 1, 2, 3, 4, 5]) if i % 50 != 13 else r.choice([3, 20, 40])
            tbl = gen.table(r, n, len(a))
            a = list(a)
            r.shuffle(a)
            ks.append('k%d' % len(ks))
            o = gen.onames(n, r)
            ops.append({"op": "context", "k": ks[-1], "o": o, "a": a, "r": [[a[j] for j in range(len(a)) if row[j]] for row in tbl]})
        context(A)
        context(A)
        if r.random() < .1:
            context(A[:-1] or ['q'])
        if r.random() < .1:
            context(A[:-1] + ['q'])
        fresh = 0

        def start():
            xs.append('x%d' % len(xs))
            own = r.random() < .2
            ops.append({"op": "start", "x": xs[-1], "pos": ks[0] if r.random() < .8 else r.choice(ks),
                        "neg": ks[1] if r.random() < .8 else r.choice(ks), "own": own,
                        "ps": [list(p) for p in {tuple(sorted(r.sample(A, r.randrange(m + 1)))) for _ in range(4)}] if own else []})
        start()
        for _ in range(r.choice([6, 12, 18])):
            z = r.random()
            x = r.choice(xs)
            s = lambda: r.sample(A, r.randrange(m + 1))
            fresh += 1
            name = 'new%d' % fresh if r.random() < .9 else r.choice(['g1', 'g2', 'new1'])
            if z < .04 and len(xs) < 3:
                start()
            elif z < .28:
                ops.append({"op": "confirm", "x": x, "p": s(), "hit": r.random() < .6, "kind": r.choice(['set', 'frozenset', 'list']), "n": r.randrange(50)})
            elif z < .4:
                ops.append({"op": "positive", "x": x, "name": name, "b": s(), "kind": r.choice(['set', 'list'])})
            elif z < .58:
                b = s()
                z = r.random()
                p = s() if z < .4 else [y for y in b if r.random() < .6] if z < .8 else []
                ops.append({"op": "negative", "x": x, "name": name, "b": b, "p": p, "none": z >= .8 and r.random() < .7,
                            "kind": r.choice(['set', 'list'])})
            elif z < .64:
                kind = r.choice(["add_object_with_intent", "set_object_intent", "delete_object"])
                ops.append({"op": "edit", "k": r.choice(ks), "edit": kind, "set": s(), "name": name if kind[0] == 'a' else 'g%d' % r.randrange(1, 4)})
            else:
                ops.append({"op": r.choice(QUERIES), "x": x, "p": s()})
        yield {"ops": ops}


def run(scn):
    from fca import Context
    from fca.algorithms.patterns import BasicPatternExploration
    ev, live, base = [], {}, {}

    def cx(c):
        try:
            return {"o": [str(x) for x in c.objects], "a": [str(x) for x in c.attributes],
                    "r": [[str(a) for a, b in zip(c.attributes, row) if b] for row in (list(c[i]) for i in range(len(c)))]}
        except Exception:
            return {"o": ['?'], "a": ['?'], "r": []}

    def emit(**e):
        obs = []
        for x, b in live.items():
            try:
                conf = [sorted(map(str, p)) for p in b.confirmed_patterns]
            except Exception:
                conf = [['?']]
            obs.append({"x": x, "pos": cx(b.positive_cxt), "neg": cx(b.negative_cxt), "conf": conf})
        e.update(obs=obs, bases=[{"k": k, "c": cx(c)} for k, c in base.items()])
        ev.append(e)

    def put(xs, kind):
        return {'set': set, 'frozenset': frozenset, 'list': list}[kind or 'set'](xs)
    for op in scn['ops']:
        w = op['op']
        if w == 'context':
            c = Context([[a in row for a in op['a']] for row in op['r']], list(op['o']), list(op['a']))
            base[op['k']] = c
            emit(op=w, k=op['k'], c={"o": op['o'], "a": op['a'], "r": op['r']}, out='ok')
            continue
        if w == 'edit':
            c = base[op['k']]
            args = [op['name']] if op['edit'] == 'delete_object' else [set(op['set']), op['name']]
            ok, _ = call(getattr(c, op['edit']), *args)
            emit(op=w, k=op['k'], out='ok' if ok else 'exc', name=op['name'], set=op['set'], edit=op['edit'])
            ev[-1]['op'] = 'edit'
            continue
        if w == 'start':
            ps = op.get('ps', [])
            kw = {}
            asked = []

            def expert(p, asked=asked):
                asked.append(p)
                return iter([('one', frozenset(p)), ('two', frozenset())])
            if op.get('own'):
                kw['pattern_generator'] = lambda pos, neg, ps=ps: ((frozenset(p), pos.aprime(p)) for p in ps)
            ok, b = call(BasicPatternExploration, base[op['pos']], base[op['neg']], expert, **kw)
            if ok:
                live[op['x']] = b
            emit(op=w, x=op['x'], pos=op['pos'], neg=op['neg'], own=bool(op.get('own')), ps=ps, out='ok' if ok else 'exc')
            continue
        if op['x'] not in live:
            continue
        b = live[op['x']]
        p = list(op.get('p', []))
        kind = op.get('kind')
        known = [str(a) for a in b.positive_cxt.attributes]
        if w != 'confirm':                       # only a confirmation is asked with unknown attributes
            p = [a for a in p if a in known]
        B = [a for a in op.get('b', []) if a in known]
        if w == 'confirm':
            if op.get('hit'):
                ok, c = call(lambda: [q for q, _ in b.get_unconfirmed_patterns_with_examples()])
                if ok and c:
                    p = sorted(map(str, c[op['n'] % len(c)]))
            arg = put(p, kind)
            ok, _ = call(b.confirm_pattern, arg)
            if isinstance(arg, (set, list)):
                arg.clear()                      # what is handed over stays the caller's
            emit(op=w, x=op['x'], p=p, name='', b=[], out='ok' if ok else 'exc')
        elif w in ('positive', 'negative'):
            arg = put(B, kind)
            if w == 'positive':
                ok, _ = call(b.add_positive_example, op['name'], arg)
            elif op.get('none'):
                ok, _ = call(b.add_negative_example, op['name'], arg)
                p = []
            else:
                ok, _ = call(b.add_negative_example, op['name'], arg, put(p, kind))
            if isinstance(arg, (set, list)):
                arg.clear()
            emit(op=w, x=op['x'], p=p if w == 'negative' else [], name=op['name'], b=B, out='ok' if ok else 'exc')
        else:
            pairs = lambda it: [[str(n), sorted(map(str, s))] for n, s in listed(it)]
            want = None
            if w == 'examples':
                ok, got = call(lambda: pairs(b.iterate_examples(set(p))))
            elif w == 'unexplained':
                ok, got = call(lambda: pairs(b.iterate_unexplained_examples()))
            elif w == 'explained':
                ok, got = call(lambda: bool(b.is_explained(set(p))))
            elif w == 'listed':
                ok, got = call(lambda: [[sorted(map(str, q)), int(k)] for q, k in listed(b.get_unconfirmed_patterns_with_examples())])
            elif w == 'patterns':
                ok, got = call(lambda: [[sorted(map(str, q)), sorted(map(str, s))] for q, s in listed(b.iterate_patterns_with_examples())])
            else:
                ok, got = call(lambda: pairs(b.iterate_new_objects(set(p))))
                want = [['one', sorted(p)], ['two', []]]
            e = dict(op=w, x=op['x'], p=p, out='ok' if ok else 'exc', got=got if ok else [])
            if want:
                e['want'] = want
            emit(**e)
    return {"h": {"x": 0}, "ev": ev}


def nontrivial(scn, tr):
    c = [i for i, e in enumerate(tr['ev']) if e['op'] == 'confirm' and e['out'] == 'ok']
    return bool(c) and any(e['op'] in ('positive', 'negative') for e in tr['ev'][c[0] + 1:])
