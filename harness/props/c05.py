"""C05: concept systems keep order queries in step with their members."""
from drv import call, listed, generated
import gen
from gen import rng

TRACE = 'Trace_System'
BATCH = 4000
CFG = '''INIT Init
NEXT Next
CONSTANTS MaxLen = %d Depth = 0 NP = %d
CONSTRAINT Small SmallSrc
INVARIANTS Order Isolated
CHECK_DEADLOCK FALSE
'''
GCFG = '''INIT Init
NEXT Random
CONSTANTS MaxLen = 9 Depth = %d NP = 6
INVARIANT Out
CHECK_DEADLOCK FALSE
'''
MODELS = {'quick': [dict(module='MC_System', cfg=CFG % (2, 3), workers=3, min_states=1000)],
          'thorough': [dict(module='MC_System', cfg=CFG % (3, 4), workers=8, min_states=5000, timeout=2500)]}
GEN = {'quick': [dict(module='MC_System', cfg=GCFG % 14, simulate=250, depth=15, min=100)],
       'thorough': [dict(module='MC_System', cfg=GCFG % 25, simulate=4000, depth=26, min=1000)]}
EVIDENCE = dict(
    rule='a scenario is a history of one to three systems over a pool of pairs: behaviours of MC_System and seeded '
         'random histories over concepts of random contexts and arbitrary pairs, with queries before and after each '
         'change; non-trivial: at least three accepted changes after a query',
    explanation='Every answer is validated against ConceptSystems in the abstract state reached.')
WHAT = ['members', 'iteration', 'len', 'parents', 'children', 'filter', 'ideal', 'contains', 'index', 'top', 'bottom']


def concepts_of(tbl, m):
    rows = [frozenset(j for j in range(m) if r[j]) for r in tbl]
    S = {frozenset(range(m))}
    for r in rows:
        S |= {s & r for s in S}
    out = [[sorted('g%d' % i for i, r in enumerate(rows) if s <= r), sorted('m%d' % j for j in s)] for s in S]
    return sorted(out)


def scenarios(tier, seed):
    for i, b in enumerate(generated()):
        pool = [[[str(x) for x in p[0]], p[1]] for p in b['pool']]
        ops = []
        r = rng(seed, 'c05g', i)
        for o in b['ops']:
            ops.append(dict(o, look=r.choice([0, 1, 1, 2])))
        yield {"pool": pool, "ops": ops, "seed": i}
    for i in range(gen.upto(tier, 500, 8000)):
        r = rng(seed, 'c05', i)
        m = r.choice([2, 3, 4, 5])
        pool = concepts_of(gen.table(r, r.choice([2, 3, 4, 5]), m), m)
        wide = i % 100 == 13
        if wide:
            m = r.choice([5, 5, 6, 7])
            pool = concepts_of([[x != y for y in range(m)] for x in range(m)] if m < 7 else gen.table(r, 9, 7, .6), m)[:75]
        if r.random() < 0.6:
            for _ in range(r.choice([1, 3, 5])):
                p = [sorted(r.sample(['g0', 'g1', 'g2', 'x', 'y'], r.randrange(4))),
                     sorted(r.sample(['m0', 'm1', 'm2', 'm3'], r.randrange(4)))]
                if r.random() < 0.5:        # pairs that share a side
                    z = r.randrange(2)
                    p[z] = list(r.choice(pool)[z])
                if p not in pool:
                    pool.append(p)
        r.shuffle(pool)
        pool = pool[:75 if wide else r.choice([4, 8, 14, 30])]
        n = len(pool)
        start = [r.randrange(n) + 1 for _ in range(r.choice([0, 1, 3, 6]))]
        if r.random() < 0.6:
            start = list(range(1, n + 1))
        ops = [{"op": "list", "l": "l", "v": start}, {"op": "system", "s": "s", "l": "l"}]
        ss = ['s']
        for _ in range(r.choice([4, 8, 16])):
            z, s = r.random(), r.choice(ss)
            c = r.randrange(n) + 1
            if z < 0.3:
                ops.append({"op": "append", "s": s, "c": c})
            elif z < 0.58:
                ops.append({"op": "remove", "s": s, "c": c})
            elif z < 0.64:
                ops.append({"op": "append_other", "s": s})
            elif z < 0.72 and len(ss) < 3:
                ss.append('s%d' % len(ss))
                ops.append({"op": "system", "s": ss[-1], "l": r.choice(['l', 'l', ''])})
            elif z < 0.78:
                ops.append({"op": "list_append", "l": "l", "c": c})
            elif z < 0.8:
                ops.append({"op": "list_clear", "l": "l"})
            else:
                ops.append({"op": "look", "s": s})
            ops[-1]["look"] = r.choice([0, 1, 1, 2, 3])
        yield {"pool": pool, "ops": ops, "seed": i}


def run(scn):
    import random, fca
    from fca import Concept, ConceptSystem
    r = random.Random('look%s' % scn['seed'])
    pool = [(frozenset(p[0]), frozenset(p[1])) for p in scn['pool']]
    at = {p: i + 1 for i, p in enumerate(pool)}
    objs = {}

    def make(c):
        """an object for pool member c: sometimes one used before"""
        e, i = scn['pool'][c - 1]
        if c in objs and r.random() < 0.5:
            return r.choice(objs[c])
        x = Concept(list(e), list(i))
        if r.random() < 0.15:
            x.meta['note'] = r.randrange(5)
        objs.setdefault(c, []).append(x)
        return x

    def pos(x):
        try:
            return at.get((frozenset(x.extent), frozenset(x.intent)), 0)
        except Exception:
            return 0

    def poss(xs):
        return [pos(x) for x in listed(xs)]
    src, sys_, ev, made = {}, {}, [], set()

    def ask(s, what, c):
        S = sys_[s]

        def find():
            ok, v = call(S.index, make(c))
            return [v + 1] if ok else [0]

        def end(name):
            ok, v = call(lambda: getattr(S, name))
            return [pos(v)] if ok else [0]
        f = {'members': lambda: [pos(S[i]) for i in range(len(S))],
             'iteration': lambda: poss(S),
             'len': lambda: [len(S)],
             'parents': lambda: sorted(poss(S.parents(make(c)))),
             'children': lambda: sorted(poss(S.children(make(c)))),
             'filter': lambda: poss(S.filter(make(c))),
             'ideal': lambda: poss(S.ideal(make(c))),
             'contains': lambda: [1 if make(c) in S else 0],
             'index': find,
             'top': lambda: end('top_concept'), 'bottom': lambda: end('bottom_concept')}[what]
        ok, v = call(f)
        return {"s": s, "what": what, "c": c, "v": v if ok else [-1]}

    def queries(level):
        q = []
        for l in src:
            q.append({"s": l, "what": "source", "c": 0, "v": poss(src[l])})
        if level == 0:
            return q
        for s in sys_:
            mem = []
            try:
                mem = [c for c in poss(sys_[s]) if c]
            except Exception:
                pass
            q.append(ask(s, 'members', 0))
            todo = []
            for w in WHAT[1:]:
                if w in ('iteration', 'len', 'top', 'bottom'):
                    todo.append((w, 0))
                elif w in ('parents', 'children'):
                    todo += [(w, c) for c in (set(mem) if level > 1 else r.sample(sorted(set(mem)), min(2, len(set(mem)))))]
                else:
                    todo += [(w, r.randrange(len(pool)) + 1) for _ in range(2)]
            r.shuffle(todo)
            if level == 1:
                todo = todo[:r.choice([2, 6, 20])]
            q += [ask(s, w, c) for w, c in todo]
        return q
    for o in scn['ops']:
        e = {k: v for k, v in o.items() if k != 'look'}
        op, ok = o['op'], True
        if o.get('l') and op != 'list' and o['l'] not in src or o.get('s') and op != 'system' and o['s'] not in sys_:
            continue
        if op == 'list':
            src[o['l']] = [make(c) for c in o['v']]
        elif op == 'system':
            ok, v = call(ConceptSystem, src[o['l']]) if o['l'] else call(ConceptSystem)
            if ok:
                sys_[o['s']] = v
        elif op == 'append':
            ok, v = call(sys_[o['s']].append, make(o['c']))
        elif op == 'append_other':
            bad = r.choice(['x', (('g0',), ('m0',)), None, {'a'}, [1], 3])
            ok, v = call(sys_[o['s']].append, bad)
        elif op == 'remove':
            ok, v = call(sys_[o['s']].remove, make(o['c']))
        elif op == 'list_append':
            src[o['l']].append(make(o['c']))
        elif op == 'list_clear':
            src[o['l']].clear()
        e.update(out='ok' if ok else 'exc', q=queries(o.get('look', 1)))
        ev.append(e)
    return {"h": {"pool": scn['pool']}, "ev": ev}


def nontrivial(scn, tr):
    return sum(e['out'] == 'ok' and e['op'] in ('append', 'remove') for e in tr['ev']) >= 3
