"""C12: implications as values."""
import itertools
import gen
from gen import rng

TRACE = 'Trace_Imp'
BATCH = 6000
EVIDENCE = dict(
    rule='all pairs of implications over two attributes with all sets and partial examples, seeded random ones over up '
         'to six attributes with unusual names, object histories (creation, deep copies, edits of copies and of the '
         'arguments, printing and parsing); non-trivial: a truth value or comparison on non-empty sides',
    explanation='Validated against RespectedBy, RespectedByPartial, EqualImp of module Implications; MC_Implications '
                'checks the laws between them.')
# commas inside of names, and names that read like another one or like two
ALIKE = ['a', 'b', 'c', 'a, b', 'a,b', 'b, c', 'a,  b', ',', 'not (a)', 'a => b', ' a', '']
INTS = ['#0', '#1', '#2', '#10', '#-1', '#300']
NAMES = ['a', 'b', 'c', 'd', 'e f', 'Größe', 'x=1', '0', 'a.b', 'not', '(q)', "it's", 'A', '>', 'z1']


def truth(k, x, q=None, as_list=False):
    return {"x": x, "q": q if q is not None else [], "partial": q is not None, "list": as_list}


def sub(r, names, d=None):
    d = r.choice([0, .2, .4, .6, 1]) if d is None else d
    return [x for x in names if r.random() < d]


def scenarios(tier, seed):
    U = ['a', 'b', 'c'] if tier == 'thorough' else ['a', 'b']
    subs = [[x for j, x in enumerate(U) if m >> j & 1] for m in range(1 << len(U))]
    pairs = [(x, q) for x in subs for q in subs if set(x) <= set(q)]
    allq = [truth('', s) for s in subs + [U + ['z'], ['z']]] + [truth('', x, q) for x, q in pairs] \
        + [truth('', x, q, True) for x, q in pairs[:3]]
    for kind in ('imp', 'neg'):
        for p in subs:
            for c in subs:
                yield {"ops": [{"op": "new", "k": "i", "kind": kind, "p": p, "c": c}, {"op": "truth", "k": "i", "q": allq}]}
    for p in subs:
        for c in U:
            if c not in p:
                yield {"ops": [{"op": "new", "k": "i", "kind": "unit", "p": p, "c": [c]},
                               {"op": "new", "k": "j", "kind": "imp", "p": p, "c": [c]},
                               {"op": "new", "k": "n", "kind": "neg", "p": p, "c": [c]},
                               {"op": "truth", "k": "i", "q": allq}, {"op": "compare", "k": "i", "j": "j"},
                               {"op": "compare", "k": "n", "j": "i"}, {"op": "compare", "k": "n", "j": "j"},
                               {"op": "reparse", "k": "r", "from": "i"}, {"op": "compare", "k": "r", "j": "i"}]}
    for k1, k2 in (('imp', 'imp'), ('neg', 'neg'), ('imp', 'neg')):
        for p1 in subs:
            for c1 in subs:
                ops = [{"op": "new", "k": "i", "kind": k1, "p": p1, "c": c1}]
                for p2 in subs:
                    for c2 in subs:
                        ops += [{"op": "new", "k": "j", "kind": k2, "p": p2, "c": c2}, {"op": "compare", "k": "i", "j": "j"}]
                yield {"ops": ops}
    # equal texts from different sets: commas in names; numbers and their texts
    for univ in (['a', 'b', 'a, b'], ['1', '2', '1, 2', '#1', '#2']):
        sets = [x for n in range(3) for x in itertools.combinations(univ, n) if len({y[:1] == '#' for y in x}) < 2]
        for p1 in sets:
            for k1, k2 in (('imp', 'imp'), ('neg', 'neg')):
                ops = [{"op": "new", "k": "i", "kind": k1, "p": list(p1), "c": ['#1' if p1 and p1[0][0] == '#' else univ[0]]}]
                for p2 in sets:
                    for c2 in sets:
                        if len({y[:1] == '#' for y in p2 + c2}) < 2:
                            ops += [{"op": "new", "k": "j", "kind": k2, "p": list(p2), "c": list(c2)}, {"op": "compare", "k": "i", "j": "j"}]
                yield {"ops": ops}
    for i in range(gen.upto(tier, 600, 10000)):
        r = rng(seed, 'c12', i)
        pool = NAMES if i % 3 else r.choice([ALIKE, ALIKE, INTS])
        names = r.sample(pool, r.choice([2, 3, 4, 6]))
        ops, ks = [], []
        for _ in range(r.choice([4, 8, 14])):
            z = r.random()
            k = 'k%d' % (len(ks) + 1)
            if z < 0.3 or not ks:
                kind = r.choice(['imp', 'imp', 'neg', 'unit'])
                c = sub(r, names)
                p = sub(r, names)
                if kind == 'unit':
                    c = [r.choice(names)]
                    p = [x for x in p if x != c[0]]
                if r.random() < 0.3:
                    r.shuffle(p)
                ops.append({"op": "new", "k": k, "kind": kind, "p": p, "c": c,
                            "as": r.choice(['set', 'set', 'list', 'tuple', 'frozenset'])})
                ks.append(k)
            elif z < 0.4:
                ops.append({"op": "copy", "k": k, "from": r.choice(ks)})
                ks.append(k)
            elif z < 0.5:
                ops.append({"op": "edit", "k": r.choice(ks), "side": r.choice('pc'), "x": r.choice(names)})
            elif z < 0.58:
                ops.append({"op": "argedit", "how": r.choice(['clear', 'add']), "x": r.choice(names)})
            elif z < 0.68:
                ops.append({"op": "reparse", "k": k, "from": r.choice(ks), "how": r.choice(['repr', 'str'])})
                ks.append(k)
            elif z < 0.74 and pool is NAMES:
                p, c = sub(r, names, .5) or names[:1], sub(r, names, .5) or names[-1:]
                p, c = [x for x in p if x != '>'] or ['a'], [x for x in c if x != '>'] or ['b']
                sep = r.choice([',', ', ', ' , ', ',\t'])
                ops.append({"op": "parse", "k": k, "p": p, "c": c,
                            "text": r.choice(['', ' ']) + sep.join(p) + r.choice(['=>', ' => ', ' =>']) + sep.join(c)
                            + r.choice(['', ' ', '\n'])})
                ks.append(k)
            elif z < 0.88:
                q = []
                for _ in range(6):
                    x = sub(r, names)
                    if r.random() < 0.5:
                        q.append(truth('', x, sorted(set(x) | set(sub(r, names))), r.random() < .3))
                    else:
                        q.append(truth('', x))
                ops.append({"op": "truth", "k": r.choice(ks), "q": q})
            else:
                ops.append({"op": "compare", "k": r.choice(ks), "j": r.choice(ks)})
        ops += [{"op": "compare", "k": r.choice(ks), "j": r.choice(ks)} for _ in range(3)]
        yield {"ops": ops}


MODELS = {'quick': [dict(module='MC_Implications', workers=3, min_states=1000,
                         cfg='INIT Init\nNEXT Next\nCONSTANTS U = {"a", "b"}\nINVARIANTS EqualMeansSame CompleteExample '
                             'Refutation Equality\nCHECK_DEADLOCK FALSE\n')],
          'thorough': [dict(module='MC_Implications', workers=8, min_states=10000, timeout=2000,
                            cfg='INIT Init\nNEXT Next\nCONSTANTS U = {"a", "b", "c"}\nINVARIANTS EqualMeansSame '
                                'CompleteExample Refutation Equality\nCHECK_DEADLOCK FALSE\n')]}


def run(scn):
    import impdrv
    return impdrv.Imps().run(scn['ops'])


def nontrivial(scn, tr):
    return any(e['op'] in ('truth', 'compare') for e in tr['ev'])
