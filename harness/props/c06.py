"""C06: closure under a list of implications."""
import itertools, string
import gen
from gen import rng

TRACE = 'Trace_Imp'
BATCH = 6000
LCFG = '''SPECIFICATION Spec
CONSTANTS M = %d MaxImps = %d
INVARIANTS Counts Sound Exact
PROPERTIES Ends
CHECK_DEADLOCK FALSE
'''
MODELS = {'quick': [dict(module='MC_LinClosure', cfg=LCFG % (2, 2), workers=3, min_states=1000),
                    gen.theory(1, 3, 2, ['Closure'])],
          'thorough': [dict(module='MC_LinClosure', cfg=LCFG % (2, 3), workers=8, min_states=1000, timeout=2500),
                       dict(module='MC_LinClosure', cfg=LCFG % (3, 2), workers=8, min_states=1000, timeout=2500),
                       gen.theory(2, 3, 3, ['Closure'], workers=4)]}
EVIDENCE = dict(
    rule='all lists of up to two implications over two attributes with all sets (thorough: more), chains, cycles, '
         'repeated and equivalent members, unit implications, empty sides, up to 80 attributes and 60 implications, '
         'repeated calls after the caller spoilt the result; non-trivial: the closure differs from the set',
    explanation='Results are compared with Cl of module FCA, which MC_Theory checks against the definition; '
                'MC_LinClosure checks the counter algorithm.')


def rand_list(r, names, k):
    out = []
    for _ in range(k):
        z = r.random()
        d = r.choice([0.1, 0.25, 0.5]) if len(names) < 12 else r.choice([1, 2, 3]) / len(names)
        P = [x for x in names if r.random() < d]
        C = [x for x in names if r.random() < d]
        if z < 0.1 and out:
            out.append(["same", r.randrange(20)])
        elif z < 0.2 and out and out[-1][0] == 'imp':
            # an equal implication with another stored conclusion
            b = out[-1]
            out.append(["imp", b[1], sorted(set(b[2]) | set(b[1]))])
        elif z < 0.28 and out and out[-1][0] == 'imp':
            b = out[-1]
            out.append(["imp", list(b[1]), list(b[2])])
        elif z < 0.34:
            out.append(["imp", [], C[:2]])
        elif z < 0.38:
            out.append(["imp", P, []])
        elif z < 0.5:
            c = r.choice(names)
            out.append(["unit", [x for x in P if x != c], [c]])
        elif z < 0.6:
            out.append(["imp", P, sorted(set(C) | set(P))])
        else:
            out.append(["imp", P, C])
    return out


def scenarios(tier, seed):
    subs = [[], ['a'], ['b'], ['a', 'b']]
    imps = [["imp", p, c] for p in subs for c in subs]
    lists = [[]] + [[i] for i in imps] + [[i, j] for i in imps for j in imps]
    for n, L in enumerate(lists):
        ops = [{"op": "closure", "set": s, "imps": L, "times": 1 + n % 2, "spoil": n % 3 == 0} for s in subs]
        yield {"ops": ops}
    for i in range(gen.upto(tier, 700, 15000)):
        r = rng(seed, 'c06', i)
        m = r.choice([2, 3, 4, 5, 6, 8])
        names = [string.ascii_lowercase[j] for j in range(m)]
        k = r.choice([1, 2, 3, 5, 8, 12])
        if i % 20 == 0:
            m, k = 80, 60
            names = ['x%d' % j for j in range(m)]
        L = rand_list(r, names, k)
        if i % 15 == 7:
            # a long chain in awkward order
            names = ['y%d' % j for j in range(40)]
            L = [["imp", [names[j]], [names[j + 1]]] for j in range(39)]
            r.shuffle(L)
            L = L if r.random() < .5 else L[::-1]
        ops = []
        for _ in range(r.choice([1, 2, 4])):
            S = [x for x in names if r.random() < r.choice([0, 0.1, 0.3])]
            if r.random() < 0.1:
                S = S + ['elsewhere']
            ops.append({"op": "closure", "set": S, "imps": L, "times": r.choice([1, 2]), "spoil": r.random() < 0.5})
            # the same list, set and implications, changed by the caller in between
            for how in r.choice([[], ['list'], ['deep'], ['list', 'deep', 'list']]):
                L = [list(x) for x in L]
                for _ in range(r.choice([1, 1, 2])):
                    if L and r.random() < .6:
                        x = L[r.randrange(len(L))]
                        if x[0] == 'imp':
                            x[r.choice([1, 2])] = [y for y in names if r.random() < r.choice([0, .2, .5])]
                    elif L and r.random() < .5:
                        r.shuffle(L)
                        if L[0][0] == 'same':
                            L[0] = ["imp", [], []]
                if r.random() < .3:
                    S = [y for y in names if r.random() < .4]
                ops.append({"op": "closure", "set": list(S), "imps": L, "times": 1, "spoil": False, "reuse": how})
        yield {"ops": ops}
    for i in range(gen.upto(tier, 6, 30)):         # premises around the widths of machine numbers
        r = rng(seed, 'c06w', i)
        names = ['m%d' % j for j in range(300)]
        r.shuffle(names)
        L, ops = [], []
        for k, w in enumerate([127, 128, 255, 256, 257, 300]):
            L.append(["imp", r.sample(names, w), ['z%d' % k, r.choice(names)]])
        for _ in range(4):
            S = list(r.choice(L)[1])
            for x in r.sample(range(7), r.choice([0, 0, 1, 2])):
                S.pop(r.randrange(len(S)))
            if r.random() < .4:
                S = S[:r.choice([1, 43, 44, 45, 127, 128, 129])]
            ops.append({"op": "closure", "set": S, "imps": L, "times": 1, "spoil": False})
        yield {"ops": ops}


def run(scn):
    import impdrv
    return impdrv.Imps().run(scn['ops'])


def nontrivial(scn, tr):
    return any(e['op'] == 'closure' and any(len(g['v']) > len(e['set']) for g in e['groups']) for e in tr['ev'])
