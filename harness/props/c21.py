"""C21: cxt files."""
import gen
from gen import rng
import ast
import filedrv
from drv import generated

TRACE = 'Trace_Storage'
BATCH = 3000
CFG = '''INIT Init
NEXT Next
CONSTANTS Names = {%s} Values = {"s:0", "s:1"} MaxN = %d MaxM = %d Paths = {%s} Depth = %d
VIEW View
INVARIANT RoundTrip HeaderKnown WrittenFits
CHECK_DEADLOCK FALSE
'''
GCFG = '''INIT Init
NEXT Random
CONSTANTS Names = {"s:a", "s:B", "i:-1", "i:20", "s:len", "s:007", "s:X.X", "s:1 2"} Values = {"s:0", "s:x"} MaxN = 2 MaxM = 2 Paths = {"p", "q", "r"} Depth = %d
INVARIANT Out
CHECK_DEADLOCK FALSE
'''
MODELS = {'quick': [dict(module='MC_Storage', cfg=CFG % ('"s:a", "i:-1", "s:007"', 2, 1, '1', 3), workers=2, min_states=200),
                    dict(module='MC_Storage', cfg=CFG % ('"s:0x", "i:20"', 2, 2, '1', 3), workers=2, min_states=200)],
          'thorough': [dict(module='MC_Storage', cfg=CFG % ('"s:a", "s:B", "i:-1", "i:20", "s:", "s:007"', 1, 1, '1, 2', 4), workers=8,
                            min_states=50000, timeout=2800)]}
GEN = {'quick': [dict(module='MC_Storage', cfg=GCFG % 10, simulate=80, depth=11, min=60, timeout=300)],
       'thorough': [dict(module='MC_Storage', cfg=GCFG % 16, simulate=1500, depth=17, min=1000, timeout=2500)]}
EVIDENCE = dict(
    rule='a scenario is a history of writing, overwriting and reading files; non-trivial: a context with both objects and attributes is written and read',
    explanation='Every written file is compared line by line with the file of the specification, every read context with the parse of the specification.')


def literal(s):
    try:
        ast.literal_eval(s)
        return True
    except Exception:
        return False


def surrogate_free(s):
    return s


NAMES = [s for s in filedrv.LISTY if not literal(s)]


def ctx(r, n, m, ints, pool=None, density=None):
    o, a = filedrv.names(r, n, pool or NAMES, ints, .04), filedrv.names(r, m, pool or NAMES, ints, .04)
    d = density if density is not None else r.choice([0, .3, .5, .8, 1])
    return {"o": o, "a": a, "r": [[y for y in a if r.random() < d] for _ in o]}


def lines(c):
    return ['B', '', str(len(c['o'])), str(len(c['a'])), ''] + [x[2:] for x in c['o'] + c['a']] + \
        [''.join('X' if y in row else '.' for y in c['a']) for row in c['r']]


def scenarios(tier, seed):
    for b in generated():
        yield {"src": "gen", "ops": [e if e['op'] == 'write' else {"op": "read", "f": e['f'], "p": e['p']} for e in b]}
    import itertools
    for n, m in [(0, 0), (0, 2), (2, 0), (1, 1), (1, 2), (2, 1), (2, 2)]:
        for bits in itertools.product([0, 1], repeat=n * m):
            o, a = ['s:g%d' % i for i in range(n)], ['s:m%d' % j for j in range(m)]
            c = {"o": o, "a": a, "r": [[a[j] for j in range(m) if bits[i * m + j]] for i in range(n)]}
            yield {"ops": [{"op": "write", "f": "cxt", "p": "f", "c": c}, {"op": "read", "f": "cxt", "p": "f"},
                           {"op": "read", "f": "ucxt", "p": "f"}, {"op": "roundtrip", "f": "ucxt", "p": "f", "c": c}]}
    # every tricky name, as an object and as an attribute
    for x in NAMES:
        for side in 'oa':
            c = {"o": ['s:g', 's:' + x] if side == 'o' else ['s:g', 's:h'], "a": ['s:a', 's:' + x] if side == 'a' else ['s:a', 's:b']}
            c["r"] = [[c['a'][0]], [c['a'][1]]]
            yield {"ops": [{"op": "roundtrip", "f": f, "g": g, "p": "f", "c": c} for f, g in
                           (('cxt', 'cxt'), ('ucxt', 'cxt'))] +
                          ([{"op": "roundtrip", "f": f, "g": 'ucxt', "p": "f", "c": c} for f in ('cxt', 'ucxt')])}
    for i in range(gen.upto(tier, 400, 10000)):
        r = rng(seed, 'c21', i)
        ops = []
        last = {}
        for step in range(r.choice([2, 4, 8])):
            p = r.choice(['f', 'g.cxt', 'h h'])
            z = r.random()
            n, m = r.choice([(0, 3), (3, 0), (1, 1), (2, 3), (3, 3), (4, 4), (5, 2), (8, 12), (2, 30), (30, 2), (12, 12)]) if i % 40 != 9 else r.choice([(130, 3), (3, 130), (2, 300), (1030, 1)])
            if z < .35:
                f = r.choice(['cxt', 'cxt', 'ucxt'])
                c = ctx(r, n, m, .25 if f == 'cxt' and r.random() < .5 else 0)
                ops.append({"op": "write", "f": f, "p": p, "c": c})
                last[p] = c
            elif z < .45:
                f = r.choice(['cxt', 'ucxt'])
                ints = .3 if f == 'cxt' and r.random() < .5 else 0
                c = ctx(r, n, m, ints)
                ops.append({"op": "roundtrip", "f": f, "g": 'cxt' if ints else r.choice(['cxt', 'ucxt']), "p": p, "c": c})
                last[p] = c
            elif z < .6:
                c = ctx(r, n, m, .15)
                L = lines(c)
                z2 = r.random()
                if z2 < .3:
                    L[0] = r.choice(['', 'C', 'BB', '3', 'b', 'B B'])
                    ops.append({"op": "put", "p": p, "lines": L})
                else:
                    ops.append({"op": "put", "p": p, "lines": L, "open_end": bool(c['o']) and bool(c['a']) and r.random() < .4})
                last[p] = c
            elif last:
                ops.append({"op": "read", "f": r.choice(['cxt', 'ucxt']), "p": r.choice(sorted(last))})
        for p in sorted(last):
            ops.append({"op": "read", "f": r.choice(['cxt', 'ucxt']), "p": p})
        yield {"ops": ops}


def run(scn):
    return filedrv.run(scn)


def nontrivial(scn, tr):
    return any(e['op'] in ('read', 'roundtrip') for e in tr['ev']) and \
        any('c' in o and o['c'].get('o') and o['c'].get('a') for o in scn['ops'])
