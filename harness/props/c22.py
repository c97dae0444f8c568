"""C22: tab-separated and comma-separated tables, FIMI."""
import gen
import filedrv
from drv import generated
from gen import rng
from props.c21 import CFG, GCFG

TRACE = 'Trace_Storage'
BATCH = 3000
MODELS = {'quick': [dict(module='MC_Storage', cfg=CFG % ('"s:a", "s:1"', 2, 2, '1', 3), workers=3, min_states=200)],
          'thorough': [dict(module='MC_Storage', cfg=CFG % ('"s:a", "s:1", "s:x y"', 2, 2, '1', 3), workers=8, min_states=2000, timeout=2800)]}
GEN = {'quick': [dict(module='MC_Storage', cfg=GCFG % 10, simulate=80, depth=11, min=60, timeout=300)],
       'thorough': [dict(module='MC_Storage', cfg=GCFG % 16, simulate=1500, depth=17, min=1000, timeout=2500)]}
EVIDENCE = dict(
    rule='a scenario is a history of writing, overwriting and reading table files; non-trivial: a table with rows is read or exported',
    explanation='Every file written is compared with the file of the specification, every table read with the parse of the specification.')
VALS = [' 1', 'x ', ' ', '0', '1', '7', '3.5', '-2', 'x', 'red', 'a b', 'é', '10', '字', '1e3', '%', 'None']
NOCOMMA = [s for s in filedrv.PLAIN if ',' not in s]


def bin_(r, n, m, pool=filedrv.PLAIN):
    o, a = filedrv.names(r, n, pool), filedrv.names(r, m, pool)
    d = r.choice([0, .3, .5, .8, 1])
    return {"o": o, "a": a, "r": [[y for y in a if r.random() < d] for _ in o]}


def mv(r, n, m, pool=filedrv.PLAIN, vals=VALS, blank=.1):
    o, a = filedrv.names(r, n, pool), filedrv.names(r, m, pool)
    v = [['s:' + r.choice(vals) for _ in a] for _ in o]
    for row in v:
        for j in range(1, m):
            if r.random() < blank:
                row[j] = 's:'
    return {"o": o, "a": a, "v": v}


TYPED = ['i:0', 'i:1', 'i:-3', 'f:0.0', 'f:2.5', 'f:1e-05', 'b:True', 'b:False', 'N:None', 'i:100000000000', 'f:0.3333333333333333', 'f:0.30000000000000004', 'f:123456789.12345679', 'f:1e+22', 'f:-2.220446049250313e-16', 'i:12345678901234567890']


def typed(r, c):
    for row in c['v']:
        for j in range(len(row)):
            if r.random() < .4:
                row[j] = r.choice(TYPED)
    return c


def t(xs):
    return [x[2:] for x in xs]


def table(f, c, tail=False):
    bits = [['1' if y in row else '0' for y in c['a']] for row in c['r']] if 'r' in c else [t(row) for row in c['v']]
    head = '\t'.join(t(c['a'])) + ('\t' if tail else '')
    if f == 'txt':
        return [head, ''] + ['\t'.join(b) for b in bits]
    if f == 'txtnames':
        return [head, ''] + ['\t'.join([o] + b) for o, b in zip(t(c['o']), bits)]
    if f == 'mv':
        return ['\t'.join(t(c['o'])), '\t'.join(t(c['a'])), ''] + ['\t'.join(b) for b in bits]
    return [','.join(t(c['a']))] + [','.join([o] + b) for o, b in zip(t(c['o']), bits)]


def scenarios(tier, seed):
    for b in generated():
        yield {"src": "gen", "ops": [e if e['op'] == 'write' else {"op": "read", "f": e['f'], "p": e['p']} for e in b
                                     if e['op'] == 'read' and e['f'] in ('mv', 'umv') or e['op'] == 'write' and e['f'] == 'mv']}
    import itertools
    for n, m in [(0, 1), (0, 2), (1, 1), (1, 2), (2, 1), (2, 2)]:
        for bits in itertools.product([0, 1], repeat=n * m):
            o, a = ['s:%s' % x for x in ('1', '0')][:n], ['s:%s' % x for x in ('0', 'm')][:m]
            c = {"o": o, "a": a, "r": [[a[j] for j in range(m) if bits[i * m + j]] for i in range(n)]}
            ops = []
            for f in ('txt', 'txtnames', 'csv'):
                ops += [{"op": "put", "p": f, "lines": table(f, c)}, {"op": "read", "p": f, "f": f}]
            yield {"ops": ops + [{"op": "write", "f": "fimi", "p": "x", "c": c}]}
    for i in range(gen.upto(tier, 600, 12000)):
        r = rng(seed, 'c22', i)
        ops, seen = [], {}
        for step in range(r.choice([2, 4, 8])):
            p = r.choice(['f', 'g.txt', 'h h'])
            z = r.random()
            n, m = r.choice([(0, 3), (1, 1), (2, 3), (3, 3), (4, 4), (5, 2), (8, 12), (2, 30), (30, 2), (12, 12)]) if i % 40 != 9 else r.choice([(130, 3), (3, 130), (2, 300), (1030, 1)])
            if z < .15:
                f = r.choice(['mv', 'umv'])
                ops.append({"op": "write", "f": f, "p": p, "c": typed(r, mv(r, n, m)) if i % 3 == 0 else mv(r, n, m)})
                seen[p] = ['mv', 'umv']
            elif z < .25:
                f = r.choice(['mv', 'umv'])
                ops.append({"op": "roundtrip", "f": f, "g": r.choice(['mv', 'umv']), "p": p, "c": typed(r, mv(r, n, m)) if i % 3 == 0 else mv(r, n, m)})
                seen[p] = ['mv', 'umv']
            elif z < .33:
                c = bin_(r, n, m, [s for s in filedrv.PLAIN if ' ' not in s])
                c['a'] = [x for x in c['a']]
                ops.append({"op": "write", "f": "fimi", "p": p, "c": c})
                seen.pop(p, None)
            elif z < .75:
                f = r.choice(['txt', 'txtnames', 'mv', 'mvcsv', 'csv'])
                c = mv(r, n, m, filedrv.PLAIN) if f in ('mv', 'mvcsv') else bin_(r, n, m)
                if f == 'txt':
                    c = dict(c, o=[])
                tail = f in ('txt', 'txtnames') and n > 0 and r.random() < .3
                L = table(f, c, tail)
                ops.append({"op": "put", "p": p, "lines": L, "open_end": n > 0 and r.random() < .3})
                seen[p] = {'mv': ['mv', 'umv'], 'csv': ['csv', 'mvcsv']}.get(f, [f])
            elif seen:
                p = r.choice(sorted(seen))
                ops.append({"op": "read", "f": r.choice(seen[p]), "p": p})
        for p in sorted(seen):
            ops.append({"op": "read", "f": r.choice(seen[p]), "p": p})
        yield {"ops": ops}


def run(scn):
    return filedrv.run(scn)


def nontrivial(scn, tr):
    return any(e['op'] in ('read', 'roundtrip') and e['c'].get('o') or e['op'] == 'write' and e['c'].get('o') for e in tr['ev'])
