"""C14: clarification and reduction."""
import gen
from gen import rng

TRACE = 'Trace_Reduce'
BATCH = 1500
CFG = 'INIT Init\nNEXT Next\nCONSTANTS N=%d M=%d\nINVARIANTS Possible Iso Idempotent\nCHECK_DEADLOCK FALSE\n'
MODELS = {'quick': [dict(module='MC_Reduction', cfg=CFG % (2, 3), workers=3, min_states=100),
                    gen.theory(3, 3, 0, ['Reduce'], workers=2)],
          'thorough': [dict(module='MC_Reduction', cfg=CFG % (3, 3), workers=8, min_states=100, timeout=2500),
                       gen.theory(4, 4, 0, ['Reduce'], workers=8)]}
EVIDENCE = dict(
    rule='all contexts up to 3x3 (thorough 4x3, 3x4, 5x2, 2x5), seeded random ones up to 12x8 with repeated, full, empty '
         'and reducible rows, and wide ones with 60 to 140 and more than a thousand attributes or objects, reductions chained, operands and '
         'results re-read after edits of either; non-trivial: something was removed',
    explanation='Judged by Clarified, ReducedObjects, ReducedAttributes of module Reduction.')
OPS = ['clarify_objects', 'reduce_objects', 'reduce_attributes']


def chain(r, n=3):
    ops, ks = [], ['c']
    for i in range(n):
        k = 'r%d' % i
        ops.append([r.choice(OPS), k, r.choice(ks)])
        ks.append(k)
        if r.random() < 0.25:
            ops.append(['edit', r.choice(ks), r.randrange(100)])
    return ops


def wide(r, n, m):
    """rows near the top and the bottom of the machine word"""
    rows = []
    for _ in range(n):
        z = r.random()
        if z < 0.3:
            row = [1] * m
            for _ in range(r.choice([1, 1, 2])):
                row[r.randrange(m)] = 0
        elif z < 0.5:
            row = [0] * m
            row[r.choice([0, m - 1, m - 64 if m > 64 else 0, 62, 63, r.randrange(m)]) % m] = 1
        elif z < 0.8 and len(rows) > 1:
            a, b = r.choice(rows), r.choice(rows)
            row = [x & y for x, y in zip(a, b)]
        else:
            row = [1 if r.random() < r.choice([.5, .9]) else 0 for _ in range(m)]
        rows.append(row)
    return rows


def scenarios(tier, seed):
    shapes = [(n, m) for n in range(4) for m in range(4)]
    if tier == 'thorough':
        shapes += [(4, 3), (3, 4), (5, 2), (2, 5), (4, 1), (1, 4)]
    for n, m in shapes:
        for tbl in gen.masks(n, m):
            yield {"n": n, "m": m, "tbl": tbl, "ops": [[o, o, 'c'] for o in OPS] + [['reduce_attributes', 'both', 'reduce_objects']]}
    for i, (n, m) in enumerate([(4, 1003), (3, 1100), (1003, 3), (1100, 4), (5, 257)]):      # longer than a printed row
        r = rng(seed, 'c14long', i)
        a, b = min(n, m), max(n, m)
        base = [1 if r.random() < .9 else 0 for _ in range(b)]
        rows = [list(base) for _ in range(a)]
        for row in rows[1:]:
            row[b // 2 + r.randrange(-20, 20)] ^= 1
        tbl = rows if n == a else [list(x) for x in zip(*rows)]
        yield {"n": n, "m": m, "tbl": tbl, "ops": [['clarify_objects', 'k', 'c']] + ([['reduce_objects', 'r', 'c']] if n == a else
                                                                                  [['reduce_attributes', 'r', 'c']])}
    for i in range(gen.upto(tier, 500, 8000)):
        r = rng(seed, 'c14', i)
        if i % 6 == 0:
            n, m = r.choice([(5, 63), (5, 64), (6, 65), (5, 70), (4, 130), (8, 66), (5, 62), (6, 32), (6, 53)])
            tbl = wide(r, n, m)
            if r.random() < 0.4:
                tbl = [list(c) for c in zip(*tbl)]
                n, m = m, n
        else:
            n, m = r.choice([(4, 4), (6, 4), (8, 3), (12, 4), (5, 8), (8, 8), (3, 9), (12, 2)])
            tbl = gen.table(r, n, m, r.choice([.5, .6, .75, .9]))
            if r.random() < .6:
                for _ in range(3):      # reducible rows
                    a, b, x = r.randrange(n), r.randrange(n), r.randrange(n)
                    tbl[x] = [p & q for p, q in zip(tbl[a], tbl[b])]
        yield {"n": n, "m": m, "tbl": tbl, "ops": chain(r, r.choice([1, 2, 4])), "shuffle": i}


def run(scn):
    import random
    from drv import call
    from fca import Context
    n, m = scn['n'], scn['m']
    O, A = gen.onames(n), gen.anames(m)
    if 'shuffle' in scn:
        r = random.Random(scn['shuffle'])
        if scn['shuffle'] % 19 == 5:
            O, A = gen.onames(n, r, 3), gen.anames(m, r, 3)
        r.shuffle(O)
        r.shuffle(A)
    live, ev = {}, []

    def view(c):
        try:
            return {"o": list(map(str, c.objects)), "a": list(map(str, c.attributes)),
                    "r": [[str(a) for a, v in zip(list(c.attributes) + ['?'] * 9, row) if v] for row in c]}
        except Exception:
            return {"o": ['?'], "a": ['?'], "r": []}

    def emit(op, k, frm, ok):
        ev.append({"op": op, "k": k, "from": frm, "out": 'ok' if ok else 'exc',
                   "d": view(live[k]) if ok else {"o": [], "a": [], "r": []},
                   "views": [{"k": x, "c": view(c)} for x, c in live.items()]})
    live['c'] = Context([[bool(x) for x in row] for row in scn['tbl']], O, A)
    emit('new', 'c', 'c', True)
    for op in scn['ops']:
        if op[0] == 'edit':
            if op[1] in live:
                c = live[op[1]]
                call(c.add_object, [bool(op[2] >> j % 7 & 1) for j in range(len(c.attributes))], 'added%d' % op[2])
                emit('edit', op[1], op[1], True)
            continue
        if op[2] not in live:
            continue
        ok, d = call(getattr(live[op[2]], op[0]))
        if ok:
            live[op[1]] = d
        emit(op[0], op[1], op[2], ok)
    return {"h": {"x": 0}, "ev": ev}


def nontrivial(scn, tr):
    return any(e['op'] in OPS and len(e['d']['o']) + len(e['d']['a']) < scn['n'] + scn['m'] for e in tr['ev'])
