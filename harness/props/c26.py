"""C26: many-valued contexts, scales and scaling."""
from drv import call
import gen
from gen import rng

TRACE = 'Trace_Scaling'
BATCH = 1500
CFG = '''INIT Init
NEXT Next
CONSTANTS N = %d M = %d Vals = {%s} Steps = %d Reads <- Id
INVARIANT Invariant
CHECK_DEADLOCK FALSE
'''
MODELS = {'quick': [dict(module='MC_Scaling', cfg=CFG % (2, 2, '0, 1, 2', 2), workers=3, min_states=2000)],
          'thorough': [dict(module='MC_Scaling', cfg=CFG % (3, 2, '0, 1, 2', 2), workers=4, min_states=10000, timeout=2800),
                       dict(module='MC_Scaling', cfg=CFG % (2, 3, '0, 2', 3), workers=4, min_states=5000, timeout=2800)]}
EVIDENCE = dict(
    rule='a scenario makes many-valued contexts, takes sub-contexts, makes scales and applies them; non-trivial: a scaled context with objects and attributes',
    explanation='Stored values, sub-contexts, scales and scaled contexts are compared with Scaling; scale conditions are sets of values.')
TEXTS = ['red', 'green', 'x y', 'é', 'A', 'a', '', 'value', 'None', 'True', '1a', '--1', '字', '<5', '7,5']
NUMS = ['0', '1', '2', '3', '5', '7', '-1', '2.5', '0.25', '10', '100', '-7.75']
# numbers that differ in late digits only, or are far from the others
FINE = ['1234567', '1234568', '1234567.5', '0.1', '0.3', '0.30000000000000004', '0.1000001', '1e-9', '2e-9', '1e16', '1.0000000000000002e16',
        '123456789012', '123456789013', '-1234567', '-0.0', '1e300', '16777217', '16777216', '33.333333333333336', '33.33333333333333']
# raw values: type and text


def raw(r, kind):
    if kind == 't':
        return ['s', r.choice(TEXTS)]
    x = r.choice(FINE if kind == 'f' and r.random() < .8 else NUMS)
    z = r.random()
    if kind == 'i':
        return ['i', r.choice(['0', '1', '2', '3', '4', '5'])]
    if z < .5:
        return ['s', x]
    if z < .6:
        return ['s', r.choice([x + '.0' if '.' not in x else x + '0', ' ' + x, x + 'e0'] if 'e' not in x else [' ' + x])]
    if '.' not in x and 'e' not in x and z < .8:
        return ['i', x]
    return ['f', repr(float(x))]


def number(x):
    """the number a raw value reads as, or None"""
    try:
        return float(x[1])
    except ValueError:
        return None


def nid(f):
    return 'n:%d' % (f * 4) if f * 4 == int(f * 4) and abs(f) < 1e8 else 'n:' + repr(f)


def scenarios(tier, seed):
    for lo in range(-2, 3):
        for hi in range(lo, 4):
            for mode in ('leq', 'geq', 'default'):
                yield {"raws": [['i', str(w)] for w in range(-4, 6)] + [['f', '0.5']],
                       "ops": [{"op": "ordinal", "s": "s", "lo": lo, "hi": hi, "mode": mode},
                               {"op": "new", "k": "m", "o": ['g%d' % i for i in range(10)], "a": ['x'], "v": [[i] for i in range(10)]},
                               {"op": "apply", "k": "m", "scales": ["s"]}]}
    for i in range(gen.upto(tier, 700, 12000)):
        r = rng(seed, 'c26', i)
        ops, raws = [], []

        def idx(x):
            if x not in raws:
                raws.append(x)
            return raws.index(x)
        n, m = r.choice([(0, 2), (1, 1), (2, 2), (3, 2), (4, 3), (5, 2), (6, 3), (3, 4), (2, 0), (8, 2)])
        if i % 60 == 11:
            n, m = r.choice([(70, 2), (2, 40), (260, 1)])
        kinds = [r.choice('tnif') for _ in range(m)]
        some = [[idx(raw(r, k)) for _ in range(r.choice([1, 2, 3, 5]))] for k in kinds]
        ops.append({"op": "new", "k": "k0", "o": gen.onames(n, r), "a": gen.anames(m, r),
                    "v": [[r.choice(some[j]) for j in range(m)] for _ in range(n)]})
        cols = {"k0": list(range(m))}
        scs = {}
        for step in range(r.choice([2, 4, 7])):
            k = r.choice(sorted(cols))
            js = cols[k]
            z = r.random()
            k2 = 'k%d' % len(cols)
            if z < .14:
                c = r.sample(range(len(js)), r.randrange(len(js) + 1)) if r.random() < .7 else list(range(len(js)))
                cols[k2] = [js[x] for x in c]
                ops.append({"op": "extract", "k": k, "k2": k2, "cols": c})
            elif z < .24:
                cols[k2] = list(js)
                ops.append({"op": "condition", "k": k, "k2": k2, "mask": r.randrange(256)})
            elif z < .36:
                cols[k2] = list(js)
                vals = [[x, r.choice(some[js[x]])] for x in r.sample(range(len(js)), r.choice([0, 1, 1, 2]) if len(js) > 1 else min(len(js), 1))]
                if vals and r.random() < .2:
                    vals[0][1] = idx(['f', repr(float(raws[vals[0][1]][1]))]) if raws[vals[0][1]][0] == 'i' else vals[0][1]
                ops.append({"op": "values", "k": k, "k2": k2, "vals": vals})
            else:
                use = []
                for x, j in enumerate(js):
                    s = 's%d' % len(scs)
                    z2 = r.random()
                    fit = [y for y in scs if scs[y] in (kinds[j], '*')]
                    if fit and z2 < .2:
                        use.append(r.choice(fit))
                        continue
                    if z2 < .45:
                        ops.append({"op": "nominal", "k": k, "s": s, "col": x, "by": r.choice(["name", "index"])})
                        scs[s] = kinds[j]
                    elif kinds[j] == 'i' and z2 < .7:
                        lo = r.choice([-1, 0, 1, 2])
                        ops.append({"op": "ordinal", "s": s, "lo": lo, "hi": lo + r.choice([0, 1, 2, 4]), "mode": r.choice(['leq', 'geq', 'default'])})
                        scs[s] = 'i'
                    else:
                        h, w = r.choice([0, 1, 2, 3, 4]), r.choice([0, 1, 2, 3])
                        conds = []
                        for _ in range(h):
                            c = []
                            for _ in range(r.choice([1, 1, 2])):
                                q = raws[r.choice(some[j])] if r.random() < .7 else raw(r, kinds[j])
                                idx(q)
                                num = number(q)
                                o = r.choice(['==', '!=', '==', '==', '==', '==', 'true']) if kinds[j] == 't' else r.choice(['==', '!=', '<', '<=', '>', '>=', '>', 'true'])
                                c.append({"op": o, "kind": 's' if num is None else 'n', "f": num or 0, "s": q[1] if num is None else ''})
                            conds.append(c)
                        ops.append({"op": "scale", "s": s, "conds": conds, "a": ['p%d' % q for q in range(w)] if r.random() < .6 else ['>5', '==1', 'x:y'][:w],
                                    "t": [[r.random() < .5 for _ in range(w)] for _ in range(h)], "as": r.choice(['scale', 'scale', 'context'])})
                        scs[s] = kinds[j]
                    use.append(s)
                ops.append({"op": "apply", "k": k, "scales": use})
        yield {"raws": raws, "ops": ops}


def run(scn):
    from fca import Context, ManyValuedContext, Scale, scale_mvcontext
    from fca.scale import NominalScale, OrdinalScale
    raws = scn['raws']

    def val(x):
        return {'s': str, 'i': int, 'f': float}[x[0]](x[1])

    def code(x):
        t = {str: 's', int: 'i', float: 'f'}.get(type(x), '?')
        return t + ':' + (x if t == 's' else repr(x))
    values = [val(x) for x in raws]
    pool, reads, eq = {}, {}, {}
    # the specification compares numbers by their ranks
    rank = {f: i for i, f in enumerate(sorted({number(x) for x in raws} - {None} |
                                              {b['f'] for op in scn['ops'] for c in op.get('conds', []) for b in c}))}
    for x, v in zip(raws, values):
        q = number(x)
        p = {"id": nid(q), "kind": 'n', "n": rank[q], "s": '', "f": q} if q is not None else {"id": 's:' + x[1], "kind": 's', "n": 0, "s": x[1], "f": 0}
        pool[p['id']] = p
        reads[code(v)] = p['id']
        eq[code(v)] = p['id'] if x[0] != 's' else 'text ' + x[1]
    live, scs, held, ev = {}, {}, {}, []

    def look(m):
        try:
            o, a = list(m.objects), list(m.attributes)
            rows = [[code(x) for x in m[i]] for i in range(len(m))]
            if [[code(x) for x in row] for row in m.table] != rows or [[code(x) for x in row] for row in m] != rows:
                raise ValueError
            return {"o": [str(x) for x in o], "a": [str(x) for x in a], "v": rows}
        except Exception as e:
            return {"o": ['?' + type(e).__name__], "a": [], "v": []}

    def scale_text(s):
        try:
            return [list(s.objects), list(s.attributes), [[bool(x) for x in row] for row in s]]
        except Exception:
            return None

    def made(s):
        holds = []
        for c in s.objects:
            h = []
            for p in pool.values():
                try:
                    if eval(c, {"value": p['f'] if p['kind'] == 'n' else p['s']}):
                        h.append(p['id'])
                except Exception:
                    pass
            holds.append(h)
        return {"holds": holds, "a": [str(a) for a in s.attributes],
                "r": [[j + 1 for j, x in enumerate(s[i]) if x] for i in range(len(s.objects))]}

    def text(cond):
        out = []
        for b in cond:
            out.append('True' if b['op'] == 'true' else 'value %s %s' % (b['op'], repr(b['s']) if b['kind'] == 's' else repr(float(b['f']))))
        return ' and '.join(out)
    for op in scn['ops']:
        e = {"op": op['op'], "k": op.get('k', ''), "s": op.get('s', '')}
        if op['op'] == 'new':
            v = [[values[x] for x in row] for row in op['v']]
            e.update(o=op['o'], a=op['a'], v=[[code(x) for x in row] for row in v])
            ok, m = call(ManyValuedContext, v, list(op['o']), list(op['a']))
            if ok:
                live[op['k']] = m
        elif op['op'] in ('extract', 'condition', 'values'):
            m = live[op['k']]
            e['k2'] = op['k2']
            if op['op'] == 'extract':
                e['names'] = [m.attributes[c] for c in op['cols']]
                ok, v = call(m.extract_subcontext, list(e['names']))
            elif op['op'] == 'condition':
                e['rows'] = [i + 1 for i in range(len(m)) if op['mask'] >> (i % 8) & 1]
                ok, v = call(m.extract_subcontext_by_condition, lambda i: bool(op['mask'] >> (i % 8) & 1))
            else:
                e['vals'] = [[m.attributes[c], code(values[x])] for c, x in op['vals']]
                ok, v = call(m.extract_subcontext_by_attribute_values, {m.attributes[c]: values[x] for c, x in op['vals']})
            if ok and isinstance(v, ManyValuedContext):
                live[op['k2']] = v
            else:
                e['out'] = 'exc'
                e['obs'], e['kept'] = {k: look(x) for k, x in live.items()}, True
                ev.append(dict(e))
                break
        elif op['op'] == 'scale':
            c = Context([list(x) for x in op['t']], ['(%s)' % text(x) + ' ' * i for i, x in enumerate(op['conds'])], list(op['a'])) if True else None
            e.update(conds=[[{"op": b['op'], "kind": b['kind'], "n": rank[b['f']] if b['kind'] == 'n' else 0, "s": b['s']} for b in x] for x in op['conds']], a=op['a'], r=[[j + 1 for j, x in enumerate(row) if x] for row in op['t']])
            ok, v = (True, c) if op['as'] == 'context' else call(Scale, c)
        elif op['op'] == 'nominal':
            m = live[op['k']]
            e['j'] = op['col'] + 1
            ok, v = call(NominalScale, m.attributes[op['col']] if op['by'] == 'name' else op['col'], m)
        elif op['op'] == 'ordinal':
            e.update(lo=op['lo'], hi=op['hi'], mode='leq' if op['mode'] == 'default' else op['mode'])
            ok, v = call(OrdinalScale, op['lo'], op['hi']) if op['mode'] == 'default' else call(OrdinalScale, op['lo'], op['hi'], op['mode'])
        else:
            e['scales'] = op['scales']
            ok, v = call(scale_mvcontext, live[op['k']], [scs[s] for s in op['scales']])
            e['c'] = {"o": ['?'], "a": [], "r": []}
            if ok:
                try:
                    e['c'] = {"o": [str(x) for x in v.objects], "a": [str(x) for x in v.attributes],
                              "r": [sorted(str(a) for a in v.get_object_intent(g)) for g in v.objects]}
                    if [[a for a, b in zip(v.attributes, row) if b] for row in v] != [[a for a in v.attributes if a in x] for x in e['c']['r']]:
                        e['c'] = {"o": ['?'], "a": [], "r": []}
                except Exception:
                    ok = False
        if op['op'] in ('scale', 'nominal', 'ordinal'):
            e['made'] = {"holds": [], "a": [], "r": []}
            if ok:
                ok2, x = call(made, v)
                if ok2:
                    e['made'] = x
                    scs[op['s']] = v
                    held[op['s']] = scale_text(v)
                ok = ok and ok2
        e['out'] = 'ok' if ok else 'exc'
        e['obs'] = {k: look(x) for k, x in live.items()}
        e['kept'] = all(scale_text(scs[s]) == held[s] for s in scs)
        ev.append(e)
        if not ok and op['op'] != 'apply':
            break
    return {"h": {"pool": [{y: p[y] for y in ('id', 'kind', 'n', 's')} for p in pool.values()], "reads": reads, "eq": eq}, "ev": ev}


def nontrivial(scn, tr):
    return any(e['op'] == 'apply' and e['c']['o'] and e['c']['a'] for e in tr['ev'])
