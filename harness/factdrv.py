"""Driver for factorisations (spec/Trace_Factors.tla)."""
from drv import call

CFG = '''SPECIFICATION Spec
CONSTANTS N = %d M = %d Mins = {%s} Fids = {%s} Algs = {%s} Samples = %d
INVARIANT Invariant
PROPERTY Ends
CHECK_DEADLOCK FALSE
'''


def enc(xs):
    try:
        return sorted(x if type(x) is str else '?' + repr(x)[:30] for x in xs)
    except TypeError:
        return ['?', '?']


def cx(c):
    try:
        O, A = list(c.objects), list(c.attributes)
        return {"o": [str(x) for x in O], "a": [str(x) for x in A],
                "r": [sorted(str(a) for a in c.get_object_intent(o)) for o in O]}
    except Exception:
        return {"o": ['?'], "a": ['?'], "r": []}


def count(x, total):
    """a reported fraction as a number of incidences"""
    try:
        n = round(float(x) * total)
        return int(n) if abs(float(x) * total - n) < 1e-6 else -1
    except Exception:
        return -1


def factor(y, total):
    try:
        con = y[0]
        return {"x": enc(con.extent), "b": enc(con.intent), "n": count(y[1], total), "t": count(y[2], total) if len(y) > 2 else 0}
    except Exception:
        return {"x": ['?'], "b": ['?'], "n": -1, "t": -1}


def run(scn):
    from fca import Context
    from fca.concept import Concept
    from fca.algorithms import factors as F
    ev = []
    cs = [Context([[a in row for a in s['a']] for row in s['r']], list(s['o']), list(s['a'])) for s in scn['cxts']]
    its = []
    for op in scn['runs']:
        c = cs[op['c']]
        total = sum(len(row) for row in scn['cxts'][op['c']]['r'])
        fid = op['fid'][0] / op['fid'][1]
        if op['op'] == 'greedy':
            ok, it = call(F.algorithm2, c) if op.get('default') else call(F.algorithm2, c, fid)
        elif op['op'] == 'weighted':
            ok, it = call(F.algorithm2_weighted, c, fidelity=fid)
        elif op['op'] == 'conditional':
            ok, it = call(F.algorithm2_w_condition, c, fidelity=fid, allow_repeatitions=op['p']['rep'],
                          min_atts_and_objs=op['p']['min'], objs_ge_atts=op['p']['objs_ge_atts'])
        else:
            ok, it = True, None
        its.append({"op": op, "c": c, "total": total, "it": iter(it) if ok and it is not None else None, "ok": ok,
                    "got": [], "done": False, "live": True, "cons": []})
    # the runs take turns
    turn = 0
    while any(x['live'] and x['it'] is not None and x['ok'] for x in its) and turn < 5000:
        for x in its:
            if not (x['live'] and x['it'] is not None and x['ok']):
                continue
            if len(x['got']) >= x['op'].get('stop', 10 ** 9):
                x['live'] = False
                continue
            ok, v = call(next, x['it'])
            if ok:
                x['got'].append(factor(v, x['total']))
                x['cons'].append(v[0] if isinstance(v, (tuple, list)) and v else v)
                if len(x['got']) > x['total'] + 2:      # every factor covers something new: this does not end
                    x['live'] = x['ok'] = False
            else:
                x['live'] = False
                x['done'] = isinstance(v, StopIteration)
                x['ok'] = x['done']
        turn += 1
    for x in its:
        op = x['op']
        if op['op'] == 'contexts':
            continue
        ev.append({"op": op['op'], "c": scn['cxts'][op['c']], "after": cx(x['c']), "out": "ok" if x['ok'] else "exc",
                   "fid": [1, 1] if op.get('default') else op['fid'], "fs": x['got'], "done": x['done'],
                   "p": op.get('p', {"min": 0, "objs_ge_atts": False, "rep": True})})
    for x in its:
        op = x['op']
        if op['op'] == 'greedy' and op.get('contexts') or op['op'] == 'contexts':
            if op['op'] == 'contexts':
                cons = [Concept(f['x'], f['b']) for f in op['fs']]
                fs = [dict(f, n=0, t=0) for f in op['fs']]
            else:
                cons, fs = x['cons'], x['got']
            ok, v = call(F.make_factor_cxts, cons) if op.get('as') != 'none' else call(F.make_factor_cxts)
            full = op['op'] == 'greedy' and x['done'] and (op.get('default') or op['fid'][0] == op['fid'][1])
            ev.append({"op": "contexts", "c": scn['cxts'][op['c']], "after": cx(x['c']), "out": "ok" if ok else "exc",
                       "fs": fs, "full": bool(full), "c1": cx(v[0]) if ok else cx(None), "c2": cx(v[1]) if ok else cx(None)})
    return {"h": {"x": 0}, "ev": ev}


def context(r, n, m, gen, d=None):
    style = 3 if r.random() < .1 else 0
    a, o = gen.anames(m, r, style), gen.onames(n, r, style)
    tbl = gen.table(r, n, m, d)
    return {"o": o, "a": a, "r": [sorted(a[j] for j in range(m) if row[j]) for row in tbl]}
