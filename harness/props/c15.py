"""C15: basic exploration."""
from drv import call, generated
import gen
from gen import rng

TRACE = 'Trace_BasicExploration'
BATCH = 1200
CFG = '''INIT Init
NEXT Next
CONSTANTS O = {"g", "h"} A = {"a", "b", "c"} MaxO = %d MaxA = %d MaxConf = %d Depth = 0
CONSTRAINT Small
INVARIANTS Invariant Progress
CHECK_DEADLOCK FALSE
'''
GCFG = '''INIT Init
NEXT Random
CONSTANTS O = {"g", "h", "i", "j"} A = {"a", "b", "c", "d"} MaxO = 4 MaxA = 4 MaxConf = 9 Depth = %d
INVARIANT Out
CHECK_DEADLOCK FALSE
'''
MODELS = {'quick': [dict(module='MC_BasicExploration', cfg=CFG % (1, 2, 2), workers=3, min_states=50)],
          'thorough': [dict(module='MC_BasicExploration', cfg=CFG % (2, 2, 2), workers=8, min_states=500, timeout=2800)]}
GEN = {'quick': [dict(module='MC_BasicExploration', cfg=GCFG % 11, simulate=200, depth=12, min=50, timeout=300)],
       'thorough': [dict(module='MC_BasicExploration', cfg=GCFG % 15, simulate=1500, depth=16, min=500, timeout=2500)]}
EVIDENCE = dict(
    rule='a scenario is a history of confirmations, counterexamples, additions and edits in one or two explorations of '
         'one initial context: behaviours of MC_BasicExploration and seeded random histories; non-trivial: at least one '
         'confirmation and one later accepted change',
    explanation='Every event is validated against BasicExploration; open implications are judged by exactness.')


def scenarios(tier, seed):
    for b in generated():
        c = b[0]['c']
        ops = [{"op": "start", "x": "x", "o": c['o'], "a": c['a'], "r": c['r']}]
        for e in b[1:]:
            ops.append(dict(e, x="x", exact=True))
        yield {"src": "gen", "ops": ops}
    for i in range(gen.upto(tier, 450, 6000)):
        r = rng(seed, 'c15', i)
        n, m = r.choice([(0, 2), (0, 3), (1, 3), (2, 2), (2, 3), (3, 3), (3, 4), (2, 4), (1, 1), (4, 4)])
        wide = i % 45 == 13
        if wide:
            n, m = r.choice([(24, 3), (3, 24), (12, 12)])
        a, o = gen.anames(m, r, 3 if i % 19 == 5 else 0), gen.onames(n, r, 3 if i % 19 == 5 else 0)
        tbl = gen.blocks(r, n, m) if wide else gen.table(r, n, m)
        ops = [{"op": "start", "x": "x", "o": o, "a": a, "r": [[a[j] for j in range(m) if row[j]] for row in tbl]}]
        xs = ['x']
        fresh = 0
        for _ in range(r.choice([5, 9, 14])):
            z = r.random()
            x = r.choice(xs)
            fresh += 1
            if z < 0.06 and len(xs) < 3:
                xs.append('x%d' % len(xs))
                ops.append({"op": "start", "x": xs[-1], "same": "x"})
            elif z < 0.3:
                ops.append({"op": r.choice(["confirm_a", "confirm_a", "confirm_o"]), "x": x,
                            "n": r.randrange(20) if r.random() < .95 else 999})
            elif z < 0.52:
                ops.append({"op": r.choice(["counter_a", "counter_o"]), "x": x, "n": r.randrange(20),
                            "mask": r.randrange(256), "hit": r.random() < .7, "name": 'new%d' % fresh, "used": r.randrange(9) if r.random() < .3 else -1})
            elif z < 0.7:
                ops.append({"op": r.choice(["add_object", "add_attribute"]), "x": x, "mask": r.randrange(256),
                            "close": r.random() < .5, "name": 'new%d' % fresh, "extra": r.random() < .06, "used": r.randrange(9) if r.random() < .3 else -1})
            elif z < 0.95:
                ops.append({"op": r.choice(["edit_object", "edit_attribute"]), "x": x, "mask": r.randrange(256),
                            "close": r.random() < .4, "which": r.randrange(9) if r.random() < .95 else 'nowhere',
                            "extra": r.random() < .05, "flip": r.random() < .4})
            else:
                ops.append({"op": "look", "x": x})
        yield {"ops": ops}


def run(scn):
    import random
    from fca import Context
    from fca.algorithms.exploration import BasicExploration
    live, starts, ev = {}, {}, []

    def cx(c):
        try:
            O, A = list(c.objects), list(c.attributes)
            return {"o": [str(x) for x in O], "a": [str(x) for x in A],
                    "r": [sorted(str(a) for a in c.get_object_intent(o)) for o in O]}
        except Exception:
            return {"o": ['?'], "a": ['?'], "r": []}

    def imps(L):
        try:
            return [[sorted(map(str, i.premise)), sorted(map(str, i.get_conclusion()))] for i in L]
        except Exception:
            return [[['?'], ['?']]]

    def obs(x):
        return {"c": cx(x.context), "ca": imps(x.confirmed_attribute_implications),
                "co": imps(x.confirmed_object_implications), "oa": imps(x.attribute_implications),
                "oo": imps(x.object_implications)}

    def emit(e, ok):
        d = {"op": e['op'], "x": e['x'], "i": e.get('i', 0), "s": sorted(e.get('s', [])), "name": e.get('name', ''),
             "out": "ok" if ok else "exc", "obs": obs(live[e['x']]),
             "others": [{"x": y, "obs": obs(live[y]), "c": cx(starts[y])} for y in live]}
        if 'c' in e:
            d['c'] = e['c']
        ev.append(d)

    def close(S, conf):
        S = set(S)
        for _ in range(20):
            for i in conf:
                if set(i.premise) <= S:
                    S |= set(i.get_conclusion())
        return S
    for n, op in enumerate(scn['ops']):
        r = random.Random('%s/%s' % (n, op.get('mask', 0)))
        k = op['x']
        if op['op'] == 'start':
            if 'same' in op:
                c = starts[op['same']]
            else:
                c = Context([[a in row for a in op['a']] for row in op['r']], op['o'], op['a'])
            before = cx(c)
            ok, x = call(BasicExploration, c)
            if not ok:
                return {"h": {}, "ev": [], "abort": "BasicExploration raises %r" % x}
            live[k], starts[k] = x, c
            emit({"op": "start", "x": k, "c": before}, True)
            continue
        x = live[k]
        att = op['op'].endswith('_a')
        opens = x.attribute_implications if att else x.object_implications
        conf = x.confirmed_attribute_implications if att else x.confirmed_object_implications
        e = {"op": op['op'], "x": k}
        if op['op'] in ('confirm_a', 'confirm_o', 'counter_a', 'counter_o'):
            if op.get('exact'):
                want = [set(op['imp'][0]), set(op['imp'][1])]
                idx = [j for j, i in enumerate(opens) if set(i.premise) == want[0]]
                if not idx:
                    continue
                idx = idx[0]
            elif op['n'] == 999:
                idx = len(opens) + 3
            elif not opens:
                continue
            else:
                idx = op['n'] % len(opens)
            e['i'] = idx + 1
        if op['op'] in ('confirm_a', 'confirm_o'):
            ok, v = call(x.confirm_attribute_implication if att else x.confirm_object_implication, idx)
        elif op['op'] in ('counter_a', 'counter_o'):
            names = list(x.context.attributes if att else x.context.objects)
            if op.get('exact'):
                s = set(op['s'])
            else:
                s = {a for j, a in enumerate(names) if op['mask'] >> j & 1}
                if op['hit']:
                    s = close(s | set(opens[idx].premise), conf)
                    if set(opens[idx].conclusion) <= s:
                        s = close(set(opens[idx].premise), conf)
            name = op['name']
            same = list(x.context.objects if att else x.context.attributes)
            if op.get('used', -1) >= 0 and same and not (
                    set(opens[idx].premise) <= s and not set(opens[idx].conclusion) <= s and close(s, conf) == s):
                # a name in use, but only where the example is refused for its content
                name = same[op['used'] % len(same)]
            e.update(s=s, name=name)
            ok, v = call(x.counter_example_for_attr_implication if att else x.counter_example_for_obj_implication,
                         name, set(s), idx)
        elif op['op'] == 'look':
            ok = call(repr, x)[0]
        else:
            obj = op['op'].endswith('object')
            names = list(x.context.attributes if obj else x.context.objects)
            same = list(x.context.objects if obj else x.context.attributes)
            conf = x.confirmed_attribute_implications if obj else x.confirmed_object_implications
            if op.get('exact'):
                s, name = set(op['s']), op['name']
            else:
                name = op.get('name')
                if 'which' in op:
                    if op['which'] == 'nowhere':
                        name = 'nowhere'
                    elif not same:
                        continue
                    else:
                        name = same[op['which'] % len(same)]
                s = {a for j, a in enumerate(names) if op['mask'] >> j & 1}
                if op.get('flip') and name in same and names:
                    # a small change of the present state
                    cur = set(x.context.get_object_intent(name) if obj else x.context.get_attribute_extent(name))
                    s = cur ^ {names[op['mask'] % len(names)]}
                if op['close']:
                    s = close(s, conf)
                if op['extra']:
                    s.add('unknown')
                if op.get('used', -1) >= 0 and same and close(s, conf) != s:
                    name = same[op['used'] % len(same)]
            e.update(s=s, name=name)
            ok, v = call(getattr(x, op['op']), set(s), name)
        emit(e, ok)
    return {"h": {"x": 0}, "ev": ev}


def nontrivial(scn, tr):
    c = [i for i, e in enumerate(tr['ev']) if e['op'].startswith('confirm') and e['out'] == 'ok']
    return bool(c) and any(e['out'] == 'ok' and e['op'] not in ('look', 'start') for e in tr['ev'][c[0] + 1:])
