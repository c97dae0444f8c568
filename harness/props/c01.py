"""C01: context edits are exact set edits; every view agrees."""
from drv import generated
import gen
from gen import rng

TRACE = 'Trace_Context'
BATCH = 1500
MCCFG = '''INIT Init
NEXT Next
CONSTANTS ONames = %s ANames = %s MaxO = %d MaxA = %d Depth = 3
CONSTRAINT Small
INVARIANTS TypeOK EveryEditExact UndoAdd UndoRename
CHECK_DEADLOCK FALSE
'''
GENCFG = '''INIT Init
NEXT %s
CONSTANTS ONames = {"g", "h", "g_0"} ANames = {"a", "b", "a_1"} MaxO = 3 MaxA = 3 Depth = %d
INVARIANT Out
CHECK_DEADLOCK FALSE
'''
MODELS = {
    'quick': [dict(module='MC_Context', cfg=MCCFG % ('{"g", "g_0"}', '{"a"}', 2, 1), workers=3, min_states=50)],
    'thorough': [dict(module='MC_Context', cfg=MCCFG % ('{"g", "h", "g_0"}', '{"a", "b", "a_1"}', 2, 2), workers=8,
                      timeout=2400, min_states=5000)],
}
GEN = {
    'quick': [dict(module='Gen_Context', cfg=GENCFG % ('Random', 10), simulate=300, depth=10, min=100)],
    'thorough': [dict(module='Gen_Context', cfg=GENCFG % ('Random', 14), simulate=4000, depth=14, min=1000),
                 dict(module='Gen_Context', cfg=GENCFG % ('Every', 3), workers=4, min=1000, timeout=2000)],
}
EVIDENCE = dict(
    rule='a scenario is one history of edits on several live contexts (behaviours of Gen_Context and seeded random '
         'histories, the latter also with copies); non-trivial: at least three accepted edits',
    explanation='Every event is validated against ContextEdits: outcome (accepted/refused), all views of all live '
                'contexts, arguments handed in by the caller.')
NAMEPOOL_O = ['g1', 'g2', 'g3', 'g1_0', 'g2_1', 'g3_2', 'x', 'g1_0_0', '']
NAMEPOOL_A = ['a', 'b', 'c', 'a_0', 'b_1', 'a_0_0', 'not a', 'ä β', 'a_1', 'c_2']


def some_set(r, tricky=True):
    s = {"m": r.randrange(1 << 12), "as": r.choice(['list', 'tuple', 'set', 'frozenset', 'list'])}
    if tricky and r.random() < 0.12:
        s["x"] = ['nowhere']
    if s['as'] in ('list', 'tuple') and r.random() < 0.15:
        s["rep"] = 1
    if r.random() < 0.3:
        s["rev"] = 1
    return s


def a_row(r):
    d = 0 if r.random() < 0.88 else r.choice([-1, 1, 2])
    return {"m": r.randrange(1 << 14), "d": d, "as": r.choice(['list', 'list', 'tuple', 'int', 'np'])}


def an_edit(r, k, oname, aname):
    def name(pool):
        return r.choice(pool)

    def existing():
        return {"i": r.randrange(50)} if r.random() < 0.9 else 'nowhere'
    z = r.randrange(12)
    if z == 0:
        return {"op": "add_object", "k": k, "row": a_row(r), "name": name(oname)}
    if z == 1:
        return {"op": "add_attribute", "k": k, "row": a_row(r), "name": name(aname)}
    if z == 2:
        return {"op": "add_object_with_intent", "k": k, "set": some_set(r), "name": name(oname)}
    if z == 3:
        return {"op": "add_attribute_with_extent", "k": k, "set": some_set(r), "name": name(aname)}
    if z == 4:
        return {"op": "set_object_intent", "k": k, "set": some_set(r), "name": existing()}
    if z == 5:
        return {"op": "set_attribute_extent", "k": k, "set": some_set(r), "name": existing()}
    if z == 6:
        return {"op": "delete_object", "k": k, "name": existing()}
    if z == 7:
        return {"op": "delete_attribute", "k": k, "name": existing()}
    if z == 8:
        s = some_set(r)
        s['m'] &= r.randrange(1 << 12) & r.randrange(1 << 12)
        return {"op": "delete_attributes", "k": k, "set": s}
    if z == 9:
        return {"op": "rename_object", "k": k, "old": existing(), "name": name(oname)}
    if z == 10:
        return {"op": "rename_attribute", "k": k, "old": existing(), "name": name(aname)}
    return {"op": "remove_empty_objects", "k": k}


def history(r, length, copies=True):
    ints = r.random() < 0.3
    oname = NAMEPOOL_O + ([1, 2, 3, '#', 4] if ints else [])
    aname = NAMEPOOL_A + ([1, 2, 7, 0] if ints else [])
    oname = [x for x in oname if x != '#']
    n, m = r.choice([0, 0, 1, 2, 3, 4, 5]), r.choice([0, 1, 2, 3, 4, 5])
    if r.random() < 0.15:
        n, m = gen.big(r, [(9, 3), (3, 11), (12, 12), (0, 6)], 0.15)
    clash = r.random() < 0.3
    o = [r.choice(oname) for _ in range(n)] if clash else gen.onames(n, r)
    a = [r.choice(aname) for _ in range(m)] if clash else gen.anames(m, r)
    tbl = gen.table(r, n, m)
    if r.random() < 0.06 and tbl:
        z = r.randrange(3)
        if z == 0:
            tbl = tbl[:-1]
        elif z == 1:
            tbl[0] = tbl[0] + [1]
        else:
            tbl = [row + [0] for row in tbl]
    ks = ['c1']
    ops = [{"op": "new", "k": 'c1', "o": o, "a": a, "tbl": tbl}]
    for i in range(length):
        z = r.random()
        if copies and z < 0.1 and len(ks) < 3:
            ks.append('c%d' % (len(ks) + 1))
            ops.append({"op": r.choice(["deepcopy", "deepcopy", "scale"]), "k": ks[-1], "from": r.choice(ks[:-1])})
        elif z < 0.15:
            ops.append({"op": "read", "k": r.choice(ks)})
        else:
            ops.append(an_edit(r, r.choice(ks), oname, aname))
    return ops


def scenarios(tier, seed):
    for b in generated():
        ops = []
        for e in b:
            e = dict(e, k='c1')
            if e['op'] == 'new':
                e['k'] = 'c1'
            ops.append(e)
        yield {"src": "Gen_Context", "ops": ops}
    for s in range(gen.upto(tier, 700, 8000)):
        r = rng(seed, 'c01', s)
        yield {"src": "random", "ops": history(r, r.choice([6, 10, 16]))}
    # long histories on one context
    for s in range(gen.upto(tier, 20, 300)):
        r = rng(seed, 'c01long', s)
        yield {"src": "long", "ops": history(r, 60, False)}


def run(scn):
    import world
    return world.World().run(scn['ops'])


def nontrivial(scn, tr):
    return sum(e['out'] == 'ok' and e['op'] not in ('new', 'read', 'deepcopy', 'scale') for e in tr['ev']) >= 3
