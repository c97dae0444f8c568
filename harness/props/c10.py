"""C10: analyses are pure and always reflect the current context."""
import gen
from gen import rng
from props.c01 import an_edit
from props.c02 import derive

TRACE = 'Trace_Context'
BATCH = 500
EVIDENCE = dict(
    rule='seeded random histories of edits, analyses, failing analyses and partially consumed iterators over one to '
         'three contexts; non-trivial: at least two analyses after an edit',
    explanation='Every answer is validated against the abstract current context, all views of all contexts are '
                'compared after every step, and answers handed out earlier are re-read after every step.')
BW = ['attribute_implications', 'get_attribute_implications()', 'compute_dg_basis (defaults)',
      'attribute_implications_iter', 'get_attribute_canonical_basis', 'compute_canonical_basis', 'object_implications',
      'get_object_implications', 'get_attribute_implications', 'get_attribute_implications with the iterator',
      'compute_implication_cover']
CW = ['concepts', 'iterate_concepts', 'norris', 'lattice.concepts']


def each_edit(r, k):
    """one effective edit of every kind"""
    m = {"m": r.randrange(1, 1 << 12), "as": "list"}
    return [{"op": "add_object", "k": k, "row": dict(m), "name": "new"},
            {"op": "add_attribute", "k": k, "row": dict(m), "name": "new"},
            {"op": "add_object_with_intent", "k": k, "set": dict(m), "name": "new"},
            {"op": "add_attribute_with_extent", "k": k, "set": dict(m), "name": "new"},
            {"op": "set_object_intent", "k": k, "set": dict(m), "name": {"i": r.randrange(9)}},
            {"op": "set_attribute_extent", "k": k, "set": dict(m), "name": {"i": r.randrange(9)}},
            {"op": "delete_object", "k": k, "name": {"i": r.randrange(9)}},
            {"op": "delete_attribute", "k": k, "name": {"i": r.randrange(9)}},
            {"op": "delete_attributes", "k": k, "set": {"m": 1 << r.randrange(2), "as": "list"}},
            {"op": "rename_object", "k": k, "old": {"i": r.randrange(9)}, "name": "new"},
            {"op": "rename_attribute", "k": k, "old": {"i": r.randrange(9)}, "name": "new"},
            {"op": "remove_empty_objects", "k": k}]


def everything(r, k):
    """every analysis of a context, in any order"""
    ops = [{"op": "basis", "k": k, "ways": [w]} for w in BW] + [{"op": "concepts", "k": k, "spoil": r.random() < .5}] \
        + [derive(k, s, r.randrange(64), r) for s in ('att', 'obj')] + [{"op": "lattice", "k": k, "seed": 1, "most": 2, "spoil": r.random() < .5}]
    r.shuffle(ops)
    return ops


def scenarios(tier, seed):
    # everything is asked, one edit of each kind, everything is asked again
    for i in range(gen.upto(tier, 6, 60)):
        r = rng(seed, 'c10e', i)
        n, m = r.choice([(2, 2), (3, 3), (4, 3), (3, 4)])
        tbl, o, a = gen.table(r, n, m, .5), gen.onames(n, r, 3 if i % 19 == 5 else 0), gen.anames(m, r, 3 if i % 19 == 5 else 0)
        for j in range(12):
            two = r.random() < 0.3
            ops = [gen.new('c1', n, m, tbl, o, a)] + everything(r, 'c1')
            if two:
                ops += [{"op": r.choice(["deepcopy", "transpose"]), "k": "c2", "from": "c1"}] + everything(r, 'c2')
            ops += [each_edit(r, 'c1')[j]] + everything(r, 'c1') + (everything(r, 'c2') if two else [])
            yield {"ops": ops}
    for i in range(gen.upto(tier, 450, 6000)):
        r = rng(seed, 'c10', i)
        n, m = r.choice([(0, 3), (3, 0), (2, 2), (3, 3), (4, 3), (3, 4), (5, 5), (6, 4), (1, 1), (9, 3), (12, 2)])
        wide = i % 90 == 13
        if wide:
            n, m = r.choice([(66, 4), (4, 34), (12, 20), (20, 20)])
        ops = [gen.new('c1', n, m, gen.blocks(r, n, m) if wide else gen.table(r, n, m), gen.onames(n, r, 3 if i % 19 == 5 else 0), gen.anames(m, r, 3 if i % 19 == 5 else 0))]
        ks, hs, nh = ['c1'], {}, 0
        for _ in range(r.choice([6, 10, 14])):
            k = r.choice(ks)
            z = r.random()
            if z < 0.27:
                # iterators of an edited context are closed first
                for h in [h for h in hs if hs[h] == k]:
                    ops.append({"op": "it_end", "h": h})
                    del hs[h]
                e = an_edit(r, k, ['g1', 'y', 'z9', 'g2_0'], ['a', 'zz', 'b', 'a_0'])
                ops.append(e)
            elif z < 0.33 and len(ks) < 3:
                ks.append('c%d' % (len(ks) + 1))
                ops.append({"op": "deepcopy" if r.random() < 0.7 else "transpose", "k": ks[-1], "from": k})
            elif z < 0.6:
                ops.append({"op": "basis", "k": k, "ways": r.sample(BW, r.choice([1, 2, 3])), "spoil": r.random() < 0.2})
            elif z < 0.68:
                ops.append({"op": "concepts", "k": k, "ways": r.sample(CW, 1), "spoil": r.random() < .3})
            elif z < 0.78:
                ops.append(derive(k, r.choice(['att', 'obj']), r.randrange(64), r))
            elif z < 0.88:
                ops.append({"op": "fails", "k": k, "kind": r.choice(['cond', 'iter cond', 'basis', 'canonical', 'object']),
                            "n": r.choice([0, 0, 1, 2])})
            elif z < 0.94 or not hs:
                nh += 1
                hs['h%d' % nh] = k
                ops.append({"op": "it_new", "h": 'h%d' % nh, "k": k, "kind": r.choice(['concepts', 'imps']),
                            "plain": r.random() < 0.3})
                ops.append({"op": "it_next", "h": 'h%d' % nh, "n": r.choice([1, 2])})
            else:
                ops.append({"op": "it_next", "h": r.choice(list(hs)), "n": r.choice([1, 2, 4000])})
        for h in hs:
            if r.random() < 0.6:
                ops.append({"op": "it_next", "h": h, "n": 4000})
            ops.append({"op": "it_end", "h": h})
        for k in ks:
            ops.append({"op": "basis", "k": k, "ways": r.sample(BW, 2)})
        yield {"ops": ops}


MODELS = {'quick': [gen.theory(2, 3, 0, ['Basis', 'Galois']), gen.algorithm('MC_Memo', 'NObj=2 Vals={0, 1} Nest=2 Edits=2', 'Current Fresh Remembered', '', 1, 300)],
          'thorough': [gen.theory(3, 4, 0, ['Basis', 'Galois']), gen.algorithm('MC_Memo', 'NObj=3 Vals={0, 1} Nest=3 Edits=3', 'Current Fresh Remembered', '', 4, 5000)]}


def run(scn):
    import world
    return world.World().run(scn['ops'])


def nontrivial(scn, tr):
    ed = [i for i, e in enumerate(tr['ev']) if e['op'] not in ('new', 'basis', 'concepts', 'derive', 'fails', 'iter', 'read')]
    return bool(ed) and sum(e['op'] in ('basis', 'concepts', 'derive', 'iter') for e in tr['ev'][ed[0]:]) >= 2
