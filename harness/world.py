"""The world of live contexts: interprets scenario operations on the real
fca.Context and records one event per operation (see spec/Trace_Context.tla).

Names in events are strings; the integer 7 is written "#7" and the header maps
it to its spelling.  Scenario operations name their arguments directly or by
selectors resolved against the current context: {"i": n} is the n-th name
(modulo), {"m": mask, "x": [more], "as": "list"} a collection of names,
{"m": mask, "d": delta} a row."""
import copy, itertools
from drv import call, listed, LIMIT
import numpy as np
import fca
from fca import Context, Concept, ConceptLattice, Implication
import fca.algorithms
import fca.algorithms.closure_operators as co
import fca.algorithms.dg_basis as dg


class Names:
    """names <-> trace strings"""

    def __init__(self):
        self.ints = {}

    def enc(self, x):
        if type(x) is str:
            return x if not x.startswith(('#', '?')) else '?' + x
        if type(x) is int:
            self.ints['#%d' % x] = str(x)
            return '#%d' % x
        if isinstance(x, (bool, np.bool_)):
            return '?bool'
        if isinstance(x, np.integer):
            return '?npint%d' % int(x)
        try:
            return '?' + str(type(x).__name__) + repr(x)[:60]
        except Exception:
            return '?'

    def dec(self, s):
        if isinstance(s, str) and s.startswith('#'):
            return int(s[1:])
        return s

    def seq(self, xs):
        try:
            return [self.enc(x) for x in itertools.islice(iter(xs), LIMIT)]
        except TypeError:
            return ['?', '?']

    def set(self, xs):
        """sorted list; repeated elements of a list stay visible"""
        return sorted(self.seq(xs))

    def ordered(self, xs, order):
        """elements of a set in the given order, unknown ones behind"""
        ys = self.seq(xs)
        pos = {self.enc(n): i for i, n in enumerate(order)}
        return sorted(ys, key=lambda y: (pos.get(y, len(pos)), y))

    def imp(self, i):
        """premise and conclusion without the premise, as printed and compared"""
        try:
            return [self.set(i.premise), self.set(i.conclusion)]
        except Exception:
            return [['?'], ['?']]

    def imps(self, L):
        try:
            return [self.imp(i) for i in itertools.islice(iter(L), LIMIT)]
        except TypeError:
            return [[['?'], ['?']]]

    def cpt(self, c):
        try:
            return [self.set(c.extent), self.set(c.intent)]
        except Exception:
            return [['?'], ['?']]

    def cpts(self, L):
        try:
            return [self.cpt(c) for c in itertools.islice(iter(L), LIMIT)]
        except TypeError:
            return [[['?'], ['?']]]


def pick(sel, lst, none='zz'):
    if isinstance(sel, dict):
        return lst[sel['i'] % len(lst)] if lst else none
    return sel


def picks(sel, lst):
    if isinstance(sel, dict):
        out = [x for j, x in enumerate(lst) if sel.get('m', 0) >> j & 1] + list(sel.get('x', []))
        if sel.get('rep') and out:
            out = out + [out[0]]
        if sel.get('rev'):
            out = out[::-1]
        t = sel.get('as', 'list')
    else:
        out, t = list(sel), 'list'
    return {'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset}[t](out)


def row_of(sel, n):
    if isinstance(sel, dict):
        k = max(0, n + sel.get('d', 0))
        row = [bool(sel.get('m', 0) >> j & 1) for j in range(k)]
        t = sel.get('as', 'list')
        if t == 'tuple':
            return tuple(row)
        if t == 'int':
            return [int(b) for b in row]
        if t == 'np':
            return np.array(row, dtype=bool)
        return row
    return list(sel)


def operator(c):
    """the attribute closure as the caller would write it"""
    rows = [set(c.get_object_intent(o)) for o in c.objects]
    full = set(c.attributes)

    def close(B):
        r = set(full)
        for row in rows:
            if set(B) <= row:
                r &= row
        return r
    return close


MAKES = ('new', 'random')


class World:
    def __init__(self, views=True):
        self.n = Names()
        self.live = {}
        self.ev = []
        self.watched = []        # (object handed in, frozen copy)
        self.kept = []           # (encoder, object handed out, its encoding)
        self.iters = {}
        self.views_on = views

    def trace(self):
        return {"h": {"ints": dict(self.n.ints, **{"#0": "0"})}, "ev": self.ev}

    # --- arguments and results kept -------------------------------------
    def watch(self, x):
        self.watched.append((x, copy.deepcopy(x)))
        return x

    def argsok(self):
        def eq(a, b):
            if type(a) is not type(b):
                return False
            if isinstance(a, np.ndarray):
                return a.shape == b.shape and bool((a == b).all())
            if isinstance(a, (list, tuple)):
                return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
            if isinstance(a, Implication):
                return self.n.imp(a) == self.n.imp(b)
            return a == b
        return all(eq(a, b) for a, b in self.watched)

    def keep(self, enc, x):
        v = enc(x)
        self.kept.append((enc, x, v))
        return v

    def keptok(self):
        ok = True
        for enc, x, v in self.kept:
            try:
                ok = ok and enc(x) == v
            except Exception:
                ok = False
        return ok

    @staticmethod
    def spoil(concepts):
        def do():
            for c in concepts:
                c.extent.clear()
                c.intent.add('?spoilt')
            if type(concepts) is list:
                concepts.clear()
        call(do)

    # --- views -------------------------------------------------------------
    def views(self, k, c):
        n = self.n
        out = {}
        ok, O = call(lambda: list(c.objects))
        ok2, A = call(lambda: list(c.attributes))
        if not ok or not ok2:
            return [{"k": k, "names": ["objects", "attributes"], "o": ["?"], "a": ["?"], "r": []}]
        N, M = len(O), len(A)

        def fromrows(rows):
            rows = [list(r) for r in itertools.islice(iter(rows), LIMIT)]
            return [[n.enc(A[j]) if j < M else '?column' for j, v in enumerate(r) if v]
                    + ([] if len(r) == M else ['?width%d' % len(r)]) for r in rows]

        # what the caller does with the sets it is given is its business
        def fromsets(sets):
            sets = list(sets)
            out = [n.ordered(s, A) for s in sets]
            for s in sets:
                if type(s) is set:
                    s.clear()
            return out

        def fromext(exts):
            exts = [list(e) for e in exts]
            rows = [[n.enc(a) for a, e in zip(A, exts) if o in e] for o in O]
            known = set(map(str, O))
            for a, e in zip(A, exts):
                for x in e:
                    if str(x) not in known or len(e) != len(set(map(str, e))):
                        rows = rows + [['?object']]
            return rows

        def sets(f):
            got = f()
            out = fromext(got)
            for e in got:
                if type(e) is set:
                    e.clear()
            return out

        def pairs():
            got = c.object_attribute_pairs
            P = list(got)
            if type(got) in (list, set):
                got.clear()
            rows = [[n.enc(a) for a in A if (o, a) in P] for o in O]
            return rows if sum(map(len, rows)) == len(P) else rows + [['?pairs']]

        def frompict():
            lines = repr(c).split('\n')
            if lines[0] != ", ".join(map(str, A)) or lines[-1] != '' or len(lines) != N + 2:
                return [['?repr']]
            rows = []
            for o, s in zip(O, lines[1:-1]):
                name, marks = s.rsplit('\t', 1)
                if name != str(o) or set(marks) - set('X.'):
                    return [['?repr']]
                rows.append([x == 'X' for x in marks])
            return fromrows(rows)

        acc = {
            'table': lambda: fromrows(c.table),
            'rows by position': lambda: fromrows([c[i] for i in range(len(c))]),
            'iteration': lambda: fromrows(r for r in c),
            'examples': lambda: fromsets(c.examples()),
            'intents': lambda: fromsets(c.intents()),
            'get_object_intent': lambda: fromsets([c.get_object_intent(o) for o in O]),
            'get_object_intent_by_index': lambda: fromsets([c.get_object_intent_by_index(i) for i in range(N)]),
            'get_attribute_extent': lambda: sets(lambda: [c.get_attribute_extent(a) for a in A]),
            'get_attribute_extent_by_index': lambda: sets(lambda: [c.get_attribute_extent_by_index(j) for j in range(M)]),
            'get_value': lambda: fromrows([[c.get_value(o, a) for a in A] for o in O]),
            'object_attribute_pairs': pairs,
            'repr': frompict,
        }
        for nm in ('np_table', 'cross_table'):
            if hasattr(c, nm):
                acc[nm] = lambda nm=nm: fromrows(getattr(c, nm))
        groups = {}
        eo, ea = n.seq(O), n.seq(A)
        if len(O) != len(set(map(str, eo))) or len(A) != len(set(map(str, ea))):
            pass          # clashing names: reported through o and a
        for nm, f in acc.items():
            good, r = call(f)
            key = repr(r) if good else '?raises'
            groups.setdefault(key, (r if good else [['?raises']], []))[1].append(nm)
        return [{"k": k, "names": nms, "o": eo, "a": ea, "r": r} for r, nms in groups.values()]

    def allviews(self):
        return [v for k in self.live for v in self.views(k, self.live[k])]

    def emit(self, e, views=True):
        e.setdefault('out', 'ok')
        e['argsok'] = self.argsok()
        e['keptok'] = self.keptok()
        e['views'] = self.allviews() if views and self.views_on else []
        e['seen'] = bool(views and self.views_on)
        self.ev.append(e)

    # --- operations ----------------------------------------------------------
    def do(self, op):
        getattr(self, 'op_' + op['op'])(dict(op))

    def run(self, ops):
        for op in ops:
            if op.get('from', op.get('k')) not in self.live and op['op'] not in MAKES and not op['op'].startswith('it_'):
                continue        # its operand could not be made
            if op.get('k', '') in self.live or op.get('from', '') in self.live or op['op'] in MAKES \
                    or op['op'].startswith('it_'):
                self.do(op)
        return self.trace()

    def op_new(self, op):
        O, A = [self.n.dec(x) for x in op['o']], [self.n.dec(x) for x in op['a']]
        tbl = [[bool(x) for x in r] for r in op['tbl']]
        args = (self.watch(tbl), self.watch(O), self.watch(A))
        ok, c = call(Context, *args)
        if ok:
            self.live[op['k']] = c
        self.emit({"op": "new", "k": op['k'], "o": self.n.seq(O), "a": self.n.seq(A),
                   "tbl": tbl, "out": "ok" if ok else "exc"})

    def op_random(self, op):
        import random
        from fca import make_random_context
        random.seed(op['seed'])
        ok, c = call(make_random_context, op['n'], op['m'], [0, 1, op.get('p', .5)][op['d']])
        tbl = []
        if ok:
            self.live[op['k']] = c
            ok2, tbl = call(lambda: [[bool(c[i][j]) for j in range(len(c.attributes))] for i in range(len(c.objects))])
            tbl = tbl if ok2 else []
        self.emit({"op": "random", "k": op['k'], "n": op['n'], "m": op['m'], "d": op['d'], "tbl": tbl, "out": "ok" if ok else "exc"})

    def op_deepcopy(self, op):
        ok, c = call(copy.deepcopy, self.live[op['from']])
        if ok:
            self.live[op['k']] = c
        self.emit({"op": "deepcopy", "k": op['k'], "from": op['from'], "out": "ok" if ok else "exc"})

    def op_scale(self, op):
        """a scale is a context of its own"""
        from fca.scale import Scale
        ok, c = call(Scale, self.live[op['from']])
        if ok:
            self.live[op['k']] = c
        self.emit({"op": "scale", "k": op['k'], "from": op['from'], "out": "ok" if ok else "exc"})

    def op_read(self, op):
        self.emit({"op": "read", "k": op['k']})

    def edit(self, k, e, fn, *args):
        for a in args:
            self.watch(a)
        ok, r = call(fn, *args)
        e.update(k=k, out="ok" if ok else "exc")
        self.emit(e)

    def op_add_object(self, op):
        c, name = self.live[op['k']], op['name']
        row = row_of(op['row'], len(c.attributes))
        self.edit(op['k'], {"op": "add_object", "row": [bool(x) for x in row], "name": self.n.enc(self.n.dec(name))},
                  c.add_object, row, self.n.dec(name))

    def op_add_attribute(self, op):
        c, name = self.live[op['k']], op['name']
        row = row_of(op['row'], len(c.objects))
        self.edit(op['k'], {"op": "add_attribute", "row": [bool(x) for x in row],
                            "name": self.n.enc(self.n.dec(name))}, c.add_attribute, row, self.n.dec(name))

    def named(self, op, lst_of, with_set=None):
        c = self.live[op['k']]
        lst = list(getattr(c, lst_of))
        return c, self.n.dec(pick(op['name'], lst))

    def decs(self, xs):
        return type(xs)(self.n.dec(x) for x in xs)

    def op_add_object_with_intent(self, op):
        c = self.live[op['k']]
        s = self.decs(picks(op['set'], list(c.attributes)))
        name = self.n.dec(pick(op['name'], list(c.objects)))
        self.edit(op['k'], {"op": op['op'], "set": self.n.set(s), "name": self.n.enc(name)},
                  c.add_object_with_intent, s, name)

    def op_add_attribute_with_extent(self, op):
        c = self.live[op['k']]
        s = self.decs(picks(op['set'], list(c.objects)))
        name = self.n.dec(pick(op['name'], list(c.attributes)))
        self.edit(op['k'], {"op": op['op'], "set": self.n.set(s), "name": self.n.enc(name)},
                  c.add_attribute_with_extent, s, name)

    def op_set_object_intent(self, op):
        c = self.live[op['k']]
        s = self.decs(picks(op['set'], list(c.attributes)))
        name = self.n.dec(pick(op['name'], list(c.objects)))
        self.edit(op['k'], {"op": op['op'], "set": self.n.set(s), "name": self.n.enc(name)},
                  c.set_object_intent, s, name)

    def op_set_attribute_extent(self, op):
        c = self.live[op['k']]
        s = self.decs(picks(op['set'], list(c.objects)))
        name = self.n.dec(pick(op['name'], list(c.attributes)))
        self.edit(op['k'], {"op": op['op'], "set": self.n.set(s), "name": self.n.enc(name)},
                  c.set_attribute_extent, s, name)

    def op_delete_object(self, op):
        c = self.live[op['k']]
        name = self.n.dec(pick(op['name'], list(c.objects)))
        self.edit(op['k'], {"op": op['op'], "name": self.n.enc(name)}, c.delete_object, name)

    def op_delete_attribute(self, op):
        c = self.live[op['k']]
        name = self.n.dec(pick(op['name'], list(c.attributes)))
        self.edit(op['k'], {"op": op['op'], "name": self.n.enc(name)}, c.delete_attribute, name)

    def op_delete_attributes(self, op):
        c = self.live[op['k']]
        s = self.decs(picks(op['set'], list(c.attributes)))
        self.edit(op['k'], {"op": op['op'], "set": self.n.set(s)}, c.delete_attributes, s)

    def op_rename_object(self, op):
        c = self.live[op['k']]
        old = self.n.dec(pick(op['old'], list(c.objects)))
        name = self.n.dec(pick(op['name'], list(c.objects)))
        self.edit(op['k'], {"op": op['op'], "old": self.n.enc(old), "name": self.n.enc(name)},
                  c.rename_object, old, name)

    def op_rename_attribute(self, op):
        c = self.live[op['k']]
        old = self.n.dec(pick(op['old'], list(c.attributes)))
        name = self.n.dec(pick(op['name'], list(c.attributes)))
        self.edit(op['k'], {"op": op['op'], "old": self.n.enc(old), "name": self.n.enc(name)},
                  c.rename_attribute, old, name)

    def op_remove_empty_objects(self, op):
        self.edit(op['k'], {"op": op['op']}, self.live[op['k']].remove_empty_objects)

    # --- analyses ------------------------------------------------------------
    def group(self, groups, what, name, v, **more):
        g = dict(what=what, v=v, **more)
        for h in groups:
            if all(h.get(x) == g[x] for x in g):
                h['names'].append(name)
                return
        groups.append(dict(g, names=[name]))

    def op_derive(self, op):
        n, k = self.n, op['k']
        c = self.live[k]
        att = op['side'] == 'att'
        lst = list(c.attributes if att else c.objects)
        O, A = list(c.objects), list(c.attributes)
        B = self.watch(self.decs(picks(op['set'], lst)))
        pos = {x: i for i, x in enumerate(lst)}
        inds = [pos[x] for x in B]
        S = self.watch(set(B))
        groups = []

        def byname(x):
            return n.set(x)

        def objs(x):
            return n.set([O[i] if 0 <= i < len(O) else '?' for i in x])

        def atts(x):
            return n.set([A[i] if 0 <= i < len(A) else '?' for i in x])

        def counts(d, names=None):
            return sorted([[n.enc(x if names is None else names[x]), int(v)] for x, v in d.items() if v])

        def ask(what, name, enc, fn, *args):
            for a in args[:1]:
                self.watch(a)
            ok, r = call(fn, *args)
            if not ok:
                self.group(groups, 'refused', name, [])
                return
            ok, v = call(enc, r)
            self.group(groups, what if ok else 'refused', name, v if ok else [])
            if ok and not op.get('spoil') and len(self.kept) < 40:
                self.kept.append((enc, r, v))
            if op.get('spoil'):         # what the caller does with the answer is his business
                try:
                    if isinstance(r, np.ndarray):
                        r[:] = 0
                    elif isinstance(r, tuple):
                        r[0].clear()
                    else:
                        r.clear()
                except Exception:
                    pass
        if att:
            ask('extent', 'aprime', byname, c.aprime, B)
            ask('extent', 'aprime_inds', objs, c.aprime_inds, inds)
            ask('extent', 'aprime_inds of a set', objs, c.aprime_inds, set(inds))
            ask('extent', 'closure_operators.aprime', byname, co.aprime, S, c)
            ask('attribute closure', 'aclosure', byname, c.aclosure, B)
            ask('attribute closure', 'aclosure_inds', atts, c.aclosure_inds, inds)
            ask('attribute closure', 'closure_operators.aclosure', byname, co.aclosure, S, c)
            first = (sum(inds) + len(O)) % (len(A) + 1)
            ask('restricted closure', 'aibasis.kclosure', byname, lambda s: fca.algorithms.aibasis.kclosure(s, first, c), S)
            ask('object counts', 'associative_aprime', counts, c.associative_aprime, S)
            ask('object counts', 'associative_aprime_inds', lambda d: counts(d, O), c.associative_aprime_inds,
                sorted(set(inds)))
            ask('closure counts', 'associative_aclosure', lambda r: counts(r[0]), c.associative_aclosure, B)
            ask('extent size', 'associative_aclosure size', lambda r: [int(r[1])], c.associative_aclosure, B)
            if op.get('again'):
                ask('extent', 'aprime again', byname, c.aprime, B)
                ask('attribute closure', 'aclosure again', byname, c.aclosure, B)
        else:
            ask('intent', 'oprime', byname, c.oprime, B)
            ask('intent', 'oprime_inds', atts, c.oprime_inds, inds)
            ask('intent', 'oprime_inds of a set', atts, c.oprime_inds, set(inds))
            ask('intent', 'closure_operators.oprime', byname, co.oprime, S, c)
            ask('object closure', 'oclosure', byname, c.oclosure, B)
            ask('object closure', 'oclosure_inds', objs, c.oclosure_inds, inds)
            ask('object closure', 'closure_operators.oclosure', byname, co.oclosure, S, c)
            ask('attribute counts', 'associative_oprime_inds', lambda d: counts(d, A), c.associative_oprime_inds,
                sorted(set(inds)))
            if op.get('again'):
                ask('intent', 'oprime again', byname, c.oprime, B)
                ask('object closure', 'oclosure again', byname, c.oclosure, B)
        self.emit({"op": "derive", "k": k, "set": n.set(S), "first": first if att else 0, "groups": groups, "unknown": False},
                  views=op.get('views', True))

    CONCEPT_WAYS = {
        'concepts': lambda c: c.concepts,
        'iterate_concepts': lambda c: listed(c.iterate_concepts()),
        'norris': lambda c: fca.norris(c)[0],
        'norris without parents': lambda c: fca.norris(c, False),
        'lattice.concepts': lambda c: ConceptLattice(c).concepts,
        'lattice iteration': lambda c: listed(ConceptLattice(c)),
        'concept_lattice': lambda c: listed(c.concept_lattice),
    }

    def op_concepts(self, op):
        k = op['k']
        c, groups = self.live[k], []
        for w in op.get('ways', list(self.CONCEPT_WAYS)):
            ok, r = call(self.CONCEPT_WAYS[w], c)
            if ok and op.get('spoil'):
                self.group(groups, 'concepts', w, self.n.cpts(r))
                self.spoil(r)
            else:
                self.group(groups, 'concepts', w, self.keep(self.n.cpts, r) if ok else [[['?raised'], ['?raised']]])
        self.emit({"op": "concepts", "k": k, "groups": groups}, views=op.get('views', True))

    # iterators: it_new, it_next (some steps), it_end (the event)
    def op_it_new(self, op):
        c = self.live[op['k']]
        kind = op['kind']
        if kind == 'concepts':
            ok, it = call(lambda: iter(c.iterate_concepts() if not op.get('plain')
                                       else fca.algorithms.iterative_norris(c)))
        else:
            ok, it = call(lambda: iter(c.attribute_implications_iter() if not op.get('plain')
                                       else dg.dg_basis_iter_simple(c)))
        self.iters[op['h']] = dict(k=op['k'], kind=kind, it=it if ok else iter(()), objs=[], snap=[], done=False,
                                   raised='' if ok else 'creation')

    def op_it_next(self, op):
        h = self.iters.get(op['h'])
        for _ in range(op['n']):
            if h is None or h['done'] or h['raised'] or len(h['objs']) >= 3000:
                break
            try:
                ok, x = call(next, h['it'])
                if not ok:
                    raise x
            except StopIteration:
                h['done'] = True
            except Exception as e:
                h['raised'] = type(e).__name__
            else:
                h['objs'].append(x)
                h['snap'].append(self.n.set(x.intent) if h['kind'] == 'concepts' else self.n.imp(x))

    def op_it_end(self, op):
        h = self.iters.pop(op['h'], None)
        if h is None or h['k'] not in self.live:
            return
        if h['kind'] == 'concepts':
            self.emit({"op": "iter", "k": h['k'], "snap": h['snap'], "after": self.n.cpts(h['objs']),
                       "done": h['done'], "raised": h['raised']})
        else:
            gs = []
            name = 'attribute_implications_iter'
            if h['raised']:
                self.group(gs, 'raised', name, [], bg=[], cond=["all"])
            else:
                self.group(gs, 'basis' if h['done'] else 'partial', name, h['snap'], bg=[], cond=["all"])
                if self.n.imps(h['objs']) != h['snap']:
                    self.group(gs, 'changed later', name, [], bg=[], cond=["all"])
            self.emit({"op": "basis", "k": h['k'], "groups": gs})

    def op_lattice(self, op):
        import random
        from fca.algorithms.filtering import compute_index, compute_extent_size, compute_istability
        k, n = op['k'], self.n
        c = self.live[k]
        r = random.Random(op.get('seed', 0))
        ok, L = call(lambda: c.concept_lattice if op.get('prop') else ConceptLattice(c))
        e = {"op": "lattice", "k": k, "cs": [], "q": [], "top": 0, "bottom": 0, "len": -1, "foreign": False,
             "out": "ok" if ok else "exc"}
        if ok:
            cs = listed(L)
            e['cs'] = n.cpts(cs)
            keys = [repr(x) for x in e['cs']]
            if len(set(keys)) == len(keys):
                at = {x: i + 1 for i, x in enumerate(keys)}

                def pos(x):
                    return at.get(repr(n.cpt(x)), 0)

                def poss(xs):
                    return sorted(pos(x) for x in listed(xs))
                e['top'], e['bottom'] = (pos(v) if g else 0 for g, v in
                                         (call(lambda: L.top_concept), call(lambda: L.bottom_concept)))
                ok2, v = call(lambda: len(L))
                e['len'] = v if ok2 else -1
                # pairs that are no concepts: unknown names, the extent of one concept with the intent of another,
                # a concept with something more or less
                foes = [({'no such object'}, {'no such attribute'}), (set(), {'no such attribute'})]
                for _ in range(6):
                    x, y = r.choice(cs), r.choice(cs)
                    foes += [(set(x.extent), set(y.intent)), (set(x.extent) | {'no such object'}, set(x.intent)),
                             (set(x.extent), set(x.intent) | {'no such attribute'}),
                             (set(list(x.extent)[1:]), set(x.intent)), (set(x.extent), set(list(x.intent)[1:])),
                             (set(x.intent), set(x.extent))]
                for xe, xi in foes:
                    foe = Concept(list(xe), list(xi))
                    if repr(n.cpt(foe)) not in at:
                        ok2, v = call(lambda: foe in L)
                        e['foreign'] = e['foreign'] or not ok2 or bool(v)
                        ok2, v = call(lambda: L.index(foe))
                        e['foreign'] = e['foreign'] or ok2
                idx = list(range(len(cs)))
                some = idx if len(cs) <= op.get('most', 12) else sorted(r.sample(idx, op.get('most', 12)))
                qs = [(i, w, h) for i in some for w in ('parents', 'children', 'filter', 'ideal', 'index', 'contains',
                                                        'getitem') for h in ('', ' (an equal object)')]
                r.shuffle(qs)
                cut = r.randrange(len(qs) + 1) if op.get('index') else len(qs) + 1
                late = ''
                for nq, (i, w, h) in enumerate(qs):
                    if nq == cut:
                        f = r.choice([compute_extent_size, compute_istability]) if len(c.objects) else compute_istability
                        call(compute_index, L, f, 'an index')
                        late = ' after storing an index'
                    x = cs[i] if not h else Concept(list(cs[i].extent), list(cs[i].intent))
                    if h and r.random() < 0.3:
                        x.meta = {'other': 1}
                    if w == 'parents':
                        g, v = call(lambda: poss(L.parents(x)))
                    elif w in ('children', 'filter', 'ideal'):
                        def others():
                            got = getattr(L, w)(x)
                            out = poss(got)
                            if type(got) in (list, set):
                                got.clear()         # the caller's
                            return out
                        g, v = call(others)
                    elif w == 'index':
                        g, v = call(lambda: [L.index(x) + 1])
                    elif w == 'getitem':
                        if h:
                            continue
                        g, v = call(lambda: [pos(L[i])])
                    else:
                        g, v = call(lambda: [1 if x in L else 0])
                    e['q'].append({"what": w, "how": h + late, "i": i + 1, "v": v if g else [0]})
        if ok and op.get('spoil'):
            call(lambda: self.spoil(L.concepts))
        self.emit(e, views=op.get('views', True))

    def imp_objs(self, bg):
        return [Implication(set(self.n.dec(x) for x in p), set(self.n.dec(x) for x in q)) for p, q in bg]

    def cond_fn(self, cond):
        n = self.n
        t = cond[0]
        return {'all': lambda B: True, 'none': lambda B: False, 'max': lambda B: len(B) <= cond[1],
                'min': lambda B: len(B) >= cond[1], 'has': lambda B: cond[1] in [n.enc(x) for x in B],
                'hasnot': lambda B: cond[1] not in [n.enc(x) for x in B], 'even': lambda B: len(B) % 2 == 0}[t]

    BASIS_WAYS = {
        'compute_dg_basis': lambda c, bg, cond: dg.compute_dg_basis(c, imp_basis=bg, cond=cond),
        'compute_dg_basis with simple closure':
            lambda c, bg, cond: dg.compute_dg_basis(c, close=co.simple_closure, imp_basis=bg, cond=cond),
        'compute_dg_basis_simple': lambda c, bg, cond: dg.compute_dg_basis_simple(c, imp_basis=bg, cond=cond),
        'compute_dg_basis_simple with lin closure':
            lambda c, bg, cond: dg.compute_dg_basis_simple(c, close=co.lin_closure, imp_basis=bg, cond=cond),
        'get_attribute_implications': lambda c, bg, cond: c.get_attribute_implications(confirmed=bg, cond=cond),
        'dg_basis_iter_simple': lambda c, bg, cond: listed(dg.dg_basis_iter_simple(c, imp_basis=bg, cond=cond)),
        'dg_basis_iter_simple with lin closure':
            lambda c, bg, cond: listed(dg.dg_basis_iter_simple(c, close=co.lin_closure, imp_basis=bg, cond=cond)),
        'get_attribute_implications with the iterator':
            lambda c, bg, cond: listed(c.get_attribute_implications(basis=dg.dg_basis_iter_simple, confirmed=bg,
                                                                    cond=cond)),
        # any closure operator, in any order of the attributes
        'generalized_compute_dg_basis':
            lambda c, bg, cond: dg.generalized_compute_dg_basis(list(c.attributes)[::-1], operator(c), imp_basis=bg, cond=cond),
        'generalized_dg_basis_iter':
            lambda c, bg, cond: listed(dg.generalized_dg_basis_iter(list(c.attributes)[::-1], operator(c), imp_basis=bg, cond=cond)),
        # without background
        'compute_dg_basis (defaults)': lambda c, bg, cond: dg.compute_dg_basis(c),
        'attribute_implications': lambda c, bg, cond: c.attribute_implications,
        'get_attribute_implications()': lambda c, bg, cond: c.get_attribute_implications(),
        'attribute_implications_iter': lambda c, bg, cond: listed(c.attribute_implications_iter()),
        # attribute-incremental
        'compute_canonical_basis': lambda c, bg, cond: fca.algorithms.aibasis.compute_canonical_basis(c),
        'compute_canonical_basis with lin closure':
            lambda c, bg, cond: fca.algorithms.aibasis.compute_canonical_basis(c, close=co.lin_closure),
        'get_attribute_canonical_basis': lambda c, bg, cond: c.get_attribute_canonical_basis(),
        # objects
        'object_implications': lambda c, bg, cond: c.object_implications,
        'get_object_implications': lambda c, bg, cond: c.get_object_implications(confirmed=bg),
        # object-incremental cover
        'compute_implication_cover': lambda c, bg, cond: fca.algorithms.implication_covers.compute_implication_cover(c),
    }
    PLAIN = ['compute_dg_basis (defaults)', 'attribute_implications', 'get_attribute_implications()',
             'attribute_implications_iter']
    RELATIVE = list(BASIS_WAYS)[:10]
    INCREMENTAL = ['compute_canonical_basis', 'compute_canonical_basis with lin closure',
                   'get_attribute_canonical_basis']

    def op_basis(self, op):
        import fca.algorithms.implication_covers
        n, k = self.n, op['k']
        c = self.live[k]
        bg = op.get('bg', [])
        cond = op.get('cond', ["all"])
        groups = []
        for w in op['ways']:
            if w.startswith('object') or w.startswith('get_object'):
                what = 'object basis'
            elif w == 'compute_implication_cover':
                what = 'cover'
            else:
                what = 'basis' if cond == ["all"] else 'conditional'
            B = self.imp_objs(bg)
            if op.get('same') and B:
                B.append(B[0])
            self.watch(B)
            ok, r = call(self.BASIS_WAYS[w], c, B, self.cond_fn(cond))
            if ok:
                v = self.keep(n.imps, r)
                self.group(groups, what, w, v, bg=bg, cond=cond)
                if op.get('spoil'):
                    try:
                        self.kept.pop()
                        for i in r:
                            i.premise.clear()
                            i.get_conclusion().clear()
                        r.clear()
                    except Exception:
                        pass
            else:
                self.group(groups, 'raised', w, [], bg=bg, cond=cond)
        self.emit({"op": "basis", "k": k, "groups": groups}, views=op.get('views', True))

    def op_fails(self, op):
        """an analysis whose callback raises at its n-th call"""
        c = self.live[op['k']]
        state = dict(left=op.get('n', 0), hit=False)

        class Boom(Exception):
            pass

        def boom(*a, **kw):
            if state['left'] <= 0:
                state['hit'] = True
                raise Boom()
            state['left'] -= 1
            return True

        def basis(cxt, imp_basis=[], cond=None):
            for i in range(len(cxt.objects)):       # fill whatever is cached
                cxt.get_object_intent_by_index(i)
            for j in range(len(cxt.attributes)):
                cxt.get_attribute_extent_by_index(j)
            state['hit'] = True
            raise Boom()
        kind = op['kind']
        fn = {'cond': lambda: c.get_attribute_implications(cond=boom),
              'iter cond': lambda: listed(c.get_attribute_implications(basis=dg.dg_basis_iter_simple, cond=boom)),
              'basis': lambda: c.get_attribute_implications(basis=basis),
              'canonical': lambda: c.get_attribute_canonical_basis(get_basis=basis),
              'object': lambda: c.get_object_implications(basis=basis)}[kind]
        ok, _ = call(fn)
        if state['hit']:
            self.emit({"op": "fails", "k": op['k'], "out": "ok" if ok else "exc"})
        else:
            self.emit({"op": "read", "k": op['k']})

    # --- constructions ---------------------------------------------------------
    def made(self, op, e, fn, *args):
        for a in args:
            if not isinstance(a, Context):
                self.watch(a)
        ok, d = call(fn, *args)
        if ok:
            self.live[op['k']] = d
        e.update(op=op['op'], k=op['k'], out="ok" if ok else "exc")
        e['from'] = op['from']
        self.emit(e)

    def op_transpose(self, op):
        self.made(op, {}, self.live[op['from']].transpose)

    def op_complementary(self, op):
        self.made(op, {}, self.live[op['from']].complementary)

    def op_compound(self, op):
        self.made(op, {}, self.live[op['from']].compound)

    def op_extract_subcontext(self, op):
        c = self.live[op['from']]
        names = list(self.decs(picks(op['set'], list(c.attributes))))
        self.made(op, {"list": self.n.seq(names)}, c.extract_subcontext, names)

    def op_filter_by_attributes(self, op):
        c = self.live[op['from']]
        names = self.decs(picks(op['set'], list(c.attributes)))
        self.made(op, {"list": self.n.seq(names), "mode": op['mode']},
                  c.extract_subcontext_filtered_by_attributes, names, op['mode'])

    def op_product(self, op):
        if op['with'] not in self.live:
            return
        self.made(op, {"with": op['with']}, lambda a, b: a * b, self.live[op['from']], self.live[op['with']])

    def op_equal(self, op):
        if op['with'] not in self.live:
            return
        a, b = self.live[op['k']], self.live[op['with']]
        groups = []
        for name, fn in (('==', lambda: a == b), ('== reversed', lambda: b == a), ('!=', lambda: not (a != b))):
            ok, v = call(fn)
            self.group(groups, 'equal', name, ('yes' if v else 'no') if ok else 'raises')
        self.emit({"op": "equal", "k": op['k'], "from": op['k'], "with": op['with'], "groups": groups})
