"""Driver for implications, closures and covers (spec/Trace_Imp.tla)."""
import copy
from drv import call, listed
from fca import Implication, UnitImplication, Context
from fca.implication import NegativeImplication
import fca.algorithms
import random
import fca.algorithms.closure_operators as co
import fca.algorithms.implication_covers as ic


def enc(xs):
    try:
        return sorted(x if type(x) is str else '#%d' % x if type(x) is int else '?' + repr(x)[:40] for x in xs)
    except TypeError:
        return ['?', '?']


def dec(x):
    """names that begin with # stand for integers"""
    return int(x[1:]) if x[:1] == '#' else x


def decs(xs):
    return [dec(x) for x in xs]


def pc(i):
    try:
        return [enc(i.premise), enc(i.get_conclusion())]
    except Exception:
        return [['?'], ['?']]


CLOSURES = {'simple_closure': co.simple_closure, 'lin_closure': co.lin_closure}


class Imps:
    def __init__(self):
        self.live, self.ev, self.args, self.last = {}, [], [], None

    def emit(self, e, show=()):
        e['show'] = []
        for k in show:
            i = self.live[k]
            p, c = pc(i)
            ok, rc = call(lambda: enc(i.conclusion))
            ok2, gp = call(lambda: enc(i.get_premise()))
            e['show'].append({"k": k, "p": p if gp == p else ['?'], "c": c, "rc": rc if ok else ['?']})
        self.ev.append(e)

    def run(self, ops):
        for op in ops:
            if any(op.get(x, None) is not None and op[x] not in self.live for x in ('from', 'j')):
                continue
            if op['op'] in ('truth', 'compare', 'edit') and op['k'] not in self.live:
                continue
            getattr(self, 'op_' + op['op'])(op)
        return {"h": {"x": 0}, "ev": self.ev}

    def make(self, kind, p, c):
        if kind == 'unit':
            return UnitImplication(p, c[0] if isinstance(c, list) else list(c)[0])
        return {'imp': Implication, 'neg': NegativeImplication}[kind](p, c)

    def op_new(self, op):
        t = {'list': list, 'set': set, 'tuple': tuple, 'frozenset': frozenset}[op.get('as', 'set')]
        p = t(decs(op['p']))
        c = t(decs(op['c'])) if op['kind'] != 'unit' else decs(op['c'])
        self.args.append((p, c))
        ok, i = call(self.make, op['kind'], p, c)
        if not ok:
            self.emit({"op": "raises", "what": "new " + op['kind']})
            return
        self.live[op['k']] = i
        self.emit({"op": "new", "k": op['k'], "kind": 'neg' if op['kind'] == 'neg' else 'imp', "p": op['p'], "c": op['c']},
                  list(self.live))

    def op_argedit(self, op):
        """the caller goes on using the collections he handed in"""
        for p, c in self.args:
            for s in (p, c):
                if isinstance(s, set):
                    s.clear() if op['how'] == 'clear' else s.add(dec(op['x']))
                elif isinstance(s, list):
                    s.clear() if op['how'] == 'clear' else s.append(dec(op['x']))
        self.emit({"op": "argedit"}, list(self.live))

    def op_copy(self, op):
        ok, i = call(copy.deepcopy, self.live[op['from']])
        if not ok:
            self.emit({"op": "raises", "what": "copy"})
            return
        self.live[op['k']] = i
        self.emit({"op": "copy", "k": op['k'], "from": op['from']}, list(self.live))

    def op_edit(self, op):
        i = self.live[op['k']]
        if isinstance(i, UnitImplication) and op['side'] == 'c':
            return
        call(lambda: (i.get_premise() if op['side'] == 'p' else i.get_conclusion()).symmetric_difference_update({dec(op['x'])}))
        p, c = pc(i)
        if isinstance(i, UnitImplication) and len(set(c) - set(p)) != 1:
            del self.live[op['k']]
            return
        self.emit({"op": "edit", "k": op['k'], "p": p, "c": c}, list(self.live))

    def op_truth(self, op):
        i, q = self.live[op['k']], []
        for s in op['q']:
            x = set(decs(s['x']))
            arg = (x, set(decs(s['q']))) if s['partial'] else x
            if s['partial'] and s.get('list'):
                arg = list(arg)
            ok, v = call(i.is_respected, arg)
            if not ok:
                self.emit({"op": "raises", "what": "is_respected"})
                return
            q.append({"x": s['x'], "q": s['q'], "partial": s['partial'], "v": bool(v)})
        self.emit({"op": "truth", "k": op['k'], "q": q}, [op['k']])

    def op_compare(self, op):
        a, b = self.live[op['k']], self.live[op['j']]
        ok, v = call(lambda: (bool(a == b), bool(b == a), bool(a != b), hash(a) == hash(b)))
        if not ok:
            self.emit({"op": "raises", "what": "comparison"})
        else:
            self.emit({"op": "compare", "k": op['k'], "j": op['j'], "eq": v[0], "eq2": v[1], "ne": v[2], "hash": v[3]})

    def op_reparse(self, op):
        """the printed form of an implication with non-empty sides"""
        i = self.live.get(op['from'])
        if i is None or type(i) is NegativeImplication or not i.premise or not i.conclusion:
            return
        if any(type(x) is not str or ',' in x or '=>' in x or x != x.strip() or not x for x in i.premise | i.conclusion):
            return
        ok, j = call(lambda: Implication.str2imp({'repr': repr, 'str': str}[op.get('how', 'repr')](i)))
        if not ok:
            self.emit({"op": "raises", "what": "parsing a printed implication"})
            return
        self.live[op['k']] = j
        p, c = pc(i)
        self.emit({"op": "parse", "k": op['k'], "p": p, "c": sorted(set(c) - set(p))}, list(self.live))

    def op_parse(self, op):
        ok, j = call(Implication.str2imp, op['text'])
        if not ok:
            self.emit({"op": "raises", "what": "parsing"})
            return
        self.live[op['k']] = j
        self.emit({"op": "parse", "k": op['k'], "p": op['p'], "c": op['c']}, list(self.live))

    # --- closures and covers ------------------------------------------------
    def op_closure(self, op):
        L = []
        for x in op['imps']:
            if x[0] == 'same':
                L.append(L[x[1] % len(L)] if L else Implication(set(), set()))
            else:
                L.append(self.make(x[0], set(x[1]), list(x[2]) if x[0] == 'unit' else set(x[2])))
        S = set(op['set'])
        # the caller goes on with the list, the implications or the set of the closure before
        if op.get('reuse') and self.last:
            L0, S0 = self.last
            if op['reuse'] == 'deep':
                for k, (i, j) in enumerate(zip(L0, L)):
                    if type(i) is type(j) is Implication and i not in L0[:k] + L0[k + 1:]:
                        for x, y in ((i.get_premise(), j.get_premise()), (i.get_conclusion(), j.get_conclusion())):
                            x.clear()
                            x.update(y)
                        L[k] = i
            L0[:] = L
            S0.clear()
            S0.update(S)
            L, S = L0, S0
        self.last = (L, S)
        frozen = [pc(i) for i in L]
        ids = [id(i) for i in L]
        groups, fresh, argsok = [], True, True
        for n in range(op.get('times', 1)):
            for name, f in CLOSURES.items():
                ok, r = call(f, S, L)
                v = enc(r) if ok else ['?raises']
                if ok and not isinstance(r, set):
                    v = ['?no set']
                for g in groups:
                    if g['v'] == v:
                        g['names'].append(name) if name not in g['names'] else None
                        break
                else:
                    groups.append({"names": [name], "v": v})
                if ok:
                    fresh = fresh and r is not S and all(r is not i.premise and r is not i.get_conclusion() for i in L)
                    try:
                        if op.get('spoil'):
                            r.add('?spoilt')
                    except Exception:
                        pass
                argsok = argsok and S == set(op['set']) and [pc(i) for i in L] == frozen and [id(i) for i in L] == ids
        # the closure that gives up when it would add one of the first n attributes of the base
        base = sorted(S | set().union(*[p | q for _, p, q in [(x[0], set(x[1]), set(x[2])) for x in op['imps'] if x[0] != 'same']]))
        random.Random(len(base) * 31 + len(S)).shuffle(base)
        prefix = {"base": list(base), "n": (3 * len(S) + len(L)) % (len(base) + 1), "ok": False, "v": ['?raises'], "shape": True}
        ok, r = call(co.closure, S, base, L, prefix['n'])
        if ok:
            try:
                prefix.update(ok=bool(r[0]), v=enc(r[1]), shape=isinstance(r[1], set) and r[1] is not S)
            except Exception:
                prefix.update(shape=False)
        argsok = argsok and S == set(op['set']) and base == prefix['base'] and [pc(i) for i in L] == frozen and [id(i) for i in L] == ids
        self.emit({"op": "closure", "set": sorted(op['set']), "imps": frozen, "groups": groups, "fresh": fresh,
                   "argsok": argsok, "prefix": prefix})

    def op_minimize(self, op):
        L = []
        for x in op['imps']:
            if x[0] == 'same':
                L.append(L[x[1] % len(L)] if L else Implication(set(), set()))
            else:
                L.append(Implication(set(x[1]), set(x[2])))
        self.minimize(L, op.get('close'))

    def minimize(self, L, close=None):
        before = [pc(i) for i in L]
        kw = {} if close is None else {'close': CLOSURES[close]}
        ok, r = call(lambda: ic.minimize(L, **kw))
        if not ok:
            self.emit({"op": "raises", "what": "minimize"})
            return
        self.emit({"op": "minimize", "before": before, "after": [pc(i) for i in L], "inplace": r is None or r is L})

    def op_cover(self, op):
        rows = op['r']
        c = Context([[x in row for x in op['a']] for row in rows], list(op['o']), list(op['a']))
        ok, L = call(ic.compute_implication_cover, c)
        if not ok:
            self.emit({"op": "raises", "what": "compute_implication_cover"})
            return
        same = list(c.objects) == op['o'] and list(c.attributes) == op['a'] and \
            [sorted(c.get_object_intent(o)) for o in op['o']] == [sorted(r) for r in rows]
        v = [pc(i) for i in L]
        self.emit({"op": "cover", "o": op['o'], "a": op['a'], "r": rows, "v": v, "argsok": same})
        if op.get('minimize'):
            self.minimize(L, op.get('close'))
            self.emit({"op": "cover", "o": op['o'], "a": op['a'], "r": rows, "v": [pc(i) for i in L], "argsok": True})

    def op_redundant(self, op):
        L = [Implication(set(p), set(c)) for p, c in op['imps']]
        i = Implication(set(op['imp'][0]), set(op['imp'][1]))
        ok, v = call(ic.is_redundant, i, L)
        if not ok:
            self.emit({"op": "raises", "what": "is_redundant"})
        else:
            self.emit({"op": "redundant", "imps": [pc(x) for x in L], "imp": pc(i), "v": bool(v)})
