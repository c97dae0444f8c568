"""C23: concept systems in XML."""
import gen
import os, tempfile, shutil, hashlib
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape, quoteattr
from drv import call
from gen import rng

TRACE = 'Trace_Xml'
BATCH = 3000
CFG = '''INIT Init
NEXT Next
CONSTANTS Len1 = %d Rounds = %d Cut = %s
INVARIANT Written RoundTrip
CHECK_DEADLOCK FALSE
'''
MODELS = {'quick': [dict(module='MC_Xml', cfg=CFG % (1, 2, 'TRUE'), workers=3, min_states=100000)],
          'thorough': [dict(module='MC_Xml', cfg=CFG % (1, 3, 'TRUE'), workers=4, min_states=100000, timeout=2800),
                       dict(module='MC_Xml', cfg=CFG % (2, 1, 'TRUE'), workers=4, min_states=100000, timeout=2800)]}
EVIDENCE = dict(
    rule='a scenario is a history of writing, laying out, breaking and reading XML files; non-trivial: a system with two or more concepts is read',
    explanation='The document written is parsed independently and decoded by the specification; each system read is compared with the decoded document.')
NAMES = ['a', 'b', 'c', 'x y', 'a  b', '<', '>', '&', '&amp;', '<b>', "'", '"', 'a & b', '& b', 'a &', 'é', '字', 'a é', 'ß ü', '0', '1', '1.5', ']]>', '<!-- x -->',
         'id', 'o1', 'a1', 'object', 'name with several words', 'x' * 1023 + ' y', ('é ' * 700) + 'z', '&#10;', '%s', '{0}', '\\n', '𝔸 b', 'q<r', 'a > b', '-', '#', 'M', 'G',
         'tab\tin', ' '.join(['w&'] * 30), '€ & £', 'x;', 'a,b', '()', 'NaN', 'True']
KEYS = ['k', 'Stability', 'int stab', 'a b c', 'X1', 'extent size', 'sep']
VALS = ['0.0', '1.0', '0.5', '0.1', '1e-30', '1.7976931348623157e+308', '-3.25', '3.141592653589793', '5e-324', 'inf', '-inf', '0.30000000000000004', '100.0', '1e+16']


def system(r, n):
    pool = NAMES + ['n%d' % i for i in range(8)]
    if r.random() < .05:
        pool = pool + [('b' * r.choice([0, 1])) + 'a ' * r.choice([4000, 4096, 5000, 9000]) + 'z']
    O, A = r.sample(pool, r.choice([0, 1, 2, 4, 7])), r.sample(pool, r.choice([0, 1, 2, 4, 7]))
    out = []
    for _ in range(n):
        p = r.choice([.2, .5, .9])
        m = [[k, r.choice(VALS)] for k in r.sample(KEYS, r.choice([0, 0, 1, 2]))]
        out.append({"e": [o for o in O if r.random() < p], "i": [a for a in A if r.random() < p], "m": m})
    if out and r.random() < .15:
        out.append(dict(out[0]))
    return out


def scenarios(tier, seed):
    for x in NAMES:
        for side in 'ei':
            s = [{"e": [x, 'g'] if side == 'e' else ['g'], "i": ['m'] if side == 'e' else ['m', x], "m": [['k', '0.5']]},
                 {"e": [], "i": [], "m": []}]
            yield {"ops": [{"op": "write", "p": "f", "sys": s, "via": "system"}, {"op": "read", "p": "f", "how": "read"},
                           {"op": "read", "p": "f", "how": "uread"}]}
    for v in VALS:
        s = [{"e": ['g'], "i": ['m'], "m": [[k, v] for k in KEYS]}]
        yield {"ops": [{"op": "write", "p": "f", "sys": s, "via": "system"}, {"op": "read", "p": "f", "how": "read"}, {"op": "read", "p": "f", "how": "uread"}]}
    for i in range(gen.upto(tier, 8, 60)):         # many concepts, many names
        r = rng(seed, 'c23l', i)
        n = r.choice([5, 6])
        if i % 2:
            e = {"ctx": {"o": r.sample(NAMES, n), "a": r.sample(NAMES, n), "t": [[x != y for y in range(n)] for x in range(n)]}, "via": "lattice", "meta": [['k', '0.5']]}
        else:
            O, A = (['g%d' % x for x in range(k)] for k in r.choice([(3, 300), (1100, 2), (70, 70)]))
            e = {"sys": [{"e": [x for x in O if r.random() < .8], "i": [x for x in A if r.random() < .8], "m": []} for _ in range(3)], "via": "system"}
        yield {"ops": [dict(e, op="write", p="f"), {"op": "read", "p": "f", "how": "read"}, {"op": "read", "p": "f", "how": "uread"}]}
    for i in range(gen.upto(tier, 500, 10000)):
        r = rng(seed, 'c23', i)
        ops, seen = [], []
        for step in range(r.choice([2, 4, 8, 12])):
            p = r.choice(['f', 'g.xml', 'h'])
            z = r.random()
            if z < .3:
                via = r.choice(['system', 'lattice'])
                if via == 'lattice':
                    n, m = r.choice([(0, 2), (2, 0), (1, 1), (2, 2), (3, 3), (4, 4), (3, 5)])
                    c = {"o": r.sample(NAMES, n), "a": r.sample(NAMES, m), "t": [[r.random() < .5 for _ in range(m)] for _ in range(n)]}
                    ops.append({"op": "write", "p": p, "ctx": c, "via": via, "meta": [[k, r.choice(VALS)] for k in r.sample(KEYS, r.choice([0, 1, 2]))]})
                else:
                    ops.append({"op": "write", "p": p, "sys": system(r, r.choice([0, 1, 2, 4])), "via": via, "int": r.random() < .2})
            elif z < .45:
                ops.append({"op": "put", "p": p, "sys": system(r, r.choice([0, 1, 2, 4])), "seed": r.randrange(10 ** 6)})
            elif z < .55 and seen:
                p = r.choice(seen)
                ops.append({"op": "break", "p": p, "at": r.choice([.2, .4, .5, .6, .8, .95])})
                ops.append({"op": "read", "p": p, "how": r.choice(['read', 'uread'])})
                continue
            elif seen:
                ops.append({"op": "read", "p": r.choice(seen), "how": r.choice(['read', 'uread'])})
                continue
            else:
                continue
            seen.append(p)
        for p in sorted(set(seen)):
            ops.append({"op": "read", "p": p, "how": r.choice(['read', 'uread'])})
        yield {"ops": ops}


def layout(s, seed):
    """a valid document for the system, laid out differently from the writer"""
    import random
    r = random.Random(seed)
    O = sorted({o for c in s for o in c['e']})
    A = sorted({a for c in s for a in c['i']})
    O += ['unused'] if 'unused' not in O and r.random() < .3 else []
    r.shuffle(O)
    r.shuffle(A)
    style = r.choice(['o%d', 'x%d', 'id-%d'])
    oid = {o: style % (k * r.choice([1, 3]) + 10 * k) for k, o in enumerate(O)}
    aid = {a: style % (10 * k + 1) for k, a in enumerate(A)}
    nl, ind = ('', '') if r.random() < .4 else ('\n', r.choice(['', ' ', '\t']))

    def line(k, x):
        return ind * k + x + nl
    doc = {"objs": [{"id": oid[o], "name": o} for o in O], "atts": [{"id": aid[a], "name": a} for a in A], "cs": []}
    t = '<?xml version="1.0" encoding="UTF-8"?>' + nl
    t += line(0, '<conceptsystem>') + line(1, '<objects>')
    t += ''.join(line(2, '<object id=%s>%s</object>' % (quoteattr(oid[o]), escape(o))) for o in O) + line(1, '</objects>') + line(1, '<attributes>')
    t += ''.join(line(2, '<attribute id=%s>%s</attribute>' % (quoteattr(aid[a]), escape(a))) for a in A) + line(1, '</attributes>') + line(1, '<concepts>')
    for c in s:
        e, i = list(c['e']), list(c['i'])
        r.shuffle(e)
        r.shuffle(i)
        doc['cs'].append({"e": [oid[x] for x in e], "i": [aid[x] for x in i], "m": [[k.replace(' ', '_'), v] for k, v in c['m']]})
        parts = [line(3, '<extent>') + ''.join(line(4, '<object ref=%s/>' % quoteattr(oid[x])) for x in e) + line(3, '</extent>'),
                 line(3, '<intent>') + ''.join(line(4, '<attribute ref=%s></attribute>' % quoteattr(aid[x])) for x in i) + line(3, '</intent>')]
        if c['m'] or r.random() < .5:
            parts.append(line(3, '<meta %s/>' % ' '.join('%s=%s' % (k.replace(' ', '_'), quoteattr(v)) for k, v in c['m'])))
        if r.random() < .3:
            r.shuffle(parts)
        t += line(2, '<concept>') + ''.join(parts) + line(2, '</concept>')
    return t + line(1, '</concepts>') + line(0, '</conceptsystem>'), doc


def run(scn):
    import fca
    from fca import Concept, ConceptSystem, ConceptLattice, Context
    from fca.readwrite.xml_ import write_xml, read_xml, uread_xml
    d = tempfile.mkdtemp(dir=os.environ.get('FCAV_WORK'))
    ev, sums, held = [], {}, []

    def num(v):
        return repr(float(v))

    def observe(cs):
        try:
            return [{"e": sorted(c.extent), "i": sorted(c.intent), "m": sorted([k, num(v)] for k, v in c.meta.items())} for c in
                    [cs[k] for k in range(len(cs))]]
        except Exception as e:
            return [{"e": ['?' + type(e).__name__], "i": [], "m": []}]

    def path(p):
        return os.path.join(d, p)

    def changed():
        new = {p: hashlib.md5(open(path(p), 'rb').read()).hexdigest() for p in os.listdir(d)}
        out = [p for p in set(new) | set(sums) if new.get(p) != sums.get(p)]
        sums.clear()
        sums.update(new)
        return sorted(out)

    def parse(p):
        try:
            root = ET.parse(path(p)).getroot()
            if root.tag != 'conceptsystem':
                return None
            doc = {"objs": [{"id": x.get('id') or '', "name": x.text or ''} for x in root.find('objects')],
                   "atts": [{"id": x.get('id') or '', "name": x.text or ''} for x in root.find('attributes')], "cs": []}
            for c in root.find('concepts'):
                m = c.find('meta')
                doc['cs'].append({"e": [x.get('ref') or '' for x in c.find('extent')], "i": [x.get('ref') or '' for x in c.find('intent')],
                                  "m": [[k, num(v)] for k, v in (m.attrib if m is not None else {}).items()]})
            return doc
        except Exception:
            return None
    try:
        for op in scn['ops']:
            p = op['p']
            e = {"op": op['op'], "p": p, "out": "ok"}
            if op['op'] == 'write':
                if op['via'] == 'lattice':
                    c = op['ctx']
                    ok, cs = call(lambda: ConceptLattice(Context([list(x) for x in c['t']], list(c['o']), list(c['a']))))
                    if ok:
                        for k, con in enumerate(cs):
                            for x, v in op['meta']:
                                con.meta[x] = float(v) if k % 2 else 0.25 * k
                else:
                    def mk():
                        L = []
                        for c in op['sys']:
                            con = Concept(list(c['e']), list(c['i']))
                            for x, v in c['m']:
                                con.meta[x] = int(float(v)) if op.get('int') and abs(float(v)) < 1e6 else float(v)
                            L.append(con)
                        return ConceptSystem(L)
                    ok, cs = call(mk)
                if not ok:
                    return {"h": {}, "ev": [], "abort": "cannot build the system: %r" % cs}
                e['sys'] = observe(cs)
                ok, v = call(write_xml, path(p), cs)
                doc = parse(p) if ok else None
                e.update(out="ok" if ok else "exc", parsed=doc is not None, doc=doc or {"objs": [], "atts": [], "cs": []}, after=observe(cs))
                e["changed"] = changed()
            elif op['op'] == 'put':
                text, doc = layout(op['sys'], op['seed'])
                with open(path(p), 'w', encoding='utf-8') as f:
                    f.write(text)
                changed()
                e["doc"] = doc
            elif op['op'] == 'break':
                b = open(path(p), 'rb').read()
                with open(path(p), 'wb') as f:
                    f.write(b[:int(len(b) * op['at'])])
                changed()
            elif op['op'] == 'read':
                ok, v = call(read_xml if op['how'] == 'read' else uread_xml, path(p))
                e.update(out="ok" if ok else "exc", how=op['how'], sys=observe(v) if ok else [], changed=changed())
                if ok and not isinstance(v, ConceptSystem):
                    e['out'] = 'no system'
                e['earlier'] = [observe(x) == y for x, y in held]
                if ok:
                    held.append((v, e['sys']))
            ev.append(e)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return {"h": {"keys": {k.replace(' ', '_'): k for k in KEYS}}, "ev": ev}


def nontrivial(scn, tr):
    return any(e['op'] == 'read' and len(e['sys']) > 1 for e in tr['ev'])
