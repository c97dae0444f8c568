"""Recording histories of writing and reading files (C21, C22)."""
import os, tempfile, shutil, random
from drv import call

LISTY = ['len', 'objects', 'path', 'input_file', 'X..X', 'B', '1 2', '007', '#x', "print('x')", "__import__('os')", 'é', 'nan',
         'table', 'attributes', 'fca', 'ast', 'X', '.', '4', '0', 'Obj 1', 'a:b', 'a, b', '((((', '1e', 'x=1', 'lambda: 0', 'exit()',
         'open', 'i', 'line', '字', 'ß ü', 'True?', 'none', '-', '--1', '1.2.3', 'a\tb', 'c  d', "it's", '"q', 'f()', '{', 'not a', 'x or y',
         'next_obj_s', 'range(3)', '(1', '[', 'import os', 'raise', 'pass', '1_', '0x', '𝔸', '*', '%s', '\\n', '\\', 'a\\', '<b>', '&amp;']
PLAIN = ['a', 'b', 'c', 'd', 'g1', 'g2', 'x y', 'é', '0', '1', 'X', '.', '字', 'len', '-', 'ß', 'obj', 'attr', 'long ' * 20 + 'name', 'a;b', 'a|b', '10', '%', '#', '\\']


def tag(x):
    if type(x) is str:
        return 's:' + x
    if type(x) is int:
        return 'i:%d' % x
    if type(x) in (float, bool, type(None)):
        return type(x).__name__[0] + ':%s' % x
    return '?:%s %r' % (type(x).__name__, x)


def untag(x):
    return {'s': str, 'i': int, 'f': float, 'b': lambda v: v == 'True', 'N': lambda v: None}[x[0]](x[2:])


def observe(c):
    """a context as [o, a, r] or [o, a, v] of tagged texts, by its public interface"""
    try:
        o, a = [x for x in c.objects], [x for x in c.attributes]
        d = {"o": [tag(x) for x in o], "a": [tag(x) for x in a]}
        if type(c).__name__ == 'ManyValuedContext':
            d["v"] = [[tag(x) for x in c[i]] for i in range(len(o))]
            if len(c) != len(o):
                d["v"].append('?')
        else:
            d["r"] = [[tag(y) for y in a if y in c.get_object_intent(x)] for x in o]
            if len(c) != len(o) or [[bool(v) for v in c[i]] for i in range(len(o))] != \
                    [[y in row for y in d['a']] for row in d['r']] or \
                    [[x in c.get_attribute_extent(y) for y in a] for x in o] != [[y in row for y in d['a']] for row in d['r']]:
                d["r"].append(['?'])
        return d
    except Exception as e:
        return {"o": ['?' + type(e).__name__], "a": [], "r": []}


def lines_of(path):
    with open(path, 'rb') as f:
        s = f.read().decode('utf-8', 'surrogateescape').replace('\r\n', '\n')
    x = s.split('\n')
    return x[:-1] if x and x[-1] == '' else x


def make(c):
    from fca import Context, ManyValuedContext
    if 'v' in c:
        return ManyValuedContext([[untag(x) for x in row] for row in c['v']], [untag(x) for x in c['o']], [untag(x) for x in c['a']])
    return Context([[y in row for y in c['a']] for row in c['r']], [untag(x) for x in c['o']], [untag(x) for x in c['a']])


def run(scn):
    import fca
    from fca.readwrite import cxt, tab_separated as tab, comma_separated as csv_, fimi
    W = {'cxt': cxt.write_cxt, 'ucxt': cxt.uwrite_cxt, 'mv': tab.write_mv_txt, 'umv': tab.uwrite_mv_txt, 'fimi': fimi.write_fimi}
    R = {'cxt': cxt.read_cxt, 'ucxt': cxt.uread_cxt, 'txt': tab.read_txt, 'txtnames': tab.read_txt_with_names, 'mv': tab.read_mv_txt,
         'umv': tab.uread_mv_txt, 'mvcsv': csv_.read_mv_csv, 'csv': csv_.read_csv}
    TOP = {'cxt': 'write_cxt', 'ucxt': 'uwrite_cxt', 'mv': 'write_mv_txt', 'umv': 'uwrite_mv_txt'}
    d = tempfile.mkdtemp(dir=os.environ.get('FCAV_WORK'))
    ev = []
    try:
        def path(p):
            return os.path.join(d, p)

        def obs():
            return {p: lines_of(path(p)) for p in sorted(os.listdir(d))}
        for op in scn['ops']:
            p = op['p']
            e = {"op": op['op'], "p": p, "f": op.get('f', ''), "out": "ok"}
            if op['op'] == 'put':
                text = '\n'.join(op['lines']) + ('' if op.get('open_end') else '\n')
                with open(path(p), 'wb') as f:
                    f.write(text.encode('utf-8'))
                e.update(lines=op['lines'], obs=obs())
            elif op['op'] == 'write':
                ok, c = call(make, op['c'])
                if not ok:
                    return {"h": {}, "ev": [], "abort": "cannot build the context: %r" % c}
                ok, v = call(W[op['f']], c, path(p))
                e.update(out="ok" if ok else "exc", c=op['c'], after=observe(c), obs=obs())
            elif op['op'] == 'read':
                ok, v = call(R[op['f']], path(p))
                e.update(out="ok" if ok else "exc", obs=obs(), c=observe(v) if ok else {"o": ['?'], "a": [], "r": []})
            elif op['op'] == 'roundtrip':
                ok, c = call(make, op['c'])
                ok2, v = call(W[op['f']], c, path(p)) if ok else (False, None)
                ok3, b = call(R[op.get('g', op['f'])], path(p)) if ok2 else (False, None)
                e.update(out="ok" if ok3 else "exc", c=op['c'], back=observe(b) if ok3 else {"o": ['?'], "a": [], "r": []}, obs=obs())
            ev.append(e)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return {"h": {"x": 0}, "ev": ev}


def names(r, n, pool, ints=0.0, blank=0.0):
    out = []
    while len(out) < n:
        x = ('i:%d' % r.choice([0, 1, 2, 7, -1, -20, 100, 4294967296, 10 ** 20])) if r.random() < ints else 's:' + r.choice(pool)
        if r.random() < (.1 if n < 40 else .95):
            x = 's:n%d' % r.randrange(max(100, 4 * n))
        if r.random() < blank:
            x = 's:'
        if x not in out:
            out.append(x)
    return out
