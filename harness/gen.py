"""Scenario generators shared by the property modules."""
import random, itertools


def rng(seed, *salt):
    return random.Random('%s/%s' % (seed, '/'.join(map(str, salt))))


def structured(r, n, m):
    """chains, (contra)nominal scales, blocks, intervals: shapes a random table rarely has"""
    z = r.randrange(6)
    ro, co = r.sample(range(n), n), r.sample(range(m), m)
    if r.random() < 0.3:
        ro, co = list(range(n)), list(range(m))
    k = r.randrange(1, max(2, min(n, m) + 1))
    f = {0: lambda i, j: j * n <= i * m,                        # chain
         1: lambda i, j: i % max(m, 1) == j % max(n, 1),        # diagonal
         2: lambda i, j: i % max(m, 1) != j % max(n, 1),        # contranominal
         3: lambda i, j: i % k == j % k,                        # blocks
         4: lambda i, j: i <= j < i + k,                        # intervals
         5: lambda i, j: (i < n // 2) == (j < m // 2) or r.random() < 0.2}[z]
    return [[int(f(ro[i], co[j])) for j in range(m)] for i in range(n)]


def table(r, n, m, d=None):
    if d is None and r.random() < 0.2:
        return structured(r, n, m)
    d = r.choice([0.15, 0.3, 0.5, 0.5, 0.7, 0.85]) if d is None else d
    t = [[1 if r.random() < d else 0 for _ in range(m)] for _ in range(n)]
    # repeated, full and empty rows and columns
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        if n and m:
            z = r.randrange(6)
            i, j = r.randrange(n), r.randrange(m)
            if z == 0:
                t[i] = list(t[r.randrange(n)])
            elif z == 1:
                t[i] = [1] * m
            elif z == 2:
                t[i] = [0] * m
            elif z == 3:
                for x in range(n):
                    t[x][j] = 1
            elif z == 4:
                for x in range(n):
                    t[x][j] = 0
            else:
                b = r.randrange(m)
                for x in range(n):
                    t[x][j] = t[x][b]
    return t


def masks(n, m):
    """every n x m table as rows"""
    for bits in itertools.product(range(2 ** m), repeat=n):
        yield [[b >> j & 1 for j in range(m)] for b in bits]


def oname(i):
    return 'g%d' % (i + 1)


def aname(j):
    return 'abcdefghijklmnopqrstuvwxyz'[j] if j < 26 else 'x%d' % j


def big(r, shapes, p=0.03, wide=True):
    """a shape, sometimes one beyond machine words and bytes"""
    if not wide and r.random() < p:
        return r.choice([(2, 17), (3, 17), (1, 33), (65, 2), (64, 3), (130, 2), (257, 2), (70, 4)])
    if wide and r.random() < p:
        return r.choice([(2, 65), (3, 64), (4, 33), (2, 130), (65, 2), (64, 3), (33, 4), (130, 2), (257, 2), (3, 70)])
    return r.choice(shapes)


def blocks(r, n, m, k=4):
    """a table of any size with at most k different rows and k different columns"""
    t = [[r.randrange(2) for _ in range(k)] for _ in range(k)]
    x, y = [r.randrange(k) for _ in range(n)], [r.randrange(k) for _ in range(m)]
    return [[t[i][j] for j in y] for i in x]


# names that others are made of
JOINED = ['a', 'b', 'a b', 'ab', 'a,b', 'a, b', "a', 'b", 'b a', 'a:b', 'c', 'b c', 'a b c', 'abc', 'a,b,c', 'a_b', 'a b ', 'G', 'M']


def onames(n, r=None, style=0):
    xs = [oname(i) for i in range(n)]
    if style == 3:
        xs = (r.sample(JOINED, n) if n < len(JOINED) and r else JOINED + xs)[:n]
    if style == 1:
        xs = list(range(1, n + 1))
    elif style == 2:
        xs = ['%s%d' % (c, i) for i, c in zip(range(n), itertools.cycle('zyxwv'))]
    if r:
        r.shuffle(xs)
    return xs


def anames(m, r=None, style=0):
    xs = [aname(j) for j in range(m)]
    if style == 3:
        xs = (r.sample(JOINED, m) if m < len(JOINED) and r else JOINED + ['x%d' % j for j in range(m)])[:m]
    if style == 1:
        xs = list(range(1, m + 1))
    elif style == 2:
        xs = ['%s%d' % (c, j) for j, c in zip(range(m), itertools.cycle('qponm'))]
    if r:
        r.shuffle(xs)
    return xs


def new(k, n, m, tbl, o=None, a=None):
    return {"op": "new", "k": k, "o": onames(n) if o is None else o, "a": anames(m) if a is None else a, "tbl": tbl}


def upto(tier, quick, thorough):
    """how many random scenarios"""
    return quick * 4 if tier == 'quick' else thorough


def algorithm(module, consts, invs, props, workers=2, min_states=100, timeout=1500):
    """design model of an algorithm, step by step"""
    return dict(module=module, workers=workers, min_states=min_states, timeout=timeout,
                cfg='SPECIFICATION Spec\nCONSTANTS %s\nCHECK_DEADLOCK FALSE\nINVARIANTS %s\n%s'
                    % (consts, invs, 'PROPERTIES %s\n' % props if props else ''))


def theory(N, M, K, invs, workers=3, min_states=20, timeout=1500):
    """design model MC_Theory: every context up to N x M, implication sets up to K"""
    return dict(module='MC_Theory', workers=workers, min_states=min_states, timeout=timeout,
                cfg='INIT Init\nNEXT Next\nCONSTANTS N=%d M=%d K=%d\nCHECK_DEADLOCK FALSE\nINVARIANTS %s\n'
                    % (N, M, K, ' '.join('Inv' + i for i in invs)))
