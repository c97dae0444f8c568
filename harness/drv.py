"""Driver side: runs scenarios on the real code and records events.

Run as: drv.py PROP SHARD NSHARDS TIER SEED OUT   (one shard, one process)
or      drv.py PROP --replay FILE OUT

A property module (props/cNN.py) offers
  scenarios(tier, seed)  -> iterable of JSON-able scenario dicts (lazily made)
  run(scn)               -> {"h": header, "ev": [event, ...]}
Everything the real code does wrong must end up in events, never in a crash
of the driver: calls go through call(), results through the enc_* functions.
"""
import sys, os, json, random, signal, importlib, copy, itertools, traceback, io, contextlib, resource

sys.dont_write_bytecode = True
sys.modules['drv'] = sys.modules[__name__]      # also when run as a program: one Hang for all
REPO = os.environ.get('FCAV_REPO', '/repo')
sys.path.insert(0, REPO)
sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))
import warnings
warnings.simplefilter('ignore')
import logging
logging.disable(logging.CRITICAL)


class Hang(BaseException):
    pass


def _alarm(sig, frame):
    raise Hang()


LIMIT = 20000          # longest list taken from an iterator


def call(fn, *a, **k):
    """(True, result) or (False, exception); printing is swallowed."""
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return True, fn(*a, **k)
    except Hang:
        raise
    except BaseException as e:           # noqa - also SystemExit and friends
        if isinstance(e, KeyboardInterrupt):
            raise
        return False, e


def listed(it, limit=LIMIT):
    """list(it), bounded."""
    return list(itertools.islice(iter(it), limit))


def is_true(x):
    return bool(x) is True and not isinstance(x, (str, bytes))


class Ids:
    """Names of one kind (objects or attributes) <-> integers 1..n.
    Anything else becomes 0."""

    def __init__(self, names):
        self.names = list(names)
        self.d = {n: i + 1 for i, n in enumerate(self.names)}

    def id(self, x):
        try:
            i = self.d.get(x, 0)
        except TypeError:
            return 0
        if i and type(self.names[i - 1]) is not type(x):
            return 0
        return i

    def enc(self, xs):
        """list of ids of a collection, order kept for lists, sorted for sets"""
        try:
            ys = [self.id(x) for x in itertools.islice(iter(xs), LIMIT)]
        except TypeError:
            return [0, 0]
        if isinstance(xs, (set, frozenset, dict)) or type(xs).__name__ in ('dict_keys', 'Counter'):
            ys.sort()
        return ys

    def dec(self, ids):
        return [self.names[i - 1] for i in ids]


def generated(name=None):
    """behaviours of the specification written by vlib.Run.generate"""
    path = os.path.join(os.environ.get('FCAV_WORK', '/nonexistent'), 'gen.jsonl')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                n, b = json.loads(line)
                if name in (None, n):
                    yield b


def rows_to_table(rows, m):
    return [[(j + 1) in set(r) for j in range(m)] for r in rows]


def enc_bool(x):
    try:
        return bool(x)
    except Exception:
        return False


def same(f):
    ok, v = call(f)
    return bool(ok and v)


def run_one(mod, scn):
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, getattr(mod, 'TIMEOUT', 20), 15)       # again, should it be swallowed
    try:
        tr = mod.run(scn)
    except Hang:
        tr = {"h": {}, "ev": [], "abort": "does not terminate"}
    except MemoryError:
        tr = {"h": {}, "ev": [], "abort": "runs out of memory"}
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        at = [f for f in tb if REPO in f.filename] or tb
        tr = {"h": {}, "ev": [], "abort": "unexpected %s: %s (%s:%s)" % (
            type(e).__name__, str(e)[:200], os.path.basename(at[-1].filename), at[-1].lineno),
            "tb": traceback.format_exc()[-1500:]}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return tr


def main():
    prop = sys.argv[1]
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    mod = importlib.import_module('props.' + prop.lower())
    if sys.argv[2] == '--replay':
        scns = [json.load(open(sys.argv[3]))['scenario']]
        out = sys.argv[4]
    else:
        shard, n, tier, seed, out = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], int(sys.argv[5]), sys.argv[6]
        scns = (s for i, s in enumerate(mod.scenarios(tier, seed)) if i % n == shard)
    hangs = 0
    with open(out, 'w') as f:
        for scn in scns:
            tr = run_one(mod, scn)
            f.write(json.dumps([scn, tr], ensure_ascii=False) + '\n')
            if tr.get('abort') in ("does not terminate", "runs out of memory"):
                hangs += 1
                if hangs >= 2:
                    break


if __name__ == '__main__':
    main()
