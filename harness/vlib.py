"""Runner side: design model checking, conformance, verdict, evidence."""
import sys, os, json, subprocess, tempfile, shutil, re, time, threading, importlib, collections
from concurrent.futures import ThreadPoolExecutor, as_completed

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(V, 'spec')
PY = '/opt/venv/bin/python'
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NSH = 8
MAXFAIL = 20


class MachineryError(Exception):
    pass


def env_clean(**kw):
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent', LANG='C.UTF-8', LC_ALL='C.UTF-8',
             PYTHONNOUSERSITE='1')
    e.update(kw)
    return e


def tlc(module, cfg, work, name, env=None, workers=1, timeout=800, heap='2g', extra=(), short=False):
    """Run TLC on spec/<module>.tla; returns dict(out, states, generated, ok, rc)."""
    meta = os.path.join(work, 'meta_' + name)
    os.makedirs(meta, exist_ok=True)
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC',
           '-XX:TieredStopAtLevel=%d' % (1 if short else 4),
           '-Dfile.encoding=UTF-8', '-Dstdout.encoding=UTF-8', '-DTLA-Library=' + SPEC,
           '-Djava.io.tmpdir=' + work, '-cp', CP, 'tlc2.TLC', '-metadir', meta, '-noTE',
           '-workers', str(workers), '-config', cfg] + list(extra) + [os.path.join(SPEC, module + '.tla')]
    t0 = time.time()
    log = os.path.join(work, 'out_' + name)
    with open(log, 'wb') as f:
        p = subprocess.Popen(cmd, cwd=work, env=env_clean(**(env or {})), stdout=f, stderr=subprocess.STDOUT)
        failed, pause = None, 0.02
        try:
            while p.poll() is None:
                now = time.time()
                if now > t0 + timeout or failed and now > failed + 15:
                    break
                # once TLC has met an expression without a value and shown the state, it may explain the
                # expression at exponential cost: this is not waited for
                if failed is None and pause >= 1 and b'The behavior up to this point is' in open(log, 'rb').read():
                    failed = now
                time.sleep(pause)
                pause = min(1, pause * 1.5)
            rc = p.poll()
        finally:
            if p.poll() is None:
                p.kill()
            p.wait()
    with open(log, 'rb') as f:
        out = f.read().decode('utf-8', 'replace')
    os.unlink(log)
    if rc is None:
        rc = 75 if failed else -1
    m = re.search(r'([\d,]+) states generated, ([\d,]+) distinct states found, ([\d,]+) states left', out)
    g, d, left = (int(x.replace(',', '')) for x in m.groups()) if m else (0, 0, -1)
    shutil.rmtree(meta, ignore_errors=True)
    return dict(out=out, rc=rc, generated=g, states=d, left=left, wall=time.time() - t0, cmd=' '.join(cmd),
                ok=rc == 0 and 'No error has been found' in out)


def tail(s, n=2500):
    return s[:600] + "..." + s[-n:] if len(s) > n + 600 else s


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.mod = importlib.import_module('props.' + prop.lower())
        self.work = tempfile.mkdtemp(prefix='fcav_%s_' % prop)
        self.fails = []          # (clause, scenario, trace, event index or None)
        self.mc = []
        self.gens = []
        self.ntraces = self.nevents = 0
        self.tstates = self.tgen = 0
        self.samples = []
        self.ops = collections.Counter()
        self.nontrivial = set()
        self.checker = ''

    # --- the design models ---------------------------------------------
    def design(self):
        models = self.mod.MODELS.get(self.tier, []) if hasattr(self.mod, 'MODELS') else []
        for i, m in enumerate(models):
            module, consts = m['module'], m.get('cfg')
            cfg = os.path.join(self.work, 'mc%d.cfg' % i)
            with open(cfg, 'w') as f:
                f.write(consts)
            r = tlc(module, cfg, self.work, 'mc%d' % i, workers=m.get('workers', 2), timeout=m.get('timeout', 800),
                    heap=m.get('heap', '4g'), extra=m.get('extra', ()))
            if not r['ok']:
                raise MachineryError('design model %s failed:\n%s' % (module, tail(r['out'])))
            if r['states'] < m.get('min_states', 1):
                raise MachineryError('design model %s explored only %d states' % (module, r['states']))
            self.mc.append(dict(module=module, states=r['states'], transitions=r['generated'], wall=round(r['wall'], 1)))

    # --- behaviours of the specification, to be replayed ------------------
    def generate(self):
        """Each entry of GEN prints behaviours; they are written to
        <work>/gen.jsonl as [name, behaviour] for the drivers."""
        gens = getattr(self.mod, 'GEN', {}).get(self.tier, [])
        path = os.path.join(self.work, 'gen.jsonl')

        def one(i, g):
            cfg = os.path.join(self.work, 'gen%d.cfg' % i)
            with open(cfg, 'w') as f:
                f.write(g['cfg'])
            extra = []
            if g.get('simulate'):
                extra = ['-simulate', 'num=%d' % g['simulate'], '-depth', str(g['depth']), '-seed',
                         str(self.seed * 1000 + i)]
            r = tlc(g['module'], cfg, self.work, 'gen%d' % i, workers=g.get('workers', 1), timeout=g.get('timeout', 600),
                    heap='3g', extra=extra, short=self.tier == 'quick')
            out = []
            for m in re.finditer(r'^("@SCN@.*")$', r['out'], re.M):
                out.append(json.loads(json.loads(m.group(1))[5:]))
            if r['rc'] != 0 or len(out) < g.get('min', 1):
                raise MachineryError('generation by %s failed:\n%s' % (g['module'], tail(r['out'])))
            return out
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(lambda x: one(*x), enumerate(gens)))
        with open(path, 'w') as f:
            for g, out in zip(gens, outs):
                seen = set()
                for b in out:
                    s = json.dumps(b, sort_keys=True)
                    if s not in seen:
                        seen.add(s)
                        f.write(json.dumps([g.get('name', g['module']), b]) + '\n')
                self.gens.append(dict(module=g['module'], behaviours=len(seen)))

    # --- conformance -----------------------------------------------------
    def shard(self, i, replay=None):
        out = os.path.join(self.work, 'raw%d.jsonl' % i)
        args = [PY, os.path.join(V, 'harness', 'drv.py'), self.prop]
        args += ['--replay', replay, out] if replay else [str(i), str(NSH), self.tier, str(self.seed), out]
        limit = 600 if self.tier == 'quick' else 3000
        try:
            p = subprocess.run(args, cwd=self.work, env=env_clean(PYTHONHASHSEED=str((self.seed * 31 + i) % 4294967295),
                                                                   FCAV_WORK=self.work, FCAV_SHARD=str(i)),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit)
            rc, txt = p.returncode, p.stdout.decode('utf-8', 'replace')
        except subprocess.TimeoutExpired as e:
            rc, txt = -9, 'timeout'
        recs = []
        if os.path.exists(out):
            with open(out) as f:
                for line in f:
                    try:
                        recs.append(json.loads(line))
                    except ValueError:
                        break
        if rc != 0:
            # the code under test cannot even be imported or kills the process
            if recs or 'fca' in txt or rc < 0:
                self.fails.append(('driver process died (rc %s): %s' % (rc, tail(txt, 600)), None, None, None))
            else:
                raise MachineryError('driver failed: ' + tail(txt))
        traces, scns = [], []
        for scn, tr in recs:
            if tr.get('abort'):
                self.fails.append((tr['abort'], scn, tr, None))
            elif tr['ev']:
                traces.append({"h": tr["h"], "ev": tr["ev"]})
                scns.append(scn)
        return traces, scns

    def validate(self, i, traces, scns, module=None):
        """Let TLC judge the traces; batches bound the size of one JSON file."""
        module = module or self.mod.TRACE
        cfg = os.path.join(self.work, 'tr%d.cfg' % i)
        with open(cfg, 'w') as f:
            f.write('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n' + getattr(self.mod, 'TRACE_CFG', ''))
        todo, b = list(range(len(traces))), 0
        batch = getattr(self.mod, 'BATCH', 4000)
        while todo:
            part, size = [], 0
            while todo and (size < batch or not part):
                k = todo.pop(0)
                part.append(k)
                size += len(traces[k]['ev'])
            path = os.path.join(self.work, 'trace%d_%d.json' % (i, b))
            b += 1
            with open(path, 'w', encoding='utf-8') as f:
                json.dump({"traces": [traces[k] for k in part]}, f, ensure_ascii=False)
            r = tlc(module, cfg, self.work, 'tr%d' % i, env={'TRACE': path}, workers=1, heap='3g',
                    timeout=780 if self.tier == 'quick' else 3000, short=self.tier == 'quick')
            self.checker = r['cmd']
            expect = sum(len(traces[k]['ev']) + 1 for k in part)
            for m in re.finditer(r'<<"@FAIL@", (\d+), (\d+), "((?:[^"\\]|\\.)*)">>', r['out']):
                k = part[int(m.group(1)) - 1]
                self.fails.append((m.group(3), scns[k], traces[k], int(m.group(2)) - 1))
            if not r['ok'] or r['states'] != expect:
                # an event the specification has no meaning for (its operators are not defined on what was
                # recorded): no step of the specification explains it
                at = re.findall(r'^(?:/\\ )?([tl]) = (\d+)$', r['out'], re.M)
                at = {x: int(n) for x, n in at[-3:]}
                if r['rc'] == 75 and at.get('t', 0) in range(1, len(part) + 1):
                    k = part[at['t'] - 1]
                    n = min(at.get('l', 1), len(traces[k]['ev'])) - 1
                    self.fails.append(('event %s has a meaning: %s' % (traces[k]['ev'][n].get('op', '?'), ' '.join(re.findall(r'^(?:Attempted|The error|Evaluating|In applying|In computing).*', r['out'], re.M))[:200]),
                                       scns[k], traces[k], n))
                else:
                    keep = os.path.join('/tmp', 'fcav_error_%s.json' % self.prop)
                    shutil.copy(path, keep)
                    raise MachineryError('trace validation did not finish (%d of %d states; trace kept in %s):\n%s'
                                         % (r['states'], expect, keep, tail(r['out'])))
            os.unlink(path)
            self.tstates += r['states']
            self.tgen += r['generated']
        for tr, scn in zip(traces, scns):
            self.ntraces += 1
            self.nevents += len(tr['ev'])
            for e in tr['ev']:
                self.ops[e.get('op', '?')] += 1
        nt = getattr(self.mod, 'nontrivial', None)
        for tr, scn in zip(traces, scns):
            if nt is None or nt(scn, tr):
                self.nontrivial.add(json.dumps(scn, sort_keys=True)[:4000])
        if traces and len(self.samples) < 4:
            self.samples.append({"scenario": scns[len(scns) // 2], "events": traces[len(scns) // 2]['ev'][:3]})

    def conform(self, replay=None):
        def one(i):
            traces, scns = self.shard(i, replay)
            self.validate(i, traces, scns)
        n = 1 if replay else NSH
        if not replay:
            self.generate()
        with ThreadPoolExecutor(n + 1) as ex:
            futs = [ex.submit(one, i) for i in range(n)]
            if not replay:
                futs.append(ex.submit(self.design))
            err = None
            for f in as_completed(futs):
                try:
                    f.result()
                except Exception as e:
                    err = err or e
            # a violation already found stands, whatever else went wrong
            if err and not self.fails:
                raise err
            self.err = err

    # --- verdict -----------------------------------------------------------
    def known(self):
        out = []
        p = os.path.join(V, 'known_findings.txt')
        if os.path.exists(p):
            for line in open(p, encoding='utf-8'):
                m = re.match(r'finding: property=(\S+) match=(\S+) (.*)', line)
                if m and m.group(1) == self.prop:
                    out.append((re.compile(m.group(2)), m.group(3).strip()))
        return out

    def finish(self, t0, replay=None):
        known = self.known()
        hit, new = {}, []
        for f in self.fails:
            sig = self.mod.signature(f) if hasattr(self.mod, 'signature') else None
            for rx, text in known:
                if sig and rx.fullmatch(sig):
                    hit[text] = 1
                    break
            else:
                new.append(f)
        for _, text in known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, text))
        rep = None
        if new:
            d = os.path.join(V, 'evidence', 'replay')
            os.makedirs(d, exist_ok=True)
            order = sorted(new, key=lambda f: (f[1] is None, len(json.dumps(f[1]))))
            f = order[0]
            rep = os.path.join(d, self.prop + '.json')
            with open(rep, 'w', encoding='utf-8') as fh:
                json.dump({"property": self.prop, "clause": f[0], "scenario": f[1], "event": f[3],
                           "trace": f[2], "seed": self.seed, "hashseed": None,
                           "rerun": "python3 /verif/bin/check %s --replay %s" % (self.prop, rep),
                           "all_clauses": sorted(set(x[0] for x in new))[:60]}, fh, indent=1, ensure_ascii=False)
            for c, n in collections.Counter(x[0] for x in new).most_common(MAXFAIL):
                print('  failed clause (%d x): %s' % (n, c))
            print('VIOLATION property=%s replay=%s' % (self.prop, rep))
        if not replay:
            self.evidence(t0, len(new))
        return 1 if new else 0

    def evidence(self, t0, nviol):
        doc = getattr(self.mod, 'EVIDENCE', {})
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.tstates + sum(m['states'] for m in self.mc),
                "transitions": self.tgen + sum(m['transitions'] for m in self.mc),
                "traces_validated_against_impl": self.ntraces,
                "evaluations": self.nevents,
                "distinct_nontrivial": len(self.nontrivial),
                "rule": doc.get('rule', 'one scenario = one recorded execution of the implementation'),
                "samples": self.samples,
                "checker_cmd": self.checker,
                "explanation": doc.get('explanation', '') + ' Design models: ' + json.dumps(self.mc)
                + '. Behaviours generated from the specification and replayed: ' + json.dumps(self.gens)
                + '. Events by operation: ' + json.dumps(dict(self.ops)),
                "trusted_base": ["TLC 1.8.0", "CommunityModules (Json, SequencesExt, FiniteSetsExt)",
                                 "the recording driver in /verif/harness"],
            },
            "assumptions": doc.get('assumptions', []),
            "wall_s": round(time.time() - t0, 1),
            "violations": nviol,
        }
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        with open(os.path.join(V, 'evidence', self.prop + '.json'), 'w', encoding='utf-8') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    a = ap.parse_args()
    t0 = time.time()
    sys.path.insert(0, os.path.join(V, 'harness'))
    run = Run(a.prop, a.tier, a.seed)
    try:
        run.conform(a.replay)
        if getattr(run, 'err', None):
            print('note: also a machinery error:', str(run.err)[:500])
        rc = run.finish(t0, a.replay)
        print('%s %s: %d traces, %d events validated, %d+%d states, %d design models, %.1f s -> %s' % (
            a.prop, a.tier, run.ntraces, run.nevents, run.tstates, sum(m['states'] for m in run.mc), len(run.mc),
            time.time() - t0, 'violation' if rc else 'holds'))
    except MachineryError as e:
        print('MACHINERY ERROR:', e)
        rc = 2
    finally:
        shutil.rmtree(run.work, ignore_errors=True)
    sys.exit(rc)
