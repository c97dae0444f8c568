#!/usr/bin/env python3
"""Planted bugs: make them from (file, old, new) edits, and try them out.
  plant.py make DEFS.py          write /verif/seeded/<id>/ for every entry of DEFS
  plant.py try [--check] ID...   in scratch copies: applies, changes original lines, builds, the 38 stable
                                 tests pass, demo passes clean and fails patched; --check: is it caught
"""
import sys, os, json, subprocess, shutil, tempfile, re
from concurrent.futures import ThreadPoolExecutor
V = '/verif'
SEED = V + '/seeded'
BASE = 'f6e3378'
DEMO = '#!/bin/bash\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def sh(cmd, **k):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def copy(where):
    sh(['git', '-C', '/repo', 'worktree', 'prune'])
    os.makedirs(where)
    sh('git -C /repo archive HEAD | tar -x -C ' + where, shell=True)


def make(defs):
    g = {}
    exec(open(defs).read(), g)
    for p in g['PLANTS']:
        d = tempfile.mkdtemp(prefix='mk')
        for side in 'ab':
            copy(d + '/' + side)
        bad = False
        for f, old, new in p['edits']:
            s = open(d + '/b/' + f).read()
            if s.count(old) != 1:
                print('!!', p['id'], f, s.count(old), 'occurrences of', repr(old[:60]))
                bad = True
                continue
            open(d + '/b/' + f, 'w').write(s.replace(old, new))
        if not bad:
            out = SEED + '/' + p['id']
            os.makedirs(out, exist_ok=True)
            _, diff = sh(['git', 'diff', '--no-index', '--no-prefix', 'a', 'b'], cwd=d)
            diff = re.sub(r'(?m)^(diff --git )a/(\S+) b/', r'\1a/\2 b/', diff)
            open(out + '/patch.diff', 'w').write(diff)
            open(out + '/demo.sh', 'w').write(DEMO)
            os.chmod(out + '/demo.sh', 0o755)
            open(out + '/demo.py', 'w').write(p['demo'].strip() + '\n')
            json.dump(dict(property=p['property'], needs=p['needs'], what_it_breaks=p['breaks']),
                      open(out + '/meta.json', 'w'), indent=1)
        shutil.rmtree(d)


def tests(where):
    s = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd ' + where)
    out = where + '.json'
    sh(['bash', '-c', s, 'test.sh', out], env=dict(os.environ, PYTHONPATH=where))
    b = json.load(open('/opt/vp/BASELINE.json'))
    r = json.load(open(out))
    os.remove(out)
    return b, r


def passed(r):
    for k in ('passed', 'pass', 'passing'):
        if k in r:
            return set(map(str, r[k]))
    return {k for k, v in r.get('tests', r).items() if v in ('pass', 'passed', True)}


def tryone(i, check):
    src = SEED + '/' + i
    w = tempfile.mkdtemp(prefix='pl_')
    r, d = w + '/repo', w + '/demo'
    msgs = []
    try:
        copy(r)
        shutil.copytree(src, d, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        rc, o = sh(['bash', d + '/demo.sh'], cwd=r, timeout=300)
        if rc:
            msgs.append('DEMO FAILS CLEAN: ' + o[-300:])
        rc, o = sh(['git', 'apply', src + '/patch.diff'], cwd=r)
        if rc:
            return i, ['PATCH DOES NOT APPLY ' + o]
        f, minus = None, 0
        for line in open(src + '/patch.diff'):
            if line.startswith('--- '):
                f = line[4:].split('\t')[0].strip().split('/', 1)[1]
                base = sh(['git', '-C', '/repo', 'show', BASE + ':' + f])[1].splitlines()
            elif line.startswith('-') and line[1:].strip():
                minus += line[1:].rstrip('\n') in base
        if not minus:
            msgs.append('no original line changed')
        s = open('/opt/vp/build.sh').read().replace('/repo', r)
        rc, o = sh(['bash', '-c', s], env=dict(os.environ, PYTHONPATH=r))
        if rc:
            msgs.append('DOES NOT BUILD ' + o[-300:])
        b, t = tests(r)
        lost = set(b['stable']) - passed(t) if 'stable' in b else passed(b) - passed(t)
        if lost:
            msgs.append('TESTS FAIL: %s' % sorted(lost)[:4])
        rc, o = sh(['bash', d + '/demo.sh'], cwd=r, timeout=300)
        if rc == 0:
            msgs.append('DEMO PASSES PATCHED')
        if check:
            prop = json.load(open(src + '/meta.json'))['property']
            v = w + '/verif'
            os.makedirs(v)
            sh('cp -a /verif/bin /verif/harness /verif/spec /verif/known_findings.txt /verif/MANIFEST.json ' + v, shell=True)
            rc, o = sh([v + '/bin/check', prop], cwd=v, env=dict(os.environ, FCAV_REPO=r, VERIF_SEED='1'))
            msgs.append('caught' if rc == 1 and 'VIOLATION property=' + prop in o else '*** MISSED (rc %s) %s' % (rc, o[-200:] if rc != 0 else ''))
    finally:
        shutil.rmtree(w)
    return i, msgs


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        make(sys.argv[2])
    else:
        a = sys.argv[2:]
        check = '--check' in a
        ids = [x for x in a if x != '--check'] or sorted(os.listdir(SEED))
        with ThreadPoolExecutor(3) as ex:
            for i, m in ex.map(lambda x: tryone(x, check), ids):
                print(i, '; '.join(m) or 'ok', flush=True)
