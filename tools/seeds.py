#!/usr/bin/env python3
"""Development tool for /verif/seeded (no check uses it).
seeds.py verify [ID...]   each planted bug applies, builds, passes the tests, and its demo tells it from the clean tree
seeds.py catch [--all] [ID...]  runs the check of its property (--all: every check) against a patched copy of /repo
seeds.py quiet [--all] [NAME...]  runs the checks of the packages that use what it touches (--all: every check) against a copy
    with tools/quiet/NAME.diff, an edit that keeps the behaviour
SCALE=N runs an Nth of the random cases of the quick tier
"""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off')
env['PATH'] = '/opt/veriftools/go1.27.3/bin:' + env['PATH']

def sh(cmd, cwd, timeout=900, **kw):
    e = dict(env, **kw)
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as ex:
        return 124, 'TIMEOUT'

def copy(bug=None, patch=None):
    d = tempfile.mkdtemp(prefix='seed-')
    sh(f'git -C /repo archive HEAD | tar x -C {d}', '/')
    sh('git init -q && git add -A && git -c user.email=a -c user.name=a commit -qm x', d)
    if bug: patch = f'{root}/seeded/{bug}/patch.diff'
    if patch:
        rc, o = sh(f'git apply {patch}', d)
        if rc: raise Exception('apply: ' + o)
    return d

def blame(bug):
    """Removed lines of the original repository / of later commits."""
    first = sh('git rev-list --max-parents=0 HEAD', '/repo')[1].strip()
    old = new = 0
    f = n = None
    for l in open(f'{root}/seeded/{bug}/patch.diff'):
        if l.startswith('--- a/'): f = l[6:].strip(); bl = sh(f'git blame -s -l {f}', '/repo')[1].splitlines()
        elif l.startswith('@@'): n = int(l.split()[1][1:].split(',')[0])
        elif l.startswith('-') and not l.startswith('---'):
            if bl[n-1].lstrip('^').startswith(first[:30]): old += 1
            else: new += 1
            n += 1
        elif l.startswith(' '): n += 1
    return f'[{old} original, {new} later lines removed]' if not old or new else ''

def verify(bug):
    clean, bad = copy(), None
    try:
        bad = copy(bug)
        rc, o = sh('go build ./... && go vet ./... >/dev/null 2>&1; go test ./... 2>&1', bad)
        if rc: return bug, 'TESTS FAIL ' + o[-1500:]
        demo = tempfile.mkdtemp(prefix='demo-')
        for f in os.listdir(f'{root}/seeded/{bug}'):
            if not f.endswith(('.diff', '.patch')) and f != 'meta.json':
                shutil.copy(f'{root}/seeded/{bug}/{f}', demo)
        a, ao = sh(f'bash {demo}/demo.sh', clean, 300)
        b, bo = sh(f'bash {demo}/demo.sh', bad, 300)
        rc, st = sh('git status --short', clean)
        shutil.rmtree(demo)
        if a != 0: return bug, 'DEMO FAILS ON CLEAN ' + ao[-800:]
        if b == 0: return bug, 'DEMO PASSES WITH PATCH ' + bo[-800:]
        if st.strip(): return bug, 'DEMO DIRTIES ' + st
        return bug, 'ok: ' + (bo.strip().splitlines() or [''])[0][:150], blame(bug)
    except Exception as ex:
        return bug, 'ERROR ' + str(ex)
    finally:
        shutil.rmtree(clean)
        if bad: shutil.rmtree(bad)

def run_checks(repo, ids, tier='quick', jobs=1):
    b = tempfile.mkdtemp(prefix='hb-')
    try:
        sh(f'cp -r {root}/harness src && sed -i "s#=> /repo#=> {repo}#" src/go.mod', b)
        if os.environ.get('SCALE'):  # a fraction of the random cases
            sh(f'sed -i "s#return p.Directed + p.Quick#return p.Directed + p.Quick/{os.environ["SCALE"]}#" src/mon/run.go', b)
        os.mkdir(b + '/root')
        for f in ('known-findings.txt', 'properties.jsonl'):
            shutil.copy(f'{root}/{f}', b + '/root/')
        res = {}
        for race in (False, True):
            w = [i for i in ids if (i == 'X01') == race]
            if not w: continue
            rc, o = sh('CGO_ENABLED=%d go build %s -o ../h%d .' % (race, '-race' if race else '', race), b + '/src')
            if rc: return {'build': (rc, o)}
            def one(i):
                kw = {'VERIF_PROCS': '4'} if race else {}
                t = time.time()
                rc, o = sh(f'{b}/h{int(race)} check {i} {tier}', b + '/src', VERIF_ROOT=b + '/root', VERIF_SEED='1', TMPDIR=b, **kw)
                v = [l for l in o.splitlines() if l.startswith('VIOLATION')]
                return i, (rc, v[0] if v else '', o[:600], time.time() - t)
            with ThreadPoolExecutor(jobs) as ex:
                res.update(ex.map(one, w))
        return res
    finally:
        shutil.rmtree(b)

def catch(bug, all_=False):
    meta = json.load(open(f'{root}/seeded/{bug}/meta.json'))
    ids = [json.loads(l)['id'] for l in open(root + '/properties.jsonl')] if all_ else [meta['property']]
    d = None
    try:
        d = copy(bug)
        r = run_checks(d, ids, jobs=4 if all_ else 1)
    except Exception as ex:
        return bug, meta['property'], 'ERROR ' + str(ex)
    finally:
        if d: shutil.rmtree(d)
    if 'build' in r: return bug, meta['property'], 'BUILD ' + r['build'][1][-500:]
    own = r[meta['property']]
    s = 'CAUGHT' if own[0] == 1 and own[1] else f'MISSED rc={own[0]} ' + own[2][-300:]
    if all_: s += ' by ' + ' '.join(i for i in ids if r[i][0] == 1) + ' | other rc ' + ' '.join(f'{i}={r[i][0]}' for i in ids if r[i][0] not in (0, 1))
    else: s += ' %.1fs' % own[3]
    return bug, meta['property'], s

USES = {'amf/': 'A0', 'container/flv': 'F0 P05', 'container/ts': 'T0 P05', 'gop/': 'G0', 'packet/': 'F0 P0 G0 T0',
        'parser/': 'P0 T0', 'sips/': 'S0', 'amf/metadata': 'F03'}

def quiet(name, all_):
    ids = [json.loads(l)['id'] for l in open(root + '/properties.jsonl')]
    if not all_:
        want = 'X0'
        for l in open(f'{root}/tools/quiet/{name}.diff'):
            for k in USES:
                if l.startswith('--- a/' + k) or l.startswith('+++ b/' + k): want += ' ' + USES[k]
        ids = [i for i in ids if i.startswith(tuple(want.split()))]
    d = None
    try:
        d = copy(patch=f'{root}/tools/quiet/{name}.diff')
        r = run_checks(d, ids)
    except Exception as ex:
        return name, 'ERROR ' + str(ex)
    finally:
        if d: shutil.rmtree(d)
    if 'build' in r: return name, 'BUILD ' + r['build'][1][-500:]
    bad = [(i, r[i][0], r[i][2]) for i in ids if r[i][0]]
    return name, 'quiet' if not bad else 'ALARMS ' + str(bad)

if __name__ == '__main__':
    a = sys.argv[1:]
    cmd = a.pop(0)
    al = '--all' in a
    ids = [x for x in a if not x.startswith('--')] or sorted(os.listdir(root + '/seeded'))
    if cmd == 'quiet':
        ids = [x for x in a if x != '--all'] or sorted(x[:-5] for x in os.listdir(root + '/tools/quiet') if x.endswith('.diff'))
    f = (lambda x: quiet(x, al)) if cmd == 'quiet' else verify if cmd == 'verify' else (lambda x: catch(x, al))
    with ThreadPoolExecutor(1 if al or cmd == 'quiet' else 3) as ex:
        for r in ex.map(f, ids):
            print(*r, flush=True)
