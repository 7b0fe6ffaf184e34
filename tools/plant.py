"""Author and verify planted bugs (never used by a check).

    python3 -m tools.plant add FILE.py      FILE.py holds a list BUGS of dicts
    python3 -m tools.plant verify [ID ...]  build/tests/demo on a scratch copy, and what the checks say
"""
import json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
DEMO_SH = '''#!/bin/sh
here=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, cwd=None, timeout=900, env=None):
    r = subprocess.run(cmd, shell=True, cwd=cwd, timeout=timeout, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    return r.returncode, r.stdout


def scratch():
    d = tempfile.mkdtemp(prefix='plant_')
    sh('git -C /repo worktree prune; git clone -q /repo %s/repo' % d)
    return d


def add(path):
    ns = {}
    exec(open(path).read(), ns)
    for b in ns['BUGS']:
        d = scratch()
        repo = d + '/repo'
        try:
            for f, old, new in b['edits']:
                p = os.path.join(repo, f)
                s = open(p).read()
                n = s.count(old)
                if n != 1:
                    print(b['id'], 'EDIT MATCHES', n, 'times:', f, old[:60])
                    break
                open(p, 'w').write(s.replace(old, new))
            else:
                out = os.path.join(SEEDED, b['id'])
                os.makedirs(out, exist_ok=True)
                rc, diff = sh('git diff', cwd=repo)
                open(out + '/patch.diff', 'w').write(diff)
                open(out + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
                open(out + '/demo.sh', 'w').write(DEMO_SH)
                os.chmod(out + '/demo.sh', 0o755)
                if 'stubs' in b['demo']:
                    shutil.copy(VERIF + '/tools/stubs.py', out + '/stubs.py')
                json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                          open(out + '/meta.json', 'w'), indent=1)
                open(out + '/meta.json', 'a').write('\n')
        finally:
            shutil.rmtree(d)
    verify([b['id'] for b in ns['BUGS']])


def one(i):
    src = os.path.join(SEEDED, i)
    meta = json.load(open(src + '/meta.json'))
    d = scratch()
    repo = d + '/repo'
    try:
        dd = d + '/demo'
        shutil.copytree(src, dd, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        rc0, o0 = sh('timeout 300 sh %s/demo.sh' % dd, cwd=repo)
        rc, o = sh('git apply %s/patch.diff' % src, cwd=repo)
        if rc:
            return i, meta['property'], 'PATCH DOES NOT APPLY', ''
        rc1, o1 = sh('timeout 300 sh %s/demo.sh' % dd, cwd=repo)
        # stable tests that the patch could touch (numba-free ones), on the scratch copy
        rct, ot = sh('PYTHONPATH=%s PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --noconftest '
                     '-o addopts= --benchmark-disable --timeout=300 crowddynamics/core/tests/test_block_list.py '
                     'crowddynamics/core/tests/test_block_list_benchmark.py '
                     'crowddynamics/simulation/tests/test_base.py crowddynamics/tests/test_io.py' % repo, cwd=repo)
        rcc, oc = sh('timeout 900 python3 -m sa.check %s --root %s' % (meta['property'], repo), cwd=VERIF)
        vio = [l for l in oc.splitlines() if l.startswith('VIOLATION')]
        verdict = 'demo %s/%s tests %s check rc=%s %s' % (
            rc0, rc1, ot.strip().splitlines()[-1][:40] if ot.strip() else rct, rcc, 'CAUGHT' if rcc == 1 and vio else 'MISSED')
        extra = ''
        if rc0 != 0:
            extra += '\n   UNCHANGED DEMO FAILS: ' + o0[-600:]
        if rc1 == 0:
            extra += '\n   PATCHED DEMO PASSES'
        else:
            extra += '\n   ' + o1.strip().splitlines()[-1][:200]
        if rcc not in (0, 1):
            extra += '\n   CHECK ERROR ' + oc[-600:]
        return i, meta['property'], verdict, extra
    finally:
        shutil.rmtree(d)


def verify(ids=None):
    from concurrent.futures import ThreadPoolExecutor
    ids = ids or sorted(os.listdir(SEEDED))
    with ThreadPoolExecutor(6) as ex:
        pj = os.path.join(VERIF, 'design', 'planted.json')
        log = json.load(open(pj)) if os.path.exists(pj) else {}
        for r in ex.map(one, ids):
            print('%-28s %s %s%s' % r)
            sys.stdout.flush()
            m = json.load(open(os.path.join(SEEDED, r[0], 'meta.json')))
            log[r[0]] = dict(property=r[1], needs=m['needs'], verdict='caught' if 'CAUGHT' in r[2] else 'missed')
    log = {k: v for k, v in log.items() if os.path.exists(os.path.join(SEEDED, k))}
    with open(pj, 'w') as f:
        json.dump(log, f, indent=1, sort_keys=True)
        f.write('\n')


if __name__ == '__main__':
    if sys.argv[1] == 'add':
        add(sys.argv[2])
    else:
        verify(sys.argv[2:])
