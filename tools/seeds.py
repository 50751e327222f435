#!/usr/bin/env python3
"""Creates and validates planted bugs.

seeds.py make ID...     write seeded/ID from seed definitions (tools/seeddefs.py)
seeds.py verify ID...   in a scratch copy of /repo: patch applies, builds, tests pass, demo passes without and fails with it
seeds.py check ID...    run the checks of the property (or those given with -p) against the patched scratch copy
"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = os.environ.get('SEEDSC', '/tmp/seedrepo')
sys.path.insert(0, os.path.join(HERE, 'tools'))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def fresh():
    if not os.path.exists(SC):
        subprocess.run('cp -a /repo ' + SC, shell=True, check=True)
    r = sh('cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git status --short' % SC)
    assert not r.stdout.strip(), r.stdout


def make(ids):
    import seeddefs
    fresh()
    for s in seeddefs.SEEDS:
        if ids and s['id'] not in ids:
            continue
        for f, old, new in s['edits']:
            p = os.path.join(SC, f)
            t = open(p).read()
            assert t.count(old) == 1, (s['id'], f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        d = os.path.join(HERE, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(sh('cd %s && git diff' % SC).stdout)
        sh('cd %s && git checkout -q -- .' % SC)
        pre = open(os.path.join(HERE, 'tools', 'prelude.rs')).read()
        open(d + '/demo.rs', 'w').write(s.get('prelude', pre) + '\n' + s['demo'])
        shutil.copy(os.path.join(HERE, 'tools', s.get('sh', 'demo.sh')), d + '/demo.sh')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        print('made', s['id'])


def demo(i):
    # a shared target directory makes repeated runs cheap; the demo itself does not depend on it
    e = dict(os.environ)
    return subprocess.run(['bash', os.path.join(HERE, 'seeded', i, 'demo.sh')], cwd=SC, env=e, capture_output=True, text=True)


def verify(ids):
    fresh()
    env = '. /opt/vp/env.sh; CRATES="${CRATES//\\/repo/%s}"; ' % SC.replace('/', '\\/')
    for i in ids or sorted(os.listdir(HERE + '/seeded')):
        d = os.path.join(HERE, 'seeded', i)
        r0 = demo(i)
        a = sh('cd %s && git apply %s/patch.diff' % (SC, d))
        if a.returncode:
            print(i, 'PATCH DOES NOT APPLY', a.stderr)
            continue
        b = subprocess.run(['bash', '-c', env + 'st=0; for c in $CRATES; do cd $c && cargo test --workspace --all-features --no-fail-fast --offline >/tmp/seed-test.log 2>&1 || { st=1; tail -30 /tmp/seed-test.log; }; done; cd %s; for f in "" staking query; do cargo build --offline --no-default-features --features "$f" 2>&1 | tail -5; [ ${PIPESTATUS[0]} = 0 ] || st=1; done; RUSTFLAGS="-C link-arg=--allow-undefined" cargo build --lib --target wasm32-unknown-unknown --offline 2>&1 | tail -3; exit $st' % SC], capture_output=True, text=True)
        r1 = demo(i)
        sh('cd %s && git checkout -q -- .' % SC)
        ok = r0.returncode == 0 and b.returncode == 0 and r1.returncode != 0 and 'test result: FAILED' in r1.stdout
        print(i, 'OK' if ok else 'BAD', 'clean demo', r0.returncode, 'build/test', b.returncode, 'patched demo', r1.returncode)
        if r0.returncode:
            print((r0.stdout + r0.stderr)[-2500:])
        if b.returncode:
            print((b.stdout + b.stderr)[-2500:])
        if not ok and r1.returncode:
            print((r1.stdout + r1.stderr)[-2500:])
        sys.stdout.flush()


def check(ids, props):
    fresh()
    for i in ids or sorted(os.listdir(HERE + '/seeded')):
        d = os.path.join(HERE, 'seeded', i)
        p = json.load(open(d + '/meta.json'))['property']
        a = sh('cd %s && git apply %s/patch.diff' % (SC, d))
        hits = []
        for q in props or [p]:
            r = sh('cd %s && VERIF_REPO=%s python3 check.py %s' % (HERE, SC, q))
            hits.append('%s:%d' % (q, r.returncode))
            if q == p:
                first = r.stdout.strip().splitlines()[:1]
        sh('cd %s && git checkout -q -- .' % SC)
        print(i, p, 'CAUGHT' if p + ':1' in hits else 'MISSED', ' '.join(h for h in hits if not h.endswith(':0')), (first[0][:200] if first else ''))
        sys.stdout.flush()


if __name__ == '__main__':
    a = sys.argv[2:]
    props = []
    if '-p' in a:
        k = a.index('-p')
        props = a[k + 1].split(',')
        if props == ['all']:
            from pathlib import Path
            props = [c['property'] for c in json.load(open(HERE + '/MANIFEST.json'))['checks']]
        a = a[:k] + a[k + 2:]
    {'make': make, 'verify': verify}.get(sys.argv[1], lambda x: check(x, props))(a)
