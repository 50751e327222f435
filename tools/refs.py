#!/usr/bin/env python3
"""refs.py [ids] : applies each behaviour-preserving edit of refdefs.py to a scratch copy and runs every rule on it."""
import os, subprocess, sys, time, multiprocessing
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = os.environ.get('REFSC', '/tmp/refsc')
if not os.path.exists(SC):
    subprocess.run(['git', 'clone', '-q', '/repo', SC], check=True)
os.environ['VERIF_REPO'] = SC
sys.path.insert(0, HERE)
sys.path.insert(0, HERE + '/tools')
sys.setrecursionlimit(20000)
from engine import build
from rules.base import World, Report, Inconclusive
from rules import all as R
import refdefs, refdefs2, refdefs3, refdefs4, refdefs5, refdefs6, refdefs7, refdefs8
refdefs.R.update(refdefs2.R)
refdefs.R.update(refdefs3.R)
refdefs.R.update(refdefs4.R)
refdefs.R.update(refdefs5.R)
refdefs.R.update(refdefs6.R)
refdefs.R.update(refdefs7.R)
refdefs.R.update(refdefs8.R)


def one(pid, paths):
    rep = Report(pid)
    try:
        cfg = R.CONFIGS.get(pid, {})
        R.run(pid, rep, [(n, World(*paths[n]) if paths[n] else None) for n in (['main'] if cfg.get('main', True) else []) + list(cfg.get('extra', ()))])
    except Inconclusive as e:
        return pid, 'INCONCLUSIVE ' + str(e)[:300]
    except Exception as e:
        import traceback
        return pid, 'CRASH ' + traceback.format_exc()[-600:]
    return pid, [(v.key(), v.detail[:160], v.path[:int(os.environ.get('V', '0'))]) for v in rep.v.values()]


def main():
    a = sys.argv[1:]
    props = None
    if '-p' in a:
        k = a.index('-p'); props = a[k + 1].split(','); a = a[:k] + a[k + 2:]
    if '-b' in a:
        a.remove('-b')
        import bugdefs
        refdefs.R.update({k: v[1] for k, v in bugdefs.B.items()})
        a = a or list(bugdefs.B)
    if '-c' in a:  # -c <seed> <n> : n random compositions of edits
        import random
        k = a.index('-c'); rnd = random.Random(int(a[k + 1])); n = int(a[k + 2])
        names = list(refdefs.R)
        a = []
        for j in range(n):
            rnd.shuffle(names)
            text = {}
            used, edits = [], []
            for i in names:
                new = dict(text)
                try:
                    for f, old, nw in refdefs.R[i]:
                        t = new.get(f) or open(os.path.join('/repo', f)).read()
                        if isinstance(old, tuple):
                            k1 = t.find(old[0]); e = len(t) if old[1] == '\0END' else t.find(old[1], k1 + len(old[0]))
                            old = t[k1:e] if k1 >= 0 and e > k1 else '\0'
                        if t.count(old) != 1:
                            raise ValueError
                        new[f] = t.replace(old, nw)
                except ValueError:
                    continue
                text = new
                used.append(i); edits += refdefs.R[i]
                if len(used) >= 14:
                    break
            refdefs.R['+'.join(used)] = edits
            a.append('+'.join(used))
    ids = a or list(refdefs.R)
    refdefs.R.update(refdefs.BUG)  # only when named
    for i in ids:
        subprocess.run('cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD' % SC, shell=True, check=True)
        for f, old, new in refdefs.R.get(i, []):
            p = os.path.join(SC, f)
            t = open(p).read()
            if isinstance(old, tuple):  # from the first marker up to, not including, the next one
                k = t.find(old[0]); e = len(t) if old[1] == '\0END' else t.find(old[1], k + len(old[0]))
                old = t[k:e] if k >= 0 and e > k else '\0'
            if t.count(old) != 1:
                print(i, 'EDIT DOES NOT APPLY', f, t.count(old), repr(old[:80])); break
            open(p, 'w').write(t.replace(old, new))
        else:
            try:
                ps = [p for p in R.RULES if props is None or p in props]
                paths = {n: R.dump(n) for n in ['main'] + sorted({f for p in ps for f in R.CONFIGS.get(p, {}).get('extra', ())})}
            except build.BuildError as e:
                print(i, 'DOES NOT BUILD', str(e)[-1500:]); continue
            t0 = time.time()
            with multiprocessing.Pool(8) as pool:
                res = pool.starmap(one, [(p, paths) for p in ps])
            bad = [(p, r) for p, r in res if r]
            print(i, 'quiet' if not bad else 'ALARM', '%.0fs' % (time.time() - t0))
            for p, r in bad:
                for x in ([r] if isinstance(r, str) else r[:int(os.environ.get('N', '2'))]):
                    print('   ', p, x if isinstance(x, str) else ' | '.join(x))
            sys.stdout.flush()
    subprocess.run('cd %s && git checkout -q -- .' % SC, shell=True)


if __name__ == '__main__':
    main()
