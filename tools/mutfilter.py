#!/usr/bin/env python3
"""mutfilter.py IN.json OUT.json: drops the mutants that do not compile, compiling many (one per line) at once"""
import json, os, subprocess, sys, collections
SC = '/tmp/mutf'
if not os.path.exists(SC):
    subprocess.run(['git', 'clone', '-q', '/repo', SC], check=True)
ENV = dict(os.environ, CARGO_TARGET_DIR='/tmp/mutf-target')
SRC = {}


def check(ms):
    by = collections.defaultdict(list)
    for m in ms:
        by[m['file']].append(m)
    where = {}  # (file, line) -> mutant
    for f in {m['file'] for m in ALL}:
        t = SRC.setdefault(f, open('/repo/' + f).read())
        out, k = '', 0
        for m in sorted(by.get(f, []), key=lambda x: x['at']):
            out += t[k:m['at']]
            l0 = out.count('\n') + 1
            out += m['new']
            for l in range(l0, out.count('\n') + 2):
                where[f, l] = m
            k = m['at'] + len(m['old'])
        out += t[k:]
        p = SC + '/' + f
        if open(p).read() != out:
            open(p, 'w').write(out)
    r = subprocess.run(['cargo', 'check', '--offline', '-q', '--message-format=json', '--lib'], cwd=SC, env=ENV, capture_output=True, text=True)
    global LAST
    LAST = r.stderr + ''.join((json.loads(l).get('message') or {}).get('rendered') or '' for l in r.stdout.splitlines() if '"error' in l)
    bad, loose = [], []
    for l in r.stdout.splitlines():
        d = json.loads(l)
        if d.get('reason') != 'compiler-message' or d['message']['level'] != 'error':
            continue
        hit = False
        for s in sorted(d['message']['spans'], key=lambda s: not s['is_primary']):
            if hit:
                break
            while s:
                for n in range(s['line_start'], s['line_end'] + 1):
                    if (s['file_name'], n) in where and (s['line_end'] - s['line_start'] < 12):
                        bad.append(where[s['file_name'], n]); hit = True
                s = (s.get('expansion') or {}).get('span')
        if not hit and d['message']['spans']:
            s = d['message']['spans'][0]
            c = sorted(((abs(n - s['line_start']), n) for (f, n) in where if f == s['file_name']))[:1]
            loose += [where[s['file_name'], n] for _, n in c]
    return r.returncode, bad, loose


ALL = json.load(open(sys.argv[1]))
lines = collections.defaultdict(list)
for m in ALL:
    lines[m['file'], m['line']].append(m)
good, rnd = [], 0
retry = collections.Counter()
while any(lines.values()):
    rnd += 1
    cur = []
    last = {}
    for k in sorted(lines):
        if lines[k]:
            m = lines[k][0]
            if m['at'] < last.get(m['file'], 0):
                continue
            cur.append(lines[k].pop(0))
            last[m['file']] = m['at'] + len(m['old'])
    n0 = len(cur)
    while cur:
        rc, bad, loose = check(cur)
        if rc == 0:
            break
        if os.environ.get('DBG'):
            print('  ', len(cur), len(bad), len(loose), flush=True)
            if not bad: print(LAST[:600])
        drop = {id(m) for m in bad} or {id(m) for m in loose} or {id(m) for m in cur}
        if not bad:
            for m in cur:
                if id(m) in drop:
                    retry[id(m)] += 1
                    if retry[id(m)] < 2 and len(drop) > 1:
                        lines[m['file'], m['line']].append(m)
        cur = [m for m in cur if id(m) not in drop]
    good += cur
    print(rnd, n0, '->', len(cur), 'left', sum(map(len, lines.values())), flush=True)
    json.dump(good, open(sys.argv[2], 'w'))
print('done', len(good))
