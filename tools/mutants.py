#!/usr/bin/env python3
"""mutants.py gen OUT.json | run IN.json LOG [workers]: small textual mutations of the library, to find changes no check sees.

A survivor is a mutant that compiles and raises no violation; each has to be read: either it changes no behaviour, or the
behaviour it changes is in no property, or a check has a hole."""
import json, os, re, subprocess, sys, time, multiprocessing, hashlib, random
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['contract.rs', 'helpers.rs', 'ibc/handshake.rs', 'ibc/relay.rs', 'types/callbacks.rs', 'types/cosmos_msg.rs', 'types/keys.rs', 'types/msg.rs',
         'types/query_msg.rs', 'types/state.rs', 'ibc/types/events.rs', 'ibc/types/keys.rs', 'ibc/types/metadata.rs', 'ibc/types/packet.rs', 'ibc/types/stargate.rs']
PAIRS = [('src', 'dest'), ('true', 'false'), ('&&', '||'), ('==', '!='), ('is_some()', 'is_none()'), ('is_none()', 'is_some()'), ('is_ok()', 'is_err()'),
         ('last()', 'first()'), ('seconds()', 'nanos()'), ('nanos()', 'seconds()'), ('::Open', '::Closed'), ('::Closed', '::Open'),
         ('Ordered', 'Unordered'), ('channel_id', 'port_id'), ('port_id', 'channel_id'), ('endpoint', 'counterparty_endpoint'),
         ('counterparty_endpoint', 'endpoint'), ('success', 'error'), ('controller_connection_id', 'host_connection_id'),
         ('host_connection_id', 'controller_connection_id'), ('connection_id', 'counterparty_connection_id'),
         ('Result(', 'Error('), ('Error(', 'Result('), ('ALLOW_CHANNEL_OPEN_INIT', 'ALLOW_CHANNEL_CLOSE_INIT'),
         ('ALLOW_CHANNEL_CLOSE_INIT', 'ALLOW_CHANNEL_OPEN_INIT'), ('reply_on_success', 'reply_always'), ('address', 'channel_id'), ('sender', 'owner'),
         ('delegator', 'validator'), ('validator', 'delegator'), ('to_address', 'contract_addr'), ('info.sender', 'env.contract.address'),
         ('.save(', '.remove('), ('to_string()', 'to_uppercase()'), ('as_str()', 'trim()'), ('unwrap_or_default()', 'unwrap()'), ('clone()', 'clone().into()'),
         ('Uint128', 'Uint256'), ('Some(', 'None.or(Some('), ('.into_iter()', '.into_iter().rev()'), ('.iter()', '.iter().rev()'), ('.into_iter()', '.into_iter().skip(1)'),
         ('.collect', '.take(100).collect'), ('<', '<='), ('>', '>='), ('<=', '<'), ('>=', '>'), ('delegation_responses', 'balances'),
         ('new_with_', 'with_'), ('may_load', 'load'), ('unwrap_or(', 'unwrap_or_default('), ('height', 'sequence'), ('?;', '.ok();'), (' + ', ' - '),
         ('begins_with', 'ends_with'), ('src_', 'dst_'), ('ok_or_else', 'unwrap_or_else'), ('shares', 'balance'), ('path', 'data'), ('from_json', 'to_json_vec')]


def strip_tests(t):
    i = t.find('#[cfg(test)]')
    return t if i < 0 else t[:i]


def gen():
    out = []

    def add(f, t, a, b, new, kind):
        out.append({'file': f, 'at': a, 'old': t[a:b], 'new': new, 'kind': kind, 'line': t.count('\n', 0, a) + 1})
    for f in FILES:
        f = 'src/' + f
        t = strip_tests(open('/repo/' + f).read())
        off = 0
        code = []
        for l in t.split('\n'):
            s = l.strip()
            if s and not s.startswith('//') and not s.startswith('use ') and not s.startswith('pub use'):
                code.append((off, l))
            off += len(l) + 1
        for o, l in code:
            s = l.strip()
            ind = len(l) - len(l.lstrip())
            if s.endswith(';') and s.count('(') == s.count(')') and s.count('{') == s.count('}') and not s.startswith(('let ', 'pub ', 'const ', 'mod ', '}', ')', '.', '#', 'return', 'type ')) :
                add(f, t, o + ind, o + len(l), '', 'delete')
            if re.match(r'^\.\w+\(.*\)\??$', s) and s.count('(') == s.count(')'):
                add(f, t, o + ind, o + len(l), '', 'delcall')
            for a, b in PAIRS:
                for m in re.finditer((r'(?<![\w])' if a[0].isalpha() else '') + re.escape(a) + (r'(?![\w])' if a[-1].isalnum() else ''), l):
                    if a in ('<', '>') and not (l[m.start() - 1] == ' ' and l[m.end()] == ' '):
                        continue
                    c = b
                    if b.startswith('None.or(Some('):
                        continue
                    add(f, t, o + m.start(), o + m.end(), c, 'swap ' + a)
            for m in re.finditer(r'"([^"\\{}]*)"', l):
                add(f, t, o + m.start(1), o + m.end(1), m.group(1) + 'x', 'string')
            for m in re.finditer(r'(?<![\w."])(\d[\d_]*)(?![\w"])', l):
                n = int(m.group(1).replace('_', ''))
                add(f, t, o + m.start(), o + m.end(), str(n + 1), 'int')
            for m in re.finditer(r'\bif (?!let)', l):
                add(f, t, o + m.end(), o + m.end(), '!', 'negate') if re.match(r'[\w.:()]+ \{', l[m.end():]) else None
            for m in re.finditer(r'(?<![=!])!(?=[a-z(])', l):
                if not re.search(r'\w$', l[:m.start()]):
                    add(f, t, o + m.start(), o + m.end(), '', 'unnot')
        # neighbouring `name: expr,` lines with exchanged expressions
        for (o1, l1), (o2, l2) in zip(code, code[1:]):
            a, b = (re.match(r'^(\s*)(\w+): (.*),$', x) for x in (l1, l2))
            if a and b and a.group(3) != b.group(3) and not re.match(r'^(&|Option<|String|u64|Vec<|Binary|dyn|impl|[A-Z]\w*$|[a-z_:]*::[A-Z]\w*$)', a.group(3)):
                add(f, t, o1, o2 + len(l2), '%s%s: %s,\n%s%s: %s,' % (a.group(1), a.group(2), b.group(3), b.group(1), b.group(2), a.group(3)), 'swapfields')
        # neighbouring argument lines of a call exchanged
        for (o1, l1), (o2, l2) in zip(code, code[1:]):
            if re.match(r'^\s+[\w.&]+(\.\w+\(\))*,$', l1) and re.match(r'^\s+[\w.&]+(\.\w+\(\))*,$', l2) and l1 != l2:
                add(f, t, o1, o2 + len(l2), l2 + '\n' + l1, 'swaplines')
    uniq, seen = [], set()
    for m in out:
        k = (m['file'], m['at'], m['old'], m['new'])
        if k not in seen and m['old'] != m['new']:
            seen.add(k)
            uniq.append(m)
    return uniq


POST = ['.trim().to_string()', '.to_lowercase()', '.filter(|x| !x.is_empty())', '.filter(|x| *x > 1)', '.saturating_sub(1)', '.max(1)', '.min(1_000_000)',
        '.into_iter().take(8).collect()', '.into_iter().filter(|_| true).skip(1).collect()', '.or(None)', '.and(None)', '.take()', '.replace(\' \', "")', '.rev()',
        '.clone().split_at(1).1.to_string()', '.checked_sub(1).unwrap_or_default()', ' && false', ' || true', '.unwrap_or_default()', '.and_then(|_| None)',
        '.into_iter().collect::<std::collections::BTreeSet<_>>().into_iter().collect()', '.dedup()', '.wrapping_add(1)', ' as u32 as u64', '.as_slice()[1..].to_vec()']


def gen2():
    """richer edits of one expression: another field, a default, a value changed for some inputs only; most do not compile"""
    out = []
    for f in FILES:
        f = 'src/' + f
        t = strip_tests(open('/repo/' + f).read())
        fields = sorted(set(re.findall(r'\.(\w+)\b(?!\()', t)) - {'0', '1'})
        variants = {}
        for m in re.finditer(r'\b([A-Z]\w+)::([A-Z]\w+)\b', t):
            variants.setdefault(m.group(1), set()).add(m.group(2))
        lines = []
        off = 0
        for l in t.split('\n'):
            s = l.strip()
            if s and not s.startswith(('//', 'use ', 'pub ', '#', 'mod ')):
                lines.append((off, l))
            off += len(l) + 1

        def add(a, b, new, kind):
            out.append({'file': f, 'at': a, 'old': t[a:b], 'new': new, 'kind': kind, 'line': t.count('\n', 0, a) + 1})
        for o, l in lines:
            for m in re.finditer(r'(?<=[\w)?])\.(\w+)\b(?!\(|::)', l):
                for x in fields:
                    if x != m.group(1):
                        add(o + m.start(1), o + m.end(1), x, 'field')
            for m in re.finditer(r'\b([A-Z]\w+)::([A-Z]\w+)\b', l):
                for x in sorted(variants[m.group(1)] - {m.group(2)}) if m.group(1) != 'ContractError' else ():
                    add(o + m.start(2), o + m.end(2), x, 'variant')
            m = re.match(r'^(\s*)(\w+)(?:: (.+?))?,$', l)
            if m and not (m.group(3) or '').startswith(('String', 'u64', 'Option<', 'Vec<', '&', 'Binary', 'impl', 'Addr')):
                e = m.group(3) or m.group(2)
                add(o, o + len(l), '%s%s: Default::default(),' % (m.group(1), m.group(2)), 'default')
                for x in POST:
                    add(o, o + len(l), '%s%s: %s%s,' % (m.group(1), m.group(2), e, x), 'post ' + x)
                if not m.group(3):
                    for x in POST:
                        add(o, o + len(l), '%s%s%s,' % (m.group(1), e, x), 'arg ' + x)
                    add(o, o + len(l), '%sDefault::default(),' % m.group(1), 'argdefault')
            m = re.match(r'^(\s*)(let (?:mut )?(\w+) = .*);$', l)
            if m:
                for x in POST:
                    add(o, o + len(l), '%s%s%s;' % (m.group(1), m.group(2), x), 'let ' + x)
            for m in re.finditer(r'\bSome\(([^()]*)\)', l):
                add(o + m.start(), o + m.end(), 'None', 'none')
            for m in re.finditer(r'\b(\w+(?:\.\w+)*)\.(?:clone|to_string|into)\(\)', l):
                for x in ('.trim().to_string()', '.to_lowercase()', '.clone().and(None)', '.clone().filter(|x| !x.is_empty())'):
                    add(o + m.start(), o + m.end(), m.group(1) + x, 'inner ' + x)
            m = re.match(r'^(\s*)(if |\} else if )(?!let)(.*) \{$', l)
            if m:
                for x in ('true', 'false'):
                    add(o, o + len(l), '%s%s%s {' % (m.group(1), m.group(2), x), 'cond ' + x)
        # call arguments exchanged
        for m in re.finditer(r'\b\w+\(([^()]+(?:\([^()]*\))?), ([^(),]+(?:\([^()]*\))?)\)', t):
            add(m.start(1), m.end(2), m.group(2) + ', ' + m.group(1), 'swapargs')
    uniq, seen = [], set()
    for m in out:
        k = (m['file'], m['at'], m['old'], m['new'])
        if k not in seen and m['old'] != m['new']:
            seen.add(k)
            uniq.append(m)
    return uniq


def work(args):
    wid, ms, log = args
    sc = '/tmp/mut%d' % wid
    if not os.path.exists(sc):
        subprocess.run(['git', 'clone', '-q', '/repo', sc], check=True)
    os.environ['VERIF_REPO'] = sc
    sys.path.insert(0, HERE)
    sys.setrecursionlimit(20000)
    from engine import build
    build.CACHE = '/tmp/mutcache%d' % wid
    if not os.path.exists(build.CACHE):
        subprocess.run('mkdir -p {0} && cp -a {1}/target {1}/driver-* {0}/'.format(build.CACHE, HERE + '/.cache'), shell=True, check=True)
    from rules.base import World, Report, Inconclusive
    from rules import all as R
    order = [p for p in R.RULES if p not in ('C32', 'C33')]
    prefer = {}
    for m in ms:
        p = os.path.join(sc, m['file'])
        orig = open(os.path.join('/repo', m['file'])).read()
        assert orig[m['at']:m['at'] + len(m['old'])] == m['old']
        open(p, 'w').write(orig[:m['at']] + m['new'] + orig[m['at'] + len(m['old']):])
        t0 = time.time()
        res = []
        try:
            d = build.get('main')
            w = World(*d)
            for pid in prefer.get(m['file'], []) + [x for x in order if x not in prefer.get(m['file'], [])]:
                rep = Report(pid)
                try:
                    if 'extra' in R.CONFIGS.get(pid, {}):
                        R.RULES[pid](w, rep, extra=[])
                    else:
                        R.RULES[pid](w, rep)
                except Inconclusive as e:
                    res.append(pid + '?' + str(e)[:150])
                    continue
                except Exception as e:
                    import traceback
                    res.append(pid + '!' + traceback.format_exc()[-200:])
                    continue
                if rep.v:
                    res.append(pid)
                    pr = prefer.setdefault(m['file'], [])
                    if pid in pr:
                        pr.remove(pid)
                    pr.insert(0, pid)
                    del pr[6:]
                    break
            st = 'caught' if any('?' not in r and '!' not in r for r in res) else 'noanswer' if res else 'SURVIVED'
            os.remove(d[0])
        except build.BuildError as e:
            st = 'nobuild'
        open(p, 'w').write(orig)
        with open(log, 'a') as fh:
            fh.write(json.dumps({'st': st, 'by': res, 'm': m, 's': round(time.time() - t0, 1)}) + '\n')


if __name__ == '__main__':
    if sys.argv[1] in ('gen', 'gen2'):
        ms = gen() if sys.argv[1] == 'gen' else gen2()
        random.Random(int(os.environ.get('VERIF_SEED', '1'))).shuffle(ms)
        json.dump(ms, open(sys.argv[2], 'w'))
        print(len(ms))
    else:
        ms, n = json.load(open(sys.argv[2])), int(sys.argv[4]) if len(sys.argv) > 4 else 6
        done = set()
        if os.path.exists(sys.argv[3]):
            done = {json.dumps(json.loads(l)['m'], sort_keys=True) for l in open(sys.argv[3])}
        ms = [m for m in ms if json.dumps(m, sort_keys=True) not in done]
        with multiprocessing.Pool(n) as p:
            p.map(work, [(i, ms[i::n], sys.argv[3]) for i in range(n)], 1)
