"""Readable rendering of provenance terms (for reports only)."""


def short(n):
    return n.rsplit('::', 1)[-1]


LEFT = [0]  # nodes the current rendering may still show: large terms are cut, shared parts would be shown over and over


def pp(t, depth=0):
    if not isinstance(t, tuple) or not t:
        return repr(t)
    if depth == 0:
        LEFT[0] = 1500
    LEFT[0] -= 1
    if LEFT[0] < 0:
        return '…'
    k = t[0]
    if isinstance(k, tuple):
        return '(' + ', '.join(pp(x, depth + 1) for x in t) + ')'
    if depth > 14:
        return '…'
    r = lambda x: pp(x, depth + 1)
    if k == 'i':
        return str(t[1])
    if k == 'b':
        return str(t[1]).lower() if isinstance(t[1], bool) else pp(t[1], depth + 1)
    if k == 's':
        return repr(t[1])
    if k == 'bytes':
        return 'bytes%d' % len(t[1])
    if k == 'in':
        return t[1]
    if k == 'adt':
        return '%s#%s(%s)' % (short(t[1]), t[2], ', '.join(r(x) for x in t[3]))
    if k == 'tup':
        return '(' + ', '.join(r(x) for x in t[1]) + ')'
    if k == 'fld':
        return r(t[1]) + '.' + t[3]
    if k == 'seq' or k == 'iter':
        return ('' if k == 'seq' else 'iter') + '[' + ', '.join(part(p, depth) for p in t[1]) + ']'
    if k == 'st':
        return 'STORED(' + ', '.join(r(x) for x in t[1:]) + ')'
    if k == 'app':
        return t[1] + '(' + ', '.join(r(x) for x in t[2:]) + ')'
    if k == 'cat':
        return ' ++ '.join(r(x) for x in t[1])
    if k == 'isv':
        return r(t[1]) + ' is ' + t[3]
    if k == 'type_url':
        return 'type_url<' + t[1] + '>'
    return k + '(' + ', '.join(r(x) if isinstance(x, tuple) else str(x) for x in t[1:]) + ')'


def part(p, depth):
    if LEFT[0] < 0:
        return '…'
    if p[0] == 'e':
        return pp(p[1], depth + 1)
    if p[0] == 's':
        return '..' + pp(p[1], depth + 1)
    return 'each(%s: %s)' % (pp(p[1], depth + 1), ' | '.join(
        ('{' + facts(dict(f), depth + 1) + '} ' if f else '') + '[' + ', '.join(part(q, depth + 1) for q in s) + ']' for f, s in p[2]))


def fact(k, v, depth=0):
    if k[0] == 'is':
        return pp(k[1], depth) + ' is ' + v
    if k[0] == 'nis':
        return pp(k[1], depth) + ' is not ' + '/'.join(sorted(v))
    if k[0] == 'b':
        return ('' if v else 'not ') + pp(k[1], depth)
    if k[0] == 'stored':
        return 'stored(%s)=%s' % (pp(k[1], depth), v)
    if k[0] == 'eqc':
        return ''
    return repr((k, v))[:400]


def facts(f, depth=0):
    return '; '.join(x for x in (fact(k, v, depth) for k, v in f.items() if depth == 0 or LEFT[0] >= 0) if x)


def row(o):
    s = o.kind.upper() + ' '
    if o.kind == 'ret':
        s += pp(o.val)
    else:
        s += repr(o.info)
    s += '\n   IF ' + facts(o.st.facts)
    for k, v in o.st.store.items():
        s += '\n   WRITES ' + pp(k[1]) + (' @ ' + pp(k[2]) if len(k) > 2 else '') + ' := ' + pp(v)
    for e in o.st.eff:
        if e[0] != 'write':
            s += '\n   EFFECT ' + repr(e)
    return s
