"""Rows (abstract outcomes of entry points) and the questions rules ask about them."""
import os, time
from engine.core import *
from engine.core import mk_eq, mk_empty
from engine import pp, build

ENTRIES = {
    'instantiate': ('contract', ['deps', 'env', 'info', 'msg']),
    'execute': ('contract', ['deps', 'env', 'info', 'msg']),
    'reply': ('contract', ['deps', 'env', 'msg']),
    'query': ('contract', ['deps', 'env', 'msg']),
    'migrate': ('contract', ['deps', 'env', 'msg']),
    'ibc_channel_open': ('ibc::handshake', ['deps', 'env', 'msg']),
    'ibc_channel_connect': ('ibc::handshake', ['deps', 'env', 'msg']),
    'ibc_channel_close': ('ibc::handshake', ['deps', 'env', 'msg']),
    'ibc_packet_receive': ('ibc::relay', ['deps', 'env', 'msg']),
    'ibc_packet_ack': ('ibc::relay', ['deps', 'env', 'msg']),
    'ibc_packet_timeout': ('ibc::relay', ['deps', 'env', 'msg']),
}
EMPTIES = (('s', ''), ('seq', ()), ('bytes', ()))
NEVER_OPEN = None


class Violation:
    def __init__(self, rule, where, detail, path=''):
        self.rule, self.where, self.detail, self.path = rule, where, detail, path

    def key(self):
        return self.rule + ' @ ' + self.where


class Inconclusive(Exception):
    pass


def split_generic(s):
    """'a::B<C,D<E>>' -> ('a::B', ['C','D<E>'])"""
    i = s.find('<')
    if i <= 0 or not s.endswith('>'):
        return s, []
    out, depth, cur = [], 0, ''
    for ch in s[i + 1:-1]:
        if ch in '<([':
            depth += 1
        elif ch in '>)]':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    out.append(cur)
    return s[:i], [x.strip() for x in out]


class World:
    """one analysed crate configuration"""

    def __init__(self, dump_path, crate='cw_ica_controller'):
        self.p = Program(dump_path)
        self.crate = crate
        self._rows = {}
        self.I = Interp(self.p)
        self.interps = []

    def adt(self, suffix):
        """full name of a type given by a path suffix"""
        c = [n for n in self.p.adts if n == suffix or n.endswith('::' + suffix)]
        loc = [n for n in c if n.startswith(self.crate + '::')]
        if len(loc) == 1:
            return loc[0]
        c = [n for n in c if '<' not in n]
        if len(c) == 1:
            return c[0]
        raise Inconclusive('type %s: %s' % (suffix, c or 'not found'))

    def fn(self, path):
        it = self.p.by_path.get(self.crate + '::' + path)
        if it is None:
            last = path.rsplit('::', 1)[-1]
            c = [i for i in self.p.items if i['path'].rsplit('::', 1)[-1] == last and i['kind'] == 'fn' and i['path'].startswith(self.crate + '::')]
            it = c[0] if len(c) == 1 else None
        return it

    def mut_rows(self, path, names, mut):
        """[(row, final value of argument `mut`)] of a function that changes what an argument refers to"""
        it = self.fn(path)
        if it is None:
            raise Inconclusive('function %s not found' % path)
        I = Interp(self.p)
        self.interps.append(I)
        st = St()
        c = I.newcell(st, ('in', mut))
        outs = I.analyse(it['key'], [('ref', c, ()) if n == mut else ('in', n) for n in names], st)
        if I.notes:
            raise Inconclusive('%s: %s' % (it['path'], '; '.join(map(str, I.notes[:3]))))
        return [(Row(self, it['path'], o, names, it), I.val(o.st, ('ref', c, ()))) for o in outs]

    def analyse(self, it, names):
        I = Interp(self.p)
        self.interps.append(I)
        if it['key'] not in self.p.bodies:
            raise Inconclusive('no body for ' + it['path'])
        outs = I.analyse(it['key'], [('in', n) for n in names])
        if I.notes:
            raise Inconclusive('%s: %s' % (it['path'], '; '.join(map(str, I.notes[:3]))))
        return [Row(self, it['path'], o, names, it) for o in outs]

    def rows(self, entry):
        if entry not in self._rows:
            mod, names = ENTRIES[entry]
            it = self.fn(mod + '::' + entry)
            if it is None:
                self._rows[entry] = None
            else:
                if len(it['args']) != len(names):
                    names = it['args']
                self._rows[entry] = self.analyse(it, names)
        r = self._rows[entry]
        if r is None:
            raise Inconclusive('entry point %s not found' % entry)
        return r

    def fn_rows(self, path, names=None):
        if path not in self._rows:
            it = self.fn(path)
            if it is None:
                raise Inconclusive('function %s not found' % path)
            self._rows[path] = self.analyse(it, names or it['args'])
        return self._rows[path]

    def oks(self, entry):
        return [r for r in self.rows(entry) if r.kind == 'ok']

    def errs(self, entry):
        return [r for r in self.rows(entry) if r.kind == 'err']

    def panics(self, entry):
        return [r for r in self.rows(entry) if r.kind == 'panic']

    # -------- terms
    def fld(self, t, adt, label):
        """projection of a term known to be of type adt (label as in `Variant.field` for enums)"""
        name = adt if adt in self.p.adts else self.adt(adt)
        if name in TRANSPARENT:
            return t
        if t[0] == 'adt':
            a = self.p.adts[t[1]]
            for i in range(len(t[3])):
                if self.p.label(t[1], t[2], i) == label:
                    return t[3][i]
            return ('bad', 'no field ' + label)
        return ('fld', t, name, label)

    def path(self, t, ty, path):
        """t : ty, follow a dotted path (enum steps are written Variant.field)"""
        toks = path.split('.') if path else []
        i = 0
        while i < len(toks):
            name, args = split_generic(ty)
            while name in TRANSPARENT and args:
                ty = args[0]
                name, args = split_generic(ty)
            if name not in self.p.adts:
                raise Inconclusive('type %s unknown on path %s' % (ty, path))
            a = self.p.adts[name]
            if a['kind'] == 'enum':
                vi = self.p.vindex(name, toks[i])
                if vi is None:
                    raise Inconclusive('%s has no variant %s' % (name, toks[i]))
                v, f = a['variants'][vi], toks[i + 1]
                lab = toks[i] + '.' + f
                i += 2
            else:
                v, f = a['variants'][0], toks[i]
                lab = f
                i += 1
            if f not in v['fields']:
                raise Inconclusive('%s has no field %s' % (name, lab))
            fty = v['ftys'][v['fields'].index(f)]
            if name == OPT or name == RES:
                fty = args[1 if lab == 'Err.0' else 0] if args else fty
            t = self.fld(t, name, lab)
            ty = fty
        return t

    def unit(self, adt, variant):
        name = adt if adt in self.p.adts else self.adt(adt)
        return ('adt', name, self.p.vindex(name, variant), ())

    def mk(self, adt, variant=None, **kw):
        name = adt if adt in self.p.adts else self.adt(adt)
        vi = 0 if variant is None else self.p.vindex(name, variant)
        if vi is None:
            raise Inconclusive('%s has no variant %s' % (name, variant))
        fs = self.p.adts[name]['variants'][vi]['fields']
        miss = [f for f in fs if f.lstrip('_') not in kw and f not in kw and ('_' + f) not in kw]
        if miss:
            raise Inconclusive('%s: no expectation for field %s' % (name, miss))
        return ('adt', name, vi, tuple(kw.get(f, kw.get('_' + f)) for f in fs))

    def mkt(self, adt, variant, *vals):
        name = adt if adt in self.p.adts else self.adt(adt)
        return ('adt', name, self.p.vindex(name, variant), tuple(vals))

    def vname(self, t):
        return self.p.vname(t[1], t[2]) if t[0] == 'adt' else None


NONE = ('adt', OPT, 0, ())


def some(v):
    return ('adt', OPT, 1, (v,))


STORED = lambda n: ('st', ('s', n))


class Row:
    def __init__(self, w, entry, o, names, it=None, facts=None):
        self.w, self.entry, self.o, self.names, self.it = w, entry, o, names, it
        self.F = dict(o.st.facts) if facts is None else facts
        self.store = o.st.store
        self.eff = o.st.eff
        self._rep = None
        if o.kind == 'panic':
            self.kind, self.ret = 'panic', None
        elif o.val[0] == 'adt' and o.val[1] == RES:
            self.kind, self.ret = ('ok' if o.val[2] == 0 else 'err'), o.val[3][0]
        else:
            v = self.F.get(('is', o.val))
            if v in ('Ok', 'Err'):
                self.kind, self.ret = v.lower(), ('fld', o.val, RES, v + '.0')
            else:
                self.kind, self.ret = 'val', o.val

    def under(self, extra):
        """the same row with more facts"""
        f = dict(self.F)
        for k, v in (extra.items() if isinstance(extra, dict) else extra):
            f[k] = v
            if k[0] == 'is':
                f.pop(('nis', k[1]), None)
            if k[0] == 'b' and v and k[1][0] == 'eq':
                for x, y in ((k[1][1], k[1][2]), (k[1][2], k[1][1])):
                    if is_const(y) and not is_const(x):
                        f[('eqc', x)] = y
        return Row(self.w, self.entry, self.o, self.names, self.it, f)

    # ------------------------------------------------------------ knowledge
    def variant(self, t):
        """known variant of t, or None"""
        t = self.head(t)
        if t[0] == 'adt':
            return self.w.p.vname(t[1], t[2])
        return self.F.get(('is', t))

    def not_variant(self, t, v):
        t = self.head(t)
        if t[0] == 'adt':
            return self.w.p.vname(t[1], t[2]) != v
        k = self.F.get(('is', t))
        if k is not None:
            return k != v
        return v in self.F.get(('nis', t), ())

    def split(self, t, adt):
        """rows in which the variant of t is known"""
        if self.variant(t) is not None:
            return [self]
        name = adt if adt in self.w.p.adts else self.w.adt(adt)
        ex = self.F.get(('nis', t), ())
        self.w.p.adt_of[t] = name
        return [self.under({('is', t): v['name']}) for v in self.w.p.adts[name]['variants'] if v['name'] not in ex]

    def holds(self, b):
        """True / False / None: truth of a boolean term"""
        k = b[0]
        if k == 'not':
            r = self.holds(b[1])
            return None if r is None else not r
        class S:
            facts = self.F
        r = self.w.I.decide(S, b)
        if r is not None:
            return r
        if k == 'eq':
            if self.same(b[1], b[2]):
                return True
            a, c = self.head(b[1]), self.head(b[2])
            if (a, c) != (b[1], b[2]):
                m = mk_eq(a, c)
                r = m[1] if m[0] == 'b' else self.w.I.decide(S, m)
                if r is not None:
                    return r
        if k == 'empty':
            h = self.head(b[1])
            if h != b[1]:
                m = mk_empty(h)
                return m[1] if m[0] == 'b' else self.w.I.decide(S, m)
        return None

    def eq(self, a, b):
        return self.holds(mk_eq(a, b))

    def stored(self, name, key=None):
        k = ('item', ('s', name)) if key is None else ('map', ('s', name), key)
        return self.F.get(('stored', k))

    # ------------------------------------------------------------ equality of provenance
    def reps(self):
        if self._rep is None:
            rep = {}
            for (k, v) in self.F.items():
                if k[0] == 'b' and v is True and k[1][0] == 'eq':
                    a, b = k[1][1], k[1][2]
                    ra, rb = self._find(rep, a), self._find(rep, b)
                    if ra == rb:
                        continue
                    # constants win, then the structurally smaller term
                    ka = (not is_const(ra), len(repr(ra)), repr(ra))
                    kb = (not is_const(rb), len(repr(rb)), repr(rb))
                    if ka <= kb:
                        rep[rb] = ra
                    else:
                        rep[ra] = rb
                elif k[0] == 'b' and v is True and k[1][0] == 'empty':
                    rep[self._find(rep, k[1][1])] = ('s', '')
                elif k[0] == 'eqc':
                    r = self._find(rep, k[1])
                    if r != v:
                        rep[r] = v
            self._rep = rep
        return self._rep

    @staticmethod
    def _find(rep, t):
        n = 0
        while t in rep and n < 50:
            t = rep[t]
            n += 1
        return t

    def head(self, t):
        rep = self.reps()
        t = self._find(rep, t)
        v = self.F.get(('is', t))
        if v is not None and t[0] != 'adt':
            adt = OPT if v in ('None', 'Some') else RES if v in ('Ok', 'Err') else self.w.p.adt_of.get(t)
            if adt and adt in self.w.p.adts:
                vi = self.w.p.vindex(adt, v)
                if vi is not None:
                    n = len(self.w.p.adts[adt]['variants'][vi]['fields'])
                    return ('adt', adt, vi, tuple(('fld', t, adt, self.w.p.label(adt, vi, i)) for i in range(n)))
        if t[0] == 'b' or t[0] == 'i' or t[0] == 's':
            return t
        bv = self.F.get(('b', t))
        if bv is not None:
            return ('b', bv)
        return t

    def same(self, a, b, d=0):
        if a == b:
            return True
        if d > 60:
            return False
        a, b = self.head(a), self.head(b)
        if a == b or (a in EMPTIES and b in EMPTIES):
            return True
        if a[0] == 'adt' or b[0] == 'adt':
            if a[0] != 'adt':
                a, b = b, a
            name, vi = a[1], a[2]
            p = self.w.p
            if b[0] == 'adt':
                if b[1] != name or b[2] != vi or len(a[3]) != len(b[3]):
                    return False
                return all(self.same(x, y, d + 1) for x, y in zip(a[3], b[3]))
            if name not in p.adts or (p.adts[name]['kind'] == 'enum') or b[0] in ('i', 's', 'b', 'seq', 'tup', 'json', 'proto'):
                return False
            return all(self.same(x, ('fld', b, name, p.label(name, vi, i)), d + 1) for i, x in enumerate(a[3]))
        if a[0] == 'tup' or b[0] == 'tup':
            if a[0] != 'tup':
                a, b = b, a
            if b[0] == 'tup':
                return len(a[1]) == len(b[1]) and all(self.same(x, y, d + 1) for x, y in zip(a[1], b[1]))
            return all(self.same(x, ('fld', b, '()', str(i)), d + 1) for i, x in enumerate(a[1]))
        if a[0] in ('json', 'proto') and b[0] == a[0]:
            return self.same(a[1], b[1], d + 1)
        if a[0] == 'seq' or b[0] == 'seq':
            pa, pb = self.parts(a), self.parts(b)
            return len(pa) == len(pb) and all(self.same_part(x, y, d + 1) for x, y in zip(pa, pb))
        if a[0] == b[0] and len(a) == len(b):
            if a[0] in ('i', 's', 'b', 'bytes', 'in'):
                return False
            for x, y in zip(a[1:], b[1:]):
                if isinstance(x, tuple) and isinstance(y, tuple) and x and y and isinstance(x[0], str) and isinstance(y[0], str):
                    if not self.same(x, y, d + 1):
                        return False
                elif isinstance(x, tuple) and isinstance(y, tuple) and a[0] in ('cat', 'zip'):
                    if len(x) != len(y) or not all(self.same(u, v, d + 1) for u, v in zip(x, y)):
                        return False
                elif x != y:
                    return False
            return True
        return False

    def parts(self, v):
        """parts of a list value; a source known to be empty contributes nothing"""
        v = self.head(v)
        if v in EMPTIES:
            return ()
        if v[0] != 'seq':
            return (('s', v),)
        out = []
        for p in v[1]:
            if p[0] in ('s', 'm') and self.holds(mk_empty(p[1])) is True:
                continue
            out.append(p)
        return tuple(out)

    def same_part(self, x, y, d):
        if x[0] != y[0]:
            return False
        if x[0] in ('e', 's'):
            return self.same(x[1], y[1], d)
        if not self.same(x[1], y[1], d) or len(x[2]) != len(y[2]):
            return False
        for fx, sx in x[2]:
            ok = False
            for fy, sy in y[2]:
                if dict(fx) == dict(fy) and len(sx) == len(sy):
                    r = self.under(dict(fx))
                    ok = all(r.same_part(p, q, d) for p, q in zip(sx, sy))
                    if ok:
                        break
            if not ok:
                return False
        return True

    # ------------------------------------------------------------ storage
    def items_written(self):
        return {k[1][1] for k in self.store}

    def new(self, name):
        """value of an item after the call: ('some',v) | ('none',) | None if not written"""
        return self.store.get(('item', ('s', name)))

    def new_value(self, name):
        n = self.new(name)
        if n is None:
            return STORED(name)
        return n[1] if n[0] == 'some' else None

    def changed(self, name):
        n = self.new(name)
        if n is None:
            return False
        st = self.stored(name)
        if n[0] == 'none':
            return st != 'none'
        if st != 'some':
            return True
        return not self.same(n[1], STORED(name))

    def map_changes(self, name):
        """[(key, new)] of written map entries that may differ from before"""
        out = []
        for k, v in self.store.items():
            if k[0] != 'item' and k[1] == ('s', name):
                st = self.F.get(('stored', k))
                if v[0] == 'none' and st == 'none':
                    continue
                if v[0] == 'some' and st == 'some' and self.same(v[1], ('st', k[1], k[2])):
                    continue
                out.append((k[2] if len(k) > 2 else None, v))
        return out

    def map_raw(self, name):
        return [(k[2] if len(k) > 2 else None, v) for k, v in self.store.items() if k[0] != 'item' and k[1] == ('s', name)]

    def changes(self):
        """names of storage items that may change"""
        out = set()
        for k in self.store:
            if k[0] == 'item':
                if self.changed(k[1][1]):
                    out.add(k[1][1])
            elif self.map_changes(k[1][1]):
                out.add(k[1][1])
        return out

    def unknown_effects(self):
        return [e for e in self.eff if e[0] != 'write']

    # ------------------------------------------------------------ responses
    def resp(self, label):
        r = self.ret
        if r[0] != 'adt':
            return ('bad', 'response')
        for i in range(len(r[3])):
            if self.w.p.label(r[1], r[2], i) == label:
                return r[3][i]
        return ('bad', 'response has no ' + label)

    def messages(self):
        """list of SubMsg terms, or None when the list is not exactly known"""
        if self.ret is None or self.ret[0] != 'adt' or 'messages' not in self.w.p.adts.get(self.ret[1], {'variants': [{'fields': []}]})['variants'][0]['fields']:
            return []
        ps = self.parts(self.resp('messages'))
        if any(p[0] != 'e' for p in ps):
            return None
        return [p[1] for p in ps]

    def sub(self, sm):
        """(cosmos message, reply_on name, id) of a SubMsg"""
        f = lambda l: self.w.fld(sm, 'SubMsg', l)
        return f('msg'), self.variant(f('reply_on')), self.head(f('id')), f('gas_limit')

    def desc(self):
        return pp.facts(self.F)

    def short(self, n=700):
        s = pp.row(self.o)
        return s if len(s) <= n else s[:n] + ' …'

    def where(self):
        f = self.it or {}
        return self.entry


class Report:
    """collects obligations of one property"""

    def __init__(self, pid):
        self.pid = pid
        self.obl = 0
        self.ok = 0
        self.v = {}
        self.kinds = {}
        self.samples = []
        self.notes = []

    def need(self, cond, rule, row_or_where, detail=''):
        self.obl += 1
        self.kinds[rule] = self.kinds.get(rule, 0) + 1
        if cond:
            self.ok += 1
            return True
        if isinstance(row_or_where, Row):
            r = row_or_where
            where = r.entry
            mv = r.F.get(('is', ('in', 'msg')))
            if mv:
                where += ' [' + mv + ']'
            path = 'when ' + r.desc()
            if r.o.kind == 'ret':
                path += '\n    result ' + pp.pp(r.o.val)[:4000]
            else:
                path += '\n    aborts ' + repr(r.o.info)[:400]
            for k, v in r.store.items():
                path += '\n    writes ' + pp.pp(k[1]) + ' := ' + pp.pp(v)[:1500]
        else:
            where, path = str(row_or_where), ''
        v = Violation(rule, where, detail if isinstance(detail, str) else pp.pp(detail), path)
        self.v.setdefault((v.key(), v.detail), v)
        return False

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)
