"""Guarded provenance dataflow over type-checked MIR.

For a function, computes the table of its abstract outcomes.  Each outcome is
  (kind, facts, storage overlay, effects, value)
where `facts` are the branch conditions that hold on every execution in that row, values are provenance terms
(where each piece of data comes from) and the overlay is the net change of the contract's storage.
Loops are solved by fixpoint with an accumulator widening; calls are analysed context-sensitively.
No code is run and no solver is used: conditions are compared syntactically after normalisation.
"""
import json, re, sys
from collections import OrderedDict

sys.setrecursionlimit(20000)

UNIT = ('tup', ())
TRUE = ('b', True)
FALSE = ('b', False)
OPT = 'core::option::Option'
RES = 'core::result::Result'

# wrapper types that only carry their content
TRANSPARENT = {
    'cosmwasm_std::addresses::Addr', 'cosmwasm_std::binary::Binary', 'cosmwasm_std::hex_binary::HexBinary',
    'cosmwasm_std::addresses::CanonicalAddr', 'cosmwasm_std::timestamp::Timestamp',
    'cosmwasm_std::math::uint128::Uint128', 'cosmwasm_std::math::uint64::Uint64',
    'core::mem::manually_drop::ManuallyDrop', 'core::mem::maybe_uninit::MaybeUninit',
    'core::mem::maybe_dangling::MaybeDangling',
    'core::ptr::unique::Unique', 'core::ptr::non_null::NonNull', 'alloc::boxed::Box',
    'core::num::wrapping::Wrapping', 'alloc::borrow::Cow', 'core::pin::Pin',
}


HOLDERS = TRANSPARENT | {'core::cell::' + n for n in ('Ref', 'RefMut', 'RefCell', 'Cell')} | \
    {'alloc::' + m + n for m in ('rc::', 'rcs::rc::', 'sync::', 'rcs::sync::', 'rcs::arc::') for n in ('Rc', 'Arc')}


class Fuel(Exception):
    pass


class Program:
    def __init__(self, path):
        with open(path) as f:
            j = json.load(f)
        self.j = j
        self.krate = j['crate']
        self.types = j['types']
        self.adts = j['adts']
        self.items = j['items']
        self.bodies = j['bodies']
        self.stripped = j['stripped']
        self._loops = {}
        self.by_path = {}
        for it in self.items:
            self.by_path.setdefault(it['path'], it)
        self._lab = {}
        self.adt_of = {}
        self.dropped = {}  # types of this crate with a hand-written drop
        for k in self.bodies:
            m = re.match(r'<([\w:]+)(<.*>)? as core::ops::drop::Drop>::drop$', k)
            if m:
                self.dropped[m.group(1)] = k
        if not self.dropped:
            for b in self.bodies.values():
                for bl in b['blocks']:
                    if bl and bl['t'][0] == 'drop':
                        bl['t'] = ['goto', bl['t'][2]]

    def tname(self, tid):
        t = self.types[tid]
        return t.get('name') or t['d']

    def peel(self, tid):
        """strip references"""
        while self.types[tid]['k'] in ('ref', 'ptr'):
            tid = self.types[tid]['to']
        return tid

    def label(self, adt, vidx, i):
        k = (adt, vidx, i)
        r = self._lab.get(k)
        if r is None:
            a = self.adts[adt]
            v = a['variants'][vidx or 0]
            f = v['fields'][i] if i < len(v['fields']) else str(i)
            r = f if a['kind'] != 'enum' else v['name'] + '.' + f
            self._lab[k] = r
        return r

    def vname(self, adt, vidx):
        return self.adts[adt]['variants'][vidx]['name']

    def vindex(self, adt, name):
        for i, v in enumerate(self.adts[adt]['variants']):
            if v['name'] == name:
                return i
        return None

    def discr_to_vidx(self, adt, d):
        for i, v in enumerate(self.adts[adt]['variants']):
            if v['discr'] == str(d):
                return i
        for i, v in enumerate(self.adts[adt]['variants']):  # a negative discriminant given as its bits
            if v['discr'].startswith('-') and int(d) > 0 and any((1 << b) + int(v['discr']) == int(d) for b in (8, 16, 32, 64, 128)):
                return i
        return None

    def loops(self, key):
        """natural loops: header -> set of blocks"""
        if key in self._loops:
            return self._loops[key]
        b = self.bodies[key]
        succ = [self.succs(x) if x else [] for x in b['blocks']]
        n = len(succ)
        color = [0] * n
        back = []
        stack = [(0, iter(succ[0]))] if n else []
        if n:
            color[0] = 1
        while stack:
            u, it = stack[-1]
            adv = False
            for v in it:
                if color[v] == 0:
                    color[v] = 1
                    stack.append((v, iter(succ[v])))
                    adv = True
                    break
                elif color[v] == 1:
                    back.append((u, v))
            if not adv:
                color[u] = 2
                stack.pop()
        preds = [[] for _ in range(n)]
        for u in range(n):
            for v in succ[u]:
                preds[v].append(u)
        loops = {}
        for u, h in back:
            body = loops.setdefault(h, {h})
            st = [u]
            while st:
                x = st.pop()
                if x in body:
                    continue
                body.add(x)
                st.extend(preds[x])
        self._loops[key] = loops
        return loops

    @staticmethod
    def succs(bl):
        t = bl['t']
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'drop':
            return [t[2]]
        if k == 'switch':
            return [x[1] for x in t[2]] + [t[3]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[3]]
        return []


class St:
    """abstract state of one partition"""
    __slots__ = ('mem', 'facts', 'store', 'eff', 'iterlog')

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.store = {}
        self.eff = ()
        self.iterlog = ()

    def fork(self):
        s = St()
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.store = dict(self.store)
        s.eff = self.eff
        s.iterlog = self.iterlog
        return s


class Outcome:
    __slots__ = ('kind', 'st', 'val', 'info')

    def __init__(self, kind, st, val=None, info=None):
        self.kind, self.st, self.val, self.info = kind, st, val, info


def is_const(v):
    return v[0] in ('i', 's', 'b', 'bytes') or v == ('seq', ())


def contains(v, pred):
    if isinstance(v, tuple):
        if pred(v):
            return True
        for x in v:
            if isinstance(x, tuple) and contains(x, pred):
                return True
    return False


def subst(v, old, new):
    if v == old:
        return new
    if isinstance(v, tuple):
        ch = False
        out = []
        for x in v:
            if isinstance(x, tuple):
                y = subst(x, old, new)
                if y is not x:
                    ch = True
                out.append(y)
            else:
                out.append(x)
        if ch:
            return tuple(out)
    return v


def mentions(v, t, memo=None):
    """whether t occurs in v; memo (by identity, valid while the terms live) spares shared parts a second look"""
    if memo is None:
        memo = {}

    def go(x):
        i = id(x)
        r = memo.get(i)
        if r is None:
            if x == t:
                r = True
            else:
                r = False
                for y in x:
                    if isinstance(y, tuple) and go(y):
                        r = True
                        break
            memo[i] = r
        return r
    return isinstance(v, tuple) and go(v)


class Interp:
    MAXDEPTH = 60

    def __init__(self, prog, fuel=400000):
        self.p = prog
        self.fid = 0
        self.hid = 0
        self.steps = 0
        self.fuel = fuel
        self.unknown = {}      # opaque callees met
        self.analysed = set()  # bodies entered
        self.called = {}
        self.stores = {}
        self.sites = set()     # call sites met
        self.stack = []
        self.notes = []
        self.inside = []  # what was in memory where each loop under analysis began
        self.leaving = []  # aborts met while a model stepped an iterator
        from . import models
        self.models = models

    # ------------------------------------------------------------ terms
    def mk_adt(self, name, vidx, fields):
        if name in TRANSPARENT:
            return fields[0] if fields else UNIT
        fields = tuple(fields)
        if fields and name in self.p.adts:
            f0 = fields[0]
            if f0[0] == 'fld' and f0[2] == name:
                b = f0[1]
                nf = self.p.adts[name]['variants'][vidx]['fields']
                if len(nf) == len(fields) and all(
                        f[0] == 'fld' and f[1] == b and f[2] == name and f[3] == self.p.label(name, vidx, i)
                        for i, f in enumerate(fields)):
                    return b
        return ('adt', name, vidx, fields)

    def some(self, v):
        return self.mk_adt(OPT, 1, (v,))

    def none(self):
        return ('adt', OPT, 0, ())

    def ok(self, v):
        return self.mk_adt(RES, 0, (v,))

    def err(self, v):
        return self.mk_adt(RES, 1, (v,))

    def proj(self, v, tid, vidx, i):
        t = self.p.types[tid]
        k = t['k']
        if v[0] == 'adt':
            if k == 'adt' and t['name'] in TRANSPARENT and v[1] != t['name']:
                return v
            if (vidx is None or v[2] == vidx or v[1] != t.get('name')) and i < len(v[3]):
                return v[3][i]
            return ('bad', 'variant')
        if v[0] == 'tup' and k != 'adt':
            return v[1][i] if i < len(v[1]) else ('bad', 'tuple')
        if v[0] == 'clos':
            return v[2][i]
        if k == 'adt':
            name = t['name']
            if name in TRANSPARENT:
                return v
            if v[0] == 'ref':
                return v
            return ('fld', v, name, self.p.label(name, vidx, i))
        if k == 'tuple':
            if v[0] == 'elem' and v[1][0] == 'zip':
                return ('elem', v[1][1 + i])
            return ('fld', v, '()', str(i))
        if v[0] == 'ref':
            return v
        return ('fld', v, t['d'], str(i))

    def expand(self, v, tid, vidx):
        """make an opaque struct/tuple value writable field by field"""
        t = self.p.types[tid]
        if v[0] in ('adt', 'tup', 'clos'):
            return v
        if t['k'] == 'adt':
            name = t['name']
            a = self.p.adts.get(name)
            if a is None:
                return v
            vi = vidx or 0
            n = len(a['variants'][vi]['fields'])
            return ('adt', name, vi, tuple(('fld', v, name, self.p.label(name, vi, i)) for i in range(n)))
        if t['k'] == 'tuple':
            return ('tup', tuple(self.proj(v, tid, None, i) for i in range(len(t['args']))))
        return v

    def note_concrete(self, st, v, src, dst):
        """a value of a type of this crate becomes a trait object: keep what type it is"""
        if 'dyn ' not in self.p.types[dst]['d']:
            return v
        t = self.p.types[self.p.peel(src)]
        while t['k'] == 'adt' and t['name'] in TRANSPARENT and t['args']:
            t = self.p.types[self.p.peel(t['args'][0])]
        a = self.p.adts.get(t.get('name')) if t['k'] == 'adt' else None
        if a is None or a['kind'] == 'enum' or t['name'].startswith(('cosmwasm_std', 'core::', 'alloc::', 'std::')):
            return v
        opaque = ('adt', 'uninit', 'iter', 'lazy', 'ref', 'item', 'map')

        def known(old):
            n = len(a['variants'][0]['fields'])
            return ('adt', t['name'], 0, tuple(('fld', old, t['name'], self.p.label(t['name'], 0, i)) for i in range(n)))
        if v[0] != 'ref':
            return known(v) if v[0] not in opaque else v
        cell, path = self.lref(st, v)
        old = self.read(st, cell, path)
        if old[0] not in opaque:
            self.write(st, cell, path, known(old))
        return v

    # ------------------------------------------------------------ memory
    def newcell(self, st, v):
        self.hid += 1
        c = ('h', self.hid)
        st.mem[c] = v
        return c

    def read_cell(self, st, cell):
        if cell in st.mem:
            return st.mem[cell]
        if cell[0] == 'ext':
            return cell[1]
        return ('uninit',)

    def index_val(self, st, v, idx):
        if v[0] == 'seq' and idx[0] == 'i':
            parts = v[1]
            n = idx[1]
            if all(p[0] == 'e' for p in parts[:n + 1]) and n < len(parts):
                return parts[n][1]
        if idx[0] == 'idx':
            if idx[1] == v or idx[1] == ('len', v) or self.same_len(st.facts, idx[1], v):
                return ('elem', v)
        if idx[0] == 'sub' and idx[2] == ('i', 1) and idx[1] == self.models.seq_len(self, st, v):
            return ('last', v)
        return ('index', v, idx)

    @staticmethod
    def same_len(facts, a, b):
        """are the lists a and b known to have the same number of elements?"""
        if a == b:
            return True
        if a[0] == 'zip' and (Interp.same_len(facts, a[1], b) or Interp.same_len(facts, a[2], b)):
            return True
        return facts.get(('b', mk_eq(('len', a), ('len', b)))) is True

    def read_path(self, st, v, path):
        for pe in path:
            if pe[0] == 'f':
                v = self.proj(v, pe[1], pe[2], pe[3])
            elif pe[0] == 'x':
                v = self.index_val(st, v, pe[1])
            elif pe[0] == 'c':
                off, fe = pe[1], pe[2]
                if v[0] == 'seq' and all(p[0] == 'e' for p in v[1]):
                    n = len(v[1])
                    k = n - off if fe else off
                    v = v[1][k][1] if 0 <= k < n else ('bad', 'index')
                elif fe and off == 1:
                    v = ('last', v)
                else:
                    v = ('index', v, ('i', -off if fe else off))
            elif pe[0] == 's':
                v = ('app', 'subslice', v, ('i', pe[1]), ('i', pe[2]), ('b', bool(pe[3])))
            else:
                v = ('fld', v, '?', '?')
        return v

    def read(self, st, cell, path):
        return self.read_path(st, self.read_cell(st, cell), path)

    def write(self, st, cell, path, nv):
        if not path:
            st.mem[cell] = nv
            return
        st.mem[cell] = self.upd(st, self.read_cell(st, cell), path, nv)

    def upd(self, st, v, path, nv):
        if not path:
            return nv
        pe = path[0]
        if pe[0] == 'f':
            _, tid, vidx, i = pe
            t = self.p.types[tid]
            if t['k'] == 'adt' and t['name'] in TRANSPARENT:
                return self.upd(st, v, path[1:], nv)
            if v[0] == 'uninit' and t['k'] == 'adt' and t['name'] in self.p.adts:
                n = len(self.p.adts[t['name']]['variants'][vidx or 0]['fields'])
                v = ('adt', t['name'], vidx or 0, (('uninit',),) * n)
            if v[0] == 'uninit' and t['k'] == 'tuple':
                v = ('tup', (('uninit',),) * len(t['args']))
            v = self.expand(v, tid, vidx)
            if v[0] == 'adt' and i < len(v[3]):
                f = list(v[3])
                f[i] = self.upd(st, f[i], path[1:], nv)
                return self.mk_adt(v[1], v[2], f)
            if v[0] == 'tup' and i < len(v[1]):
                f = list(v[1])
                f[i] = self.upd(st, f[i], path[1:], nv)
                return ('tup', tuple(f))
            if v[0] == 'clos' and i < len(v[2]):
                f = list(v[2])
                f[i] = self.upd(st, f[i], path[1:], nv)
                return ('clos', v[1], tuple(f))
            return ('app', 'updated', v, nv)
        if pe[0] == 'x' and v[0] == 'seq' and pe[1][0] == 'i':
            n = pe[1][1]
            ps = list(v[1])
            if n < len(ps) and all(p[0] == 'e' for p in ps[:n + 1]):
                ps[n] = ('e', self.upd(st, ps[n][1], path[1:], nv))
                return ('seq', tuple(ps))
        if pe[0] == 'c' and v[0] == 'seq' and all(p[0] == 'e' for p in v[1]):
            ps = list(v[1])
            k = len(ps) - pe[1] if pe[2] else pe[1]
            if 0 <= k < len(ps):
                ps[k] = ('e', self.upd(st, ps[k][1], path[1:], nv))
                return ('seq', tuple(ps))
        return ('app', 'updated', v, nv)

    def deref(self, st, v):
        """value behind a reference (or the value itself)"""
        n = 0
        while v[0] == 'ref':
            v = self.read(st, v[1], v[2])
            n += 1
            if n > 50:
                return ('bad', 'cycle')
        if v[0] != 'ext' and ('ext', v) in st.mem:
            return st.mem[('ext', v)]
        return v

    def lref(self, st, v):
        """follow references until the place that holds a non-reference"""
        n = 0
        while v[0] == 'ref':
            w = self.read(st, v[1], v[2])
            if w[0] != 'ref':
                return (v[1], v[2])
            v = w
            n += 1
            if n > 50:
                break
        return (('ext', v), ())

    def val(self, st, v, depth=0):
        """deeply resolve references"""
        if depth > 60:
            return v
        if v[0] == 'ref':
            return self.val(st, self.deref(st, v), depth + 1)
        if v[0] == 'adt':
            fs = tuple(self.val(st, x, depth + 1) for x in v[3])
            return self.mk_adt(v[1], v[2], fs) if fs != v[3] else v
        if v[0] == 'tup':
            return ('tup', tuple(self.val(st, x, depth + 1) for x in v[1]))
        if v[0] == 'seq':
            return mkseq(tuple(self.val_part(st, x, depth + 1) for x in v[1]))
        if v[0] == 'clos':
            return ('clos', v[1], tuple(self.val(st, x, depth + 1) for x in v[2]))
        if v[0] == 'lazy':
            return ('lazy', self.val(st, v[1], depth + 1), v[2], self.val(st, v[3], depth + 1))
        if v[0] == 'iter':
            return ('iter', tuple(self.val_part(st, x, depth + 1) for x in v[1]))
        return v

    def val_part(self, st, p, depth):
        if p[0] == 'e':
            return ('e', self.val(st, p[1], depth))
        if p[0] == 'm':
            return ('m', p[1], tuple((c[0], tuple(self.val_part(st, q, depth) for q in c[1])) for c in p[2]))
        return p

    # ------------------------------------------------------------ facts
    def norm_bool(self, v):
        return v

    def known_variant(self, st, t):
        return st.facts.get(('is', t))

    def decide(self, st, b):
        """truth of a boolean term under the facts, or None"""
        k = b[0]
        if k == 'b':
            return b[1]
        if k == 'i':
            return b[1] != 0
        if k == 'not':
            r = self.decide(st, b[1])
            return None if r is None else (not r)
        if k == 'isv':
            _, t, adt, vn = b
            if t[0] == 'adt':
                return self.p.vname(t[1], t[2]) == vn
            kv = st.facts.get(('is', t))
            if kv is not None:
                return kv == vn
            ex = st.facts.get(('nis', t))
            if ex and vn in ex:
                return False
            return None
        r = st.facts.get(('b', b))
        if r is not None:
            return r
        if k == 'eq':
            for x, y in ((b[1], b[2]), (b[2], b[1])):
                if is_const(y):
                    c = st.facts.get(('eqc', x))
                    if c is not None and c != y:
                        return False
                    if y[0] == 's':
                        for (kk, t), tv in st.facts.items() if False else ():
                            pass
                        for fk, fv in st.facts.items():
                            if fk[0] == 'b' and fk[1][0] == 'starts' and fk[1][1] == x and fk[1][2][0] == 's':
                                sw = y[1].startswith(fk[1][2][1])
                                if sw != fv and (fv or sw):
                                    return False
                        if y[1] != '' and st.facts.get(('b', ('empty', x))) is True:
                            return False
        if k == 'starts' and b[2][0] == 's':
            c = st.facts.get(('eqc', b[1]))
            if c is not None and c[0] == 's':
                return c[1].startswith(b[2][1])
            for fk, fv in st.facts.items():
                if fv and fk[0] == 'b' and fk[1][0] == 'starts' and fk[1][1] == b[1] and fk[1][2][0] == 's':
                    a, bb = fk[1][2][1], b[2][1]
                    if a.startswith(bb):
                        return True
                    if not bb.startswith(a):
                        return False
        if k == 'eq':
            ab, ba = st.facts.get(('b', ('lt', b[1], b[2]))), st.facts.get(('b', ('lt', b[2], b[1])))
            if ab or ba:
                return False
            if ab is False and ba is False:
                return True
        if k == 'app' and b[1] == 'overflow' and b[2] == ('s', 'add') and b[4][0] == 'i' and b[4][1] < 1 << 32 and b[3][0] in ('idx', 'ctr', 'len'):
            return False
        if k == 'empty':
            c = st.facts.get(('eqc', b[1]))
            if c is not None and c[0] == 's':
                return c[1] == ''
        if k == 'lt':
            back, same = st.facts.get(('b', ('lt', b[2], b[1]))), st.facts.get(('b', mk_eq(b[1], b[2])))
            if back or same:
                return False
            if back is False and same is False:
                return True
            if b[2][0] == 'len':
                if b[1][0] == 'idx' and (b[1][1] == b[2] or self.same_len(st.facts, b[1][1], b[2][1])):
                    return True
                if b[1][0] == 'sub' and b[1][1] == b[2] and b[1][2] == ('i', 1):
                    return True
                if b[1][0] == 'ctr':
                    for fk, fv in st.facts.items():
                        if fk[0] == 'b' and fk[1][0] == 'lt' and fk[1][1] == b[1] and fk[1][2][0] == 'len' \
                                and self.same_len(st.facts, fk[1][2][1], b[2][1]):
                            return fv
            # constant on the left: c < x
            if b[1][0] == 'i':
                for fk, fv in st.facts.items():
                    if fk[0] == 'b' and fk[1][0] == 'lt' and fk[1][2] == b[2] and fk[1][1][0] == 'i':
                        c0 = fk[1][1][1]
                        if fv and c0 >= b[1][1]:
                            return True
                        if not fv and c0 <= b[1][1]:
                            return False
                c = st.facts.get(('eqc', b[2]))
                if c is not None and c[0] == 'i':
                    return b[1][1] < c[1]
        return None

    def assume(self, st, b, val):
        """add a fact; False if contradictory"""
        k = b[0]
        if k == 'not':
            return self.assume(st, b[1], not val)
        d = self.decide(st, b)
        if d is not None:
            return d == val
        if k == 'isv':
            _, t, adt, vn = b
            self.p.adt_of[t] = adt
            if val:
                st.facts[('is', t)] = vn
                st.facts.pop(('nis', t), None)
            else:
                ex = st.facts.get(('nis', t), frozenset()) | {vn}
                names = [v['name'] for v in self.p.adts[adt]['variants']] if adt in self.p.adts else None
                if names:
                    rest = [n for n in names if n not in ex]
                    if not rest:
                        return False
                    if len(rest) == 1:
                        st.facts[('is', t)] = rest[0]
                        st.facts.pop(('nis', t), None)
                        return True
                st.facts[('nis', t)] = ex
            return True
        st.facts[('b', b)] = val
        if k == 'eq' and not val:  # of two different values one is the lesser
            for x, y in ((b[1], b[2]), (b[2], b[1])):
                if st.facts.get(('b', ('lt', x, y))) is False:
                    st.facts[('b', ('lt', y, x))] = True
        if k == 'lt' and not val and st.facts.get(('b', mk_eq(b[1], b[2]))) is False:
            st.facts[('b', ('lt', b[2], b[1]))] = True
        if k == 'eq' and val:
            for x, y in ((b[1], b[2]), (b[2], b[1])):
                if is_const(y) and not is_const(x):
                    st.facts[('eqc', x)] = y
        return True

    def branch(self, st, b):
        """[(state, bool)]"""
        d = self.decide(st, b)
        if d is not None:
            return [(st, d)]
        out = []
        s2 = st.fork()
        if self.assume(st, b, True):
            out.append((st, True))
        if self.assume(s2, b, False):
            out.append((s2, False))
        return out

    def variants(self, st, t, adt):
        """partition on the variant of t: [(state, vidx, concrete?)]"""
        if t[0] == 'adt':
            return [(st, t[2])]
        self.p.adt_of[t] = adt
        kv = st.facts.get(('is', t))
        if kv is not None:
            return [(st, self.p.vindex(adt, kv))]
        ex = st.facts.get(('nis', t), frozenset())
        out = []
        vs = [i for i, v in enumerate(self.p.adts[adt]['variants']) if v['name'] not in ex]
        for n, i in enumerate(vs):
            s = st if n == len(vs) - 1 else st.fork()
            s.facts[('is', t)] = self.p.vname(adt, i)
            s.facts.pop(('nis', t), None)
            out.append((s, i))
        return out

    def match_opt(self, st, v):
        """[(state, payload or None)] for an Option value"""
        v = self.deref(st, v)
        out = []
        for s, vi in self.variants(st, v, OPT):
            if vi == 1:
                out.append((s, v[3][0] if v[0] == 'adt' else ('fld', v, OPT, 'Some.0')))
            else:
                out.append((s, None))
        return out

    def match_res(self, st, v):
        v = self.deref(st, v)
        out = []
        for s, vi in self.variants(st, v, RES):
            nm = 'Ok.0' if vi == 0 else 'Err.0'
            out.append((s, vi == 0, v[3][0] if v[0] == 'adt' else ('fld', v, RES, nm)))
        return out

    # ------------------------------------------------------------ operands
    def place(self, st, fr, pl):
        """-> (cell, path, tid)"""
        local, projs = pl
        cell = (fr.fid, local)
        path = ()
        tid = fr.body['locals'][local]
        vidx = None
        for e in projs:
            if e == '*':
                v = self.read(st, cell, path)
                t = self.p.types[tid]
                if t['k'] in ('ref', 'ptr'):
                    ntid = t['to']
                elif t['k'] == 'adt' and t['args']:
                    ntid = t['args'][0]
                else:
                    ntid = tid
                if v[0] == 'ref':
                    cell, path = v[1], v[2]
                else:
                    cell, path = ('ext', v), ()
                tid = ntid
                vidx = None
                t = self.p.types[tid]
                while t['k'] == 'adt' and t['name'] not in HOLDERS and cell in st.mem:  # behind a guard of a reference
                    w = self.read(st, cell, path)
                    if w[0] != 'ref' or w[1:] == (cell, path):
                        break
                    cell, path = w[1], w[2]
            elif e[0] == 'f':
                path = path + (('f', tid, vidx, e[1]),)
                tid = e[2]
                vidx = None
            elif e[0] == 'd':
                vidx = e[1]
            elif e[0] == 'i':
                iv = self.deref(st, self.read_cell(st, (fr.fid, e[1])))
                path = path + (('x', iv),)
                tid = self.p.types[tid].get('to', tid)
            elif e[0] == 'c':
                path = path + (('c', e[1], e[2]),)
                tid = self.p.types[tid].get('to', tid)
            elif e[0] == 's':
                path = path + (('s', e[1], e[2], e[3]),)
            else:
                path = path + (('o',),)
        return cell, path, tid

    def operand(self, st, fr, o):
        k = o[0]
        if k in ('c', 'm'):
            c, p, t = self.place(st, fr, o[1])
            return self.read(st, c, p)
        if k == 'k':
            return self.const(st, o[1])
        return ('b', False)

    def const(self, st, c):
        t = self.p.types[c['ty']]
        v = c['val']
        if v is not None:
            if 'int' in v:
                n = int(v['int'])
                if t['k'] == 'bool':
                    return ('b', n != 0)
                if t['k'] == 'adt':
                    return self.const_adt(t, n)
                return ('i', n)
            if 'str' in v:
                return ('s', v['str'])
            if 'bytes' in v:
                b = bytes(v['bytes'])
                return ('bytes', tuple(v['bytes']))
            if 'strs' in v:
                return ('seq', tuple(('e', ('s', x)) for x in v['strs']))
            if 'zst' in v:
                if t['k'] == 'fndef':
                    return ('fnd', c['ty'])
                if t['k'] == 'closure':
                    return ('clos', c['ty'], ())
                if t['k'] == 'adt':
                    return self.const_adt(t, 0)
                if t['k'] == 'array':
                    return ('seq', ())
                return UNIT
        if t['k'] == 'fndef':
            return ('fnd', c['ty'])
        if c['key'] and c['key'] in self.p.bodies:
            r = self.eval_const(st, c['key'])
            if r is not None:
                return r
        if c['def']:
            return ('const', c['def'])
        return ('const', c['d'])

    def const_adt(self, t, n):
        name = t['name']
        a = self.p.adts.get(name)
        if a and a['kind'] == 'enum':
            vi = self.p.discr_to_vidx(name, n)
            if vi is not None and not a['variants'][vi]['fields']:
                return ('adt', name, vi, ())
        if a and a['kind'] == 'struct' and not a['variants'][0]['fields']:
            return ('adt', name, 0, ())
        if a and a['kind'] == 'struct' and len(a['variants'][0]['fields']) == 1:
            return self.mk_adt(name, 0, (('i', n),))
        return ('const', t['d'], n)

    def eval_const(self, st, key):
        b = self.p.bodies[key]
        if b['argc'] != 0:
            return None
        s = st.fork()
        outs = self.run_body(s, key, [])
        outs = [o for o in outs if o.kind == 'ret']
        if len(outs) == 1:
            o = outs[0]
            v = o.val
            if v[0] == 'ref':
                # promoted: reference to a constant value
                return self.val(o.st, v)
            return self.val(o.st, v)
        return None

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r, dty):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k in ('ref', 'reborrow'):
            c, p, t = self.place(st, fr, r[2])
            if c[0] == 'ext' and not p and c not in st.mem and c[1][0] != 'ref':
                # reference to an opaque value: the value stands for the reference
                if self.p.types[t]['k'] in ('dyn', 'str', 'slice') or not r[1]:
                    return c[1]
            return ('ref', c, p)
        if k == 'cast':
            v = self.operand(st, fr, r[2])
            v = self.note_concrete(st, v, self.op_ty(fr, r[2]), r[3])
            return self.cast(st, r[1], v, r[3], self.op_ty(fr, r[2]))
        if k == 'bin':
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            return self.binop(st, r[1], self.deref(st, a), self.deref(st, b),
                              r[1].startswith('Sub') and self.p.types[self.op_ty(fr, r[2])]['d'] in UNSIGNED)
        if k == 'un':
            a = self.deref(st, self.operand(st, fr, r[2]))
            if r[1] == 'Not':
                return mk_not(a)
            if r[1] == 'PtrMetadata':
                return self.models.seq_len(self, st, a)
            if a[0] == 'i' and r[1] == 'Neg':
                return ('i', -a[1])
            return ('app', r[1], a)
        if k == 'discr':
            c, p, tid = self.place(st, fr, r[1])
            v = self.deref(st, self.read(st, c, p))
            tid = self.p.peel(tid)
            t = self.p.types[tid]
            if v[0] == 'adt':
                return ('i', int(self.p.adts[v[1]]['variants'][v[2]]['discr']))
            if t['k'] == 'adt':
                kv = st.facts.get(('is', v))
                if kv is not None:
                    vi = self.p.vindex(t['name'], kv)
                    if vi is not None:
                        return ('i', int(self.p.adts[t['name']]['variants'][vi]['discr']))
                return ('discr', v, t['name'])
            return ('discr', v, t['d'])
        if k == 'agg':
            fs = [self.operand(st, fr, o) for o in r[2]]
            if r[1] == 'tuple':
                return ('tup', tuple(fs))
            if r[1] == 'array':
                return ('seq', tuple(('e', f) for f in fs))
            if r[1] == 'adt':
                return self.mk_adt(r[3], r[4], fs)
            if r[1] == 'closure':
                return ('clos', r[3], tuple(fs))
            return ('app', 'aggregate') + tuple(fs)
        if k == 'repeat':
            v = self.operand(st, fr, r[1])
            if r[2] is not None and r[2] <= 64:
                return ('seq', tuple(('e', v) for _ in range(r[2])))
            return ('app', 'repeat', v)
        return ('app', 'rvalue', ('s', str(r)[:80]))

    def op_ty(self, fr, o):
        if o[0] == 'k':
            return o[1]['ty']
        local, projs = o[1]
        tid = fr.body['locals'][local]
        for e in projs:
            if e == '*':
                t = self.p.types[tid]
                tid = t['to'] if t['k'] in ('ref', 'ptr') else (t['args'][0] if t.get('args') else tid)
            elif e[0] == 'f':
                tid = e[2]
            elif e[0] in ('i', 'c'):
                tid = self.p.types[tid].get('to', tid)
        return tid

    def cast(self, st, kind, v, tid, sid):
        t = self.p.types[tid]
        s = self.p.types[sid]
        if kind.startswith(('PointerCoercion', 'PtrToPtr', 'Transmute', 'BoxDerefTransmute', 'FnPtrToPtr', 'Subtype')):
            return v
        if kind.startswith('IntToInt'):
            if v[0] == 'b':
                return ('i', 1 if v[1] else 0)
            if v[0] == 'i':
                return ('i', wrap(v[1], t['d']))
            if v[0] == 'discr':
                return ('discr', v[1], v[2])
            if int_widens(s['d'], t['d']):
                return v
            return ('app', 'cast:%s->%s' % (s['d'], t['d']), v)
        return ('app', 'cast:' + kind + ':' + t['d'], v)

    def binop(self, st, op, a, b, unsigned=False):
        if op in ('Eq', 'Ne'):
            r = self.mk_eq_scalar(a, b)
            return mk_not(r) if op == 'Ne' else r
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            return mk_cmp(op, a, b)
        if op in ('BitAnd', 'BitOr') and (a[0] == 'b' or b[0] == 'b'):
            for x, y in ((a, b), (b, a)):
                if x[0] == 'b':
                    if op == 'BitAnd':
                        return y if x[1] else FALSE
                    return TRUE if x[1] else y
        base = op
        ovf = False
        if op.endswith('WithOverflow'):
            base = op[:-len('WithOverflow')]
            ovf = True
        if base.endswith('Unchecked'):
            base = base[:-len('Unchecked')]
        r = arith(base.lower(), a, b)
        if ovf:
            if r[0] == 'i' and -(1 << 63) <= r[1] < (1 << 64) and (r[1] >= 0 or a[1] < 0 or b[1] < 0):
                return ('tup', (r, FALSE))
            if unsigned:
                return ('tup', (r, mk_cmp('Lt', a, b)))
            return ('tup', (r, ('app', 'overflow', ('s', base.lower()), a, b)))
        return r

    def mk_eq_scalar(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x[0] == 'discr' and y[0] == 'i':
                vi = self.p.discr_to_vidx(x[2], y[1])
                if vi is None:
                    return FALSE
                return ('isv', x[1], x[2], self.p.vname(x[2], vi))
            if y[0] == 'b':
                return x if y[1] else mk_not(x)
        return mk_eq(a, b)

    # ------------------------------------------------------------ bodies
    def run_body(self, st, key, args):
        """-> [Outcome ret/panic]"""
        if len(self.stack) > self.MAXDEPTH or self.stack.count(key) > 2:
            self.notes.append('recursion limit at ' + key)
            return [Outcome('ret', st, ('app', 'recursion', ('s', key)) + tuple(self.val(st, a) for a in args))]
        body = self.p.bodies[key]
        self.analysed.add(key)
        self.fid += 1
        fr = Frame(self.fid, key, body, self.p.loops(key))
        for i, a in enumerate(args):
            st.mem[(fr.fid, i + 1)] = a
        self.stack.append(key)
        try:
            outs = self.run(fr, 0, st, None, None)
        finally:
            self.stack.pop()
        res = []
        n = len(body['locals'])
        for o in outs:
            if o.kind == 'ret':
                v = o.st.mem.get((fr.fid, 0), UNIT)
                v = self.escape(o.st, v, fr.fid)
                for i in range(n):
                    o.st.mem.pop((fr.fid, i), None)
                o.val = v
                res.append(o)
            elif o.kind == 'panic':
                for i in range(n):
                    o.st.mem.pop((fr.fid, i), None)
                res.append(o)
        return res

    def escape(self, st, v, fid):
        """a returned reference must not point into the finished frame (promoteds, constants)"""
        if v[0] == 'ref' and v[1][0] == fid:
            val = self.read(st, v[1], v[2])
            val = self.escape(st, val, fid)
            return ('ref', self.newcell(st, val), ())
        if v[0] in ('adt',):
            fs = tuple(self.escape(st, x, fid) for x in v[3])
            return ('adt', v[1], v[2], fs) if fs != v[3] else v
        if v[0] == 'tup':
            fs = tuple(self.escape(st, x, fid) for x in v[1])
            return ('tup', fs) if fs != v[1] else v
        if v[0] == 'clos':
            fs = tuple(self.escape(st, x, fid) for x in v[2])
            return ('clos', v[1], fs) if fs != v[2] else v
        if v[0] == 'lazy':
            return ('lazy', self.escape(st, v[1], fid), v[2], self.escape(st, v[3], fid))
        if v[0] in ('seq', 'iter'):
            ps = tuple(('e', self.escape(st, x[1], fid)) if x[0] == 'e' else x for x in v[1])
            return (v[0], ps)
        return v

    def run(self, fr, start, st, region, header):
        outs = []
        work = [(start, st, True)]
        blocks = fr.body['blocks']
        while work:
            bb, st, first = work.pop()
            if region is not None and not first:
                if bb == header:
                    outs.append(Outcome('back', st))
                    continue
                if bb not in region:
                    outs.append(Outcome('exit', st, None, bb))
                    continue
            if bb in fr.loops and not (bb == header and first):
                for o in self.process_loop(fr, bb, st):
                    if o.kind == 'exit':
                        work.append((o.info, o.st, False))
                    else:
                        outs.append(o)
                continue
            self.steps += 1
            if self.steps > self.fuel:
                raise Fuel('step budget exhausted')
            bl = blocks[bb]
            if bl is None:
                continue
            for s in bl['s']:
                if s[0] == 'a':
                    dt = None
                    v = self.rvalue(st, fr, s[2], dt)
                    c, p, t = self.place(st, fr, s[1])
                    self.write(st, c, p, v)
                elif s[0] == 'sd':
                    c, p, t = self.place(st, fr, s[1])
                    tt = self.p.types[t]
                    if tt['k'] == 'adt':
                        old = self.read(st, c, p)
                        n = len(self.p.adts[tt['name']]['variants'][s[2]]['fields'])
                        if old[0] == 'adt' and len(old[3]) == n:
                            self.write(st, c, p, ('adt', tt['name'], s[2], old[3]))
                        else:
                            self.write(st, c, p, ('adt', tt['name'], s[2], (('uninit',),) * n))
            t = bl['t']
            k = t[0]
            if k == 'goto':
                work.append((t[1], st, False))
            elif k == 'ret':
                outs.append(Outcome('ret', st))
            elif k == 'drop':
                c, p, ty = self.place(st, fr, t[1])
                for o in self.drop_at(st, c, p):
                    if o.kind == 'ret':
                        work.append((t[2], o.st, False))
                    else:
                        outs.append(o)
            elif k == 'switch':
                for s2, b2 in self.switch(st, fr, t):
                    work.append((b2, s2, False))
            elif k == 'assert':
                v = self.deref(st, self.operand(st, fr, t[1]))
                cond = v if t[2] else mk_not(v)
                if t[4].startswith(('Misaligned', 'NullPointer', 'InvalidEnum')):
                    work.append((t[3], st, False))
                    continue
                for s2, ok in self.branch(st, cond):
                    if ok:
                        work.append((t[3], s2, False))
                    else:
                        outs.append(Outcome('panic', s2, None, ('assert', t[4], t[5])))
            elif k == 'call':
                for o in self.call_term(st, fr, t):
                    if o.kind == 'ret':
                        if t[4] is None:
                            outs.append(Outcome('panic', o.st, None, ('diverge', t[5])))
                            continue
                        c, p, ty = self.place(o.st, fr, t[3])
                        self.write(o.st, c, p, o.val)
                        work.append((t[4], o.st, False))
                    else:
                        outs.append(o)
            elif k == 'unreach':
                pass
            else:
                outs.append(Outcome('panic', st, None, ('unknown terminator', str(t)[:80])))
        return outs

    def drop_at(self, st, cell, path, depth=0):
        """a value goes out of scope: what the crate itself wrote for that runs, then its parts go"""
        v = self.read(st, cell, path)
        outs = [Outcome('ret', st)]
        if v[0] not in ('adt', 'tup') or depth > 8:
            return outs
        if v[0] == 'adt' and v[1] in self.p.dropped:
            outs = self.run_body(st, self.p.dropped[v[1]], [('ref', cell, path)])
        fs = v[3] if v[0] == 'adt' else v[1]
        for i, f in enumerate(fs):
            if f[0] in ('adt', 'tup'):
                nxt = []
                for o in outs:
                    nxt += self.drop_at(o.st, self.newcell(o.st, f), (), depth + 1) if o.kind == 'ret' else [o]
                outs = nxt
        return outs

    def switch(self, st, fr, t):
        v = self.deref(st, self.operand(st, fr, t[1]))
        targets = t[2]
        other = t[3]
        if v[0] == 'i':
            for c, b in targets:
                if int(c) == v[1]:
                    return [(st, b)]
            return [(st, other)]
        if v[0] == 'b':
            n = 1 if v[1] else 0
            for c, b in targets:
                if int(c) == n:
                    return [(st, b)]
            return [(st, other)]
        blocks = fr.body['blocks']
        out = []
        if v[0] == 'discr' and v[2] in self.p.adts:
            adt = v[2]
            term = v[1]
            seen = []
            for c, b in targets:
                vi = self.p.discr_to_vidx(adt, c)
                if vi is None:
                    continue
                seen.append(vi)
                s2 = st.fork()
                if self.assume(s2, ('isv', term, adt, self.p.vname(adt, vi)), True):
                    out.append((s2, b))
            if blocks[other] is not None and blocks[other]['t'][0] != 'unreach':
                s2 = st.fork()
                if all(self.assume(s2, ('isv', term, adt, self.p.vname(adt, vi)), False) for vi in seen):
                    out.append((s2, other))
            return out
        ty = self.op_ty(fr, t[1])
        if self.p.types[ty]['k'] == 'bool':
            for s2, val in self.branch(st, v):
                n = 1 if val else 0
                tgt = other
                for c, b in targets:
                    if int(c) == n:
                        tgt = b
                out.append((s2, tgt))
            return out
        # integer / char
        rest = st
        alive = True
        for c, b in targets:
            cv = ('i', int(c))
            s2 = rest.fork()
            if self.assume(s2, mk_eq(v, cv), True):
                out.append((s2, b))
            if not self.assume(rest, mk_eq(v, cv), False):
                alive = False
                break
        if alive and not (blocks[other] is not None and blocks[other]['t'][0] == 'unreach'):
            out.append((rest, other))
        return out

    # ------------------------------------------------------------ loops
    def in_loop(self, cell):
        """does some loop under analysis go round with this cell?"""
        return any(m.get(cell, ('uninit',)) != ('uninit',) for m, _ in self.inside)

    def iter_cells(self, st, cells=None):
        return {c: v for c, v in st.mem.items() if v[0] in ('iter', 'lazy')}

    def process_loop(self, fr, h, st):
        region = fr.loops[h]
        exits = []
        pending = [st]
        rounds = 0
        while pending:
            S = pending.pop()
            rounds += 1
            if rounds > 200:
                self.notes.append('loop limit in ' + fr.key)
                S.eff = S.eff + (('unknown', 'loop limit in ' + fr.key),)
                exits.append(Outcome('panic', S, None, ('loop limit', fr.key)))
                break
            self.inside.append((S.mem, len(S.iterlog)))
            try:
                outs = self.run(fr, h, S.fork(), region, h)
            finally:
                self.inside.pop()
            backs = [o for o in outs if o.kind == 'back']
            same, other = [], []
            its = self.iter_cells(S)
            for o in backs:
                moved = any(o.st.mem.get(c) != v and (o.st.mem.get(c) or ('x',))[0] in ('iter', 'lazy') for c, v in its.items())
                (other if moved else same).append(o)
            if not same:
                exits += [o for o in outs if o.kind != 'back']
                pending += [o.st for o in other]
                continue
            src = None
            for o in same:
                new = o.st.iterlog[len(S.iterlog):]
                s1 = new[0] if new else ('loop', fr.key, h)
                if src is None:
                    src = s1
                elif src != s1:
                    src = ('loop', fr.key, h)
                if any(x[:2] == ('app', 'again') for x in new):  # a round may take several elements
                    src = ('loop', fr.key, h)
            # two sequences advanced side by side: the loop visits their elements in pairs
            n = len(S.iterlog)
            logs = {o.st.iterlog[n:] for o in same}
            if src[0] != 'loop' and len(logs) == 1 and len(next(iter(logs))) == 2 and len(set(next(iter(logs)))) == 2 \
                    and all(any(v[0] == 'iter' and v[1] and v[1][0][0] in 'sm' and v[1][0][1] == x and (c[0] != fr.fid or self.live_into_header(fr, c[1]))
                                for c, v in its.items()) for x in next(iter(logs))):
                pair = next(iter(logs))
                src = ('zip',) + pair
                for o in outs:
                    new = o.st.iterlog[n:]
                    if new[:2] == pair:
                        o.st.iterlog = o.st.iterlog[:n] + (src,) + new[2:]
                    elif new in ((), pair[:1]) and any(o.st.mem.get(c) != v for c, v in its.items()):
                        self.finish_src(o.st, src)
                        o.st.iterlog = o.st.iterlog[:n]
            cs = [c for c, v in S.mem.items() if v == ('i', 0) and all(o.st.mem.get(c) == ('i', 1) for o in same)] \
                if src[0] == 'loop' else []
            if cs:
                # a counter: generalise it first, so that no case is built from its initial value
                G = S.fork()
                for c in cs:
                    G.mem[c] = ('ctr', src)
            else:
                G = self.widen(S, [(o.st, None) for o in same], src, fr)
            if G is None and src[0] == 'loop':
                src = self.counted(src, same, outs) or src
            if G is None:
                self.passed_all(S, same, [o for o in outs if o not in same], src)
                srcs = (src,) + (src[1:] if src[0] == 'zip' else ())
                for o in outs:  # left before the end: some of the elements are still to come
                    if o.kind != 'back' and any(x in o.st.iterlog[n:] for x in srcs):
                        for c, v in its.items():
                            if v[0] == 'iter' and v[1] and v[1][0][0] in 'sm' and v[1][0][1] in srcs and o.st.mem.get(c) == v:
                                o.st.mem[c] = ('iter', (('s', ('app', 'rest', self.val(o.st, mkseq(v[1])))),))
                exits += [o for o in outs if o.kind != 'back']
                for o in other:
                    self.finish_src(o.st, src)
                pending += [o.st for o in other]
            else:
                pending.append(G)
        return exits

    def counted(self, src, same, outs):
        """a loop `while i < xs.len() { .. i += 1 }` visits the elements of xs in order: rewrite it as such"""
        ctr = ('ctr', src)

        def bound(st):
            return {k[1][2][1] for k, v in st.facts.items()
                    if k[0] == 'b' and v is True and k[1][0] == 'lt' and k[1][1] == ctr and k[1][2][0] == 'len'}
        bs = [bound(o.st) for o in same]
        xs = set.intersection(*bs) if bs else set()
        if not xs:
            return None
        X = sorted(xs, key=repr)[0]
        key = ('b', ('lt', ctr, ('len', X)))
        if any(key not in o.st.facts for o in outs):
            return None
        for o in outs:
            st = o.st
            done = st.facts.pop(key) is False

            def rw(v):
                if not isinstance(v, tuple):
                    return v
                if len(v) == 3 and v[0] == 'index' and v[2] == ctr and self.same_len(st.facts, v[1], X):
                    return ('elem', rw(v[1]))
                if v == ctr:
                    return ('idx', X)
                if v == src:
                    return X
                if v and v[0] == 'ref':
                    return v
                return tuple(rw(x) if isinstance(x, tuple) else x for x in v)
            st.mem = {c: rw(v) for c, v in st.mem.items()}
            st.facts = {rw(k): v if not isinstance(v, tuple) else rw(v) for k, v in st.facts.items()}
            st.store = {k: rw(v) for k, v in st.store.items()}
            st.eff = tuple(rw(e) for e in st.eff)
            if done:
                self.finish_src(st, X)
            elif o.kind != 'back':
                st.iterlog = st.iterlog + (X,)
        return X

    def passed_all(self, S, same, outs, src):
        """a loop that some element can leave early: where it was not left early, every element met one of the conditions
        under which the loop goes on"""
        n = len(S.iterlog)
        if src[0] == 'loop' or not any(o.st.iterlog[n:n + 1] == (src,) and o.kind != 'panic' for o in outs):
            return
        conds = [self.facts_diff(S.facts, o.st.facts) for o in same]
        if not all(conds):
            return
        fact = ('b', ('forall', mkseq((('s', src),)), tuple(sorted(set(conds), key=repr))))
        for o in outs:
            if src not in o.st.iterlog[n:]:
                o.st.facts[fact] = True

    def finish_src(self, st, src):
        """the whole of src has been traversed"""
        old = ('prefix', src)
        mem, store, memo = list(st.mem.items()), list(st.store.items()), {}
        for c, v in mem:
            if v == ('idx', src):
                st.mem[c] = ('len', src)
            elif isinstance(v, tuple) and mentions(v, old, memo):
                st.mem[c] = norm_seq_deep(subst(v, old, src))
        for k, v in store:
            if mentions(v, old, memo):
                st.store[k] = norm_seq_deep(subst(v, old, src))

    def facts_diff(self, old, new):
        d = [(k, v) for k, v in new.items() if old.get(k) != v]
        d.sort(key=repr)
        return tuple(d)

    def widen(self, S, backs, src, fr=None):
        """generalise S so that it covers the back-edge states; None when it already does"""
        G = S.fork()
        changed = False
        diffs = [self.facts_diff(S.facts, b.facts) for b, _ in backs]
        for c, v0 in S.mem.items():
            vs = [(d, b.mem.get(c, v0)) for d, (b, _) in zip(diffs, backs)]
            if all(v is v0 or v == v0 for _, v in vs):
                continue
            if c[0] == 'ext':
                nv = ('havoc', src, ('s', 'ext'))
            else:
                if fr is not None and c[0] == fr.fid and not self.live_into_header(fr, c[1]):
                    nv = ('uninit',)
                else:
                    nv = self.widen_val(v0, vs, src, str(c[-1]))
            if nv != v0:
                G.mem[c] = nv
                changed = True
        keys = set()
        for b, _ in backs:
            for k, v in b.store.items():
                if S.store.get(k) != v:
                    keys.add(k)
        for k in keys:
            nv = ('some', ('havoc', src, k))
            if S.store.get(k) != nv:
                G.store[k] = nv
                changed = True
        neweff = []
        for b, _ in backs:
            for e in b.eff[len(S.eff):]:
                e2 = ('loop', src, e)
                if e2 not in S.eff and e2 not in neweff:
                    neweff.append(e2)
        if neweff:
            G.eff = S.eff + tuple(neweff)
            changed = True
        if not changed:
            return None
        return G

    def live_into_header(self, fr, local):
        """conservative liveness: is the local read before being overwritten, from some loop header?"""
        cache = fr.body.setdefault('_live', None)
        if cache is None:
            cache = fr.body['_live'] = liveness(fr.body)
        return local in cache['hdr_live'] if 'hdr_live' in cache else True

    def widen_val(self, v0, vs, src, tag):
        if v0 == ('havoc', src, ('s', tag)) or all(v == v0 for _, v in vs):
            return v0
        if v0[0] == 'tup' and all(v[0] == 'tup' and len(v[1]) == len(v0[1]) for _, v in vs):
            return ('tup', tuple(self.widen_val(v0[1][i], [(f, v[1][i]) for f, v in vs], src, tag + '.%d' % i)
                                 for i in range(len(v0[1]))))
        if v0[0] == 'clos' and all(v[:2] == v0[:2] for _, v in vs):
            return ('clos', v0[1], tuple(self.widen_val(v0[2][i], [(f, v[2][i]) for f, v in vs], src, tag + '.%d' % i)
                                         for i in range(len(v0[2]))))
        if v0[0] == 'adt' and all(v[0] == 'adt' and v[1] == v0[1] and v[2] == v0[2] for _, v in vs):
            return ('adt', v0[1], v0[2], tuple(
                self.widen_val(v0[3][i], [(f, v[3][i]) for f, v in vs], src, tag + '.%d' % i)
                for i in range(len(v0[3]))))
        if v0[0] == 'seq' and all(v in (v0, ('iter', v0[1])) for _, v in vs):  # a queue that is consumed
            return ('iter', v0[1])
        if v0[:2] == ('app', 'rev') and all(v in (v0, ('iter', (('s', v0),))) for _, v in vs):  # a stack that is consumed
            return ('iter', (('s', v0),))
        if all(v[0] == 'iter' and v[1] == parts_of(v0) for _, v in vs):
            return ('iter', parts_of(v0))
        if v0[0] == 'seq' or any(v[0] == 'seq' for _, v in vs):
            p0 = parts_of(v0)
            ok = all(parts_of(v)[:len(p0)] == p0 for _, v in vs)
            if ok:
                cases = tuple((f, parts_of(v)[len(p0):]) for f, v in vs)
                if p0 and p0[-1][0] == 'm' and p0[-1][1] == ('prefix', src):
                    old = p0[-1][2]
                    add = tuple(c for c in cases if c not in old)
                    if not add:
                        return v0
                    pre = ('prefix', src)
                    if any(mentions(f, pre) for f, _ in old) and any(mentions(f, pre) for f, _ in add):
                        return ('havoc', src, ('s', tag))  # what is added depends on what was added before
                    return ('seq', p0[:-1] + (('m', ('prefix', src), old + add),))
                return ('seq', p0 + (('m', ('prefix', src), cases),))
        if v0 == ('i', 0) or v0[0] in ('idx', 'ctr'):
            inc = arith('add', v0, ('i', 1))
            if all(v == inc for _, v in vs):
                if v0[0] in ('idx', 'ctr'):
                    return v0
                return ('ctr' if src[0] == 'loop' else 'idx', src)
        return ('havoc', src, ('s', tag))

    def loop_step(self, st, src, step):
        """solve `for x in src { step }`.
        step(st) -> [Outcome]; 'ret' outcomes continue the loop, others leave it.
        -> (state after the whole loop, [(facts, val)] per-iteration cases, leaving outcomes)"""
        S = st
        for _ in range(12):
            self.inside.append((S.mem, len(S.iterlog)))
            try:
                outs = step(S.fork())
            finally:
                self.inside.pop()
            backs = [o for o in outs if o.kind == 'ret']
            other = [o for o in outs if o.kind != 'ret']
            G = self.widen(S, [(o.st, o.val) for o in backs], src)
            if G is None:
                cases = []
                for o in backs:
                    c = (self.facts_diff(S.facts, o.st.facts), self.val(o.st, o.val) if o.val is not None else UNIT)
                    if c not in cases:
                        cases.append(c)
                fin = S.fork()
                self.finish_src(fin, src)
                return fin, tuple(cases), other
            S = G
        self.notes.append('no loop fixpoint')
        S.eff = S.eff + (('unknown', 'no loop fixpoint'),)
        return S, (((), ('havoc', src, ('s', 'loop'))),), other

    # ------------------------------------------------------------ calls
    def call_term(self, st, fr, t):
        _, f, args, dest, target, span, atys, dty = t
        av = [self.operand(st, fr, a) for a in args]
        self.sites.add((fr.key, span))
        if f[0] == 'op':
            fv = self.deref(st, self.operand(st, fr, f[1]))
            return self.call_value(st, fv, av, dty, span)
        return self.call_fn(st, f[1], av, atys, dty, span)

    def call_value(self, st, fv, args, dty=None, span=''):
        """call a function value with already untupled arguments"""
        fv0 = fv
        fv = self.deref(st, fv)
        if fv[0] == 'fnd':
            f = self.p.types[fv[1]]['fn']
            return self.call_fn(st, f, args, [None] * len(args), dty, span)
        if fv[0] == 'clos':
            t = self.p.types[fv[1]]
            key = t.get('key')
            if key and key in self.p.bodies:
                body = self.p.bodies[key]
                envt = self.p.types[body['locals'][1]]
                env = fv
                if envt['k'] == 'ref':
                    if fv0[0] == 'ref':
                        c, p = self.lref(st, fv0)
                        env = ('ref', c, p)
                    else:
                        env = ('ref', self.newcell(st, fv), ())
                return self.run_body(st, key, [env] + list(args))
        return [Outcome('ret', st, ('app', 'call', self.val(st, fv)) + tuple(self.val(st, a) for a in args))]

    def call_fn(self, st, f, args, atys, dty, span=''):
        if f['ctor']:
            return [Outcome('ret', st, self.mk_adt(f['ctor']['adt'], f['ctor']['v'], args))]
        name, raw = f['name'], f['raw']
        self.called.setdefault((name, raw), span)
        m = self.models.lookup(name, raw)
        if m is not None:
            outer, self.leaving = self.leaving, []
            try:
                r = m(self, st, Call(f, name, raw, args, atys, dty, span))
                if r is not None:
                    return list(r) + self.leaving
            finally:
                self.leaving = outer
        if raw.startswith('core::ops::function::Fn') and raw.endswith(('call_once', 'call_mut', 'call')):
            tup = self.deref(st, args[1])
            if tup[0] == 'tup':
                return self.call_value(st, args[0], list(tup[1]), dty, span)
        if f['key'] and f['key'] in self.p.bodies:
            body = self.p.bodies[f['key']]
            if body['spread'] is None or True:
                return self.run_body(st, f['key'], list(args))
        if args and not f['key']:  # through a trait object whose type is known here
            v = self.deref(st, args[0])
            if v[0] == 'adt' and v[1] in self.p.adts and '::' in raw:
                tr, meth = raw.rsplit('::', 1)
                key = '<%s as %s>::%s' % (v[1], tr, meth)
                if key in self.p.bodies:
                    return self.run_body(st, key, list(args))
        return self.opaque(st, Call(f, name, raw, args, atys, dty, span))

    def opaque(self, st, c):
        """a callee without a model or a body: uninterpreted function of its arguments"""
        name = c.name
        self.unknown[name] = self.unknown.get(name, 0) + 1
        vals = [self.val(st, a) for a in c.args]
        label = c.raw
        targs = [self.p.types[t]['d'] for t in c.f['targs'] if self.p.types[t]['k'] != 'closure']
        if targs:
            label += '<' + ','.join(targs) + '>'
        # storage handed to code we cannot see
        for i, a in enumerate(c.args):
            ty = c.atys[i] if i < len(c.atys) else None
            if ty is not None:
                d = self.p.types[ty]['d']
                if ('&mut dyn cosmwasm_std::traits::Storage' in d) or 'cosmwasm_std::deps::DepsMut' in d:
                    st.eff = st.eff + (('unknown', name),)
        # mutable references handed out
        for i, a in enumerate(c.args):
            ty = c.atys[i] if i < len(c.atys) else None
            if ty is not None and self.p.types[ty]['k'] == 'ref' and self.p.types[ty]['mut'] and a[0] == 'ref':
                cell, path = self.lref(st, a)
                self.write(st, cell, path, ('app', label + '#out%d' % i) + tuple(vals))
        if c.dty is not None:
            t = self.p.types[c.dty]
            if t['k'] == 'tuple' and not t['args']:
                return [Outcome('ret', st, UNIT)]
        return [Outcome('ret', st, ('app', label) + tuple(vals))]

    # ------------------------------------------------------------ entry
    def analyse(self, key, args, st=None):
        if st is None:
            st = St()
        outs = self.run_body(st, key, args)
        for o in outs:
            if o.kind == 'ret':
                o.val = self.val(o.st, o.val)
        return outs


class Frame:
    __slots__ = ('fid', 'key', 'body', 'loops')

    def __init__(self, fid, key, body, loops):
        self.fid, self.key, self.body, self.loops = fid, key, body, loops


class Call:
    __slots__ = ('f', 'name', 'raw', 'args', 'atys', 'dty', 'span')

    def __init__(self, f, name, raw, args, atys, dty, span):
        self.f, self.name, self.raw, self.args, self.atys, self.dty, self.span = f, name, raw, args, atys, dty, span


# ---------------------------------------------------------------- liveness
def liveness(body):
    """locals live at loop headers (read before written on some path from there)"""
    blocks = body['blocks']
    n = len(blocks)
    use = [set() for _ in range(n)]
    de = [set() for _ in range(n)]

    def opuse(o, u, d):
        if o[0] in ('c', 'm'):
            pluse(o[1], u, d)

    def pluse(pl, u, d):
        if pl[0] not in d:
            u.add(pl[0])
        for e in pl[1]:
            if isinstance(e, list) and e[0] == 'i' and e[1] not in d:
                u.add(e[1])

    def rv(r, u, d):
        k = r[0]
        if k == 'use' or k == 'repeat':
            opuse(r[1], u, d)
        elif k in ('ref', 'reborrow'):
            pluse(r[2], u, d)
        elif k in ('cast', 'un'):
            opuse(r[2], u, d)
        elif k == 'bin':
            opuse(r[2], u, d)
            opuse(r[3], u, d)
        elif k == 'discr':
            pluse(r[1], u, d)
        elif k == 'agg':
            for o in r[2]:
                opuse(o, u, d)

    def wr(pl, u, d):
        if not pl[1]:
            d.add(pl[0])
        else:
            pluse(pl, u, d)

    borrowed = set()
    for i, bl in enumerate(blocks):
        if not bl:
            continue
        u, d = use[i], de[i]
        for s in bl['s']:
            if s[0] == 'a':
                if s[2][0] in ('ref', 'reborrow'):
                    borrowed.add(s[2][2][0])
                rv(s[2], u, d)
                wr(s[1], u, d)
            elif s[0] == 'sd':
                pluse(s[1], u, d)
        t = bl['t']
        if t[0] == 'switch':
            opuse(t[1], u, d)
        elif t[0] == 'drop':
            pluse(t[1], u, d)
        elif t[0] == 'assert':
            opuse(t[1], u, d)
        elif t[0] == 'call':
            for o in t[2]:
                opuse(o, u, d)
            if t[1][0] == 'op':
                opuse(t[1][1], u, d)
            wr(t[3], u, d)
        elif t[0] == 'ret':
            if 0 not in d:
                u.add(0)
    live = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            bl = blocks[i]
            if not bl:
                continue
            out = set()
            for s in Program.succs(bl):
                out |= live[s]
            nl = use[i] | (out - de[i])
            if nl != live[i]:
                live[i] = nl
                ch = True
    hdr = set()
    # loop headers: any block with a back edge is approximated by all blocks that are loop headers
    # (a superset is harmless: the local is then widened instead of dropped)
    p = Program.__new__(Program)
    p.bodies = {'x': body}
    p._loops = {}
    for h in Program.loops(p, 'x'):
        hdr |= live[h]
    # a borrowed local is live as long as the reference may be; keep it when some borrow is live at a header
    return {'hdr_live': hdr | {b for b in borrowed if any(b in live[h] for h in range(n))}}


# ---------------------------------------------------------------- term helpers
def mk_not(v):
    if v[0] == 'b':
        return ('b', not v[1])
    if v[0] == 'not':
        return v[1]
    return ('not', v)


EMPTY_CONSTS = (('s', ''), ('seq', ()), ('bytes', ()))


def mk_eq(a, b):
    if a == b:
        return TRUE
    if is_const(a) and is_const(b):
        if a[0] == b[0]:
            return FALSE
        if a[0] == 's' and b[0] == 'bytes':
            return ('b', a[1].encode() == bytes(b[1]))
        if b[0] == 's' and a[0] == 'bytes':
            return ('b', b[1].encode() == bytes(a[1]))
        return FALSE
    for x, y in ((a, b), (b, a)):
        if y in EMPTY_CONSTS:
            return mk_empty(x)
        if y == ('i', 0) and x[0] == 'len':
            return mk_empty(x[1])
    if repr(a) > repr(b):
        a, b = b, a
    return ('eq', a, b)


def mk_empty(x):
    if x[0] == 's':
        return ('b', x[1] == '')
    if x[0] == 'bytes':
        return ('b', len(x[1]) == 0)
    if x[0] == 'seq':
        if any(p[0] == 'e' for p in x[1]):
            return FALSE
        if not x[1]:
            return TRUE
        if len(x[1]) == 1 and x[1][0][0] == 'm' and all(len(c[1]) == 1 and c[1][0][0] == 'e' for c in x[1][0][2]):
            return ('empty', x[1][0][1])
        if len(x[1]) == 1 and x[1][0][0] == 'm' and x[1][0][1][0] not in ('prefix', 'loop') and \
                all(not c[1] or (len(c[1]) == 1 and c[1][0][0] == 'e') for c in x[1][0][2]):
            # nothing passed the filter: every element met one of the conditions for being left out
            return ('forall', mkseq((('s', x[1][0][1]),)), tuple(sorted({c[0] for c in x[1][0][2] if not c[1]}, key=repr)))
    if x[0] == 'cat' and any(p[0] == 's' and p[1] for p in x[1]):
        return FALSE
    return ('empty', x)


def mk_cmp(op, a, b):
    if op == 'Gt':
        return mk_cmp('Lt', b, a)
    if op == 'Ge':
        return mk_not(mk_cmp('Lt', a, b))
    if op == 'Le':
        return mk_not(mk_cmp('Lt', b, a))
    # a < b
    if a[0] == 'i' and b[0] == 'i':
        return ('b', a[1] < b[1])
    if a == b:
        return FALSE
    if b[0] == 'i':
        # x < c  <=>  not (c-1 < x)
        if a[0] == 'len' and b[1] == 1:
            return mk_empty(a[1])
        if a[0] == 'len' and b[1] <= 0:
            return FALSE
        return mk_not(mk_cmp('Lt', ('i', b[1] - 1), a))
    if a[0] == 'i' and b[0] == 'len' and a[1] == 0:
        return mk_not(mk_empty(b[1]))
    return ('lt', a, b)


def arith(op, a, b):
    if a[0] == 'i' and b[0] == 'i':
        x, y = a[1], b[1]
        try:
            if op == 'add':
                return ('i', x + y)
            if op == 'sub':
                return ('i', x - y)
            if op == 'mul':
                return ('i', x * y)
            if op == 'div' and y:
                return ('i', x // y)
            if op == 'rem' and y:
                return ('i', x % y)
            if op == 'bitand':
                return ('i', x & y)
            if op == 'bitor':
                return ('i', x | y)
            if op == 'shl':
                return ('i', x << y)
            if op == 'shr':
                return ('i', x >> y)
        except Exception:
            pass
    if op == 'add' and b == ('i', 0):
        return a
    if op == 'add' and a == ('i', 0):
        return b
    if op == 'sub' and b == ('i', 0):
        return a
    if op == 'mul' and b == ('i', 1):
        return a
    if op == 'mul' and a == ('i', 1):
        return b
    if op in ('add', 'mul', 'bitand', 'bitor', 'bitxor') and repr(a) > repr(b):
        a, b = b, a
    return (op, a, b)


UNSIGNED = ('u8', 'u16', 'u32', 'u64', 'u128', 'usize')
WID = {'u8': (0, 8), 'u16': (0, 16), 'u32': (0, 32), 'u64': (0, 64), 'u128': (0, 128), 'usize': (0, 64),
       'i8': (1, 8), 'i16': (1, 16), 'i32': (1, 32), 'i64': (1, 64), 'i128': (1, 128), 'isize': (1, 64), 'bool': (0, 1)}


def wrap(n, d):
    if d not in WID:
        return n
    s, w = WID[d]
    n &= (1 << w) - 1
    if s and n >> (w - 1):
        n -= 1 << w
    return n


def int_widens(s, d):
    if s not in WID or d not in WID:
        return s == d
    (a, b), (c, e) = WID[s], WID[d]
    if a == c:
        return e >= b
    return a == 0 and e > b


def parts_of(v):
    if v[0] in ('seq', 'iter'):
        return v[1]
    return (('s', v),)


def ident_case(src, cases):
    return len(cases) == 1 and cases[0][0] == () and cases[0][1] == (('e', ('elem', src)),)


def mkseq(parts):
    out = []
    for p in parts:
        if p[0] == 'm':
            if not p[2] or all(c[1] == () for c in p[2]):
                continue
            if ident_case(p[1], p[2]):
                p = ('s', p[1])
        if p[0] == 's' and p[1][0] == 'seq':
            out.extend(p[1][1])
            continue
        out.append(p)
    if len(out) == 1 and out[0][0] == 's':
        return out[0][1]
    return ('seq', tuple(out))


def norm_seq_deep(v):
    if not isinstance(v, tuple):
        return v
    if v and v[0] == 'seq' and len(v) == 2 and isinstance(v[1], tuple):
        return mkseq(tuple(norm_part(p) for p in v[1]))
    return tuple(norm_seq_deep(x) if isinstance(x, tuple) else x for x in v)


def norm_part(p):
    if p[0] == 'e':
        return ('e', norm_seq_deep(p[1]))
    if p[0] == 'm':
        return ('m', p[1], tuple((c[0], tuple(norm_part(q) for q in c[1])) for c in p[2]))
    return p


def mkcat(parts):
    out = []
    for p in parts:
        if p[0] == 'cat':
            sub = p[1]
        else:
            sub = (p,)
        for q in sub:
            if q == ('s', ''):
                continue
            if out and q[0] == 's' and out[-1][0] == 's':
                out[-1] = ('s', out[-1][1] + q[1])
            else:
                out.append(q)
    if not out:
        return ('s', '')
    if len(out) == 1:
        return out[0]
    return ('cat', tuple(out))
