"""JSON shapes of the crate's types, read off the compiled Serialize / Deserialize implementations.

`ser` interprets the type's `Serialize::serialize` body: every path of it yields the keys it writes and the value each key
gets.  `de` interprets the visitors of its `Deserialize` implementation: every accepted name and the field or variant it is
stored in.  Nothing is looked up in attributes or in the source text.
"""
from .core import Interp, Outcome, UNIT
from .models import EXACT, ret

SER = 'serde::ser::'


class ShapeError(Exception):
    pass


def generic(s):
    """'a::B<c,d>' -> ('a::B', ['c', 'd'])"""
    s = s.strip()
    if not s.endswith('>') or s.startswith('<'):
        return s, []
    i = s.index('<')
    out, depth, cur = [], 0, ''
    for ch in s[i + 1:-1]:
        if ch in '<([':
            depth += 1
        if ch in '>)]':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return s[:i], out


def tuple_items(s):
    return generic('t<' + s[1:-1] + '>')[1]


# ---------------------------------------------------------------- serializer protocol
def _open(kind):
    def f(I, st, c):
        a = [I.val(st, I.deref(st, x)) for x in c.args[1:]]
        if kind == 'struct':
            v = ('ser', 'struct', ())
        elif kind == 'variant':  # name, index, variant, len
            v = ('ser', 'variant', a[2], ())
        return ret(st, I.ok(v))
    return f


def _field(I, st, c):
    cell, path = I.lref(st, c.args[0])
    v = I.read(st, cell, path)
    if v[0] != 'ser':
        return None
    key = I.val(st, I.deref(st, c.args[1]))
    val = I.val(st, I.deref(st, c.args[2]))
    ty = I.p.types[I.p.peel(c.f['targs'][1])]['d']
    I.write(st, cell, path, v[:-1] + (v[-1] + ((key, val, ty),),))
    return ret(st, I.ok(UNIT))


def _skip(I, st, c):
    return ret(st, I.ok(UNIT))


def _end(I, st, c):
    v = I.deref(st, c.args[0])
    return ret(st, I.ok(v)) if v[0] == 'ser' else None


def _newtype(I, st, c):
    ty = I.p.types[I.p.peel(c.f['targs'][-1])]['d']
    return ret(st, I.ok(('ser', 'same', I.val(st, I.deref(st, c.args[-1])), ty)))


def _nvariant(I, st, c):
    ty = I.p.types[I.p.peel(c.f['targs'][-1])]['d']
    return ret(st, I.ok(('ser', 'nvariant', I.val(st, I.deref(st, c.args[3])), I.val(st, I.deref(st, c.args[4])), ty)))


def _uvariant(I, st, c):
    return ret(st, I.ok(('ser', 'uvariant', I.val(st, I.deref(st, c.args[3])))))


def _str(I, st, c):
    return ret(st, I.ok(('ser', 'strval', I.val(st, I.deref(st, c.args[1])))))


EXACT[SER + 'Serializer::serialize_struct'] = _open('struct')
EXACT[SER + 'Serializer::serialize_struct_variant'] = _open('variant')
EXACT[SER + 'SerializeStruct::serialize_field'] = _field
EXACT[SER + 'SerializeStructVariant::serialize_field'] = _field
EXACT[SER + 'SerializeStruct::skip_field'] = _skip
EXACT[SER + 'SerializeStructVariant::skip_field'] = _skip
EXACT[SER + 'SerializeStruct::end'] = _end
EXACT[SER + 'SerializeStructVariant::end'] = _end
EXACT[SER + 'Serializer::serialize_newtype_struct'] = _newtype
EXACT[SER + 'Serializer::serialize_newtype_variant'] = _nvariant
EXACT[SER + 'Serializer::serialize_unit_variant'] = _uvariant
EXACT[SER + 'Serializer::serialize_str'] = _str

PRIM = {'alloc::string::String': 'string', 'str': 'string', 'bool': 'bool', 'cosmwasm_std::addresses::Addr': 'string',
        'cosmwasm_std::binary::Binary': 'base64', '()': 'null', 'cosmwasm_std::math::uint64::Uint64': 'u64-string',
        'cosmwasm_std::math::uint128::Uint128': 'u128-string'}
PRIM.update({i: i for i in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize')})


class Shapes:
    def __init__(self, prog):
        self.p = prog
        self.memo = {}
        self.analysed = []
        self.paths = 0

    def run(self, key, names):
        I = Interp(self.p)
        outs = I.analyse(key, [('in', n) for n in names])
        self.analysed.append(key)
        self.paths += len(outs)
        return outs

    def key(self, ty, trait, fn):
        k = '<%s as %s>::%s' % (ty, trait, fn)
        return k if self.p.bodies.get(k) else None

    def shape(self, ty, ser=True):
        """JSON shape of a type, as written (ser) or as read"""
        ty = ty.strip()
        while ty.startswith('&'):
            ty = ty[1:].replace("'static ", '').replace("mut ", '', 1).strip()
        m = (ty, ser)
        if m in self.memo:
            return self.memo[m]
        self.memo[m] = ('rec', ty)
        r = self.memo[m] = self._shape(ty, ser)
        return r

    def _shape(self, ty, ser):
        if ty in PRIM:
            return ('prim', PRIM[ty])
        if ty.startswith('(') and ty.endswith(')'):
            return ('tuple', tuple(self.shape(x, ser) for x in tuple_items(ty)))
        n, a = generic(ty)
        if n == 'core::option::Option':
            return ('opt', self.shape(a[0], ser))
        if n in ('alloc::vec::Vec', 'alloc::collections::vec_deque::VecDeque'):
            return ('array', self.shape(a[0], ser))
        if ty.startswith('[') and ty.endswith(']'):
            return ('array', self.shape(ty[1:-1].split(';')[0], ser))
        if n in ('alloc::boxed::Box', 'alloc::rc::Rc', 'alloc::sync::Arc', 'alloc::borrow::Cow'):
            return self.shape(a[0], ser)
        ad = self.p.adts.get(ty) or self.p.adts.get(n)
        if ad is None or not ad['local']:
            return ('leaf', ty)
        return self.ser(ty, ad) if ser else self.de(ty, ad)

    # ------------------------------------------------------------ writing
    def ser(self, ty, ad):
        k = self.key(ty, 'serde::ser::Serialize', 'serialize')
        if not k:
            raise ShapeError('no serializer for ' + ty)
        outs = self.run(k, ['self', 'ser'])
        rows = []
        for o in outs:
            if o.kind == 'panic' and 'overflow' in str(o.info):
                continue
            if o.kind != 'ret' or o.val[0] != 'adt' or o.val[2] != 0 or o.val[3][0][0] != 'ser':
                raise ShapeError('serializer of %s: path not understood (%s %s)' % (ty, o.kind, str(o.val)[:120]))
            rows.append((o.st.facts, o.val[3][0]))
        if not rows:
            raise ShapeError('serializer of %s has no outcome' % ty)
        kinds = {r[1][1] for r in rows}
        if kinds == {'same'}:
            return self.shape(rows[0][1][3])
        if kinds == {'struct'}:
            return self.fields(ty, ad, 0, [(f, r[2]) for f, r in rows])
        if kinds <= {'variant', 'nvariant', 'uvariant'}:
            by = {}
            for f, r in rows:
                vi = None
                vi = f.get(('is', ('in', 'self')))
                if r[2][0] != 's':
                    raise ShapeError('variant tag of %s is not constant' % ty)
                by.setdefault((vi, r[2][1]), []).append((f, r))
            out = {}
            for (vi, tag), rs in by.items():
                vn = None
                if vi is not None:
                    vn = vi
                elif len(ad['variants']) == 1:
                    vn = ad['variants'][0]['name']
                else:
                    raise ShapeError('tag %r of %s: which variant?' % (tag, ty))
                if tag in out:
                    raise ShapeError('tag %r of %s is written for two variants' % (tag, ty))
                if rs[0][1][1] == 'uvariant':
                    c = ('unit',)
                elif rs[0][1][1] == 'nvariant':
                    c = self.shape(rs[0][1][4])
                else:
                    idx = [x['name'] for x in ad['variants']].index(vn)
                    c = self.fields(ty, ad, idx, [(f, r[3]) for f, r in rs])
                out[tag] = (vn, c)
            return ('enum', out)
        raise ShapeError('serializer of %s: mixed representation %s' % (ty, sorted(kinds)))

    def fields(self, ty, ad, vi, rows):
        v = ad['variants'][vi or 0]
        pre = v['name'] + '.' if ad['kind'] == 'enum' else ''
        keys = {}
        for f, fs in rows:
            seen = set()
            for k, val, fty in fs:
                if k[0] != 's':
                    raise ShapeError('a key of %s is not constant' % ty)
                if k[1] in seen:
                    raise ShapeError('%s writes the key %r twice' % (ty, k[1]))
                seen.add(k[1])
                lab = None
                for i in range(len(v['fields'])):
                    if val == self.proj(ty, vi, i):
                        lab = v['fields'][i]
                e = keys.setdefault(k[1], [lab, fty, val, 0])
                if e[0] != lab:
                    raise ShapeError('%s: key %r has different values' % (ty, k[1]))
                e[3] += 1
        out = {}
        for k, (lab, fty, val, n) in keys.items():
            pres = 'always'
            if n != len(rows):
                # left out exactly when the value is None / empty
                pres = 'sometimes'
                good = True
                for f, fs in rows:
                    there = any(x[0] == ('s', k) for x in fs)
                    st = f.get(('is', val))
                    if st is None:
                        from .core import mk_empty
                        em = f.get(('b', mk_empty(val)))
                        st = {True: 'empty', False: 'nonempty'}.get(em)
                    if st not in (('Some', 'nonempty') if there else ('None', 'empty')):
                        good = False
                if good:
                    pres = 'if-present'
            out[k] = (lab, self.shape(fty), pres)
        return ('struct', out)

    def proj(self, ty, vi, i):
        I = Interp(self.p)
        tid = None
        for j, t in enumerate(self.p.types):
            if t['d'] == ty:
                tid = j
                break
        return I.proj(('in', 'self'), tid, vi or 0, i)

    # ------------------------------------------------------------ reading
    def names(self, key):
        """names a generated field visitor accepts -> __fieldN index; and whether other names are refused"""
        outs = self.run(key, ['self', 'v'])
        m, deny = {}, None
        for o in outs:
            if o.kind != 'ret':
                raise ShapeError('visitor %s: path not understood' % key)
            c = o.st.facts.get(('eqc', ('in', 'v')))
            ok = o.val[0] == 'adt' and o.val[2] == 0
            if c is None:
                deny = not ok
            elif ok:
                x = o.val[3][0]
                if x[0] != 'adt':
                    raise ShapeError('visitor %s: result not understood' % key)
                n = ''
                if 'visit_enum' not in key:  # the generated enums of several variants share one path there
                    n = self.p.adts[x[1]]['variants'][x[2]]['name']
                m[c[1]] = int(n[7:]) if n.startswith('__field') else x[2]
        return m, deny

    def required(self, key):
        """names whose absence a generated visit_map reports"""
        out = set()
        b = self.p.bodies.get(key)
        if not b:
            raise ShapeError('no visitor ' + key)
        for bl in b['blocks']:
            if bl and bl['t'] and bl['t'][0] == 'call' and bl['t'][1][0] == 'fn' and bl['t'][1][1]['raw'].endswith('missing_field'):
                a = bl['t'][2][0]
                if a[0] == 'k' and 'str' in (a[1].get('val') or {}):
                    out.add(a[1]['val']['str'])
                else:
                    raise ShapeError('missing_field with a computed name in ' + key)
        return out

    def de(self, ty, ad):
        base = '<%s as serde::de::Deserialize>::deserialize' % ty
        if not self.p.bodies.get(base):
            raise ShapeError('no deserializer for ' + ty)
        fv = '<%s::__FieldVisitor as serde::de::Visitor>::visit_str' % base
        if not self.p.bodies.get(fv):
            nt = '<%s::__Visitor as serde::de::Visitor>::visit_newtype_struct' % base
            if self.p.bodies.get(nt):
                return self.shape(ad['variants'][0]['ftys'][0], False)
            raise ShapeError('deserializer of %s not understood' % ty)
        names, deny = self.names(fv)
        if ad['kind'] != 'enum':
            req = self.required('<%s::__Visitor as serde::de::Visitor>::visit_map' % base)
            return self.de_fields(ad['variants'][0], names, deny, req, '<%s::__Visitor as serde::de::Visitor>::visit_map' % base)
        ve = '<%s::__Visitor as serde::de::Visitor>::visit_enum' % base
        kinds = self.contents(ve, ad)
        out = {}
        k = 0
        for i, v in enumerate(ad['variants']):
            tags = [t for t, n in names.items() if n == i]
            kind = kinds.get(i)
            if kind == 'struct':
                sfx = '@%d' % k if k else ''
                k += 1
                fk = '<%s::__FieldVisitor as serde::de::Visitor>::visit_str%s' % (ve, sfx)
                if not self.p.bodies.get(fk):
                    raise ShapeError('no content visitor for %s::%s' % (ty, v['name']))
                n2, d2 = self.names(fk)
                vm = '<%s::__Visitor as serde::de::Visitor>::visit_map%s' % (ve, sfx)
                c = self.de_fields(v, n2, d2, self.required(vm), vm)
            elif kind == 'newtype':
                if any('DeserializeWith' in t for t in self.read_types(ve, 'newtype_variant')):
                    raise ShapeError('a variant of %s is read by a function of its own' % ty)
                c = self.shape(v['ftys'][0], False)
            elif kind == 'unit':
                c = ('unit',)
            else:
                raise ShapeError('variant %s::%s is read in a way not understood' % (ty, v['name']))
            for t in tags:
                out[t] = (v['name'], c)
        return ('enum', out)

    def contents(self, ve, ad):
        """how the content of each variant is read"""
        from .core import contains
        out = {}
        for o in self.run(ve, ['self', 'd']):
            n = [v for k, v in o.st.facts.items() if k[0] == 'is' and str(v).startswith('__field')]
            i = int(n[0][7:]) if n else 0 if len(ad['variants']) == 1 else None
            for kind in ('struct', 'newtype', 'unit'):
                if contains((o.val,) + tuple(o.st.facts), lambda x: len(x) > 1 and x[0] == 'app' and isinstance(x[1], str) and x[1].startswith('serde::de::VariantAccess::%s_variant' % kind)):
                    if i is None or out.get(i, kind) != kind:
                        raise ShapeError('%s: not understood' % ve)
                    out[i] = kind
        return out

    def read_types(self, key, fn):
        """types of the values a generated visitor asks for, in order"""
        return [self.p.types[t[1][1]['targs'][-1]]['d'] for t in self.calls(key) if t[1][0] == 'fn' and t[1][1]['raw'].endswith('::' + fn)]

    def calls(self, key):
        return [bl['t'] for bl in self.p.bodies[key]['blocks'] if bl and bl['t'] and bl['t'][0] == 'call']

    def own_reader(self, tid, with_):
        """how a field with a reader of its own is read: 'null' if null stands for the default value, else the reader's name"""
        for k, b in self.p.bodies.items():
            if with_ + ' as serde::de::Deserialize>::deserialize' not in k or tid not in self.p.types[b['locals'][0]].get('args', ()):
                continue
            for t in self.calls(k):
                if t[1][0] != 'fn':
                    return None
                f = t[1][1]
                if f['name'] == 'serde_with::As::deserialize':
                    w = self.p.types[f['targs'][0]]['d']
                    return 'null' if w in ('serde_with::DefaultOnNull', 'serde_with::DefaultOnNull<serde_with::Same>') else w
                return f['name']
        return None

    def default_of(self, key):
        """the value of a field that is left out is the type's own default"""
        from .core import mk_empty
        outs = [o for o in self.run(key, [])]
        if len(outs) != 1 or outs[0].kind != 'ret':
            return False
        v = outs[0].val
        return v[0] == 'adt' and v[2] == 0 and not v[3] and v[1].startswith('core::option::Option') or v in (('i', 0), ('b', False)) or \
            v[0] == 's' and v[1] == '' or v[0] == 'vec' and not v[1] or v[0] == 'list' and not v[1]

    def de_fields(self, v, names, deny, req, vm):
        out = {}
        tids = [t[1][1]['targs'][-1] for t in self.calls(vm) if t[1][0] == 'fn' and t[1][1]['raw'].endswith('::next_value')]
        tids = [t for t in tids if not self.p.types[t]['d'].endswith('IgnoredAny')]
        idx = sorted(set(names.values()))
        if len(tids) != len(idx):
            raise ShapeError('%s: the fields are read in a way not understood' % vm)
        own = [t[1][1] for t in self.calls(vm) if t[1][0] == 'fn' and t[1][1].get('key') and t[1][1]['krate'] not in ('serde', 'core', 'alloc', 'std', 'serde_core')]
        odd = [f['name'] for f in own if not self.default_of(f['key'])]
        for k, n in names.items():
            if n >= len(v['fields']):
                raise ShapeError('field index out of range')
            sh = self.shape(v['ftys'][n], False)
            pres = 'required' if k in req and sh[0] != 'opt' else 'optional'
            if odd and k not in req:
                pres = 'optional: ' + odd[0]
            t = self.p.types[tids[idx.index(n)]]['d']
            if 'DeserializeWith' in t:
                r = self.own_reader(tids[idx.index(n)], t)
                sh = ('null', sh) if r == 'null' else ('leaf', 'read by %s' % r)
            elif t != v['ftys'][n]:
                raise ShapeError('%s: the fields are read in a way not understood' % vm)
            out[k] = (v['fields'][n], sh, pres)
        return ('struct', out, 'closed' if deny else 'open')

    # ------------------------------------------------------------ protobuf
    def pb(self, ty):
        """fields a prost message writes and reads: ({tag: (field, kind)}, {tag: (field, kind)})"""
        from .core import mk_empty
        ad = self.p.adts[ty]
        v = ad['variants'][0]
        f = {self.proj(ty, 0, i): n for i, n in enumerate(v['fields'])}
        fty = dict(zip(v['fields'], v['ftys']))
        key = '<%s as prost::message::Message>::' % ty
        if not self.p.bodies.get(key + 'encode_raw'):
            raise ShapeError('no protobuf encoder for ' + ty)
        wr = {}
        outs = self.run(key + 'encode_raw', ['self', 'buf'])
        for o in outs:
            done = {}
            for e in o.st.eff:
                src, x = None, e
                if x[0] == 'loop':
                    src, x = x[1], x[2]
                if x[0] != 'pb' or x[2][0] != 'i':
                    raise ShapeError('encoder of %s: effect not understood' % ty)
                kind, tag, val = x[1], x[2][1], x[3]
                lab = f.get(src if src is not None else val)
                if lab is None or src is not None and val != ('elem', src):
                    raise ShapeError('encoder of %s: field %d gets a value that is not a field' % (ty, tag))
                kind = kind.replace('::encode_repeated', '*').replace('::encode', '')
                if src is not None:
                    kind += '*'
                if kind.startswith('message'):
                    t = fty[lab]
                    n, a = generic(t)
                    kind += ' ' + (a[0] if a else t)
                if lab in done or wr.get(tag, (lab, kind)) != (lab, kind):
                    raise ShapeError('encoder of %s: field %d is written inconsistently' % (ty, tag))
                done[lab] = tag
                wr[tag] = (lab, kind)
            for t, lab in f.items():
                if lab in done:
                    continue
                F = o.st.facts
                if F.get(('b', mk_empty(t))) is True or F.get(('eqc', t)) == ('i', 0) or F.get(('b', ('eq', ('i', 0), t))) is True or \
                        F.get(('b', ('eq', t, ('i', 0)))) is True or fty[lab].startswith('alloc::vec::Vec'):
                    continue
                wr[lab] = 'not written'
        rd = {}
        for o in self.run(key + 'merge_field', ['self', 'tag', 'wt', 'buf', 'ctx']):
            c = o.st.facts.get(('eqc', ('in', 'tag')))
            if c is None:
                continue
            def find(x):
                if isinstance(x, tuple):
                    if len(x) > 3 and x[0] == 'app' and isinstance(x[1], str) and x[1].startswith('prost::encoding::') and 'merge' in x[1]:
                        return x
                    for y in x:
                        r = find(y)
                        if r:
                            return r
                return None
            x = find((o.val,) + tuple(o.st.facts))
            if not x:
                continue
            lab = f.get(x[3])
            kind = x[1][len('prost::encoding::'):].split('<')[0].replace('::merge_repeated', '*').replace('::merge', '')
            if kind.startswith('message') and lab:
                n, a = generic(fty[lab])
                kind += ' ' + (a[0] if a else fty[lab])
            rd[c[1]] = (lab, kind)
        return wr, rd
