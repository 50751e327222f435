"""Transfer functions for library callees (std, cosmwasm-std, cw-storage-plus, serde, prost, ...).

Every entry maps a resolved callee to what it does to the abstract state.  Library code is trusted to do what its
documentation says; the repository's own code is never modelled here, it is always analysed from its MIR.
"""
from .core import (UNIT, UNSIGNED, TRUE, FALSE, OPT, RES, Outcome, mk_not, mk_eq, mk_empty, mk_cmp, arith, mkseq, mkcat, parts_of,
                   is_const, subst, mentions, WID, int_widens, wrap, contains)

EXACT = {}
PREFIX = []


def model(*names):
    def deco(fn):
        for n in names:
            EXACT[n] = fn
        return fn
    return deco


def lookup(name, raw):
    m = EXACT.get(name)
    if m is None:
        m = EXACT.get(raw)
    if m is None:
        last = raw.rsplit('::', 1)
        if len(last) == 2:
            m = METHODS.get(last[1])
            if m is not None:
                owners, fn = m
                if any(last[0] == o or last[0].startswith(o) for o in owners):
                    return fn
            return None
    return m


METHODS = {}

INTS = ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize')


def ret(st, v):
    return [Outcome('ret', st, v)]


def d(I, st, v):
    return I.deref(st, v)


def V(I, st, v):
    return I.val(st, I.deref(st, v))


def self_ty(I, c, i=0):
    if c.f['targs']:
        return I.p.peel(c.f['targs'][0])
    if i < len(c.atys) and c.atys[i] is not None:
        return I.p.peel(c.atys[i])
    return None


def tydesc(I, tid):
    return I.p.types[tid]['d'] if tid is not None else ''


STRLIKE = ('str', 'alloc::string::String', 'cosmwasm_std::addresses::Addr', 'alloc::borrow::Cow<str>',
           'alloc::boxed::Box<str>', 'char')
BYTESLIKE = ('alloc::vec::Vec<u8', '[u8', 'cosmwasm_std::binary::Binary', 'cosmwasm_std::hex_binary::HexBinary',
             'cosmwasm_std::addresses::CanonicalAddr', 'alloc::boxed::Box<[u8')
NUMLIKE = INTS + ('cosmwasm_std::math::uint128::Uint128', 'cosmwasm_std::math::uint64::Uint64',
                  'cosmwasm_std::timestamp::Timestamp')


def strlike(s):
    s = s.lstrip('&')
    return s in STRLIKE or s.startswith(('alloc::borrow::Cow<str', 'alloc::boxed::Box<str') + tuple(n + '<str' for n in SHARED))


def byteslike(s):
    return s.lstrip('&').startswith(BYTESLIKE)


# ---------------------------------------------------------------- identities
@model('core::clone::Clone::clone', 'core::clone::Clone::clone_from_ref')
def m_clone(I, st, c):
    k = c.f['key']
    it = I.p.by_path.get(k) if k else None
    if it is not None and not it['expn']:
        return None
    t = tydesc(I, c.f['targs'][0]) if c.f.get('targs') else ''
    if t.startswith(SHARED) and c.args[0][0] == 'ref':
        v = I.read(st, c.args[0][1], c.args[0][2])
        if v[0] == 'ref':
            return ret(st, v)
    v = d(I, st, c.args[0])
    return ret(st, v)


def ident(I, st, c):
    return ret(st, d(I, st, c.args[0]))


def ident_keep(I, st, c):
    return ret(st, c.args[0])


for n in ('alloc::borrow::ToOwned::to_owned', '[T]::to_vec', 'slice::to_vec', 'str::to_owned', 'str::as_bytes',
          'alloc::string::String::as_bytes', 'alloc::string::String::as_str', 'alloc::string::String::into_bytes',
          'alloc::vec::Vec::as_slice', 'alloc::string::String::into_boxed_str', 'alloc::vec::Vec::into_boxed_slice',
          'core::hint::must_use', 'core::hint::black_box', 'core::convert::identity', 'core::borrow::Borrow::borrow',
          'str::as_str', '[T]::as_slice', '[T;N]::as_slice', 'core::array::as_slice', '[T]::into_vec', 'slice::into_vec',
          'core::cell::Cell::get',
          'alloc::boxed::Box::into_inner', 'alloc::boxed::box_assume_init_into_vec_unsafe',
          'alloc::boxed::Box::assume_init',
          'alloc::string::String::into_string', 'str::into_string', 'alloc::borrow::Cow::into_owned',
          'cosmwasm_std::binary::Binary::as_slice', 'cosmwasm_std::binary::Binary::to_vec',
          'cosmwasm_std::binary::Binary::new', 'cosmwasm_std::binary::Binary::into_vec',
          'cosmwasm_std::addresses::Addr::as_str', 'cosmwasm_std::addresses::Addr::as_bytes',
          'cosmwasm_std::addresses::Addr::into_string', 'cosmwasm_std::addresses::Addr::unchecked',
          'cosmwasm_std::math::uint128::Uint128::u128', 'cosmwasm_std::math::uint128::Uint128::new',
          'cosmwasm_std::math::uint64::Uint64::u64', 'cosmwasm_std::math::uint64::Uint64::new',
          'core::fmt::Arguments::from_str', 'core::fmt::Arguments::from_str_nonconst', 'alloc::fmt::format',
          'core::iter::traits::iterator::Iterator::cloned', 'core::iter::traits::iterator::Iterator::copied',
          'core::iter::traits::iterator::Iterator::fuse',
          'core::iter::traits::iterator::Iterator::peekable',
          'core::option::Option::cloned', 'core::option::Option::copied',
          'core::result::Result::cloned', 'core::result::Result::copied',
          'core::mem::maybe_uninit::MaybeUninit::assume_init', 'alloc::vec::Vec::into_iter',
          'core::str::from_utf8_unchecked', 'alloc::string::String::from_utf8_unchecked',
          'alloc::vec::Vec::leak', 'alloc::string::String::leak',
          ):
    EXACT[n] = ident

for n in ('core::iter::traits::iterator::Iterator::by_ref', 'alloc::boxed::Box::new', 'core::cell::Cell::new',
          'core::cell::RefCell::new', 'core::cell::Cell::into_inner', 'core::cell::RefCell::into_inner'):
    EXACT[n] = ident_keep

for n in ('core::ops::deref::Deref::deref', 'core::convert::AsRef::as_ref', 'core::ops::deref::DerefMut::deref_mut',
          'core::convert::AsMut::as_mut', 'core::borrow::BorrowMut::borrow_mut', 'alloc::vec::Vec::as_mut_slice',
          'alloc::string::String::as_mut_str', 'core::pin::Pin::new', 'core::cell::RefCell::borrow', 'core::cell::RefCell::borrow_mut',
          'core::cell::RefCell::get_mut', 'core::cell::Cell::get_mut', 'core::cell::RefCell::as_ptr', 'core::cell::Cell::as_ptr'):
    EXACT[n] = ident_keep


SHARED = tuple(a + b for a in ('alloc::rc::', 'alloc::rcs::rc::', 'alloc::sync::', 'alloc::rcs::sync::', 'alloc::rcs::arc::') for b in ('Rc', 'Arc'))


def m_shared(I, st, c):
    return ret(st, ('ref', I.newcell(st, c.args[0]), ()))


for n in SHARED:
    EXACT[n + '::new'] = m_shared
    EXACT[n + '::unwrap_or_clone'] = ident


@model('core::cell::Cell::set', 'core::cell::Cell::replace', 'core::cell::RefCell::replace', 'core::cell::Cell::take', 'core::cell::RefCell::take')
def m_cellset(I, st, c):
    cell, path = I.lref(st, c.args[0])
    old = I.read(st, cell, path)
    if c.raw.endswith('take'):
        return EXACT['core::mem::take'](I, st, c)
    I.write(st, cell, path, c.args[1])
    return ret(st, UNIT if c.raw.endswith('set') else old)


def m_try_borrow(I, st, c):
    return ret(st, I.ok(c.args[0]))


for n in ('try_borrow', 'try_borrow_mut'):
    EXACT['core::cell::RefCell::' + n] = m_try_borrow


@model('core::convert::AsRef::as_ref')
def m_asref(I, st, c):
    k = c.f['key']
    if k and k in I.p.bodies and I.p.bodies[k].get('def', '').startswith(I.p.krate) and not c.f['virt']:
        return None
    return ret(st, c.args[0])


@model('core::ops::deref::Deref::deref')
def m_deref(I, st, c):
    k = c.f['key']
    if k and k in I.p.bodies and k.startswith('<' + I.p.krate):
        return None
    return ret(st, c.args[0])


@model('core::convert::Into::into', 'core::convert::From::from', 'core::convert::TryFrom::try_from',
       'core::convert::TryInto::try_into')
def m_from(I, st, c):
    fallible = 'Try' in c.raw
    ts = [I.p.types[t]['d'] for t in c.f['targs']]
    wrapv = (lambda v: I.ok(v)) if fallible else (lambda v: v)
    if len(ts) == 2:
        a, b = ts
        cls = lambda s: 'c' if (strlike(s) or byteslike(s)) else ('n' if s.lstrip('&') in NUMLIKE else 'o')
        if a == b or (cls(a) == cls(b) == 'c' and not fallible):
            return ret(st, d(I, st, c.args[0]) if cls(a) == 'c' else c.args[0])
        sq = lambda s: s.lstrip('&').startswith(('alloc::vec::Vec<', 'alloc::collections::vec_deque::VecDeque<', '[', 'alloc::boxed::Box<[', *(n + '<[' for n in SHARED)))
        if sq(a) and sq(b) and not fallible:
            return ret(st, d(I, st, c.args[0]))
        if cls(a) == cls(b) == 'n':
            src, dst = (a, b) if 'Into' in c.raw else (b, a)
            num = lambda s: {'cosmwasm_std::math::uint128::Uint128': 'u128', 'cosmwasm_std::math::uint64::Uint64': 'u64',
                             'cosmwasm_std::timestamp::Timestamp': 'u64'}.get(s, s)
            if not fallible or int_widens(num(src), num(dst)):
                return ret(st, wrapv(d(I, st, c.args[0])))
            v = d(I, st, c.args[0])
            if v[0] == 'i' and wrap(v[1], num(dst)) == v[1]:
                return ret(st, I.ok(v))
            t = ('app', 'fits:' + num(dst), v)
            return [Outcome('ret', s, I.ok(v) if ok else I.err(('app', 'TryFromIntError'))) for s, ok in I.branch(st, t)]
    if c.raw == 'core::convert::Into::into' and not c.f['key']:
        # generic parameter: the conversion of the argument
        return ret(st, c.args[0])
    return None


@model('core::mem::replace')
def m_replace(I, st, c):
    cell, path = I.lref(st, c.args[0])
    old = I.read(st, cell, path)
    I.write(st, cell, path, c.args[1])
    return ret(st, old)


@model('core::mem::take')
def m_take(I, st, c):
    cell, path = I.lref(st, c.args[0])
    old = I.read(st, cell, path)
    dv = default_of(I, st, self_ty(I, c))
    if dv is None:
        dv = ('app', 'default', ('s', tydesc(I, self_ty(I, c))))
    I.write(st, cell, path, dv)
    return ret(st, old)


@model('core::mem::swap')
def m_swap(I, st, c):
    c1, p1 = I.lref(st, c.args[0])
    c2, p2 = I.lref(st, c.args[1])
    a, b = I.read(st, c1, p1), I.read(st, c2, p2)
    I.write(st, c1, p1, b)
    I.write(st, c2, p2, a)
    return ret(st, UNIT)


@model('core::mem::drop', 'core::mem::forget', 'core::ptr::drop_in_place')
def m_drop(I, st, c):
    if not c.raw.endswith('forget') and I.p.dropped:
        outs = I.drop_at(st, I.newcell(st, c.args[0]), ())
        for o in outs:
            o.val = UNIT
        return outs
    return ret(st, UNIT)


def default_of(I, st, tid):
    if tid is None:
        return None
    t = I.p.types[tid]
    s = t['d']
    if s in INTS:
        return ('i', 0)
    if s == 'bool':
        return FALSE
    if s == 'alloc::string::String' or s == '&str' or s == 'str':
        return ('s', '')
    if s.startswith('alloc::vec::Vec<') or byteslike(s):
        return ('seq', ())
    if s.startswith('core::option::Option<'):
        return I.none()
    if s in NUMLIKE:
        return ('i', 0)
    if t['k'] == 'tuple':
        fs = [default_of(I, st, x) for x in t['args']]
        if all(f is not None for f in fs):
            return ('tup', tuple(fs))
    return None


@model('core::default::Default::default')
def m_default(I, st, c):
    tid = c.f['targs'][0] if c.f['targs'] else c.dty
    dv = default_of(I, st, tid)
    if dv is not None:
        return ret(st, dv)
    if c.f['key'] and c.f['key'] in I.p.bodies:
        return None
    return ret(st, ('app', 'default', ('s', tydesc(I, tid))))


# ---------------------------------------------------------------- equality and order
def local_handwritten(I, c):
    k = c.f['key']
    it = I.p.by_path.get(k) if k else None
    return it is not None and not it['expn']


def handwritten_impl(I, c, trait, meth):
    """the body of this crate's own impl of the trait for the type compared"""
    if not c.f['targs']:
        return None
    t = tydesc(I, I.p.peel(c.f['targs'][0]))
    for key in ('<%s as %s<%s>>::%s' % (t, trait, t, meth), '<%s as %s>::%s' % (t, trait, meth)):
        it = I.p.by_path.get(key)
        if it is not None and not it['expn'] and key in I.p.bodies:
            return key
    return None


def eq_branch(I, st, a, b, depth=0):
    """[(state, truth term)]"""
    if a == b:
        return [(st, TRUE)]
    for x, y in ((a, b), (b, a)):
        if x[0] == 'adt' and y[0] == 'adt':
            if x[1] != y[1]:
                break
            if x[2] != y[2]:
                return [(st, FALSE)]
            return eq_fields(I, st, list(zip(x[3], y[3])), depth)
        if x[0] == 'adt' and y[0] not in ('adt', 'tup', 'seq') and x[1] in I.p.adts:
            name = x[1]
            a0 = I.p.adts[name]
            out = []
            if a0['kind'] == 'enum':
                if depth == 0 and not x[3]:
                    return [(st, ('isv', y, name, I.p.vname(name, x[2])))]
                for s, t in I.branch(st, ('isv', y, name, I.p.vname(name, x[2]))):
                    if not t:
                        out.append((s, FALSE))
                    else:
                        fs = [(f, ('fld', y, name, I.p.label(name, x[2], i))) for i, f in enumerate(x[3])]
                        out += eq_fields(I, s, fs, depth)
                return out
            if x[3]:
                fs = [(f, ('fld', y, name, I.p.label(name, 0, i))) for i, f in enumerate(x[3])]
                return eq_fields(I, st, fs, depth)
        if x[0] == 'tup' and y[0] == 'tup' and len(x[1]) == len(y[1]):
            return eq_fields(I, st, list(zip(x[1], y[1])), depth)
        if x[0] == 'seq' and y[0] == 'seq' and all(p[0] == 'e' for p in x[1] + y[1]):
            if len(x[1]) != len(y[1]):
                return [(st, FALSE)]
            return eq_fields(I, st, [(p[1], q[1]) for p, q in zip(x[1], y[1])], depth)
    return [(st, I.mk_eq_scalar(a, b))]


def eq_fields(I, st, pairs, depth):
    pairs = [(a, b) for a, b in pairs if a != b]
    if not pairs:
        return [(st, TRUE)]
    if len(pairs) == 1:
        return eq_branch(I, st, pairs[0][0], pairs[0][1], depth + 1)
    out = []
    live = [st]
    for a, b in pairs:
        nxt = []
        for s in live:
            for s2, t in eq_branch(I, s, a, b, depth + 1):
                for s3, v in I.branch(s2, t):
                    if v:
                        nxt.append(s3)
                    else:
                        out.append((s3, FALSE))
        live = nxt
    return out + [(s, TRUE) for s in live]


@model('core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne')
def m_eq(I, st, c):
    if local_handwritten(I, c) and c.raw.endswith('::eq'):
        return None
    a, b = V(I, st, c.args[0]), V(I, st, c.args[1])
    neg = c.raw.endswith('::ne')
    if neg:
        # a hand-written local eq decides ne as well
        k = c.f['key']
        ek = '<%s as core::cmp::PartialEq<%s>>::eq' % tuple(
            [tydesc(I, I.p.peel(t)) for t in (c.f['targs'] * 2)[:2]]) if c.f['targs'] else None
        it = I.p.by_path.get(ek)
        if it is not None and not it['expn'] and ek in I.p.bodies:
            outs = I.run_body(st, ek, [c.args[0], c.args[1]])
            for o in outs:
                if o.kind == 'ret':
                    o.val = mk_not(o.val)
            return outs
    return [Outcome('ret', s, mk_not(t) if neg else t) for s, t in eq_branch(I, st, a, b)]


@model('core::cmp::PartialOrd::lt', 'core::cmp::PartialOrd::le', 'core::cmp::PartialOrd::gt', 'core::cmp::PartialOrd::ge')
def m_cmp(I, st, c):
    a, b = V(I, st, c.args[0]), V(I, st, c.args[1])
    own = handwritten_impl(I, c, 'core::cmp::PartialOrd', 'partial_cmp')
    if own:  # the operators go by a hand-written order
        yes = {'lt': (0,), 'le': (0, 1), 'gt': (2,), 'ge': (1, 2)}[c.raw[-2:]]
        out = []
        for o in I.run_body(st, own, [c.args[0], c.args[1]]):
            if o.kind != 'ret':
                out.append(o)
                continue
            for s, x in I.match_opt(o.st, o.val):
                x = None if x is None else I.deref(s, x)
                if x is not None and x[0] != 'adt':
                    out.append(Outcome('ret', s, ('app', c.raw, a, b)))
                else:
                    out.append(Outcome('ret', s, ('b', x is not None and x[2] in yes)))
        return out
    return ret(st, mk_cmp({'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[c.raw[-2:]], a, b))


@model('core::cmp::Ord::cmp', 'core::cmp::PartialOrd::partial_cmp')
def m_ord(I, st, c):
    if local_handwritten(I, c):
        return None
    if 'Partial' not in c.raw and handwritten_impl(I, c, 'core::cmp::Ord', 'cmp'):
        return None
    a, b = V(I, st, c.args[0]), V(I, st, c.args[1])
    O = 'core::cmp::Ordering'
    w = I.some if 'Partial' in c.raw else (lambda x: x)
    out = []
    for s, lt in I.branch(st, mk_cmp('Lt', a, b)):
        if lt:
            if I.assume(s, mk_eq(a, b), False):
                out.append(Outcome('ret', s, w(('adt', O, 0, ()))))
            continue
        for s2, gt in I.branch(s, mk_cmp('Lt', b, a)):
            if I.assume(s2, mk_eq(a, b), not gt):
                out.append(Outcome('ret', s2, w(('adt', O, 2 if gt else 1, ()))))
    return out


@model('core::cmp::max', 'core::cmp::min', 'core::cmp::Ord::max', 'core::cmp::Ord::min')
def m_maxmin(I, st, c):
    a, b = V(I, st, c.args[0]), V(I, st, c.args[1])
    mx = c.raw.endswith('max')
    out = []
    for s, lt in I.branch(st, mk_cmp('Lt', b, a)):
        out.append(Outcome('ret', s, a if lt == mx else b))
    return out


# ---------------------------------------------------------------- integers
def m_checked(op, kind):
    def f(I, st, c):
        a, b = d(I, st, c.args[0]), d(I, st, c.args[1])
        r = arith(op, a, b)
        ty = c.raw.split('::')[0]
        if r[0] == 'i' and ty in WID and wrap(r[1], ty) == r[1]:
            if kind == 'checked':
                return ret(st, I.some(r))
            if kind == 'overflowing':
                return ret(st, ('tup', (r, FALSE)))
            return ret(st, r)
        t = ('app', 'overflow', ('s', op), a, b)
        if op == 'sub' and ty in UNSIGNED:
            t = mk_cmp('Lt', a, b)
        if kind == 'wrapping':
            return ret(st, ('app', 'wrapping_' + op, a, b))
        if kind == 'saturating':
            return ret(st, ('app', 'saturating_' + op, a, b))
        if kind == 'overflowing':
            return ret(st, ('tup', (r, t)))
        if kind == 'strict':
            return [Outcome('ret', s, r) if not o else Outcome('panic', s, None, ('overflow', c.span))
                    for s, o in I.branch(st, t)]
        return [Outcome('ret', s, I.none() if o else I.some(r)) for s, o in I.branch(st, t)]
    return f


for ty in INTS:
    for op in ('add', 'sub', 'mul', 'div', 'rem', 'pow'):
        for kind in ('checked', 'wrapping', 'saturating', 'overflowing', 'strict'):
            EXACT['%s::%s_%s' % (ty, kind, op)] = m_checked(op, kind)
    EXACT['%s::pow' % ty] = lambda I, st, c: ret(
        st, ('i', d(I, st, c.args[0])[1] ** d(I, st, c.args[1])[1])
        if d(I, st, c.args[0])[0] == 'i' and d(I, st, c.args[1])[0] == 'i'
        else ('app', 'pow', d(I, st, c.args[0]), d(I, st, c.args[1])))

for tr, op in (('Add', 'add'), ('Sub', 'sub'), ('Mul', 'mul'), ('Div', 'div'), ('Rem', 'rem')):
    def mk(op):
        def f(I, st, c):
            ts = [I.p.types[t]['d'].lstrip('&') for t in c.f['targs']]
            if all(t in INTS for t in ts):
                return ret(st, arith(op, V(I, st, c.args[0]), V(I, st, c.args[1])))
            if ts and ts[0] == 'alloc::string::String' and op == 'add':
                return ret(st, mkcat((d(I, st, c.args[0]), V(I, st, c.args[1]))))
            return None
        return f
    EXACT['core::ops::arith::%s::%s' % (tr, op)] = mk(op)


@model('core::ops::arith::AddAssign::add_assign')
def m_addassign(I, st, c):
    ts = [I.p.types[t]['d'].lstrip('&') for t in c.f['targs']]
    cell, path = I.lref(st, c.args[0])
    if ts and ts[0] == 'alloc::string::String':
        I.write(st, cell, path, mkcat((I.read(st, cell, path), V(I, st, c.args[1]))))
        return ret(st, UNIT)
    if ts and ts[0] in INTS:
        I.write(st, cell, path, arith('add', I.read(st, cell, path), V(I, st, c.args[1])))
        return ret(st, UNIT)
    return None


@model('core::ops::bit::Not::not')
def m_not(I, st, c):
    v = d(I, st, c.args[0])
    return ret(st, mk_not(v))


# ---------------------------------------------------------------- strings
@model('alloc::string::String::new', 'alloc::string::String::with_capacity')
def m_snew(I, st, c):
    return ret(st, ('s', ''))


@model('alloc::string::String::push_str', 'alloc::string::String::push')
def m_push_str(I, st, c):
    cell, path = I.lref(st, c.args[0])
    x = V(I, st, c.args[1])
    if x[0] == 'i':
        x = ('s', chr(x[1]))
    I.write(st, cell, path, mkcat((I.read(st, cell, path), x)))
    return ret(st, UNIT)


@model('alloc::string::String::is_empty', 'str::is_empty')
def m_sempty(I, st, c):
    return ret(st, mk_empty(V(I, st, c.args[0])))


@model('alloc::string::String::len', 'str::len')
def m_slen(I, st, c):
    v = V(I, st, c.args[0])
    if v[0] == 's':
        return ret(st, ('i', len(v[1].encode())))
    return ret(st, ('len', v))


@model('str::starts_with')
def m_starts(I, st, c):
    a, b = V(I, st, c.args[0]), V(I, st, c.args[1])
    if a[0] == 's' and b[0] == 's':
        return ret(st, ('b', a[1].startswith(b[1])))
    if a[0] == 'cat' and a[1][0][0] == 's' and b[0] == 's' and len(a[1][0][1]) >= len(b[1]):
        return ret(st, ('b', a[1][0][1].startswith(b[1])))
    if b[0] == 's':
        return ret(st, ('starts', a, b))
    return ret(st, ('app', 'str::starts_with', a, b))


@model('str::strip_prefix')
def m_strip(I, st, c):
    a, b = V(I, st, c.args[0]), V(I, st, c.args[1])
    if b[0] == 's':
        out = []
        if a[0] == 's':
            return ret(st, I.some(('s', a[1][len(b[1]):])) if a[1].startswith(b[1]) else I.none())
        for s, t in I.branch(st, ('starts', a, b)):
            out.append(Outcome('ret', s, I.some(('app', 'strip_prefix', a, b)) if t else I.none()))
        return out
    return None


@model('str::parse', 'core::str::traits::FromStr::from_str')
def m_parse(I, st, c):
    if c.f['key'] and c.f['key'] in I.p.bodies and c.f['key'].startswith('<' + I.p.krate):
        return None
    t = c.f['targs'][0] if c.f['targs'] else None
    if t is not None and I.p.types[t]['k'] == 'adt' and I.p.types[t]['name'].startswith(I.p.krate + '::'):
        k = '<%s as core::str::traits::FromStr>::from_str' % I.p.types[t]['d']
        if k in I.p.bodies:  # a type of this crate: its own from_str
            return I.run_body(st, k, [c.args[0]])
    v = V(I, st, c.args[0])
    return ret(st, ('app', 'parse<%s>' % tydesc(I, t), v))


@model('semver::Version::parse', 'semver::parse::Version::parse')
def m_semver(I, st, c):
    return ret(st, ('app', 'parse<semver::Version>', V(I, st, c.args[0])))


@model('alloc::string::ToString::to_string', 'alloc::string::SpecToString::spec_to_string')
def m_to_string(I, st, c):
    tid = self_ty(I, c)
    return display(I, st, c.args[0], tid)


def display(I, st, v, tid):
    x = V(I, st, v)
    ds = tydesc(I, tid) if tid is not None else ''
    if strlike(ds):
        return ret(st, x)
    if x[0] == 's':
        return ret(st, x)
    if x[0] == 'i':
        return ret(st, ('s', str(x[1])))
    if x[0] == 'b':
        return ret(st, ('s', 'true' if x[1] else 'false'))
    if ds.startswith('cosmwasm_std::binary::Binary'):
        return ret(st, ('app', 'base64', x))
    if ds == 'core::fmt::Arguments':
        return ret(st, x)
    name = I.p.types[tid].get('name') if tid is not None else None
    key = '<%s as core::fmt::Display>::fmt' % (name or ds)
    if key in I.p.bodies:
        s2 = st.fork()
        f = I.newcell(s2, ('s', ''))
        n = len(I.notes)
        outs = I.run_body(s2, key, [x if v[0] != 'ref' else v, ('ref', f, ())])
        outs = [o for o in outs if o.kind == 'ret']
        vals = {o.st.mem.get(f) for o in outs}
        if len(vals) == 1:
            w = vals.pop()
            if w is not None and w[0] in ('s', 'cat', 'json', 'app', 'display', 'fld', 'in'):
                return ret(st, w)
    return ret(st, ('display', x))


@model('core::fmt::rt::Argument::new_display', 'core::fmt::rt::Argument::new_debug', 'core::fmt::rt::Argument::new_lower_hex',
       'core::fmt::rt::Argument::new_upper_hex')
def m_fmtarg(I, st, c):
    kind = c.raw.rsplit('new_', 1)[1]
    tid = self_ty(I, c)
    if kind == 'display':
        outs = display(I, st, c.args[0], tid)
        for o in outs:
            o.val = ('fmtarg', o.val)
        return outs
    return ret(st, ('fmtarg', ('app', kind, V(I, st, c.args[0]))))


@model('core::fmt::Arguments::new')
def m_fmtargs(I, st, c):
    tmpl = V(I, st, c.args[0])
    args = V(I, st, c.args[1]) if len(c.args) > 1 else ('seq', ())
    if tmpl[0] == 's':
        b = tmpl[1].encode()
    elif tmpl[0] == 'bytes':
        b = bytes(tmpl[1])
    elif tmpl[0] == 'seq' and all(p[0] == 'e' and p[1][0] == 'i' for p in tmpl[1]):
        b = bytes(p[1][1] for p in tmpl[1])
    else:
        return ret(st, ('app', 'format', tmpl, args))
    av = [p[1] for p in parts_of(args)] if args[0] == 'seq' else [args]
    out = []
    i, nxt = 0, 0
    while i < len(b):
        x = b[i]
        i += 1
        if x == 0:
            break
        if x < 0x80:
            out.append(('s', b[i:i + x].decode('utf8', 'replace')))
            i += x
        elif x == 0x80:
            n = b[i] | b[i + 1] << 8
            i += 2
            out.append(('s', b[i:i + n].decode('utf8', 'replace')))
            i += n
        else:
            spec = ()
            if x & 1:
                spec += (('i', int.from_bytes(b[i:i + 4], 'little')),)
                i += 4
            if x & 2:
                spec += (('i', int.from_bytes(b[i:i + 2], 'little')),)
                i += 2
            if x & 4:
                spec += (('i', int.from_bytes(b[i:i + 2], 'little')),)
                i += 2
            if x & 8:
                nxt = int.from_bytes(b[i:i + 2], 'little')
                i += 2
            a = av[nxt] if nxt < len(av) else ('bad', 'fmt')
            nxt += 1
            a = a[1] if a[0] == 'fmtarg' else a
            out.append(('app', 'fmtspec', a) + spec if spec else a)
    return ret(st, mkcat(tuple(out)))


@model('core::fmt::Formatter::write_str', 'core::fmt::Write::write_str', 'core::fmt::Formatter::write_fmt',
       'core::fmt::Write::write_fmt', 'core::fmt::Formatter::pad')
def m_write(I, st, c):
    cell, path = I.lref(st, c.args[0])
    cur = I.read(st, cell, path)
    I.write(st, cell, path, mkcat((cur, V(I, st, c.args[1]))))
    return ret(st, I.ok(UNIT))


@model('core::fmt::Display::fmt')
def m_display_fmt(I, st, c):
    if c.f['key'] and c.f['key'] in I.p.bodies:
        return None
    cell, path = I.lref(st, c.args[1])
    out = []
    for o in display(I, st, c.args[0], self_ty(I, c)):
        if o.kind == 'ret':
            cur = I.read(o.st, cell, path)
            I.write(o.st, cell, path, mkcat((cur, o.val)))
            o.val = I.ok(UNIT)
        out.append(o)
    return out


@model('cosmwasm_std::binary::Binary::to_base64')
def m_b64(I, st, c):
    return ret(st, ('app', 'base64', V(I, st, c.args[0])))


@model('base64::engine::Engine::encode')
def m_b64b(I, st, c):
    return ret(st, ('app', 'base64', V(I, st, c.args[1])))


# ---------------------------------------------------------------- storage
def storekey(I, st, item, key=None):
    item = I.val(st, I.deref(st, item))
    if item[0] == 'item':
        return ('item', item[1])
    if item[0] == 'map':
        return ('map', item[1], I.val(st, I.deref(st, key)) if key is not None else ('any',))
    if item[0] == 'path':
        return ('map', item[1], item[2])
    return ('unknown', item)


def note_store(I, st, kind, c):
    I.stores[(kind, V(I, st, c.args[0]), I.p.types[c.dty]['d'] if c.dty is not None else '?')] = c.span


@model('cw_storage_plus::item::Item::new')
def m_item_new(I, st, c):
    note_store(I, st, 'item', c)
    return ret(st, ('item', V(I, st, c.args[0])))


@model('cw_storage_plus::item::Item::new_dyn', 'cw_storage_plus::map::Map::new_dyn')
def m_item_dyn(I, st, c):
    note_store(I, st, 'item' if 'Item' in c.raw else 'map', c)
    return ret(st, ('item' if 'Item' in c.raw else 'map', V(I, st, c.args[0])))


@model('cw_storage_plus::map::Map::new')
def m_map_new(I, st, c):
    note_store(I, st, 'map', c)
    return ret(st, ('map', V(I, st, c.args[0])))


@model('cw_storage_plus::map::Map::key')
def m_map_key(I, st, c):
    k = storekey(I, st, c.args[0], c.args[1])
    return ret(st, ('path', k[1], k[2]))


def resolve_key(I, st, key):
    """partition on aliasing with keys of the same map that were written before: [(state, key)]"""
    if key[0] != 'map':
        return [(st, key)]
    out = []
    live = [st]
    for k in list(st.store):
        if k[0] == 'map' and k[1] == key[1] and k != key:
            nl = []
            for s in live:
                for s2, t in eq_branch(I, s, k[2], key[2]):
                    for s3, v in I.branch(s2, t):
                        if v:
                            out.append((s3, k))
                        else:
                            nl.append(s3)
            live = nl
    return out + [(s, key) for s in live]


def stored(I, st, key):
    """[(state, 'some'|'none'|'bad', value)]"""
    res = []
    for s, k in resolve_key(I, st, key):
        ov = s.store.get(k)
        if ov is not None:
            res.append((s, ov[0], ov[1] if ov[0] == 'some' else None))
            continue
        fk = ('stored', k)
        known = s.facts.get(fk)
        for w in ((known,) if known else ('some', 'none', 'bad')):
            s2 = s.fork()
            s2.facts[fk] = w
            res.append((s2, w, ('st',) + k[1:] if w == 'some' else None))
    return res


STDERR = 'cosmwasm_std::errors::std_error::StdError'


def store_err(I, w, key):
    return ('app', 'StdError::NotFound' if w == 'none' else 'StdError::Parse', ('s', repr(key)))


def unpack(I, st, c):
    """(key, rest of the arguments) of a storage accessor"""
    owner = c.raw.rsplit('::', 1)[0]
    args = c.args
    if owner.endswith('map::Map'):
        # load(self, storage, key, ...)
        return storekey(I, st, args[0], args[2]), args[3:]
    return storekey(I, st, args[0]), args[2:]


OWN = ('cw_storage_plus::item::Item', 'cw_storage_plus::map::Map', 'cw_storage_plus::path::Path')


def stmodel(*ms):
    def deco(fn):
        for m in ms:
            for o in OWN:
                EXACT[o + '::' + m] = fn
        return fn
    return deco


@stmodel('load')
def m_load(I, st, c):
    key, _ = unpack(I, st, c)
    out = []
    for s, w, v in stored(I, st, key):
        out.append(Outcome('ret', s, I.ok(v) if w == 'some' else I.err(store_err(I, w, key))))
    return out


@stmodel('may_load')
def m_may_load(I, st, c):
    key, _ = unpack(I, st, c)
    out = []
    for s, w, v in stored(I, st, key):
        out.append(Outcome('ret', s, I.ok(I.some(v)) if w == 'some' else I.ok(I.none()) if w == 'none'
                           else I.err(store_err(I, w, key))))
    return out


@stmodel('exists', 'has')
def m_exists(I, st, c):
    key, _ = unpack(I, st, c)
    return [Outcome('ret', s, ('b', w != 'none')) for s, w, v in stored(I, st, key)]


def do_write(I, st, key, v):
    out = []
    for s, k in resolve_key(I, st, key):
        if k[0] == 'unknown':
            s.eff = s.eff + (('unknown', 'write to unresolved storage item ' + repr(k)[:120]),)
        s.store[k] = v
        s.eff = s.eff + (('write', k),)
        out.append(s)
    return out


@stmodel('save')
def m_save(I, st, c):
    key, rest = unpack(I, st, c)
    v = V(I, st, rest[0])
    return [Outcome('ret', s, I.ok(UNIT)) for s in do_write(I, st, key, ('some', v))]


@stmodel('remove')
def m_remove(I, st, c):
    key, _ = unpack(I, st, c)
    return [Outcome('ret', s, UNIT) for s in do_write(I, st, key, ('none',))]


@stmodel('update')
def m_update(I, st, c):
    key, rest = unpack(I, st, c)
    out = []
    ismap = key[0] == 'map'
    for s, w, v in stored(I, st, key):
        if ismap:
            if w == 'bad':
                out.append(Outcome('ret', s, I.err(('app', 'into', store_err(I, w, key)))))
                continue
            arg = I.some(v) if w == 'some' else I.none()
        else:
            if w != 'some':
                out.append(Outcome('ret', s, I.err(('app', 'into', store_err(I, w, key)))))
                continue
            arg = v
        for o in I.call_value(s, rest[0], [arg]):
            if o.kind != 'ret':
                out.append(o)
                continue
            for s2, ok, x in I.match_res(o.st, o.val):
                if not ok:
                    out.append(Outcome('ret', s2, I.err(x)))
                else:
                    xv = V(I, s2, x)
                    for s3 in do_write(I, s2, key, ('some', xv)):
                        out.append(Outcome('ret', s3, I.ok(xv)))
    return out


@model('cosmwasm_std::traits::Storage::set', 'cosmwasm_std::traits::Storage::remove')
def m_raw_set(I, st, c):
    st.eff = st.eff + (('unknown', 'raw storage write'), )
    return ret(st, UNIT)


@stmodel('clear')
def m_clear(I, st, c):
    st.eff = st.eff + (('unknown', 'clear of ' + repr(V(I, st, c.args[0]))),)
    return ret(st, UNIT)


@stmodel('range', 'keys', 'prefix', 'range_raw', 'keys_raw', 'prefix_range', 'is_empty', 'no_prefix', 'sub_prefix', 'first', 'last')
def m_range(I, st, c):
    k = V(I, st, c.args[0])
    return ret(st, ('app', 'storage::' + c.raw.rsplit('::', 1)[1], k) + tuple(V(I, st, a) for a in c.args[2:]))


@stmodel('as_slice', 'namespace')
def m_ns(I, st, c):
    v = V(I, st, c.args[0])
    return ret(st, v[1] if v[0] in ('item', 'map') else ('app', 'namespace', v))


# ---------------------------------------------------------------- serialisation
@model('cosmwasm_std::serde::to_json_binary', 'cosmwasm_std::serde::to_json_vec', 'cosmwasm_std::serde::to_json_string',
       'serde_json_wasm::ser::to_vec', 'serde_json_wasm::ser::to_string', 'serde_json::ser::to_vec',
       'serde_json::ser::to_string', 'cosmwasm_std::import_helpers::to_json_binary',
       'cosmwasm_std::serde::to_binary', 'cosmwasm_std::serde::to_vec')
def m_tojson(I, st, c):
    v = V(I, st, c.args[0])
    if v[0] not in ('adt',):
        t = self_ty(I, c)
        return ret(st, I.ok(('json', v, ('s', tydesc(I, t)))))
    return ret(st, I.ok(('json', v)))


@model('cosmwasm_std::serde::from_json', 'serde_json_wasm::de::from_slice', 'serde_json_wasm::de::from_str',
       'cosmwasm_std::serde::from_binary', 'cosmwasm_std::serde::from_slice', 'serde_json::de::from_slice',
       'serde_json::de::from_str')
def m_fromjson(I, st, c):
    t = None
    r = I.p.types[c.dty] if c.dty is not None else None
    if r and r['k'] == 'adt' and r['name'] == RES:
        t = r['args'][0]
    return ret(st, ('app', 'from_json<%s>' % tydesc(I, t), V(I, st, c.args[0])))


@model('prost::message::Message::encode_to_vec')
def m_encode(I, st, c):
    v = V(I, st, c.args[0])
    if v[0] == 'adt':
        return ret(st, ('proto', v))
    return ret(st, ('proto', v, ('s', tydesc(I, self_ty(I, c)))))


@model('prost::message::Message::encoded_len')
def m_encoded_len(I, st, c):
    return ret(st, ('len', m_encode(I, st, c)[0].val))


@model('prost::message::Message::encode')
def m_encode_into(I, st, c):
    """appending to a vector, which grows as needed, cannot fail"""
    r = I.deref(st, c.args[1])
    cell = c.args[1]
    while True:
        try:
            cc, path = I.lref(st, cell)
        except Exception:
            return None
        v = I.read(st, cc, path)
        if v[0] == 'ref':
            cell = v
            continue
        break
    v = I.val(st, v)
    if v[0] not in ('seq', 'bytes', 'proto'):
        return None
    x = m_encode(I, st, c)[0].val
    I.write(st, cc, path, x if v in (('seq', ()), ('bytes', ())) else mkseq(parts_of(v) + (('s', x),)))
    return ret(st, I.ok(UNIT))


@model('[T]::join', 'slice::join', 'alloc::slice::Join::join')
def m_join(I, st, c):
    v = V(I, st, c.args[0])
    sep = V(I, st, c.args[1])
    if v[0] == 'seq' and all(p[0] == 'e' for p in v[1]) and 'String' in tydesc(I, c.dty):
        xs = []
        for p in v[1]:
            xs += [sep, p[1]] if xs else [p[1]]
        return ret(st, mkcat(tuple(xs)) if xs else ('s', ''))
    return None


@model('prost_types::protobuf::Any::from_msg', 'prost_types::any::Any::from_msg', 'prost_types::Any::from_msg')
def m_any(I, st, c):
    v = V(I, st, c.args[0])
    t = self_ty(I, c)
    ds = tydesc(I, t)
    return ret(st, I.ok(I.mk_adt('prost_types::protobuf::Any', 0, (('type_url', ds), ('proto', v)))))


@model('prost::name::Name::type_url', 'prost::name::Name::full_name')
def m_typeurl(I, st, c):
    t = c.f['targs'][0]
    return ret(st, ('type_url' if 'type_url' in c.raw else 'full_name', tydesc(I, t)))


def m_pb_encode(I, st, c):
    """one field of a protobuf message is written: (wire kind, tag, value)"""
    if len(c.args) != 3:
        return None
    st.eff = st.eff + (('pb', c.raw[len('prost::encoding::'):], V(I, st, c.args[0]), V(I, st, c.args[1])),)
    return ret(st, UNIT)


for _n in ('encode', 'encode_repeated', 'encode_packed'):
    METHODS[_n] = (('prost::encoding::',), m_pb_encode)


@model('prost::message::Message::decode')
def m_decode(I, st, c):
    r = I.p.types[c.dty] if c.dty is not None else None
    t = r['args'][0] if r and r['k'] == 'adt' and r['name'] == RES else (c.f['targs'][0] if c.f['targs'] else None)
    return ret(st, ('app', 'decode<%s>' % tydesc(I, t), V(I, st, c.args[0])))


@model('cosmwasm_std::traits::Api::addr_validate')
def m_addrv(I, st, c):
    return ret(st, ('app', 'addr_validate', V(I, st, c.args[1])))


@model('cosmwasm_std::traits::Api::addr_canonicalize')
def m_addrc(I, st, c):
    return ret(st, ('app', 'addr_canonicalize', V(I, st, c.args[1])))


@model('cosmwasm_std::traits::Api::addr_humanize')
def m_addrh(I, st, c):
    return ret(st, ('app', 'addr_humanize', V(I, st, c.args[1])))


@model('cosmwasm_std::addresses::instantiate2_address')
def m_inst2(I, st, c):
    return ret(st, ('app', 'instantiate2_address') + tuple(V(I, st, a) for a in c.args))


@model('cosmwasm_std::traits::Querier::raw_query')
def m_rawq(I, st, c):
    return ret(st, ('app', 'raw_query', V(I, st, c.args[1])))


@model('cosmwasm_std::traits::QuerierWrapper::query')
def m_query(I, st, c):
    r = I.p.types[c.dty]
    return ret(st, ('app', 'query<%s>' % tydesc(I, r['args'][0]), V(I, st, c.args[1])))


@model('std::backtrace::Backtrace::capture', 'std::backtrace::Backtrace::force_capture')
def m_bt(I, st, c):
    return ret(st, ('app', 'backtrace'))


@model('core::any::type_name')
def m_tn(I, st, c):
    return ret(st, ('s', tydesc(I, c.f['targs'][0]) if c.f['targs'] else '?'))


# ---------------------------------------------------------------- vectors
def seq_len(I, st, v):
    v = I.val(st, I.deref(st, v))
    if v[0] == 's':
        return ('i', len(v[1].encode()))
    if v[0] == 'bytes':
        return ('i', len(v[1]))
    if v[0] == 'seq':
        n = 0
        rest = None
        for p in v[1]:
            if p[0] == 'e':
                n += 1
            elif p[0] == 's':
                x = ('len', p[1])
                rest = x if rest is None else arith('add', rest, x)
            elif p[0] == 'm' and all(len(c[1]) == 1 and c[1][0][0] == 'e' for c in p[2]):
                x = ('len', p[1])
                rest = x if rest is None else arith('add', rest, x)
            else:
                return ('len', v)
        if rest is None:
            return ('i', n)
        return arith('add', rest, ('i', n)) if n else rest
    return ('len', v)


@model('alloc::vec::Vec::new', 'alloc::collections::vec_deque::VecDeque::new', 'alloc::vec::Vec::with_capacity', 'alloc::collections::vec_deque::VecDeque::with_capacity', 'alloc::vec::Vec::new_in')
def m_vnew(I, st, c):
    return ret(st, ('seq', ()))


@model('alloc::boxed::Box::new_uninit')
def m_boxu(I, st, c):
    return ret(st, ('ref', I.newcell(st, ('uninit',)), ()))


@model('alloc::vec::Vec::push', 'alloc::collections::vec_deque::VecDeque::push_back')
def m_push(I, st, c):
    cell, path = I.lref(st, c.args[0])
    v = I.read(st, cell, path)
    I.write(st, cell, path, mkseq(parts_of(v) + (('e', c.args[1]),)))
    return ret(st, UNIT)


@model('alloc::vec::Vec::insert')
def m_insert(I, st, c):
    cell, path = I.lref(st, c.args[0])
    v = I.read(st, cell, path)
    i = d(I, st, c.args[1])
    ps = parts_of(v)
    if i[0] == 'i' and i[1] <= len(ps) and all(p[0] == 'e' for p in ps[:i[1]]):
        nv = mkseq(ps[:i[1]] + (('e', c.args[2]),) + ps[i[1]:])
    elif i == seq_len(I, st, v):
        nv = mkseq(ps + (('e', c.args[2]),))
    else:
        nv = ('app', 'insert', I.val(st, v), i, V(I, st, c.args[2]))
    I.write(st, cell, path, nv)
    return ret(st, UNIT)


@model('alloc::vec::Vec::extend_from_slice', 'core::iter::traits::collect::Extend::extend', 'alloc::vec::Vec::extend', 'alloc::collections::vec_deque::VecDeque::extend')
def m_extend(I, st, c):
    cell, path = I.lref(st, c.args[0])
    v = I.read(st, cell, path)
    out = []
    for s, it in to_iter(I, st, c.args[1]):
        I.write(s, cell, path, mkseq(parts_of(I.read(s, cell, path)) + it))
        out.append(Outcome('ret', s, UNIT))
    return out


@model('alloc::vec::Vec::append', 'alloc::collections::vec_deque::VecDeque::append')
def m_append(I, st, c):
    cell, path = I.lref(st, c.args[0])
    c2, p2 = I.lref(st, c.args[1])
    I.write(st, cell, path, mkseq(parts_of(I.read(st, cell, path)) + parts_of(I.read(st, c2, p2))))
    I.write(st, c2, p2, ('seq', ()))
    return ret(st, UNIT)


@model('alloc::vec::Vec::clear', 'alloc::string::String::clear')
def m_vclear(I, st, c):
    cell, path = I.lref(st, c.args[0])
    I.write(st, cell, path, ('seq', ()) if 'Vec' in c.raw else ('s', ''))
    return ret(st, UNIT)


def split_last(I, st, v):
    """[(state, last or None, init)]"""
    ps = parts_of(v)
    if not ps:
        return [(st, None, v)]
    p = ps[-1]
    if p[0] == 'e':
        return [(st, p[1], mkseq(ps[:-1]))]
    if len(ps) == 1 and p[0] == 's':
        out = []
        for s, e in I.branch(st, mk_empty(p[1])):
            out.append((s, None, ('seq', ())) if e else (s, ('last', p[1]), ('app', 'init', p[1])))
        return out
    if len(ps) == 1 and p[0] == 'm' and all(len(c[1]) == 1 and c[1][0][0] == 'e' for c in p[2]) and len(p[2]) == 1:
        out = []
        for s, e in I.branch(st, mk_empty(p[1])):
            if e:
                out.append((s, None, ('seq', ())))
            else:
                x = subst(p[2][0][1][0][1], ('elem', p[1]), ('last', p[1]))
                out.append((s, x, ('app', 'init', v)))
        return out
    if all(x[0] == 'e' for x in ps[:1]):
        return [(st, ('last', v), ('app', 'init', v))]
    out = []
    for s, e in I.branch(st, mk_empty(v)):
        out.append((s, None, ('seq', ())) if e else (s, ('last', v), ('app', 'init', v)))
    return out


@model('alloc::collections::vec_deque::VecDeque::pop_front')
def m_pop_front(I, st, c):
    cell, path = I.lref(st, c.args[0])
    v = I.read(st, cell, path)
    if v[0] != 'iter':
        v = ('iter', parts_of(v))
    return next_from(I, st, cell, path, v[1])


@model('alloc::vec::Vec::pop', 'alloc::collections::vec_deque::VecDeque::pop_back')
def m_pop(I, st, c):
    cell, path = I.lref(st, c.args[0])
    v = I.read(st, cell, path)
    out = []
    ps = v[1] if v[0] == 'iter' else parts_of(v)
    if len(ps) == 1 and ps[0][0] == 's' and ps[0][1][:2] == ('app', 'rev') and len(parts_of(ps[0][1][2])) == 1:
        # the end of a reversed sequence is the front of the sequence
        p = parts_of(ps[0][1][2])[0]
        cases = p[2] if p[0] == 'm' else (((), (('e', ('elem', p[1])),)),)
        if p[0] != 'e' and not I.in_loop(cell):
            for s, x, rest in first_of(I, st, (p,)):
                r = I.val(s, mkseq(rest))
                I.write(s, cell, path, ('app', 'rev', r) if rest else ('seq', ()))
                out.append(Outcome('ret', s, I.none() if x is None else I.some(x)))
            return out
        if p[0] != 'e' and all(len(sub) == 1 and sub[0][0] == 'e' for _, sub in cases):
            for facts, sub in cases:
                s = st.fork()
                if apply_case(I, s, facts):
                    s.iterlog = s.iterlog + (p[1],)
                    I.write(s, cell, path, ('iter', ps))
                    out.append(Outcome('ret', s, I.some(sub[0][1])))
            I.finish_src(st, p[1])
            I.write(st, cell, path, ('seq', ()))
            out.append(Outcome('ret', st, I.none()))
            return out
    for s, x, rest in split_last(I, st, v):
        I.write(s, cell, path, rest)
        out.append(Outcome('ret', s, I.none() if x is None else I.some(x)))
    return out


@model('[T]::reverse')
def m_reverse(I, st, c):
    cell, path = I.lref(st, c.args[0])
    v = I.read(st, cell, path)
    ps = parts_of(v)
    if all(p[0] == 'e' for p in ps):
        I.write(st, cell, path, mkseq(tuple(reversed(ps))))
    else:
        x = I.val(st, mkseq(ps))
        I.write(st, cell, path, x[2] if x[:2] == ('app', 'rev') else ('app', 'rev', x))
    return ret(st, UNIT)


@model('[T]::last', 'slice::last', 'alloc::vec::Vec::last')
def m_last(I, st, c):
    v = d(I, st, c.args[0])
    return [Outcome('ret', s, I.none() if x is None else I.some(x)) for s, x, r in split_last(I, st, v)]


@model('[T]::split_last')
def m_splitlast(I, st, c):
    v = d(I, st, c.args[0])
    return [Outcome('ret', s, I.none() if x is None else I.some(('tup', (x, r)))) for s, x, r in split_last(I, st, v)]


@model('[T]::first', 'slice::first')
def m_first(I, st, c):
    v = d(I, st, c.args[0])
    ps = parts_of(v)
    if not ps:
        return ret(st, I.none())
    if ps[0][0] == 'e':
        return ret(st, I.some(ps[0][1]))
    out = []
    for s, e in I.branch(st, mk_empty(v)):
        out.append(Outcome('ret', s, I.none() if e else I.some(('index', v, ('i', 0)))))
    return out


@model('[T]::get', 'slice::get')
def m_get(I, st, c):
    v = d(I, st, c.args[0])
    i = d(I, st, c.args[1])
    n = seq_len(I, st, v)
    if i[0] == 'adt':
        return ret(st, ('app', 'get_range', I.val(st, v), I.val(st, i)))
    # get(len - 1) is last()
    if i[0] == 'sub' and i[2] == ('i', 1) and i[1] == n:
        return m_last(I, st, c)
    out = []
    for s, t in I.branch(st, mk_cmp('Lt', i, n)):
        out.append(Outcome('ret', s, I.some(I.index_val(s, v, i)) if t else I.none()))
    return out


def str_boundary(I, st, v, x, n):
    """x is certainly 0, the length, the place of a found pattern, or the end of a known prefix of the text v"""
    if x in (('i', 0), n) or x[:3] == ('app', 'position', v):
        return True
    if x[0] == 'add' and x[2] == ('i', 1) and x[1][:3] == ('app', 'position', v):
        return True
    return x[0] == 'i' and any(k[0] == 'b' and t and k[1][0] == 'starts' and k[1][1] == v and k[1][2][0] == 's'
                               and len(k[1][2][1].encode()) == x[1] for k, t in st.facts.items())


def range_ok(I, st, v, i, ty=None):
    """the condition under which v[i] is in bounds, for a range i"""
    n = seq_len(I, st, v)
    a = i[1].rsplit('::', 1)[-1] if i[0] == 'adt' else ''
    is_str = v[0] in ('s', 'cat') or (ty is not None and I.p.types[ty]['d'] in ('str', 'alloc::string::String'))
    if is_str and a in ('RangeTo', 'RangeFrom') and str_boundary(I, st, I.val(st, v), i[3][0], n):
        return TRUE
    if not is_str and a == 'RangeTo':
        return mk_not(mk_cmp('Lt', n, i[3][0]))
    if not is_str and a == 'RangeFrom':
        return mk_not(mk_cmp('Lt', n, i[3][0]))
    return ('app', 'range_in_bounds', I.val(st, v), I.val(st, i))


@model('core::ops::index::Index::index')
def m_index(I, st, c):
    if local_handwritten(I, c):
        return None
    v = d(I, st, c.args[0])
    i = d(I, st, c.args[1])
    if i[0] == 'adt' or v[0] in ('map',):
        if i[0] == 'adt' and 'RangeFull' in i[1]:
            return ret(st, v)
        out = []
        for s, t in I.branch(st, range_ok(I, st, v, i, self_ty(I, c))):
            out.append(Outcome('ret', s, ('app', 'index_range', I.val(s, v), I.val(s, i))) if t else
                       Outcome('panic', s, None, ('range out of bounds', c.span)))
        return out
    n = seq_len(I, st, v)
    out = []
    for s, t in I.branch(st, mk_cmp('Lt', i, n)):
        if t:
            out.append(Outcome('ret', s, I.index_val(s, v, i)))
        else:
            out.append(Outcome('panic', s, None, ('index out of bounds', c.span)))
    return out


@model('alloc::vec::Vec::len', 'alloc::collections::vec_deque::VecDeque::len', '[T]::len', 'slice::len', 'core::iter::traits::iterator::Iterator::count',
       'core::iter::traits::exact_size::ExactSizeIterator::len')
def m_len(I, st, c):
    v = d(I, st, c.args[0])
    if v[0] == 'lazy':
        return [Outcome('ret', s, seq_len(I, s, mkseq(ps))) for s, ps in to_iter(I, st, v)]
    if v[0] == 'iter':
        if any(p[0] != 'e' for p in v[1]) and c.args[0][0] == 'ref' and I.in_loop(I.lref(st, c.args[0])[0]):
            return ret(st, ('app', 'remaining', I.val(st, mkseq(v[1]))))
        v = mkseq(v[1])
    return ret(st, seq_len(I, st, v))


@model('alloc::vec::Vec::is_empty', 'alloc::collections::vec_deque::VecDeque::is_empty', '[T]::is_empty', 'slice::is_empty')
def m_vempty(I, st, c):
    return ret(st, mk_empty(V(I, st, c.args[0])))


def altering(I, st, c):
    cell, path = I.lref(st, c.args[0])
    v = I.read(st, cell, path)
    I.write(st, cell, path, ('app', c.raw, I.val(st, v)) + tuple(V(I, st, a) for a in c.args[1:]))
    return ret(st, UNIT)


for n in ('alloc::vec::Vec::truncate', 'alloc::vec::Vec::dedup', 'alloc::vec::Vec::retain', 'alloc::vec::Vec::retain_mut',
          '[T]::sort', '[T]::sort_by', '[T]::sort_by_key', '[T]::sort_unstable', '[T]::sort_unstable_by',
          '[T]::sort_unstable_by_key', '[T]::swap', '[T]::rotate_left', '[T]::rotate_right',
          'alloc::vec::Vec::resize', 'alloc::vec::Vec::dedup_by_key', 'alloc::vec::Vec::dedup_by',
          '[T]::fill', '[T]::copy_from_slice', '[T]::clone_from_slice', 'alloc::string::String::truncate',
          'alloc::string::String::insert_str', 'alloc::string::String::insert'):
    EXACT[n] = altering


def seqtype(I, c):
    return 'string::String' not in c.raw


@model('alloc::vec::Vec::truncate', 'alloc::collections::vec_deque::VecDeque::truncate')
def m_truncate(I, st, c):
    cell, path = I.lref(st, c.args[0])
    v = I.read(st, cell, path)
    n = d(I, st, c.args[1])
    ps = parts_of(v)
    if n[0] == 'i' and (all(p[0] == 'e' for p in ps[:n[1]]) and len(ps) >= n[1] or all(p[0] == 'e' for p in ps)):
        I.write(st, cell, path, mkseq(ps[:n[1]]))
    else:
        I.write(st, cell, path, ('app', 'take', I.val(st, mkseq(ps)), I.val(st, n)))
    return ret(st, UNIT)


@model('alloc::vec::Vec::retain', 'alloc::collections::vec_deque::VecDeque::retain')
def m_retain(I, st, c):
    cell, path = I.lref(st, c.args[0])
    v = I.read(st, cell, path)
    res, out = map_parts(I, st, parts_of(v), _filter(I, c.args[1]))
    for s, q in res:
        n = norm_iter(q)
        I.write(s, cell, path, mkseq(n[1]))
        out.append(Outcome('ret', s, UNIT))
    return out


@model('alloc::vec::from_elem')
def m_from_elem(I, st, c):
    x, n = V(I, st, c.args[0]), d(I, st, c.args[1])
    if n[0] == 'i' and 0 <= n[1] <= 8:
        return ret(st, mkseq((('e', x),) * n[1]))
    return ret(st, ('app', 'alloc::vec::from_elem', x, I.val(st, n)))


@model('[T;N]::map', '[T;N/#1]::map', 'core::array::map')
def m_amap(I, st, c):
    v = d(I, st, c.args[0])
    if v[0] != 'seq':
        return None
    res, out = map_parts(I, st, parts_of(v), _map(I, c.args[1]))
    return out + [Outcome('ret', s, mkseq(norm_iter(q)[1])) for s, q in res]


@model('alloc::string::String::insert_str', 'alloc::string::String::insert')
def m_insert_str(I, st, c):
    if d(I, st, c.args[1]) != ('i', 0):
        return altering(I, st, c)
    cell, path = I.lref(st, c.args[0])
    x = V(I, st, c.args[2])
    if x[0] == 'i':
        x = ('s', chr(x[1]))
    I.write(st, cell, path, mkcat((x, I.read(st, cell, path))))
    return ret(st, UNIT)


@model('[T]::split_first')
def m_split_first(I, st, c):
    v = d(I, st, c.args[0])
    return [Outcome('ret', s, I.none() if x is None else I.some(('tup', (x, I.val(s, mkseq(r)))))) for s, x, r in first_of(I, st, parts_of(v))]


@model('core::iter::adapters::peekable::Peekable::peek')
def m_peek(I, st, c):
    cell, path = I.lref(st, c.args[0])
    v = I.read(st, cell, path)
    if v[0] != 'iter':
        return None
    if I.in_loop(cell):
        return ret(st, ('app', 'peek', I.val(st, mkseq(v[1]))))
    return [Outcome('ret', s, I.none() if x is None else I.some(x)) for s, x, r in first_of(I, st, v[1])]


@model('alloc::vec::Vec::reserve', 'alloc::collections::vec_deque::VecDeque::reserve', 'alloc::vec::Vec::shrink_to_fit', 'alloc::string::String::reserve')
def m_nop(I, st, c):
    return ret(st, UNIT)


@model('alloc::vec::Vec::remove', 'alloc::vec::Vec::swap_remove')
def m_vremove(I, st, c):
    cell, path = I.lref(st, c.args[0])
    v = I.read(st, cell, path)
    i = d(I, st, c.args[1])
    ps = parts_of(v)
    if i[0] == 'i' and i[1] < len(ps) and all(p[0] == 'e' for p in ps[:i[1] + 1]) and c.raw.endswith('::remove'):
        I.write(st, cell, path, mkseq(ps[:i[1]] + ps[i[1] + 1:]))
        return ret(st, ps[i[1]][1])
    vv = I.val(st, v)
    out = []
    for s, t in I.branch(st, mk_cmp('Lt', i, seq_len(I, st, v))):
        if t:
            I.write(s, cell, path, ('app', c.raw, vv, i))
            out.append(Outcome('ret', s, I.index_val(s, vv, i)))
        else:
            out.append(Outcome('panic', s, None, ('index out of bounds', c.span)))
    return out


@model('[T]::contains', 'slice::contains')
def m_contains(I, st, c):
    v = V(I, st, c.args[0])
    x = V(I, st, c.args[1])
    if v[0] == 'seq' and all(p[0] == 'e' for p in v[1]):
        out = []
        live = [st]
        for p in v[1]:
            nl = []
            for s in live:
                for s2, t in eq_branch(I, s, p[1], x):
                    for s3, b in I.branch(s2, t):
                        if b:
                            out.append(Outcome('ret', s3, TRUE))
                        else:
                            nl.append(s3)
            live = nl
        return out + [Outcome('ret', s, FALSE) for s in live]
    return ret(st, ('app', 'contains', v, x))


@model('[T]::concat', 'slice::concat', 'alloc::slice::Concat::concat')
def m_concat(I, st, c):
    v = V(I, st, c.args[0])
    if v[0] == 'seq' and all(p[0] == 'e' for p in v[1]):
        xs = [p[1] for p in v[1]]
        if 'String' in tydesc(I, c.dty) or 'str' in tydesc(I, c.dty):
            return ret(st, mkcat(tuple(xs)))
        return ret(st, mkseq(tuple(q for x in xs for q in parts_of(x))))
    return ret(st, ('app', 'concat', v))


# ---------------------------------------------------------------- iterators
RANGE = 'core::ops::range::Range'


def to_iter(I, st, v, partly=False):
    """[(state, parts)]"""
    v0 = v
    v = I.deref(st, v)
    if v[0] == 'lazy':
        def same(s, x):
            return ret(s, ('seq', (('e', x),)))
        states, leave = drive(I, st, v, same)
        if v0[0] == 'ref':
            for s, _ in states:
                use_up(I, s, v0, (), partly)
        I.leaving += leave
        return [(s, norm_iter(q)[1]) for s, q in states]
    if v[0] == 'iter':
        if v0[0] == 'ref':
            use_up(I, st, v0, v[1], partly)
        return [(st, v[1])]
    if v[0] == 'adt' and v[1] == OPT:
        return [(st, (('e', v[3][0]),) if v[2] == 1 else ())]
    if v[0] == 'adt' and v[1] == RANGE:
        a, b = I.deref(st, v[3][0]), I.deref(st, v[3][1])
        if a[0] == 'i' and b[0] == 'i' and b[1] - a[1] <= 64:
            return [(st, tuple(('e', ('i', k)) for k in range(a[1], b[1])))]
        if a == ('i', 0) and b[0] == 'len':
            src = b[1]
            return [(st, (('m', src, (((), (('e', ('idx', src)),)),)),))]
        return [(st, (('s', ('app', 'range', a, b)),))]
    if v[0] == 'adt':
        own = own_iterator(I, st, v)
        if own is not None:
            return own
        return [(st, (('s', I.val(st, v)),))]
    if v[0] == 'seq':
        return [(st, v[1])]
    return [(st, (('s', v),))]


def use_up(I, st, ref, ps, partly):
    """an iterator passed by reference, for good or for an unknown number of its elements"""
    cell, path = I.lref(st, ref)
    left = ()
    if partly and ps:
        src = mkseq(ps)
        left = ps if src[:2] == ('app', 'rest') else (('s', ('app', 'rest', I.val(st, src))),)
    I.write(st, cell, path, ('iter', left))


def sources(I, st, v, partly=False):
    """[(state, parts at the source, apply)]: apply(state, fn) puts the elements through what is pending and then through fn"""
    v0, v = v, I.deref(st, v)
    if v[0] == 'lazy':
        base = v
        while base[0] == 'lazy':
            base = I.deref(st, base[1])
        out = []
        for s, ps in to_iter(I, st, base):
            if v0[0] == 'ref':
                use_up(I, s, v0, ps, partly)
            out.append((s, ps, lambda s1, fn, ps=ps: drive(I, s1, v, fn, ps)))
        return out
    return [(s, ps, lambda s1, fn, ps=ps: map_parts(I, s1, ps, fn)) for s, ps in to_iter(I, st, v0, partly)]


def drive(I, st, v, fn, parts=None):
    """put every element of an iterator with pending closures through them and then through fn"""
    v = I.deref(st, v) if v[0] != 'lazy' else v
    if v[0] == 'lazy':
        step = OPS[v[2]](I, v[3])

        def both(s, x):
            outs = []
            for o in step(s, x):
                if o.kind != 'ret':
                    outs.append(o)
                    continue
                res, lv = map_parts(I, o.st, parts_of(o.val), fn)
                outs += lv
                outs += [Outcome('ret', s2, ('seq', q)) for s2, q in res]
            return outs
        return drive(I, st, v[1], both, parts)
    if parts is not None:
        return map_parts(I, st, parts, fn)
    states, leave = [], []
    for s, ps in to_iter(I, st, v):
        a, b = map_parts(I, s, ps, fn)
        states += a
        leave += b
    return states, leave


def has_effect(I, before, states, leave):
    """did putting the elements through a closure do anything but compute?"""
    if leave:
        return True
    for s, _ in states:
        if s.eff != before.eff or s.store != before.store:
            return True
        for c, v in before.mem.items():
            if s.mem.get(c) != v:
                return True
    return False


def own_iterator(I, st, v):
    """an iterator type of this crate around another iterator: its `next` is analysed for one element and for the end."""
    key = '<%s as core::iter::traits::iterator::Iterator>::next' % v[1]
    if key not in I.p.bodies:
        return None
    inner = [i for i, f in enumerate(v[3]) if f[0] == 'iter']
    if len(inner) != 1:
        return None
    i = inner[0]

    class Unfit(Exception):
        pass

    def step(s0, ps):  # the element must be taken from the front: what follows it stays
        follow = (('s', ('in', '%follow')),) if ps else ()
        cell = I.newcell(s0, ('adt', v[1], v[2], v[3][:i] + (('iter', ps + follow),) + v[3][i + 1:]))
        res = []
        for o in I.run_body(s0, key, [('ref', cell, ())]):
            if o.kind != 'ret':
                res.append(o)
                continue
            after = o.st.mem.get(cell)
            if after is None or after[0] != 'adt' or after[3][i] != ('iter', follow) or \
                    after[3][:i] + after[3][i + 1:] != v[3][:i] + v[3][i + 1:]:
                raise Unfit
            for s2, x in I.match_opt(o.st, o.val):
                if (x is None) == bool(ps):
                    raise Unfit
                res.append(Outcome('ret', s2, ('seq', () if x is None else (('e', I.val(s2, x)),))))
        return res
    try:
        out = []
        res, leave = map_parts(I, st, v[3][i][1], lambda s1, x: step(s1, (('e', x),)))
        for s2, q in res:
            out += [(o.st, norm_iter(q)[1]) for o in step(s2, ()) if o.kind == 'ret']
    except Unfit:
        return None
    I.leaving += leave
    return out


@model('core::iter::traits::collect::IntoIterator::into_iter', '[T]::iter', 'slice::iter', 'alloc::vec::Vec::drain',
       'alloc::collections::vec_deque::VecDeque::drain', 'alloc::collections::vec_deque::VecDeque::iter', 'core::option::Option::iter', 'core::option::Option::into_iter')
def m_into_iter(I, st, c):
    if local_handwritten(I, c):
        return None
    v = I.deref(st, c.args[0])
    ty = self_ty(I, c)
    ds = tydesc(I, ty)
    if ds.startswith('core::option::Option<') or c.raw.startswith('core::option'):
        out = []
        for s, x in I.match_opt(st, v):
            out.append(Outcome('ret', s, ('iter', () if x is None else (('e', x),))))
        return out
    if c.raw.endswith('drain'):
        cell, path = I.lref(st, c.args[0])
        r = I.deref(st, c.args[1])
        if not (r[0] == 'adt' and 'RangeFull' in r[1]):
            return ret(st, ('app', 'drain', I.val(st, v), I.val(st, r)))
        I.write(st, cell, path, ('seq', ()))
        return [Outcome('ret', s, ('iter', ps)) for s, ps in to_iter(I, st, v)]
    if v[0] == 'lazy' or c.args[0][0] == 'ref' and c.raw.endswith('into_iter') and v[0] == 'iter':
        return ret(st, c.args[0])
    at = c.atys[0] if c.atys else None
    if at is not None and I.p.types[at]['k'] == 'ref' and I.p.types[at].get('mut') and v[0] != 'iter':
        return iter_mut(I, st, c)
    return [Outcome('ret', s, ('iter', ps)) for s, ps in to_iter(I, st, v)]


def iter_mut(I, st, c):
    cell, path = I.lref(st, c.args[0])
    v = I.read(st, cell, path)
    if v[0] == 'seq' and all(p[0] == 'e' for p in v[1]):
        return ret(st, ('iter', tuple(('e', ('ref', cell, path + (('c', k, False),))) for k in range(len(v[1])))))
    ps = parts_of(I.val(st, v))
    I.write(st, cell, path, ('app', 'mutated', I.val(st, v)))
    return ret(st, ('iter', ps))


EXACT['[T]::iter_mut'] = iter_mut
EXACT['slice::iter_mut'] = iter_mut


@model('core::iter::sources::once::once')
def m_once(I, st, c):
    return ret(st, ('iter', (('e', c.args[0]),)))


@model('core::iter::sources::empty::empty')
def m_empty_it(I, st, c):
    return ret(st, ('iter', ()))


def apply_case(I, st, facts):
    for k, v in facts:
        cur = st.facts.get(k)
        if k[0] == 'nis':
            if st.facts.get(('is', k[1])) in v:
                return False
            st.facts[k] = (cur or frozenset()) | v
            continue
        if cur is not None and cur != v:
            return False
        if k[0] == 'is' and v in st.facts.get(('nis', k[1]), ()):
            return False
        if k[0] == 'b' and cur is None:
            if not I.assume(st, k[1], v):
                return False
        st.facts[k] = v
    return True


def map_parts(I, st, parts, fn):
    """apply fn(st, x) -> [Outcome ('seq', parts)] to every element.
    -> ([(state, parts)], leaving outcomes)"""
    states = [(st, ())]
    leave = []
    for p in parts:
        nxt = []
        for s, acc in states:
            if p[0] == 'e':
                for o in fn(s, p[1]):
                    if o.kind == 'ret':
                        nxt.append((o.st, acc + parts_of(o.val)))
                    else:
                        leave.append(o)
            else:
                while active(I, s, p[1]):
                    p = again(p)
                src = p[1]
                if p[0] == 's':
                    def step(s1, src=src):
                        s1.iterlog = s1.iterlog + (src,)
                        return fn(s1, ('elem', src))
                else:
                    def step(s1, src=src, cases=p[2]):
                        outs = []
                        s1.iterlog = s1.iterlog + (src,)
                        for facts, sub in cases:
                            s2 = s1.fork()
                            if not apply_case(I, s2, facts):
                                continue
                            res, lv = map_parts(I, s2, sub, fn)
                            outs += [Outcome('ret', s3, ('seq', q)) for s3, q in res]
                            outs += lv
                        return outs
                fin, cases, other = I.loop_step(s, src, step)
                leave += other
                cs = tuple((f, parts_of(v)) for f, v in cases)
                nxt.append((fin, acc + (('m', src, cs),)))
        states = nxt
    return states, leave


def norm_iter(ps):
    v = mkseq(ps)
    return ('iter', parts_of(v) if v[0] == 'seq' else (('s', v),))


def call1(I, s, f, x):
    return I.call_value(s, f, [x])


def _map(I, clos):
    def fn(s, x):
        outs = call1(I, s, clos, x)
        for o in outs:
            if o.kind == 'ret':
                o.val = ('seq', (('e', I.val(o.st, o.val)),))
        return outs
    return fn


def _filter_map(I, clos):
    def fn(s, x):
        outs = []
        for o in call1(I, s, clos, x):
            if o.kind != 'ret':
                outs.append(o)
                continue
            for s2, y in I.match_opt(o.st, o.val):
                outs.append(Outcome('ret', s2, ('seq', () if y is None else (('e', I.val(s2, y)),))))
        return outs
    return fn


def _filter(I, clos):
    def fn(s, x):
        outs = []
        for o in call1(I, s, clos, x):
            if o.kind != 'ret':
                outs.append(o)
                continue
            for s2, t in I.branch(o.st, I.deref(o.st, o.val)):
                outs.append(Outcome('ret', s2, ('seq', (('e', x),) if t else ())))
        return outs
    return fn


def _flat_map(I, clos):
    def fn(s, x):
        outs = []
        for o in call1(I, s, clos, x):
            if o.kind != 'ret':
                outs.append(o)
                continue
            dv = I.deref(o.st, o.val)
            if dv[0] == 'adt' and dv[1] == RES:
                outs.append(Outcome('ret', o.st, ('seq', (('e', dv[3][0]),) if dv[2] == 0 else ())))
                continue
            for s2, ps in to_iter(I, o.st, o.val):
                outs.append(Outcome('ret', s2, ('seq', ps)))
        return outs
    return fn


def _flatten(I, clos):
    def fn(s, x):
        dv = I.deref(s, x)
        if dv[0] == 'adt' and dv[1] == RES:
            return ret(s, ('seq', (('e', dv[3][0]),) if dv[2] == 0 else ()))
        return [Outcome('ret', s2, ('seq', ps)) for s2, ps in to_iter(I, s, x)]
    return fn


def _inspect(I, clos):
    def fn(s, x):
        outs = call1(I, s, clos, x)
        for o in outs:
            if o.kind == 'ret':
                o.val = ('seq', (('e', x),))
        return outs
    return fn


IT = 'core::iter::traits::iterator::Iterator::'
OPS = {'map': _map, 'filter_map': _filter_map, 'filter': _filter, 'flat_map': _flat_map, 'flatten': _flatten, 'inspect': _inspect}


def m_adapter(I, st, c):
    """put the elements through the closure at once where that only computes; otherwise when they are asked for"""
    op = c.raw.rsplit('::', 1)[1]
    clos = c.args[1] if len(c.args) > 1 else UNIT
    if clos[0] == 'clos' and any(x[0] != 'ref' for x in clos[2]):
        clos = ('ref', I.newcell(st, clos), ())  # what it keeps for itself lasts from one element to the next
    v = I.deref(st, c.args[0])
    base = c.args[0] if c.args[0][0] == 'ref' and v[0] in ('iter', 'lazy') else v
    if v[0] != 'lazy':
        t = st.fork()
        met, I.leaving = I.leaving, []
        out, effect = [], False
        for s, ps in to_iter(I, t, c.args[0]):
            before = s.fork()
            res, lv = map_parts(I, s, ps, OPS[op](I, clos))
            if has_effect(I, before, res, lv):
                effect = True
                break
            out += [Outcome('ret', s2, norm_iter(q)) for s2, q in res]
        met, I.leaving = I.leaving, met
        if not effect and not met:
            return out
    return ret(st, ('lazy', base, op, clos))


for n in OPS:
    EXACT[IT + n] = m_adapter


@model(IT + 'enumerate')
def m_enum(I, st, c):
    out = []
    for s, ps in to_iter(I, st, c.args[0]):
        q = []
        for n, p in enumerate(ps):
            pre = all(x[0] == 'e' for x in ps[:n])
            if p[0] == 'e' and pre:
                q.append(('e', ('tup', (('i', n), p[1]))))
            elif p[0] == 's' and n == 0:
                q.append(('m', p[1], (((), (('e', ('tup', (('idx', p[1]), ('elem', p[1])))),)),)))
            elif p[0] == 'm' and n == 0 and all(len(cc[1]) == 1 and cc[1][0][0] == 'e' for cc in p[2]):
                q.append(('m', p[1], tuple((f, (('e', ('tup', (('idx', p[1]), sub[0][1]))),)) for f, sub in p[2])))
            else:
                q = [('s', ('app', 'enumerate', mkseq(ps)))]
                break
        out.append(Outcome('ret', s, ('iter', tuple(q))))
    return out


@model(IT + 'zip', 'core::iter::adapters::zip::zip')
def m_zip(I, st, c):
    out = []
    for s, a in to_iter(I, st, c.args[0]):
        for s2, b in to_iter(I, s, c.args[1]):
            out.append(Outcome('ret', s2, ('iter', zip_parts(I, s2, a, b))))
    return out


def one_each(p):
    return p[0] == 's' or (p[0] == 'm' and all(len(c[1]) == 1 and c[1][0][0] == 'e' for c in p[2]))


def compatible(f, g):
    """can the two sets of conditions on the same element hold together?"""
    f, g = dict(f), dict(g)
    for a, b in ((f, g), (g, f)):
        for k, v in a.items():
            if k[0] == 'nis':
                if b.get(('is', k[1])) in v:
                    return False
            elif b.get(k, v) != v:
                return False
    return True


def zip_parts(I, s, a, b):
    out = []
    a, b = list(a), list(b)
    while a and b and a[0][0] == 'e' and b[0][0] == 'e':
        out.append(('e', ('tup', (a.pop(0)[1], b.pop(0)[1]))))
    if not a or not b:
        return tuple(out)
    if len(a) == 1 and len(b) == 1 and one_each(a[0]) and one_each(b[0]):
        p, q = a[0], b[0]
        if p[0] == 's' and q[0] == 's':
            return tuple(out) + (('s', ('zip', p[1], q[1])),)
        pc = p[2] if p[0] == 'm' else (((), (('e', ('elem', p[1])),)),)
        qc = q[2] if q[0] == 'm' else (((), (('e', ('elem', q[1])),)),)
        cases = tuple((f + g, (('e', ('tup', (x[0][1], y[0][1]))),)) for f, x in pc for g, y in qc if p[1] != q[1] or compatible(f, g))
        return tuple(out) + (('m', ('zip', p[1], q[1]) if p[1] != q[1] else p[1], cases),)
    return (('s', ('app', 'zip', mkseq(tuple(a)), mkseq(tuple(b)))),)


@model(IT + 'chain')
def m_chain(I, st, c):
    out = []
    for s, a in to_iter(I, st, c.args[0]):
        for s2, b in to_iter_ty(I, s, c.args[1]):
            out.append(Outcome('ret', s2, ('iter', a + b)))
    return out


def to_iter_ty(I, st, v):
    return to_iter(I, st, v)


@model(IT + 'rev')
def m_rev(I, st, c):
    out = []
    for s, a in to_iter(I, st, c.args[0]):
        if all(p[0] == 'e' for p in a):
            out.append(Outcome('ret', s, ('iter', tuple(reversed(a)))))
        else:
            v = I.val(s, mkseq(a))
            if v[0] == 'app' and v[1] == 'rev':
                out.append(Outcome('ret', s, ('iter', parts_of(v[2]))))
            else:
                out.append(Outcome('ret', s, ('iter', (('s', ('app', 'rev', v)),))))
    return out


def m_alter_iter(I, st, c):
    out = []
    nm = c.raw.rsplit('::', 1)[1]
    if nm != 'skip' and I.deref(st, c.args[0])[0] == 'lazy':
        st.eff = st.eff + (('unknown', 'some of the effects of an iterator'),)
    for s, a in to_iter(I, st, c.args[0], nm == 'take'):
        n = I.deref(s, c.args[1]) if len(c.args) > 1 else UNIT
        if n[0] == 'i' and nm in ('skip', 'take') and all(p[0] == 'e' for p in a[:n[1]]):
            if nm == 'skip' and len(a) >= n[1]:
                out.append(Outcome('ret', s, ('iter', a[n[1]:])))
                continue
            if nm == 'take' and len(a) >= n[1]:
                out.append(Outcome('ret', s, ('iter', a[:n[1]])))
                continue
        if nm == 'take' and n == seq_len(I, s, mkseq(a)):
            out.append(Outcome('ret', s, ('iter', a)))
            continue
        out.append(Outcome('ret', s, ('iter', (('s', ('app', nm, I.val(s, mkseq(a)), I.val(s, n))),))))
    return out


for n in ('skip', 'take', 'step_by', 'skip_while', 'cycle', 'intersperse'):
    EXACT[IT + n] = m_alter_iter


@model(IT + 'take_while', IT + 'map_while', IT + 'scan')
def m_while(I, st, c):
    """two ways to end: every element passed, or the first that did not cut the rest off"""
    nm = c.raw.rsplit('::', 1)[1]
    out = []
    for s, ps, apply in sources(I, st, c.args[0], True):
        pre = [('ref', I.newcell(s, c.args[1]), ())] if nm == 'scan' else []

        def fn(s1, x):
            res = []
            for o in I.call_value(s1, c.args[-1], pre + [x]):
                if o.kind != 'ret':
                    res.append(o)
                elif nm == 'take_while':
                    for s2, t in I.branch(o.st, I.deref(o.st, o.val)):
                        res.append(Outcome('ret', s2, ('seq', (('e', x),))) if t else Outcome('stop', s2))
                else:
                    for s2, y in I.match_opt(o.st, o.val):
                        res.append(Outcome('stop', s2) if y is None else Outcome('ret', s2, ('seq', (('e', I.val(s2, y)),))))
            return res
        states, leave = apply(s, fn)
        out += [Outcome('ret', s2, norm_iter(q)) for s2, q in states]
        for o in leave:
            if o.kind == 'stop':
                o = Outcome('ret', o.st, ('iter', (('s', ('app', nm, I.val(s, mkseq(ps)))),)))
            out.append(o)
    return out


def collect_parts(I, st, parts, split):
    """all-or-nothing collect.  split(s, x) -> [(state, ok?, payload)]"""
    states = [(st, ())]
    out = []
    for p in parts:
        nxt = []
        for s, acc in states:
            if p[0] == 'e':
                for s2, ok, y in split(s, p[1]):
                    if ok:
                        nxt.append((s2, acc + (('e', y),)))
                    else:
                        out.append((s2, y))
                continue
            cases = p[2] if p[0] == 'm' else (((), (('e', ('elem', p[1])),)),)
            okc = []
            for facts, sub in cases:
                base = s.fork()
                if not apply_case(I, base, facts):
                    continue
                subs = [(base, ())]
                for q in sub:
                    if q[0] != 'e':
                        subs = [(b, acc2 + (q,)) for b, acc2 in subs]
                        continue
                    ns = []
                    for b, acc2 in subs:
                        for b2, ok, y in split(b, q[1]):
                            if ok:
                                ns.append((b2, acc2 + (('e', I.val(b2, y)),)))
                            else:
                                out.append((b2, y))
                    subs = ns
                for b, acc2 in subs:
                    okc.append((I.facts_diff(s.facts, b.facts), acc2))
            if okc:
                nxt.append((s, acc + (('m', p[1], tuple(okc)),)))
            else:
                # every element fails: only an empty source gets through
                s2 = s.fork()
                if I.assume(s2, ('empty', p[1]), True):
                    nxt.append((s2, acc))
        states = nxt
    return states, out


def collection(I, s, ps, ds):
    v = mkseq(ps)
    if ds.startswith('alloc::vec::Vec<') or ds.startswith(('alloc::boxed::Box<[', 'cosmwasm_std::binary')):
        return v
    if ds.startswith('alloc::string::String'):
        if all(p[0] == 'e' for p in ps):
            return mkcat(tuple(p[1] for p in ps))
        return ('app', 'string_of', v)
    if ds == '()' :
        return UNIT
    return ('app', 'collect<%s>' % ds, v)


def do_collect(I, s, ps, tid):
    t = I.p.types[tid]
    ds = t['d']
    if t['k'] == 'adt' and t['name'] in (RES, OPT):
        inner = I.p.types[t['args'][0]]['d']
        if t['name'] == RES:
            split = lambda s1, x: [(a, ok, y) for a, ok, y in I.match_res(s1, x)]
        else:
            split = lambda s1, x: [(a, y is not None, y) for a, y in I.match_opt(s1, x)]
        oks, errs = collect_parts(I, s, ps, split)
        res = []
        for s2, q in oks:
            v = collection(I, s2, q, inner)
            res.append(Outcome('ret', s2, I.ok(v) if t['name'] == RES else I.some(v)))
        for s2, e in errs:
            res.append(Outcome('ret', s2, I.err(e) if t['name'] == RES else I.none()))
        return res
    return [Outcome('ret', s, collection(I, s, ps, ds))]


@model(IT + 'collect', 'core::iter::traits::collect::FromIterator::from_iter')
def m_collect(I, st, c):
    out = []
    t = I.p.types[c.dty]
    if I.deref(st, c.args[0])[0] == 'lazy' and t['k'] == 'adt' and t['name'] in (RES, OPT):
        opt = t['name'] == OPT  # what is pending stops with the first failure

        def fn(s1, x):
            alts = [(a, y is not None, y) for a, y in I.match_opt(s1, x)] if opt else I.match_res(s1, x)
            return [Outcome('ret', s2, ('seq', (('e', I.val(s2, y)),))) if ok else
                    Outcome('early', s2, I.none() if opt else I.err(y)) for s2, ok, y in alts]
        for s, ps, apply in sources(I, st, c.args[0], True):
            states, leave = apply(s, fn)
            out += [Outcome('ret', o.st, o.val) if o.kind == 'early' else o for o in leave]
            for s2, q in states:
                v = collection(I, s2, norm_iter(q)[1], I.p.types[t['args'][0]]['d'])
                out.append(Outcome('ret', s2, I.some(v) if opt else I.ok(v)))
        return out
    for s, ps in to_iter(I, st, c.args[0]):
        out += do_collect(I, s, ps, c.dty)
    return out


@model(IT + 'unzip')
def m_unzip(I, st, c):
    out = []
    for s, ps in to_iter(I, st, c.args[0]):
        a, b = [], []
        for p in ps:
            if p[0] == 'e':
                t = I.deref(s, p[1])
                a.append(('e', t[1][0] if t[0] == 'tup' else ('fld', t, '()', '0')))
                b.append(('e', t[1][1] if t[0] == 'tup' else ('fld', t, '()', '1')))
            else:
                cases = p[2] if p[0] == 'm' else (((), (('e', ('elem', p[1])),)),)
                ca, cb = [], []
                for f, sub in cases:
                    ca.append((f, tuple(('e', q[1][1][0] if q[1][0] == 'tup' else ('fld', q[1], '()', '0')) for q in sub)))
                    cb.append((f, tuple(('e', q[1][1][1] if q[1][0] == 'tup' else ('fld', q[1], '()', '1')) for q in sub)))
                a.append(('m', p[1], tuple(ca)))
                b.append(('m', p[1], tuple(cb)))
        out.append(Outcome('ret', s, ('tup', (mkseq(tuple(a)), mkseq(tuple(b))))))
    return out


@model(IT + 'partition')
def m_partition(I, st, c):
    v = I.val(st, mkseq(to_iter(I, st, c.args[0])[0][1]))
    return ret(st, ('tup', (('app', 'partition0', v), ('app', 'partition1', v))))


def m_fold(I, st, c):
    """fold and its early-returning variant"""
    tryf = c.raw.endswith('try_fold')
    out = []
    for s, ps, apply in sources(I, st, c.args[0], tryf):
        cell = I.newcell(s, c.args[1])
        seen = []

        def fn(s1, x):
            res = []
            acc = I.read_cell(s1, cell)
            for o in I.call_value(s1, c.args[2], [acc, x]):
                if o.kind != 'ret':
                    res.append(o)
                    continue
                if tryf:
                    dv = I.deref(o.st, o.val)
                    isopt = tydesc(I, c.dty).startswith('core::option')
                    alts = [(a, y is not None, y) for a, y in I.match_opt(o.st, dv)] if isopt else I.match_res(o.st, dv)
                    for s2, ok, y in alts:
                        if ok:
                            s2.mem[cell] = y
                            seen.append(I.facts_diff(s.facts, s2.facts))
                            res.append(Outcome('ret', s2, ('seq', ())))
                        else:
                            res.append(Outcome('early', s2, I.none() if isopt else I.err(y)))
                else:
                    o.st.mem[cell] = o.val
                    res.append(Outcome('ret', o.st, ('seq', ())))
            return res
        states, leave = apply(s, fn)
        for o in leave:
            if o.kind == 'early':
                out.append(Outcome('ret', o.st, o.val))
            else:
                out.append(o)
        for s2, _ in states:
            if any(o.kind == 'early' for o in leave):
                every(s2, ps, seen)
            v = I.read_cell(s2, cell)
            if tryf:
                v = I.some(v) if tydesc(I, c.dty).startswith('core::option') else I.ok(v)
            out.append(Outcome('ret', s2, v))
    return out


EXACT[IT + 'fold'] = m_fold
EXACT[IT + 'try_fold'] = m_fold


def m_for_each(I, st, c):
    tryf = c.raw.endswith('try_for_each')
    out = []
    for s, ps, apply in sources(I, st, c.args[0], tryf):
        seen = []

        def fn(s1, x):
            res = []
            for o in I.call_value(s1, c.args[1], [x]):
                if o.kind != 'ret':
                    res.append(o)
                    continue
                if tryf:
                    isopt = tydesc(I, c.dty).startswith('core::option')
                    alts = [(a, y is not None, y) for a, y in I.match_opt(o.st, o.val)] if isopt else I.match_res(o.st, o.val)
                    for s2, ok, y in alts:
                        if ok:
                            seen.append(I.facts_diff(s.facts, s2.facts))
                            res.append(Outcome('ret', s2, ('seq', ())))
                        else:
                            res.append(Outcome('early', s2, I.none() if isopt else I.err(y)))
                else:
                    res.append(Outcome('ret', o.st, ('seq', ())))
            return res
        states, leave = apply(s, fn)
        for o in leave:
            out.append(Outcome('ret', o.st, o.val) if o.kind == 'early' else o)
        for s2, _ in states:
            if any(o.kind == 'early' for o in leave):
                every(s2, ps, seen)
            v = UNIT
            if tryf:
                v = I.some(UNIT) if tydesc(I, c.dty).startswith('core::option') else I.ok(UNIT)
            out.append(Outcome('ret', s2, v))
    return out


EXACT[IT + 'for_each'] = m_for_each
EXACT[IT + 'try_for_each'] = m_for_each


def quant(stop, text=False):
    """all / any: `stop` is the closure result that ends the search"""
    def f(I, st, c):
        out = []
        if text:  # over the characters of a text
            pat = I.deref(st, c.args[1])
            if pat[0] not in ('clos', 'fnd'):
                return None
            chars = (('s', ('app', 'str::chars', V(I, st, c.args[0]))),)
            its = [(st, chars, lambda s1, fn: map_parts(I, s1, chars, fn))]
        else:
            its = sources(I, st, c.args[0], True)
        for s, ps, apply in its:
            seen = []

            def fn(s1, x):
                res = []
                for o in I.call_value(s1, c.args[1], [x]):
                    if o.kind != 'ret':
                        res.append(o)
                        continue
                    for s2, t in I.branch(o.st, I.deref(o.st, o.val)):
                        if t == stop:
                            res.append(Outcome('early', s2, ('b', stop)))
                        else:
                            seen.append(I.facts_diff(s.facts, s2.facts))
                            res.append(Outcome('ret', s2, ('seq', ())))
                return res
            states, leave = apply(s, fn)
            for o in leave:
                out.append(Outcome('ret', o.st, o.val) if o.kind == 'early' else o)
            for s2, _ in states:
                if any(p[0] != 'e' for p in ps):
                    s2.facts[('b', ('forall', mkseq(ps), tuple(sorted(set(seen), key=repr))))] = True
                out.append(Outcome('ret', s2, ('b', not stop)))
        return out
    return f


EXACT[IT + 'all'] = quant(False)
EXACT[IT + 'any'] = quant(True)
EXACT['str::contains'] = quant(True, True)


@model('str::find', 'str::rfind')
def m_strfind(I, st, c):
    outs = quant(True, True)(I, st, c)
    if outs is None:
        a, b = V(I, st, c.args[0]), V(I, st, c.args[1])
        return [Outcome('ret', s, I.some(('app', 'position', a, ('s', c.raw), b)) if t else I.none())
                for s, t in I.branch(st, ('app', 'str::contains', a, b))]
    for o in outs:
        if o.kind == 'ret':
            o.val = I.some(('app', 'position', V(I, st, c.args[0]))) if o.val == TRUE else I.none()
    return outs


def every(s, ps, seen):
    """none of the elements left the loop: each met one of the conditions for going on"""
    if seen and all(seen) and any(p[0] != 'e' for p in ps):
        s.facts[('b', ('forall', mkseq(ps), tuple(sorted(set(seen), key=repr))))] = True


def m_find(I, st, c):
    nm = c.raw.rsplit('::', 1)[1]
    out = []
    for s, ps, apply in sources(I, st, c.args[0], True):
        seen = []

        def fn(s1, x):
            res = []
            for o in I.call_value(s1, c.args[1], [x]):
                if o.kind != 'ret':
                    res.append(o)
                    continue
                if nm == 'find_map':
                    for s2, y in I.match_opt(o.st, o.val):
                        if y is None:
                            seen.append(I.facts_diff(s.facts, s2.facts))
                        res.append(Outcome('ret', s2, ('seq', ())) if y is None else Outcome('early', s2, I.some(y)))
                    continue
                for s2, t in I.branch(o.st, I.deref(o.st, o.val)):
                    if t:
                        res.append(Outcome('early', s2, I.some(x if nm == 'find' else ('app', 'position', I.val(s2, x)))))
                    else:
                        seen.append(I.facts_diff(s.facts, s2.facts))
                        res.append(Outcome('ret', s2, ('seq', ())))
            return res
        states, leave = apply(s, fn)
        for o in leave:
            out.append(Outcome('ret', o.st, o.val) if o.kind == 'early' else o)
        for s2, _ in states:
            if any(p[0] != 'e' for p in ps):
                s2.facts[('b', ('forall', mkseq(ps), tuple(sorted(set(seen), key=repr))))] = True
            out.append(Outcome('ret', s2, I.none()))
    return out


for n in ('find', 'find_map', 'position'):
    EXACT[IT + n] = m_find


@model(IT + 'last')
def m_itlast(I, st, c):
    out = []
    for s, ps in to_iter(I, st, c.args[0]):
        out += [Outcome('ret', s2, I.none() if x is None else I.some(x)) for s2, x, r in split_last(I, s, mkseq(ps))]
    return out


@model(IT + 'nth')
def m_nth(I, st, c):
    cell, path = I.lref(st, c.args[0])
    v = I.read(st, cell, path)
    i = I.deref(st, c.args[1])
    ps = parts_of(v)
    if i[0] == 'i' and all(p[0] == 'e' for p in ps[:i[1] + 1]):
        if i[1] < len(ps):
            I.write(st, cell, path, ('iter', ps[i[1] + 1:]))
            return ret(st, I.some(ps[i[1]][1]))
        if all(p[0] == 'e' for p in ps):
            return ret(st, I.none())
    x = I.val(st, mkseq(ps))
    I.write(st, cell, path, ('iter', (('s', ('app', 'skip', x, i)),)))
    out = []
    for s, t in I.branch(st, mk_cmp('Lt', i, seq_len(I, st, x))):
        out.append(Outcome('ret', s, I.some(('index', x, i)) if t else I.none()))
    return out


def m_sumlike(I, st, c):
    v = I.val(st, mkseq(to_iter(I, st, c.args[0])[0][1]))
    return ret(st, ('app', c.raw.rsplit('::', 1)[1], v))


for n in ('sum', 'product', 'max', 'min'):
    EXACT[IT + n] = m_sumlike


@model(IT + 'next', 'core::iter::traits::double_ended::DoubleEndedIterator::next_back')
def m_next(I, st, c):
    if local_handwritten(I, c):
        return None
    cell, path = I.lref(st, c.args[0])
    v = I.read(st, cell, path)
    if v[0] == 'lazy':
        return next_lazy(I, st, c, cell, path, v)
    if v[0] == 'adt' and v[1] == RANGE or v[0] not in ('iter',):
        r = to_iter(I, st, v)
        v = ('iter', r[0][1])
        I.write(st, cell, path, v)
    if c.raw.endswith('next_back'):
        ps = v[1]
        if ps and ps[-1][0] == 'e':
            I.write(st, cell, path, ('iter', ps[:-1]))
            return ret(st, I.some(ps[-1][1]))
        x = I.val(st, mkseq(ps))
        out = []
        for s, l, rest in split_last(I, st, x):
            I.write(s, cell, path, ('iter', parts_of(rest)))
            out.append(Outcome('ret', s, I.none() if l is None else I.some(l)))
        return out
    if len(v[1]) == 1 and v[1][0][0] == 's' and v[1][0][1][:2] == ('app', 'rev'):  # from the end
        out = []
        for s, l, rest in split_last(I, st, v[1][0][1][2]):
            rs = parts_of(rest)
            rs = tuple(reversed(rs)) if all(p[0] == 'e' for p in rs) else (('s', ('app', 'rev', I.val(s, rest))),)
            I.write(s, cell, path, ('iter', rs))
            out.append(Outcome('ret', s, I.none() if l is None else I.some(l)))
        return out
    return next_from(I, st, cell, path, v[1])


def next_lazy(I, st, c, cell, path, v):
    base = v[1]
    if v[2] in ('map', 'inspect') and c.raw.endswith('::next'):
        if base[0] == 'ref':
            bc, bp = I.lref(st, base)
        else:
            bc, bp = I.newcell(st, base), ()
            if I.in_loop(cell):
                I.inside.append(({bc: base}, len(st.iterlog)))
        try:
            outs = m_next(I, st, type(c)(c.f, c.name, c.raw, [('ref', bc, bp)], c.atys, c.dty, c.span))
        finally:
            if base[0] != 'ref' and I.in_loop(cell):
                I.inside.pop()
        out = []
        for o in outs or ():
            if o.kind != 'ret':
                out.append(o)
                continue
            if base[0] != 'ref':
                I.write(o.st, cell, path, ('lazy', I.read(o.st, bc, bp), v[2], v[3]))
                del o.st.mem[bc]
            for s, x in I.match_opt(o.st, o.val):
                if x is None:
                    out.append(Outcome('ret', s, I.none()))
                    continue
                for o2 in OPS[v[2]](I, v[3])(s, x):
                    if o2.kind == 'ret':
                        o2.val = I.some(parts_of(o2.val)[0][1])
                    out.append(o2)
        return out
    out = []
    for s, ps in to_iter(I, st, v):
        I.write(s, cell, path, ('iter', ps))
        out += m_next(I, s, c)
    return out


def active(I, st, src):
    """is an element of this sequence in hand already, in a loop under analysis?"""
    return bool(I.inside) and src in st.iterlog[I.inside[0][1]:]


def again(p):
    """another pass over the same sequence: its elements are not those of the pass in progress"""
    src = p[1]
    new = ('app', 'again', src)
    if p[0] == 's':
        return ('s', new)

    def rw(v):
        if v in (('elem', src), ('idx', src), ('prefix', src)):
            return (v[0], new)
        return tuple(rw(x) if isinstance(x, tuple) else x for x in v) if isinstance(v, tuple) else v
    return ('m', new, tuple((tuple(rw(f) for f in facts), rw(sub)) for facts, sub in p[2]))


def first_of(I, st, ps):
    """[(state, first element or None, what follows)] of a sequence no loop goes round with"""
    if not ps:
        return [(st, None, ())]
    p = ps[0]
    if p[0] == 'e':
        return [(st, p[1], ps[1:])]
    src = p[1]
    base, k = (src[2], src[3][1]) if src[:2] == ('app', 'skip') and src[3][0] == 'i' else (src, 0)
    rest = ('app', 'skip', base, ('i', k + 1))
    cond = mk_empty(base) if k == 0 else mk_not(mk_cmp('Lt', ('i', k), seq_len(I, st, base)))
    out = []
    if p[0] == 's':
        for s, e in I.branch(st, cond):
            out += first_of(I, s, ps[1:]) if e else [(s, I.index_val(s, base, ('i', k)), (('s', rest),) + ps[1:])]
        return out
    if all(len(sub) == 1 and sub[0][0] == 'e' for _, sub in p[2]) and not mentions(p[2], ('prefix', src)):
        def at(v, x, i):
            return subst(subst(v, ('elem', src), x), ('idx', src), i)
        tail = (('m', rest, at(p[2], ('elem', rest), arith('add', ('idx', rest), ('i', 1)))),) + ps[1:]
        for s, e in I.branch(st, cond):
            if e:
                out += first_of(I, s, ps[1:])
                continue
            x = I.index_val(s, base, ('i', k))
            for facts, sub in at(p[2], x, ('i', 0)):
                s2 = s.fork()
                if apply_case(I, s2, facts):
                    out.append((s2, sub[0][1], tail))
        return out
    tail = (('s', ('app', 'after_first', I.val(st, mkseq((p,))))),) + ps[1:]
    for facts, sub in p[2]:
        s = st.fork()
        if sub and apply_case(I, s, facts):
            s.iterlog = s.iterlog + (src,)
            out.append((s, sub[0][1] if len(sub) == 1 and sub[0][0] == 'e' else ('app', 'some_of', ('seq', sub)), tail))
    I.finish_src(st, src)
    return out + first_of(I, st, ps[1:])


def next_from(I, st, cell, path, ps):
    if not I.in_loop(cell):
        out = []
        for s, x, rest in first_of(I, st, ps):
            I.write(s, cell, path, ('iter', rest))
            out.append(Outcome('ret', s, I.none() if x is None else I.some(x)))
        return out
    if not ps:
        I.write(st, cell, path, ('iter', ()))
        return ret(st, I.none())
    p = ps[0]
    if p[0] == 'e':
        I.write(st, cell, path, ('iter', ps[1:]))
        return ret(st, I.some(p[1]))
    while active(I, st, p[1]):
        p = again(p)
    src = p[1]
    out = []
    cases = p[2] if p[0] == 'm' else (((), (('e', ('elem', src)),)),)
    for facts, sub in cases:
        s = st.fork()
        if not apply_case(I, s, facts):
            continue
        s.iterlog = s.iterlog + (src,)
        if len(sub) == 1 and sub[0][0] == 'e':
            I.write(s, cell, path, ('iter', ps))
            out.append(Outcome('ret', s, I.some(sub[0][1])))
        elif sub:
            I.write(s, cell, path, ('iter', ps))
            out.append(Outcome('ret', s, I.some(('app', 'some_of', ('seq', sub)))))
    s = st
    I.finish_src(s, src)
    out += next_from(I, s, cell, path, ps[1:])
    return out


# ---------------------------------------------------------------- panics
for n in ('core::panicking::panic', 'core::panicking::panic_fmt', 'core::panicking::unreachable_display',
          'core::panicking::panic_explicit', 'std::rt::begin_panic', 'core::option::unwrap_failed', 'core::option::expect_failed',
          'core::result::unwrap_failed', 'core::panicking::unreachable_default_msg', 'std::process::abort', 'std::process::exit'):
    EXACT[n] = lambda I, st, c: [Outcome('panic', st, None, ('panic', c.raw, c.span))]


@model('core::option::Option::unwrap', 'core::option::Option::expect')
def m_unwrap(I, st, c):
    out = []
    for s, x in I.match_opt(st, c.args[0]):
        out.append(Outcome('ret', s, x) if x is not None else Outcome('panic', s, None, ('unwrap on None', c.span)))
    return out


@model('core::result::Result::unwrap', 'core::result::Result::expect')
def m_unwrapr(I, st, c):
    out = []
    for s, ok, x in I.match_res(st, c.args[0]):
        out.append(Outcome('ret', s, x) if ok else Outcome('panic', s, None, ('unwrap on Err', c.span)))
    return out
