"""C27 (storage layout), C28 (wire formats), C34 (message API): JSON and protobuf formats."""
from .common import *
from engine.shape import Shapes, ShapeError, generic
from .wire_table import WIRE, STORED, API

PB = {
    'MsgModuleQuerySafe': {1: ('signer', 'string'), 2: ('requests', 'message* AbciQueryRequest')},
    'AbciQueryRequest': {1: ('path', 'string'), 2: ('data', 'bytes')},
    'MsgModuleQuerySafeResponse': {1: ('height', 'uint64'), 2: ('responses', 'bytes*')},
}
PB_NAME = {'MsgModuleQuerySafe': ('MsgModuleQuerySafe', 'ibc.applications.interchain_accounts.host.v1')}


class Cmp:
    """compares an actual shape with the released one"""

    def __init__(self, rep, what, where, mode):
        self.rep, self.what, self.where, self.mode = rep, what, where, mode
        self.exact = mode == 'wire'

    def need(self, c, rule, path, detail=''):
        self.rep.need(c, '%s: %s' % (self.what, rule), self.where, '%s%s' % (path or 'top level', ': ' + detail if detail else ''))
        return c

    def labels(self, a, e, path):
        """the same names on the Rust side must keep the same names in JSON"""
        la, le = {v[0] for v in a.values()}, {v[0] for v in e.values()}
        if None in la or la != le and not (self.mode != 'wire' and le <= la):
            if None in la:
                self.need(False, 'every name carries a field of the value', path)
            return
        for k in e:
            if k in a:
                self.need(a[k][0] == e[k][0], 'every name carries the value it is released with', path + '.' + k,
                          'carries %s instead of %s' % (a[k][0], e[k][0]))

    def go(self, a, e, path='', read=False):
        if a[0] == 'rec' or e[0] == 'rec':
            return
        if e[0] == 'null':
            if not self.need(a[0] in ('null', 'opt'), 'null is accepted where it was', path):
                return
            e, a = e[1], a[1] if a[0] == 'null' or e[1][0] != 'opt' else a
        elif a[0] == 'null':
            a = a[1]
        if not self.need(a[0] == e[0], 'the JSON type is the released one', path, '%s instead of %s' % (brief(a), brief(e))):
            return
        k = e[0]
        if k in ('prim', 'leaf'):
            self.need(a[1] == e[1], 'the JSON type is the released one', path, '%s instead of %s' % (a[1], e[1]))
        elif k in ('opt', 'array'):
            self.go(a[1], e[1], path + ('[]' if k == 'array' else ''), read)
        elif k == 'tuple':
            if self.need(len(a[1]) == len(e[1]), 'the JSON type is the released one', path):
                for i, (x, y) in enumerate(zip(a[1], e[1])):
                    self.go(x, y, path + '[%d]' % i, read)
        elif k == 'struct':
            self.labels(a[1], e[1], path)
            for n, (lab, sh, pres) in e[1].items():
                if not self.need(n in a[1], 'every released name is %s' % ('accepted' if read else 'written'), path + '.' + n, 'missing'):
                    continue
                x = a[1][n]
                self.go(x[1], sh, path + '.' + n, read)
                if read:
                    self.need(not x[2].startswith('optional: '), 'a value left out is read as its default', path + '.' + n, x[2])
                    self.need(pres == 'required' or x[2] != 'required', 'a value that may be left out stays optional', path + '.' + n)
                elif self.mode != 'stored':
                    self.need(x[2] == pres, 'a value is left out exactly when it is absent, as released',
                              path + '.' + n, '%s instead of %s' % (x[2], pres))
            for n, x in a[1].items():
                if n in e[1]:
                    continue
                if read:
                    self.need(x[2] != 'required', 'no new value is required', path + '.' + n)
                elif self.exact:
                    self.need(False, 'no unknown name is written', path + '.' + n)
        elif k == 'enum':
            self.labels(a[1], e[1], path)
            for n, (lab, sh) in e[1].items():
                if self.need(n in a[1], 'every released name is %s' % ('accepted' if read else 'written'), path + '.' + n, 'missing'):
                    self.go(a[1][n][1], sh, path + '.' + n, read)
            for n in a[1]:
                if n not in e[1] and self.exact and not read:
                    self.need(False, 'no unknown name is written', path + '.' + n)
        elif k == 'unit':
            pass


def brief(s):
    return s[0] if s[0] not in ('prim', 'leaf') else str(s[1])


def roundtrip(rep, what, where, a, b, path=''):
    """what is written (a) is accepted by the reader (b) as the same value"""
    need = lambda c, d='': rep.need(c, '%s: what is written is read back as the same value' % what, where, '%s %s' % (path or 'top level', d))
    if 'rec' in (a[0], b[0]):
        return
    if b[0] == 'null':
        b = b[1]
    if b[0] == 'opt' and a[0] != 'opt':
        b = b[1]
    if not need(a[0] == b[0], '%s / %s' % (brief(a), brief(b))):
        return
    k = a[0]
    if k in ('prim', 'leaf'):
        need(a[1] == b[1])
    elif k in ('opt', 'array'):
        roundtrip(rep, what, where, a[1], b[1], path)
    elif k == 'tuple':
        for x, y in zip(a[1], b[1]):
            roundtrip(rep, what, where, x, y, path + '[]')
    elif k == 'struct':
        for n, (lab, sh, pres) in a[1].items():
            y = b[1].get(n)
            if y is None:
                need(False, 'the name %r is not read' % n)
                continue
            need(lab == y[0], '%r is written from %s and read into %s' % (n, lab, y[0]))
            need(pres == 'always' or y[2] == 'optional', '%r can be missing but is %s' % (n, y[2]))
            need(pres != 'sometimes', '%r is left out while it has a value' % n)
            roundtrip(rep, what, where, sh, y[1], path + '.' + n)
        for n, y in b[1].items():
            if y[2] == 'required':
                need(n in a[1], '%r is required but never written' % n)
    elif k == 'enum':
        for n, (lab, sh) in a[1].items():
            y = b[1].get(n)
            if need(y is not None and y[0] == lab, 'variant %r' % n):
                roundtrip(rep, what, where, sh, y[1], path + '.' + n)


def shapes(w):
    if not hasattr(w, '_shapes'):
        w._shapes = Shapes(w.p)
    return w._shapes


def guarded(rep, what, where, f):
    try:
        return f()
    except ShapeError as e:
        raise Inconclusive('%s: %s' % (what, e))


def map_key(t):
    return t.replace(' ', '').replace("&'static", '&').replace('&str', 'S').replace('alloc::string::String', 'S').replace('&cosmwasm_std::addresses::Addr', 'S').replace('cosmwasm_std::addresses::Addr', 'S')


def c27(w, rep):
    S = shapes(w)
    I = w.I
    st = St()
    # every storage object of the crate: constants, statics, and those made inside functions
    found = {}
    n = 0
    for it in w.p.items:
        ty = str(it.get('ty', ''))
        if it['kind'] in ('const', 'static') and 'cw_storage_plus::' in ty and it['path'].startswith(w.crate):
            n += 1
            v = I.eval_const(st, it['key'])
            if v[0] not in ('item', 'map') or v[1][0] != 's':
                raise Inconclusive('storage object %s: %s' % (it['path'], ty))
            found.setdefault((v[0], v[1][1], ty), it['path'])
    for e in ENTRIES:
        w.rows(e)
    for J in w.interps:
        for (kind, key, ty), span in J.stores.items():
            if key[0] == 's':
                found.setdefault((kind, key[1], ty), span)
            else:
                rep.need(False, 'storage keys are constants', span, 'computed key of %s' % ty)
    rep.sample('storage objects: ' + ', '.join(sorted('%s %r' % k[:2] for k in found)))
    by = {}
    for (kind, key, ty), where in found.items():
        n0, a = generic(ty)
        if not a:
            continue
        by.setdefault(key, {}).setdefault((kind, tuple(a)), where)
    own = {'ownership': 'cw_ownable', 'contract_info': 'cw2'}
    for key, uses in by.items():
        shapes_ = set()
        for (kind, a), where in uses.items():
            if key in own and not where.startswith(w.crate):
                continue
            shapes_.add((kind, map_key(a[0]) if kind == 'map' else None, str(S.shape(a[-1]))))
            rep.need(key not in own, 'no two stored items share a key', where, 'key %r is used by %s' % (key, own.get(key)))
        rep.need(len(shapes_) <= 1, 'no two stored items share a key', '; '.join(sorted(uses.values())), 'key %r' % key)
    consts = {}
    for it in w.p.items:
        if it['kind'] in ('const', 'static') and 'cw_storage_plus::' in str(it.get('ty', '')) and it['path'].startswith(w.crate):
            consts.setdefault(I.eval_const(st, it['key'])[1][1], []).append((it['path'], it['ty']))
    for key, cs in consts.items():
        tys = {t for _, t in cs}
        rep.need(sum(defines(w, p) for p, _ in cs) <= 1, 'no two stored items share a key', '; '.join(p for p, _ in cs), 'key %r' % key)
    # the released layout
    for (kind, key), e in STORED.items():
        u = by.get(key)
        if not rep.need(bool(u), 'every released item keeps its key', 'storage', '%s %r is gone' % (kind, key)):
            continue
        for (k2, a), where in u.items():
            rep.need(k2 == kind, 'every released item keeps its key', where, '%r is a %s instead of a %s' % (key, k2, kind))
            if k2 != kind:
                continue
            if kind == 'map':
                rep.need(map_key(a[0]) == map_key(e['key']), 'every released map keeps its key type', where, '%r: %s' % (key, a[0]))
            wsh = guarded(rep, key, where, lambda: S.shape(a[-1], True))
            rsh = guarded(rep, key, where, lambda: S.shape(a[-1], False))
            Cmp(rep, 'record %r' % key, where, 'stored').go(wsh, e['write'])
            Cmp(rep, 'record %r' % key, where, 'stored').go(rsh, e['read'], read=True)
            roundtrip(rep, 'record %r' % key, where, wsh, rsh)
            if key == 'state':
                rep.need(rsh[0] != 'struct' or rsh[2] == 'open', 'a contract state with fields of earlier versions stays readable', where)
    # no key is a prefix of another one's map
    maps = [k for k, u in by.items() if any(x[0] == 'map' for x in u)]
    for m in maps:
        for k in by:
            rep.need(k == m or not k.startswith(chr(len(m) >> 8) + chr(len(m) & 255) + m), 'no two stored items overlap', by[k], 'key %r' % k)
    rep.sample('%d generated (de)serializers interpreted, %d paths' % (len(S.analysed), S.paths))


def defines(w, path):
    """this constant makes a storage object of its own, rather than naming another constant"""
    b = w.p.bodies.get(w.p.by_path[path]['key'])
    return any(bl and bl['t'] and bl['t'][0] == 'call' for bl in b['blocks']) if b else True


def find(w, suffix):
    try:
        return w.adt(suffix)
    except Inconclusive:
        return None


def c28(w, rep, extra=None):
    S = shapes(w)
    names = {'packet': 'IcaPacketData', 'metadata': 'IcaMetadata', 'ack': 'acknowledgement::Data', 'callback': 'IcaControllerCallbackMsg'}
    for what, suffix in names.items():
        ty = w.adt(suffix)
        wr = guarded(rep, what, ty, lambda: S.shape(ty, True))
        rd = guarded(rep, what, ty, lambda: S.shape(ty, False))
        Cmp(rep, what, ty, 'wire').go(wr, WIRE[what]['write'])
        Cmp(rep, what, ty, 'wire').go(rd, WIRE[what]['read'], read=True)
        roundtrip(rep, what, ty, wr, rd)
        rep.sample('%s: %s' % (what, ty))
    # the envelope callbacks are sent in
    seen = set()
    for e in ('ibc_packet_ack', 'ibc_packet_timeout', 'ibc_channel_connect'):
        for r in w.oks(e):
            for sm in r.messages() or ():
                x = wasm_execute(r, r.sub(sm)[0])
                j = json_arg(r, x[1]) if x else None
                if j is None:
                    continue
                j = r.head(j)
                if j[0] != 'adt':
                    rep.need(False, 'a callback message is the documented envelope', r)
                    continue
                seen.add(j[1])
    floor(rep, len(seen), 1, 'callback messages', 'packet and channel events')
    for ty in sorted(seen):
        sh = guarded(rep, 'envelope', ty, lambda: S.shape(ty, True))
        ok = sh[0] == 'enum' and set(sh[1]) == {'receive_ica_callback'}
        rep.need(ok, 'a callback message is {"receive_ica_callback": callback}', ty, str(sorted(sh[1]) if sh[0] in ('enum', 'struct') else sh[0]))
        if ok:
            Cmp(rep, 'callback envelope', ty, 'wire').go(sh[1]['receive_ica_callback'][1], WIRE['callback']['write'])
    # protobuf messages of the host's query transaction
    for n, exp in PB.items():
        ty = find(w, 'query_msg::proto::' + n) or find(w, n)
        if ty is None or not w.p.adts[ty]['local']:
            continue
        wr, rd = guarded(rep, n, ty, lambda: S.pb(ty))
        for side, m in (('written', wr), ('read', rd)):
            m = {t: (v if isinstance(v, str) else (v[0], ' '.join(p.rsplit('::', 1)[-1] for p in v[1].split(' ')))) for t, v in m.items()}
            labs = {v[0] for v in exp.values()}
            same = {v[0] for v in m.values() if not isinstance(v, str)} == labs
            for t, (lab, kind) in exp.items():
                v = m.get(t)
                rep.need(v is not None and v[1] == kind and (not same or v[0] == lab), 'protobuf message %s: field %d is %s' % (n, t, kind), ty,
                         '%s as %s' % (side, v))
            for t in m:
                rep.need(t in exp, 'protobuf message %s has no other fields' % n, ty, '%s: %s' % (t, m[t]))
        if n in PB_NAME:
            st = St()
            base = '<%s as prost::name::Name>::' % ty
            got = tuple(w.I.eval_const(st, base + c) if (base + c) in w.p.bodies else None for c in ('NAME', 'PACKAGE'))
            rep.need(got == tuple(('s', x) for x in PB_NAME[n]), 'protobuf message %s has the type name of the host chain' % n, ty, str(got))
            for f in ('full_name', 'type_url'):
                k = base + f
                if k in w.p.bodies:
                    want = ('/' if f == 'type_url' else '') + PB_NAME[n][1] + '.' + PB_NAME[n][0]
                    outs = Interp(w.p).analyse(k, [])
                    rep.need(all(o.kind == 'ret' and o.val == ('s', want) for o in outs), 'protobuf message %s has the type name of the host chain' % n, ty, f)
        rep.sample('protobuf %s: written %s' % (n, wr))
    open_callback(w, rep)
    for n, x in extra or ():
        if n == 'macro':
            if rep.need(x is not None, 'a receiver written with the macro as documented compiles', 'derive: ica_callback_execute'):
                macro(x, rep)
        else:
            open_callback(x, rep)


def open_callback(w, rep):
    """a receiver built without the query feature takes the callbacks of a controller built with it"""
    ty = w.adt('IcaControllerCallbackMsg')
    rd = guarded(rep, 'callback', ty, lambda: shapes(w).shape(ty, False))
    for tag, (lab, sh) in (rd[1] if rd[0] == 'enum' else {}).items():
        rep.need(sh[0] == 'struct' and sh[2] == 'open', 'a callback with additional values is still accepted', ty, tag)
        if 'query_result' in sh[1]:
            rep.need(sh[1]['query_result'][2] == 'optional', 'a callback without query results is still accepted', ty, tag)


def macro(w, rep):
    """the enums of harness/macro, as the macro under analysis expands them"""
    S = shapes(w)
    cb = ('leaf', 'cw_ica_controller::types::callbacks::IcaControllerCallbackMsg')
    string, u64, empty = ('prim', 'string'), ('prim', 'u64'), ('struct', {})
    own = {'Receiver': {'plain': ('Plain', ('struct', {})), 'named': ('Named', ('struct', {'first': ('first', ('prim', 'string'), 'always'), 'second': ('second', ('prim', 'u64'), 'always')})),
                        'tuple': ('Tuple', ('prim', 'bool'))}, 'OnlyCallbacks': {},
           'Single': {'other_name': ('Renamed', ('struct', {'value': ('value', ('opt', u64), 'always')}))},
           'Neighbours': {'receive': ('Receive', string), 'receive_nft': ('ReceiveNft', ('struct', {'token_id': ('token_id', string, 'always')})),
                          'receive_ica': ('ReceiveIca', u64), 'ica_callback': ('IcaCallback', empty), 'callback': ('Callback', ('prim', 'bool')),
                          'execute': ('Execute', empty), 'send_ica_callback': ('SendIcaCallback', string)},
           'Units': {k: (k.capitalize(), ('unit',)) for k in ('start', 'stop', 'pause', 'resume')},
           'Many': {'v%d' % i: ('V%d' % i, u64 if i % 2 else empty) for i in range(1, 41)}}
    for n, vs in own.items():
        ty = w.adt(n)
        wr = guarded(rep, n, ty, lambda: S.shape(ty, True))
        rd = guarded(rep, n, ty, lambda: S.shape(ty, False))
        for sh in (wr, rd):
            rep.need(sh[0] == 'enum' and [v[1] for k, v in sh[1].items() if k == 'receive_ica_callback'] == [cb],
                     'the macro adds a receive_ica_callback variant carrying the callback', 'derive: ica_callback_execute', str(sorted(sh[1])))
            rep.need(sh[0] == 'enum' and set(sh[1]) == set(vs) | {'receive_ica_callback'}, "the macro keeps the enum's own variants", 'derive: ica_callback_execute',
                     str(sorted(sh[1])))
        if wr[0] == 'enum':
            own_ = {k: v for k, v in wr[1].items() if k in vs}
            Cmp(rep, 'receiver', 'derive: ica_callback_execute', 'wire').go(('enum', own_), ('enum', vs))
        roundtrip(rep, 'receiver', 'derive: ica_callback_execute', wr, rd)


def c34(w, rep):
    S = shapes(w)
    for n, e in API.items():
        if n in ('ChannelState', 'State'):
            ty = w.adt('state::channel::ChannelState' if n == 'ChannelState' else 'state::contract::State')
        else:
            ty = w.adt('types::msg::' + n)
        if 'read' in e:
            rd = guarded(rep, n, ty, lambda: S.shape(ty, False))
            Cmp(rep, n, ty, 'api').go(rd, e['read'], read=True)
        if 'write' in e:
            wr = guarded(rep, n, ty, lambda: S.shape(ty, True))
            Cmp(rep, n, ty, 'api').go(wr, e['write'])
        if 'read' in e:
            wr = guarded(rep, n, ty, lambda: S.shape(ty, True))
            roundtrip(rep, n, ty, wr, rd)
    rep.sample('%d generated (de)serializers interpreted, %d paths' % (len(S.analysed), S.paths))
