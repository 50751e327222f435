from .base import *

OWN, STATE, CHAN, OPTS = 'ownership', 'state', 'ica_channel', 'channel_open_init_options'
ALLOW_OPEN, ALLOW_CLOSE, QUERY, PENDING, CINFO = ('allow_channel_open_init', 'allow_channel_close_init', 'pending_query',
                                                 'pending_queries', 'contract_info')
STORED_TY = {OWN: 'cw_ownable::Ownership', STATE: 'contract::State', CHAN: 'ChannelState',
             OPTS: 'ChannelOpenInitOptions', CINFO: 'cw2::ContractVersion'}
MUTATING = ['instantiate', 'execute', 'reply', 'migrate', 'ibc_channel_open', 'ibc_channel_connect', 'ibc_channel_close',
            'ibc_packet_receive', 'ibc_packet_ack', 'ibc_packet_timeout']
ALL = MUTATING + ['query']
NO_CHANGE_ENTRIES = ['query']


def A(w, entry, path):
    """a part of an argument, e.g. A(w,'execute','info.sender')"""
    mod, names = ENTRIES[entry]
    it = w.fn(mod + '::' + entry)
    if it is None:
        raise Inconclusive('entry point %s not found' % entry)
    head, _, rest = path.partition('.')
    i = names.index(head)
    return w.path(('in', head), it['in'][i], rest)


def S(w, path):
    """a part of a stored item, e.g. S(w,'state.ica_info')"""
    head, _, rest = path.partition('.')
    ty = STORED_TY.get(head)
    if not rest:
        return STORED(head)
    return w.path(STORED(head), ty if ty in w.p.adts else w.adt(ty), rest)


def NV(row, path):
    """a part of the value an item has after the call"""
    w = row.w
    head, _, rest = path.partition('.')
    v = row.new_value(head)
    if v is None:
        return ('bad', 'removed')
    if not rest:
        return v
    ty = STORED_TY[head]
    return w.path(v, ty if ty in w.p.adts else w.adt(ty), rest)


def msg_variant(row):
    return row.F.get(('is', ('in', 'msg')))


def fail_closed(rep, rows):
    """every callee with access to storage or the response must be understood"""
    for r in rows:
        u = r.unknown_effects()
        if not rep.need(not u, 'every effect of the call is understood', r, repr(u[:2])[:300]):
            return False
    return True


def floor(rep, n, lo, what, where):
    rep.need(n >= lo, 'there is ' + what, where, '%d found, at least %d expected' % (n, lo))


def unwrap_or(row, t, default, adt=OPT):
    """[(row, value)] of `t.unwrap_or(default)`"""
    out = []
    for r in row.split(t, OPT):
        h = r.head(t)
        out.append((r, h[3][0] if r.variant(t) == 'Some' else default))
    return out


def is_plain(row, sm):
    """a message sent without asking for a reply"""
    m, on, _id, gas = row.sub(sm)
    return on == 'Never' and row.variant(gas) == 'None'


def cosmos(row, m):
    """(kind, payload term) of a CosmosMsg; Stargate and Any are the same thing"""
    w = row.w
    v = row.variant(m)
    return v


def stargate_parts(row, m):
    """(type_url, value) of a CosmosMsg carrying a raw protobuf message"""
    w = row.w
    h = row.head(m)
    if h[0] != 'adt':
        return None
    v = w.vname(h)
    if v == 'Stargate':
        return w.fld(h, h[1], 'Stargate.type_url'), w.fld(h, h[1], 'Stargate.value')
    if v == 'Any':
        a = h[3][0]
        return w.fld(a, 'AnyMsg', 'type_url'), w.fld(a, 'AnyMsg', 'value')
    return None


def type_url_of(row, t):
    """constant string or ('type_url', rust type)"""
    t = row.head(t)
    return t[1] if t[0] == 's' else t


OPEN_INIT_URL = '/ibc.core.channel.v1.MsgChannelOpenInit'


def is_url(w, u, full, suffix):
    """u names the protobuf message `full` ('/pkg.Name'), literally or through the Rust type's own name"""
    if u == full:
        return True
    return isinstance(u, tuple) and u[0] == 'type_url' and (u[1] == suffix or u[1].endswith('::' + suffix))


def is_open_init(row, sm):
    m = row.sub(sm)[0]
    sp = stargate_parts(row, m)
    return bool(sp) and is_url(row.w, type_url_of(row, sp[0]), OPEN_INIT_URL, 'ibc::core::channel::v1::MsgChannelOpenInit')


def proto_arg(row, v):
    """the message a byte string is the protobuf encoding of"""
    v = row.head(v)
    return v[1] if v[0] == 'proto' else None


def json_arg(row, v):
    v = row.head(v)
    return v[1] if v[0] == 'json' else None


def wasm_execute(row, m):
    """(contract, msg, funds) of a WasmMsg::Execute"""
    h = row.head(m)
    if h[0] != 'adt' or row.w.vname(h) != 'Wasm':
        return None
    x = row.head(h[3][0])
    if x[0] != 'adt' or row.w.vname(x) != 'Execute':
        return None
    f = lambda l: row.w.fld(x, x[1], 'Execute.' + l)
    return f('contract_addr'), f('msg'), f('funds')


def callback_of(row, sm):
    """(address, callback message term, funds) of a plain callback message"""
    e = wasm_execute(row, row.sub(sm)[0])
    if not e:
        return None
    j = json_arg(row, e[1])
    if j is None:
        return None
    j = row.head(j)
    if j[0] == 'adt' and row.w.vname(j) == 'ReceiveIcaCallback':
        return e[0], row.head(j[3][0]), e[2]
    return None


def neg_fact(row, pred):
    """some condition known false that satisfies pred"""
    return any(k[0] == 'b' and v is False and pred(k[1]) for k, v in row.F.items())


def pos_fact(row, pred):
    return any(k[0] == 'b' and v is True and pred(k[1]) for k, v in row.F.items())


def unequal(row, a, b):
    """a != b is known: as a whole, or in some corresponding part"""
    if row.eq(a, b) is False:
        return True

    def part_of(t, base):
        suf = []
        while t != base:
            if t[0] != 'fld':
                return None
            suf.append(t[3])
            t = t[1]
        return suf
    for k, v in row.F.items():
        if k[0] == 'b' and v is False and k[1][0] == 'eq':
            for x, y in ((k[1][1], k[1][2]), (k[1][2], k[1][1])):
                sx, sy = part_of(x, a), part_of(y, b)
                if sx is not None and sx == sy:
                    return True
        # parts with different variants
        if k[0] == 'is':
            sx = part_of(k[1], a)
            if sx is not None:
                y = b
                t2 = rebuild(k[1], a, b)
                if row.not_variant(t2, v):
                    return True
        if k[0] == 'nis':
            sx = part_of(k[1], a)
            if sx is not None and row.variant(rebuild(k[1], a, b)) in v:
                return True
            sx = part_of(k[1], b)
            if sx is not None and row.variant(rebuild(k[1], b, a)) in v:
                return True
    return False


def rebuild(t, a, b):
    return subst(t, a, b)


def all_eq(row, a, b, adt, depth=0):
    """a == b is known: as a whole or field by field"""
    if row.eq(a, b) is True:
        return True
    w = row.w
    name = adt if adt in w.p.adts else None
    if name is None or depth > 4:
        return False
    d = w.p.adts[name]
    if d['kind'] != 'struct':
        va, vb = row.variant(a), row.variant(b)
        if va is None or va != vb:
            return False
        v = d['variants'][w.p.vindex(name, va)]
        pre = va + '.'
    else:
        v, pre = d['variants'][0], ''
    for f, ty in zip(v['fields'], v['ftys']):
        tn = split_generic(ty)[0]
        if not all_eq(row, w.fld(a, name, pre + f), w.fld(b, name, pre + f), tn, depth + 1):
            return False
    return True


def unreadable(row, *names):
    """one of the named items is known to be absent or undecodable"""
    return any(row.stored(n) in ('none', 'bad') for n in names)


def unreadable_map(row, name):
    return any(k[0] == 'stored' and k[1][0] == 'map' and k[1][1] == ('s', name) and v == 'bad' for k, v in row.F.items())


def metadata_facts(rep, row, M, conn, what, need_address):
    """the ICS-27 metadata M has been validated against connection `conn`"""
    w = row.w
    f = lambda l: w.fld(M, 'IcaMetadata', l)
    rep.need(row.eq(f('version'), ('s', 'ics27-1')) is True, what + ': version must be ics27-1', row)
    rep.need(row.eq(f('controller_connection_id'), conn) is True, what + ": controller connection must be the channel's", row)
    rep.need(row.variant(f('encoding')) == 'Protobuf', what + ': encoding must be proto3', row)
    rep.need(row.eq(f('tx_type'), ('s', 'sdk_multi_msg')) is True, what + ': transaction type must be sdk_multi_msg', row)
    addr = f('address')
    emp = row.holds(mk_empty(addr))
    if need_address:
        rep.need(emp is False, what + ': the address must not be empty', row)
    if emp is not True:
        rep.need(valid_address(row, addr), what + ': a non-empty address must be valid', row)


def valid_address(row, addr):
    ln = row.holds(('lt', ('i', 128), ('len', addr))) is False
    if not ln:
        # any tighter bound
        for k, v in row.F.items():
            if k[0] == 'b' and k[1][0] == 'lt' and k[1][2] == ('len', addr) and k[1][1][0] == 'i' and v is False and k[1][1][1] <= 128:
                ln = True
    al = False
    for k, v in row.F.items():
        if k[0] == 'b' and v is True and k[1][0] == 'forall' and mentions(k[1][1], addr):
            src, cases = k[1][1], k[1][2]
            good = bool(cases)
            for case in cases:
                conds = [(c, cv) for c, cv in case]
                hit = any(cv is True and alnum(c, src) for c, cv in conds)
                good = good and hit
            al = al or good
    return ln and al


def alnum(c, src):
    """c is a condition implying that the element of src is alphanumeric"""
    if c[0] == 'b' and isinstance(c[1], tuple):
        c = c[1]
    return c[0] == 'app' and 'alphanumeric' in c[1] and mentions(c, ('elem', src))
