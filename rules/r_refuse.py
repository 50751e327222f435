"""C35: what should be accepted is accepted: every refusing path has one of the documented reasons."""
from .common import *
from .r_convert import send_conversions, send_queries

META = 'from_json<'


def unusable(r, *names):
    return unreadable(r, *names)


def damaged(r):
    """some stored value cannot be decoded"""
    return any(k[0] == 'stored' and v == 'bad' for k, v in r.F.items())


def not_owner(w, r):
    o = S(w, 'ownership.owner')
    return unreadable(r, OWN) or r.variant(o) == 'None' or r.eq(S(w, 'ownership.owner.Some.0'), A(w, 'execute', 'info.sender')) is False


def metadata_of(r, text):
    """('err',) / ('ok', M) / None: what is known about parsing `text` as metadata"""
    for k, v in r.F.items():
        if k[0] == 'is' and k[1][0] == 'app' and k[1][1].startswith(META) and k[1][1].endswith('::IcaMetadata>') and r.same(k[1][2], text):
            return ('ok', ('fld', k[1], RES, 'Ok.0')) if v == 'Ok' else ('err',)
    return None


def bad_address(r, addr):
    for k, v in r.F.items():
        if k[0] != 'b':
            continue
        c = k[1]
        if c[0] == 'lt' and v is True and c[2] == ('len', addr) and c[1][0] == 'i' and c[1][1] >= 128:
            return True
        if c[0] == 'lt' and v is False and c[1] == ('len', addr) and c[2][0] == 'i' and c[2][1] >= 129:
            return True
        if c[0] == 'forall' and v is False and mentions(c[1], addr):
            src = c[1]
            if c[2] and all(case and all(cv is True and alnum(x, src) for x, cv in case) for case in c[2]):
                return True
        if v is False and c[0] == 'app' and 'alphanumeric' in c[1] and mentions(c, addr) and is_elem_of(c, addr):
            return True
    return False


def is_elem_of(c, addr):
    found = []

    def go(t):
        if isinstance(t, tuple) and t:
            if t[0] == 'elem' and mentions(t, addr):
                found.append(t)
            for x in t:
                go(x)
    go(c)
    return bool(found)


def bad_metadata(r, M, conn):
    w = r.w
    f = lambda l: w.fld(M, 'IcaMetadata', l)
    return r.eq(f('version'), ('s', 'ics27-1')) is False or r.eq(f('controller_connection_id'), conn) is False or \
        r.not_variant(f('encoding'), 'Protobuf') or r.eq(f('tx_type'), ('s', 'sdk_multi_msg')) is False or \
        (r.holds(mk_empty(f('address'))) is not True and bad_address(r, f('address')))


def is_open(w, r):
    return r.stored(CHAN) == 'some' and r.variant(S(w, 'ica_channel.channel_status')) == 'Open'


def refusals(w, e):
    return [r for r in w.rows(e) if r.kind in ('err', 'panic')]


def invalid_addr(r, t):
    """the chain refused address t"""
    return any(k[0] == 'is' and v == 'Err' and k[1][0] == 'app' and 'addr_validate' in k[1][1] and r.same(k[1][-1], t) for k, v in r.F.items())


def c35(w, rep):
    for e in ('instantiate', 'execute', 'reply', 'migrate', 'ibc_channel_open', 'ibc_channel_connect'):
        fail_closed(rep, w.oks(e))
    # instantiation
    for r in refusals(w, 'instantiate'):
        a = lambda p: A(w, 'instantiate', p)
        o, c = a('msg.owner'), a('msg.send_callbacks_to')
        why = (r.variant(o) == 'Some' and invalid_addr(r, ('fld', o, OPT, 'Some.0'))) or \
            (r.variant(o) == 'None' and invalid_addr(r, a('info.sender'))) or \
            (r.variant(c) == 'Some' and invalid_addr(r, ('fld', c, OPT, 'Some.0')))
        rep.need(why, 'an instantiation is refused only for an invalid address', r)
    # owner's messages
    e0 = send_conversions(w)[1]
    q0 = send_queries(w)[1]
    for r in refusals(w, 'execute'):
        k = msg_variant(r)
        a = lambda p: A(w, 'execute', 'msg.%s.%s' % (k, p))
        if k == 'UpdateOwnership':
            rep.need(ownership(w, r), 'an ownership update is refused only for a documented reason', r)
            continue
        why = not_owner(w, r)
        if k == 'CreateChannel':
            o = a('channel_open_init_options')
            why = why or (r.variant(o) == 'None' and unreadable(r, OPTS)) or r.stored(OPTS) == 'bad'
        elif k == 'CloseChannel':
            why = why or unreadable(r, CHAN) or r.not_variant(S(w, 'ica_channel.channel_status'), 'Open')
        elif k == 'UpdateCallbackAddress':
            c = a('callback_address')
            why = why or unreadable(r, STATE) or (r.variant(c) == 'Some' and invalid_addr(r, ('fld', c, OPT, 'Some.0')))
        elif k == 'SendCosmosMsgs':
            info = S(w, 'state.ica_info')
            why = why or unreadable(r, STATE) or r.variant(info) == 'None' or r.not_variant(S(w, 'state.ica_info.Some.0.encoding'), 'Protobuf') or \
                refused_element(r, e0) or refused_element(r, q0) or late(w, r)
        rep.need(why, 'a request of the owner is refused only for a documented reason', r)
    # handshake
    for r in refusals(w, 'ibc_channel_open'):
        if msg_variant(r) == 'OpenTry':
            continue
        ch = lambda p: A(w, 'ibc_channel_open', 'msg.OpenInit.channel.' + p)
        version, conn = ch('version'), ch('connection_id')
        why = unreadable(r, ALLOW_OPEN) or r.holds(STORED(ALLOW_OPEN)) is False or \
            r.eq(ch('counterparty_endpoint.port_id'), ('s', 'icahost')) is False or r.stored(CHAN) == 'bad' or is_open(w, r)
        if not why:
            emp = r.holds(mk_empty(version))
            if emp is False:
                m = metadata_of(r, version)
                why = m is not None and (m[0] == 'err' or bad_metadata(r, m[1], conn))
            elif emp is True:
                m = metadata_of(r, S(w, 'ica_channel.channel.version')) if r.stored(CHAN) == 'some' else None
                if m is not None and m[0] == 'ok':
                    why = bad_metadata(r, m[1], conn)
                else:
                    why = unreadable(r, OPTS) or r.eq(S(w, OPTS + '.connection_id'), conn) is False
        rep.need(why, 'a requested channel-open-init is refused only for an invalid proposal or an open channel', r)
    for r in refusals(w, 'ibc_channel_connect'):
        if msg_variant(r) == 'OpenConfirm':
            continue
        a = lambda p: A(w, 'ibc_channel_connect', 'msg.OpenAck.' + p)
        m = metadata_of(r, a('counterparty_version'))
        why = unreadable(r, STATE) or r.stored(CHAN) == 'bad' or is_open(w, r) or r.eq(a('channel.endpoint.port_id'), ('s', 'icahost')) is True or \
            (m is not None and (m[0] == 'err' or bad_metadata(r, m[1], a('channel.connection_id')) or
                                r.holds(mk_empty(w.fld(m[1], 'IcaMetadata', 'address'))) is True))
        rep.need(why, 'a channel-open-ack is refused only for invalid metadata or an open channel', r)
    # reply and migration
    for r in refusals(w, 'reply'):
        a = lambda p: A(w, 'reply', p)
        why = r.eq(a('msg.id'), ('i', 1)) is False or r.variant(a('msg.result')) == 'Err' or unreadable(r, STATE, QUERY) or \
            r.variant(S(w, 'state.ica_info')) == 'None' or no_sequence(r) or damaged(r)
        rep.need(why, 'the reply to a query packet is refused only without a sequence number, account or remembered queries', r)
    for r in refusals(w, 'migrate'):
        v, n = S(w, 'contract_info.version'), S(w, 'contract_info.contract')
        why = unreadable(r, CINFO, STATE) or unequal_name(r, n) or semver(r, v) or \
            (r.variant(S(w, 'state.ica_info')) == 'Some' and r.not_variant(S(w, 'state.ica_info.Some.0.encoding'), 'Protobuf'))
        rep.need(why, 'a migration from a lower version is refused only for its name, version or encoding', r)
    rep.sample('refusing paths: ' + ', '.join('%s %d' % (e, len(refusals(w, e))) for e in
                                              ('instantiate', 'execute', 'ibc_channel_open', 'ibc_channel_connect', 'reply', 'migrate')))


def unequal_name(r, n):
    return any(k[0] == 'b' and v is False and k[1][0] == 'eq' and (k[1][1] == n and is_const(k[1][2]) or k[1][2] == n and is_const(k[1][1])) for k, v in r.F.items())


def semver(r, stored):
    """an unparsable version, or stored >= new"""
    def ver(t):
        return t[1] if t[0] == 'fld' and t[3] == 'Ok.0' and t[1][0] == 'app' and 'semver::Version' in t[1][1] else None
    for k, v in r.F.items():
        if k[0] == 'is' and v == 'Err' and k[1][0] == 'app' and 'semver::Version' in k[1][1]:
            return True
        if k[0] == 'b' and k[1][0] in ('lt', 'eq', 'app'):
            c = k[1]
            if c[0] == 'lt':
                a, b = ver(c[1]), ver(c[2])
                if a and b:
                    if v is False and r.same(a[2], stored) and is_const(b[2]):
                        return True
                    if v is True and r.same(b[2], stored) and is_const(a[2]):
                        return True
            elif c[0] == 'eq' and v is True:
                a, b = ver(c[1]), ver(c[2])
                if a and b and any(r.same(x[2], stored) for x in (a, b)):
                    return True
    for k, v in r.F.items():
        # an ordering: cmp(stored, new) is Equal or Greater
        if k[0] in ('is', 'nis') and isinstance(k[1], tuple) and k[1][0] in ('cmp', 'app') and mentions(k[1], stored) and 'cmp' in repr(k[1][:2]):
            vs = {v} if k[0] == 'is' else {'Less', 'Equal', 'Greater'} - set(v)
            x = [t for t in k[1] if isinstance(t, tuple)]
            first = bool(x) and ver(x[0]) is not None and r.same(ver(x[0])[2], stored)
            if vs <= ({'Equal', 'Greater'} if first else {'Equal', 'Less'}):
                return True
    return False


def no_sequence(r):
    """the reply's data does not decode to a sequence number"""
    data = A(r.w, 'reply', 'msg.result.Ok.0.data')
    for k, v in r.F.items():
        if k[0] == 'is' and v in ('Err', 'None') and k[1][0] in ('app', 'call') and (mentions(k[1], data) or r.variant(data) == 'None'):
            return True
    return r.variant(data) == 'None'


def refused_element(r, t):
    """the path refuses an element of a list (which ones may be refused is the subject of C19)"""
    return any(k[0] in ('is', 'nis', 'b') and isinstance(k[1], tuple) and mentions(k[1], t) for k in r.F)


def late(w, r):
    """the requested timeout lies beyond representable time"""
    return r.kind == 'panic' and any(k[0] == 'b' and v is True and k[1][:2] == ('app', 'overflow') for k, v in r.F.items())


def ownership(w, r):
    act = A(w, 'execute', 'msg.UpdateOwnership.0')
    k = r.variant(act)
    sender = A(w, 'execute', 'info.sender')
    if k == 'RenounceOwnership' or unreadable(r, OWN):
        return True
    if k == 'TransferOwnership':
        return not_owner(w, r) or invalid_addr(r, A(w, 'execute', 'msg.UpdateOwnership.0.TransferOwnership.new_owner'))
    if k == 'AcceptOwnership':
        if r.variant(S(w, 'ownership.pending_owner')) == 'None' or r.eq(S(w, 'ownership.pending_owner.Some.0'), sender) is False:
            return True
        x = S(w, 'ownership.pending_expiry')
        if r.variant(x) == 'Some':
            x = ('fld', x, OPT, 'Some.0')
            for kind, now in (('AtHeight', 'env.block.height'), ('AtTime', 'env.block.time')):
                if r.variant(x) == kind:
                    return r.holds(('lt', A(w, 'execute', now), r.head(x)[3][0])) is False
    return False


def errored(r):
    """a library refused something on this path: a decoder, a parser, the store or the chain's address check"""
    return any(k[0] == 'is' and v == 'Err' and isinstance(k[1], tuple) and k[1][0] in ('app', 'call') for k, v in r.F.items()) or \
        any(k[0] == 'stored' and v in ('none', 'bad') for k, v in r.F.items())


def parsed_metadata(r):
    """every metadata value decoded on this path"""
    return [('fld', k[1], RES, 'Ok.0') for k, v in r.F.items()
            if k[0] == 'is' and v == 'Ok' and k[1][0] == 'app' and k[1][1].startswith(META) and k[1][1].endswith('::IcaMetadata>')]


def says(r, t, *wanted):
    """the text t contains one of the wanted values, itself or displayed"""
    t = r.head(t)
    return any(mentions(t, x) or r.same(t, x) for x in wanted)


def reasons(w, r, e):
    """{variant of the contract's error: (is it true here, do its values say so)}"""
    k = msg_variant(r)
    Ms = parsed_metadata(r)
    f = lambda M, l: w.fld(M, 'IcaMetadata', l)
    some = lambda g: any(g(M) for M in Ms)
    info = S(w, 'state.ica_info')
    status = S(w, 'ica_channel.channel_status')
    chan = S(w, 'ica_channel.channel')
    ev = (lambda p: A(w, e, 'msg.%s.%s' % (k, p))) if k else None
    out = {}
    renounce = e == 'execute' and k == 'UpdateOwnership' and r.variant(A(w, e, 'msg.UpdateOwnership.0')) == 'RenounceOwnership'
    out['OwnershipCannotBeRenounced'] = renounce
    out['OwnershipError'] = e == 'execute' and (not_owner(w, r) or k == 'UpdateOwnership' and not renounce and ownership(w, r))
    out['Unauthorized'] = e == 'execute' and not_owner(w, r)
    if e == 'migrate':
        v, n = S(w, 'contract_info.version'), S(w, 'contract_info.contract')
        out['InvalidMigrationVersion'] = unequal_name(r, n) or semver(r, v)
        out['SemverError'] = errored(r)
    out['UnsupportedPacketEncoding'] = some(lambda M: r.not_variant(f(M, 'encoding'), 'Protobuf')) or \
        r.not_variant(S(w, 'state.ica_info.Some.0.encoding'), 'Protobuf')
    out['UnsupportedCodec'] = out['UnsupportedPacketEncoding']
    out['IcaInfoNotSet'] = r.variant(info) == 'None'
    out['NoCallbackAddress'] = r.variant(S(w, 'state.callback_address')) == 'None'
    out['NoChannelInitOptions'] = unreadable(r, OPTS)
    out['InvalidChannelStatus'] = unreadable(r, CHAN) or r.not_variant(status, 'Open')
    out['ActiveChannelAlreadySet'] = is_open(w, r)
    out['UnknownReplyId'] = e == 'reply' and r.eq(A(w, e, 'msg.id'), ('i', 1)) is False
    for n in ('ProstDecodeError', 'ProstEncodeError', 'BufanyError', 'JsonWasmDeserialize', 'JsonWasmSerialize', 'JsonSerde', 'SemverError'):
        out[n] = errored(r)
    if e in ('instantiate', 'reply', 'migrate', 'ibc_channel_open', 'ibc_channel_connect', 'ibc_channel_close'):
        out['Std'] = errored(r)
    for n in ('ChannelOpenInitNotAllowed', 'ChannelCloseInitNotAllowed', 'InvalidHostPort', 'InvalidControllerPort', 'InvalidVersion', 'InvalidIcaAddress',
              'UnsupportedTxType', 'InvalidConnection', 'UnknownDataType', 'InvalidChannelInContractState', 'InvalidChannelOrdering'):
        out[n] = False
    if e in ('ibc_channel_open', 'ibc_channel_connect') and k in ('OpenInit', 'OpenAck'):
        conn = ev('channel.connection_id')
        out['InvalidVersion'] = some(lambda M: r.eq(f(M, 'version'), ('s', 'ics27-1')) is False)
        out['UnsupportedTxType'] = some(lambda M: r.eq(f(M, 'tx_type'), ('s', 'sdk_multi_msg')) is False)
        out['InvalidIcaAddress'] = some(lambda M: r.holds(mk_empty(f(M, 'address'))) is not True and bad_address(r, f(M, 'address')))
        out['InvalidConnection'] = some(lambda M: r.eq(f(M, 'controller_connection_id'), conn) is False)
        out['UnknownDataType'] = any((metadata_of(r, t) or ('',))[0] == 'err' for t in ([ev('channel.version')] if k == 'OpenInit' else [ev('counterparty_version')]))
        if k == 'OpenInit':
            out['ChannelOpenInitNotAllowed'] = unreadable(r, ALLOW_OPEN) or r.holds(STORED(ALLOW_OPEN)) is False
            out['InvalidHostPort'] = r.eq(ev('channel.counterparty_endpoint.port_id'), ('s', 'icahost')) is False
            out['InvalidConnection'] = out['InvalidConnection'] or r.eq(S(w, OPTS + '.connection_id'), conn) is False
        else:
            out['InvalidControllerPort'] = r.eq(ev('channel.endpoint.port_id'), ('s', 'icahost')) is True
            out['InvalidIcaAddress'] = out['InvalidIcaAddress'] or some(lambda M: r.holds(mk_empty(f(M, 'address'))) is True)
    if e == 'ibc_channel_close':
        out['InvalidChannelInContractState'] = unreadable(r, CHAN) or unequal(r, chan, ev('channel'))
        out['ChannelCloseInitNotAllowed'] = k == 'CloseInit' and (unreadable(r, ALLOW_CLOSE) or r.holds(STORED(ALLOW_CLOSE)) is False)
    return out


def quotes(w, r, h, e):
    """do the values inside the error name the requirement and the offending value?"""
    n = w.vname(h)
    Ms = parsed_metadata(r)
    f = lambda M, l: w.fld(M, 'IcaMetadata', l)
    g = lambda l: w.fld(h, h[1], n + '.' + l)
    if n == 'InvalidVersion':
        return r.same(g('expected'), ('s', 'ics27-1')) and says(r, g('actual'), *[f(M, 'version') for M in Ms])
    if n == 'UnsupportedTxType':
        return says(r, h[3][0], *[f(M, 'tx_type') for M in Ms])
    if n in ('UnsupportedPacketEncoding', 'UnsupportedCodec'):
        return says(r, h[3][0], S(w, 'state.ica_info.Some.0.encoding'), *[f(M, 'encoding') for M in Ms]) or is_const(r.head(h[3][0]))
    if n == 'InvalidChannelStatus':
        return not says(r, g('expected'), S(w, 'ica_channel.channel_status')) and \
            (says(r, g('actual'), S(w, 'ica_channel.channel_status')) or is_const(r.head(g('actual'))) and not r.same(g('actual'), g('expected')))
    if n == 'InvalidMigrationVersion':
        name, v = S(w, 'contract_info.contract'), S(w, 'contract_info.version')
        if semver(r, v):
            return says(r, g('expected'), v) and not says(r, g('actual'), v)
        return says(r, g('actual'), name) and not says(r, g('expected'), name)
    if n == 'UnknownReplyId':
        return r.same(h[3][0], A(w, e, 'msg.id'))
    if n == 'OwnershipError':
        o = r.head(h[3][0])
        v = w.vname(o) if o[0] == 'adt' and o[1].endswith('OwnershipError') else None
        own, pen, sender = S(w, 'ownership.owner'), S(w, 'ownership.pending_owner'), A(w, e, 'info.sender')
        if v == 'NoOwner':
            return r.variant(own) == 'None' or unreadable(r, OWN)
        if v == 'NotOwner':
            return r.eq(S(w, 'ownership.owner.Some.0'), sender) is False or r.variant(own) == 'None' or unreadable(r, OWN)
        if v == 'TransferNotFound':
            return r.variant(pen) == 'None' or unreadable(r, OWN)
        if v == 'NotPendingOwner':
            return r.eq(S(w, 'ownership.pending_owner.Some.0'), sender) is False or r.variant(pen) == 'None' or unreadable(r, OWN)
        if v == 'TransferExpired':
            return r.variant(S(w, 'ownership.pending_expiry')) == 'Some'
    return True


# the reasons a refusal can have, as documented: all of them are in use
EXPECTED = {'execute': ['OwnershipError', 'OwnershipCannotBeRenounced', 'NoChannelInitOptions', 'InvalidChannelStatus', 'IcaInfoNotSet'],
            'reply': ['UnknownReplyId', 'IcaInfoNotSet'],
            'migrate': ['InvalidMigrationVersion', 'SemverError', 'UnsupportedPacketEncoding'],
            'ibc_channel_open': ['ChannelOpenInitNotAllowed', 'InvalidHostPort', 'UnknownDataType', 'InvalidVersion', 'InvalidConnection',
                                 'UnsupportedPacketEncoding', 'UnsupportedTxType', 'InvalidIcaAddress', 'ActiveChannelAlreadySet'],
            'ibc_channel_connect': ['UnknownDataType', 'InvalidVersion', 'InvalidConnection', 'UnsupportedPacketEncoding', 'UnsupportedTxType',
                                    'InvalidIcaAddress', 'ActiveChannelAlreadySet', 'InvalidControllerPort'],
            'ibc_channel_close': ['ChannelCloseInitNotAllowed', 'InvalidChannelInContractState', 'InvalidChannelStatus']}


def c38(w, rep):
    err = w.adt('ContractError')
    seen = {}
    for e in ('instantiate', 'execute', 'reply', 'migrate', 'ibc_channel_open', 'ibc_channel_connect', 'ibc_channel_close'):
        n = 0
        for r in w.errs(e):
            h = r.head(r.ret)
            if h[0] != 'adt' or h[1] != err:
                continue
            v = w.vname(h)
            seen.setdefault(e, set()).add(v)
            n += 1
            why = reasons(w, r, e)
            if v not in why:
                continue
            if rep.need(why[v], 'an error is given only where what it says is so: ' + v, r):
                rep.need(quotes(w, r, h, e), 'an error quotes the value that was required and the one that was found: ' + v, r, pp.pp(h)[:200])
        rep.sample('%s: %d refusing paths, %s' % (e, n, ', '.join(sorted(seen.get(e, ())))))
    for e, vs in EXPECTED.items():
        for v in vs:
            rep.need(v in seen.get(e, ()), 'each documented reason of a refusal is in use: %s of %s' % (v, e), w.fn(ENTRIES[e][0] + '::' + e)['path'])


# what each call may do: (stored items it may change, messages it sends, how many at least and at most)
EFFECTS = {
    ('instantiate', None): ({OWN, CINFO, STATE, OPTS, ALLOW_OPEN}, 'open', 1, 1),
    ('execute', 'CreateChannel'): ({OPTS, ALLOW_OPEN}, 'open', 1, 1),
    ('execute', 'CloseChannel'): ({ALLOW_CLOSE}, 'close', 1, 1),
    ('execute', 'SendCosmosMsgs'): ({QUERY}, 'send', 1, 1),
    ('execute', 'UpdateOwnership'): ({OWN}, None, 0, 0),
    ('execute', 'UpdateCallbackAddress'): ({STATE}, None, 0, 0),
    ('reply', None): ({QUERY, PENDING}, None, 0, 0),
    ('migrate', None): ({CINFO}, None, 0, 0),
    ('query', None): (set(), None, 0, 0),
    ('ibc_channel_open', 'OpenInit'): ({ALLOW_OPEN}, None, 0, 0),
    ('ibc_channel_connect', 'OpenAck'): ({STATE, CHAN}, 'callback', 0, 1),
    ('ibc_channel_close', 'CloseInit'): ({ALLOW_CLOSE, CHAN}, None, 0, 0),
    ('ibc_channel_close', 'CloseConfirm'): ({CHAN}, None, 0, 0),
    ('ibc_packet_ack', None): ({PENDING}, 'callback', 0, 1),
    ('ibc_packet_timeout', None): ({PENDING, CHAN}, 'callback', 0, 1),
}


def message_kind(w, r, sm):
    if is_open_init(r, sm):
        return 'open'
    h = r.head(r.sub(sm)[0])
    if h[0] == 'adt' and w.vname(h) == 'Ibc':
        x = r.head(h[3][0])
        return {'CloseChannel': 'close', 'SendPacket': 'send'}.get(w.vname(x), w.vname(x)) if x[0] == 'adt' else '?'
    c = callback_of(r, sm)
    if c is not None:
        good = r.parts(c[2]) == () and r.same(c[0], S(w, 'state.callback_address.Some.0')) and is_plain(r, sm)
        return 'callback' if good else 'a call of another contract, with funds, or waiting for a reply'
    return w.vname(h) if h[0] == 'adt' else '?'


def c39(w, rep):
    done = set()
    for e in ALL:
        rows = w.oks(e)
        fail_closed(rep, rows)
        for r in rows:
            k = msg_variant(r)
            spec = EFFECTS.get((e, k)) or EFFECTS.get((e, None))
            if not rep.need(spec is not None, 'every call that can succeed is a documented one', r, '%s %s' % (e, k)):
                continue
            done.add((e, k) if (e, k) in EFFECTS else (e, None))
            items, kind, lo, hi = spec
            ch = r.changes()
            rep.need(ch <= items, 'a call changes only the stored items it is documented to change', r, ', '.join(sorted(map(str, ch - items))))
            ms = r.messages()
            if rep.need(ms is not None and lo <= len(ms) <= hi, 'a call sends only the message it is documented to send', r,
                        'not a fixed list' if ms is None else '%d messages' % len(ms)):
                for m in ms:
                    got = message_kind(w, r, m)
                    rep.need(got == kind, 'a call sends only the message it is documented to send', r, got)
            if r.ret is not None and r.ret[0] == 'adt' and r.ret[1].endswith('::Response') and e != 'query':
                rep.need(r.variant(r.resp('data')) == 'None', 'a call returns no data of its own', r)
        rep.sample('%s: %d accepting paths' % (e, len(rows)))
    for k in EFFECTS:
        rep.need(k in done, 'each documented call can succeed', w.fn(ENTRIES[k[0]][0] + '::' + k[0])['path'], str(k[1]))
