"""C05, C06, C10, C12, C23: handshake contents, timeouts, callbacks about them."""
from .common import *


def from_json_of(row, t, ty):
    """t is the successfully parsed JSON of what?  returns the source term"""
    h = t
    if h[0] == 'fld' and h[3] == 'Ok.0' and h[1][0] == 'app' and h[1][1].startswith('from_json<') and h[1][1].endswith('::' + ty + '>'):
        if row.F.get(('is', h[1])) == 'Ok':
            return h[1][2]
    return None


def c05(w, rep):
    e = 'ibc_channel_open'
    rows = w.oks(e)
    fail_closed(rep, rows)
    floor(rep, len(rows), 1, 'an open-init that can be accepted', e)
    for r in rows:
        if not rep.need(msg_variant(r) == 'OpenInit', 'only an open-init is accepted', r):
            continue
        ch = lambda p: A(w, e, 'msg.OpenInit.channel.' + p)
        rep.need(r.eq(ch('counterparty_endpoint.port_id'), ('s', 'icahost')) is True, 'the counterparty port must be icahost', r)
        version = ch('version')
        ret = r.head(r.ret)
        emp = r.holds(mk_empty(version))
        M = None
        if ret[0] == 'adt' and ret[1] == OPT and ret[2] == 1:
            v = w.fld(ret[3][0], 'Ibc3ChannelOpenResponse', 'version')
            M = json_arg(r, v)
            if M is None and r.same(v, version):
                M = accepted_metadata(r, version)
        elif ret[0] == 'adt' and ret[1] == OPT and ret[2] == 0:
            M = accepted_metadata(r, version)
        if not rep.need(M is not None, 'the answered version is the accepted metadata', r, pp.pp(r.ret)):
            continue
        metadata_facts(rep, r, M, ch('connection_id'), 'open-init', False)
        if emp is not True:
            src = from_json_of(r, M, 'IcaMetadata')
            rep.need(src is not None and r.same(src, version), 'the answered metadata is the proposed one', r, pp.pp(M))
        rep.sample('open-init: M=%s' % pp.pp(M)[:200])


def c37(w, rep):
    """an open-init without a version is answered with the previous channel's metadata, else with that of the remembered options"""
    e = 'ibc_channel_open'
    prev = S(w, 'ica_channel.channel.version')
    O = lambda l: S(w, OPTS + '.' + l)

    def derived(r, M, conn, seen):
        src = from_json_of(r, M, 'IcaMetadata')
        if src is not None:
            seen.add('previous')
            rep.need(r.stored(CHAN) == 'some' and r.same(src, prev), "reused metadata is that of the recorded channel", r, pp.pp(M)[:200])
            return
        seen.add('options')
        m = r.head(M)
        if not rep.need(m[0] == 'adt' and m[1].endswith('::IcaMetadata'), 'derived metadata is complete', r, pp.pp(M)[:200]):
            return
        f = lambda l: w.fld(m, m[1], l)
        rep.need(r.stored(CHAN) != 'some' or metadata_unreadable(r, prev), "the recorded channel's metadata is reused when there is one", r)
        rep.need(r.stored(OPTS) == 'some', 'derived metadata needs remembered options', r)
        rep.need(r.same(f('version'), ('s', 'ics27-1')), 'derived metadata has version ics27-1', r, pp.pp(f('version')))
        rep.need(r.same(f('controller_connection_id'), O('connection_id')) and r.eq(O('connection_id'), conn) is True,
                 "derived metadata names the remembered connection, which is the channel's", r, pp.pp(f('controller_connection_id')))
        rep.need(r.same(f('host_connection_id'), O('counterparty_connection_id')), "derived metadata names the remembered counterparty connection", r, pp.pp(f('host_connection_id')))
        rep.need(r.variant(f('encoding')) == 'Protobuf', 'derived metadata asks for proto3', r)
        rep.need(r.same(f('address'), ('s', '')), 'derived metadata names no account', r, pp.pp(f('address')))
        rep.need(r.same(f('tx_type'), ('s', 'sdk_multi_msg')), 'derived metadata asks for sdk_multi_msg', r, pp.pp(f('tx_type')))
    seen = set()
    version = A(w, e, 'msg.OpenInit.channel.version')
    for r in w.oks(e):
        if msg_variant(r) != 'OpenInit' or r.holds(mk_empty(version)) is False:
            continue
        rep.need(r.holds(mk_empty(version)) is True, 'an empty proposal is told apart', r)
        ret = r.head(r.ret)
        M = None
        if ret[0] == 'adt' and ret[1] == OPT and ret[2] == 1:
            M = json_arg(r, w.fld(ret[3][0], 'Ibc3ChannelOpenResponse', 'version'))
        if rep.need(M is not None, 'an empty proposal is answered with metadata', r, pp.pp(r.ret)[:200]):
            derived(r, M, A(w, e, 'msg.OpenInit.channel.connection_id'), seen)
    rep.need('options' in seen, 'a first channel can be opened without proposing a version', e)
    rep.need('previous' in seen, 'a channel can be re-opened with the metadata of the previous one', e)
    fn = 'ibc::types::metadata::IcaMetadata::from_channel'
    if w.fn(fn) is not None:
        got = set()
        for r in w.fn_rows(fn, ['deps', 'channel']):
            if r.kind == 'ok':
                derived(r, r.ret, ('fld', ('in', 'channel'), w.adt('IbcChannel'), 'connection_id'), got)
    rep.sample('answers for an empty proposal: %s' % sorted(seen))


def metadata_unreadable(r, text):
    return any(k[0] == 'is' and v == 'Err' and k[1][0] == 'app' and k[1][1].startswith('from_json<') and k[1][1].endswith('IcaMetadata>') and r.same(k[1][2], text)
               for k, v in r.F.items())


def accepted_metadata(r, version):
    for k, v in r.F.items():
        if k[0] == 'is' and v == 'Ok' and k[1][0] == 'app' and k[1][1].startswith('from_json<') and k[1][1].endswith('IcaMetadata>') and k[1][2] == version:
            return ('fld', k[1], RES, 'Ok.0')
    return None


def c06(w, rep):
    e = 'ibc_channel_connect'
    rows = w.oks(e)
    fail_closed(rep, rows)
    floor(rep, len(rows), 1, 'an open-ack that can be accepted', e)
    for r in rows:
        if not rep.need(msg_variant(r) == 'OpenAck', 'only an open-ack is accepted', r):
            continue
        ch = lambda p: A(w, e, 'msg.OpenAck.channel.' + p)
        cv = A(w, e, 'msg.OpenAck.counterparty_version')
        M = accepted_metadata(r, cv)
        if not rep.need(M is not None, "the counterparty's version must be ICS-27 metadata", r):
            continue
        metadata_facts(rep, r, M, ch('connection_id'), 'open-ack', True)
        rep.need(r.eq(ch('endpoint.port_id'), ('s', 'icahost')) is False, 'the own port must not be the host port', r)
        mf = lambda l: w.fld(M, 'IcaMetadata', l)
        st = r.new(STATE)
        if rep.need(st is not None and st[0] == 'some', 'the account is recorded', r):
            want = some(w.mk('contract::IcaInfo', ica_address=mf('address'), channel_id=ch('endpoint.channel_id'), encoding=mf('encoding')))
            rep.need(r.same(NV(r, 'state.ica_info'), want), 'the recorded account has the address, encoding and channel of the handshake', r,
                     pp.pp(NV(r, 'state.ica_info')))
            rep.need(r.stored(STATE) == 'some' and r.same(NV(r, 'state.callback_address'), S(w, 'state.callback_address')),
                     'the rest of the state is kept', r)
        n = r.new(CHAN)
        if rep.need(n is not None and n[0] == 'some', 'the channel is recorded', r):
            rep.need(r.same(NV(r, 'ica_channel.channel'), acked_channel(w)), 'the recorded channel is the acknowledged one with the counterparty version', r)
            rep.need(r.variant(NV(r, 'ica_channel.channel_status')) == 'Open', 'the recorded channel is open', r)
        rep.need(r.changes() <= {STATE, CHAN}, 'nothing else changes', r, str(r.changes()))
        rep.sample('open-ack: state := ' + pp.pp(NV(r, STATE))[:300])


def acked_channel(w):
    e = 'ibc_channel_connect'
    ch = lambda p: A(w, e, 'msg.OpenAck.channel.' + p)
    return w.mk('IbcChannel', endpoint=ch('endpoint'), counterparty_endpoint=ch('counterparty_endpoint'), order=ch('order'),
                version=A(w, e, 'msg.OpenAck.counterparty_version'), connection_id=ch('connection_id'))


def timeout_cond(r):
    """(ordered, packet sent on the recorded channel): True/False/None each"""
    w = r.w
    o = S(w, 'ica_channel.channel.order')
    order = r.variant(o)
    ordered = None if order is None and not r.not_variant(o, 'Ordered') else order == 'Ordered'
    pk = A(w, 'ibc_packet_timeout', 'msg.packet.src')
    rec = S(w, 'ica_channel.channel.endpoint')
    ids = r.eq(A(w, 'ibc_packet_timeout', 'msg.packet.src.channel_id'), S(w, 'ica_channel.channel.endpoint.channel_id'))
    if ids is None:
        ids = r.eq(pk, rec)
    return ordered, ids


def c10(w, rep):
    e = 'ibc_packet_timeout'
    rows = w.oks(e)
    fail_closed(rep, rows)
    closes = 0
    for r in rows:
        ordered, ids = timeout_cond(r)
        rep.need(r.stored(CHAN) == 'some', 'a timeout is handled only with a recorded channel', r)
        if CHAN in r.changes():
            closes += 1
            rep.need(ordered is True, 'only an ordered channel is closed by a timeout', r)
            rep.need(ids is True, 'only the channel the packet was sent on is closed', r)
            n = r.new(CHAN)
            rep.need(n[0] == 'some' and r.same(NV(r, 'ica_channel.channel'), S(w, 'ica_channel.channel')) and
                     r.variant(NV(r, 'ica_channel.channel_status')) == 'Closed', 'the timeout only sets the status to closed', r)
        else:
            rep.need(ordered is False or ids is False or r.variant(S(w, 'ica_channel.channel_status')) == 'Closed',
                     'an ordered channel is closed when its packet times out', r)
        rep.sample('timeout: ordered=%s own=%s changes=%s' % (ordered, ids, sorted(r.changes())))
    floor(rep, closes, 1, 'a timeout that closes the channel', e)
    timeout_refusals(w, rep)


def timeout_refusals(w, rep):
    for r in [x for x in w.rows('ibc_packet_timeout') if x.kind in ('err', 'panic')]:
        rep.need(r.kind == 'err' and (unreadable(r, CHAN, STATE) or unreadable_map(r, PENDING)),
                 'a timeout is refused only if the stored state is unreadable', r)


def callback_rules(w, rep, rows, kind, want):
    """exactly one plain callback, or none without address. want(row) -> expected callback message"""
    cb = S(w, 'state.callback_address')
    n = 0
    for r0 in rows:
        for r in r0.split(cb, OPT):
            ms = r.messages()
            if not rep.need(ms is not None and r.stored(STATE) == 'some', kind + ': the messages sent are determined by the callback address', r):
                continue
            if r.variant(cb) == 'None':
                rep.need(ms == [], kind + ': nothing is sent without a callback address', r)
                continue
            if not rep.need(len(ms) == 1, kind + ': exactly one callback is sent', r, '%d messages' % len(ms)):
                continue
            n += 1
            c = callback_of(r, ms[0])
            if not rep.need(c is not None, kind + ': the message is a callback', r, pp.pp(ms[0])):
                continue
            rep.need(r.same(c[0], ('fld', cb, OPT, 'Some.0')), kind + ': the callback goes to the recorded address', r, pp.pp(c[0]))
            rep.need(r.parts(c[2]) == (), kind + ': the callback carries no funds', r, pp.pp(c[2]))
            rep.need(is_plain(r, ms[0]), kind + ': the callback asks for no reply', r)
            want(r, c[1])
    floor(rep, n, 1, kind + ': a callback that can be sent', kind)


def c12(w, rep):
    rows = w.oks('ibc_packet_timeout')
    fail_closed(rep, rows)
    e = 'ibc_packet_timeout'

    def want_t(r, c):
        exp = w.mk('IcaControllerCallbackMsg', 'OnTimeoutPacketCallback', original_packet=A(w, e, 'msg.packet'), relayer=A(w, e, 'msg.relayer'))
        rep.need(r.same(c, exp), 'timeout: the callback carries the original packet and relayer', r, pp.pp(c))
    callback_rules(w, rep, rows, 'timeout', want_t)
    timeout_refusals(w, rep)
    rows = w.oks('ibc_channel_connect')
    fail_closed(rep, rows)

    def want_c(r, c):
        M = accepted_metadata(r, A(w, 'ibc_channel_connect', 'msg.OpenAck.counterparty_version'))
        if not rep.need(M is not None, 'handshake: the account comes from the counterparty metadata', r):
            return
        exp = w.mk('IcaControllerCallbackMsg', 'OnChannelOpenAckCallback', channel=acked_channel(w),
                   ica_address=w.fld(M, 'IcaMetadata', 'address'), tx_encoding=w.fld(M, 'IcaMetadata', 'encoding'))
        rep.need(r.same(c, exp), 'handshake: the callback carries the channel, address and encoding', r, pp.pp(c))
    callback_rules(w, rep, rows, 'handshake', want_c)


def order_code(r, t):
    v = r.variant(t)
    return {'Ordered': ('i', 2), 'Unordered': ('i', 1)}.get(v)


def open_init_matches(w, rep, r0, entry, opts, pre=''):
    """the single message is the open-init for `opts`"""
    ms = r0.messages()
    if not rep.need(ms is not None and len(ms) == 1 and is_open_init(r0, ms[0]), pre + 'exactly one open-init message is sent', r0):
        return
    rep.need(is_plain(r0, ms[0]), pre + 'the open-init message asks for no reply', r0)
    of = lambda l: w.fld(opts, 'ChannelOpenInitOptions', l)
    open_init_content(w, rep, r0, r0.sub(ms[0])[0], of, A(w, entry, 'env.contract.address'), w.unit('TxEncoding', 'Protobuf'), pre)


def open_init_content(w, rep, r0, msg, of, me, encoding, pre):
    sp = stargate_parts(r0, msg)
    m = proto_arg(r0, sp[1]) if sp else None
    if not rep.need(m is not None, pre + 'the message value is the protobuf encoding', r0):
        return
    for r1, port in unwrap_or(r0, of('counterparty_port_id'), ('s', 'icahost')):
        for r, order in unwrap_or(r1, of('channel_ordering'), w.unit('IbcOrder', 'Ordered')):
            oc = order_code(r, order)
            if oc is None and r.head(order)[0] != 'adt':
                rows2 = [(q, order_code(q, order)) for q in r.split(order, 'IbcOrder')]
            else:
                rows2 = [(r, oc)]
            for q, oc in rows2:
                h = q.head(m)
                if not rep.need(h[0] == 'adt' and h[1].endswith('::MsgChannelOpenInit'), pre + 'the value is a MsgChannelOpenInit', q):
                    continue
                base = h[1].rsplit('::', 1)[0]
                f = lambda l: w.fld(h, h[1], l)
                rep.need(q.same(f('port_id'), ('cat', (('s', 'wasm.'), me))), pre + "the port is the contract's own", q, pp.pp(f('port_id')))
                rep.need(q.same(f('signer'), me), pre + 'the signer is the contract', q, pp.pp(f('signer')))
                c = q.head(f('channel'))
                if not rep.need(c[0] == 'adt' and c[2] == 1, pre + 'a channel is described', q):
                    continue
                chan = q.head(c[3][0])
                cf = lambda l: w.fld(chan, base + '::Channel', l)
                rep.need(q.same(cf('state'), ('i', 1)), pre + 'the channel state is INIT', q, pp.pp(cf('state')))
                rep.need(oc is not None and q.same(cf('ordering'), oc), pre + "the ordering is the options'", q, pp.pp(cf('ordering')))
                rep.need(q.same(cf('connection_hops'), ('seq', (('e', of('connection_id')),))), pre + "the connection is the options'", q,
                         pp.pp(cf('connection_hops')))
                cp = q.head(cf('counterparty'))
                good = cp[0] == 'adt' and cp[2] == 1
                rep.need(good and q.same(w.fld(q.head(cp[3][0]), base + '::Counterparty', 'port_id'), port), pre + "the counterparty port is the options'", q,
                         pp.pp(cp))
                rep.need(good and q.same(w.fld(q.head(cp[3][0]), base + '::Counterparty', 'channel_id'), ('s', '')), pre + 'the counterparty channel is left open', q)
                M = json_arg(q, cf('version'))
                exp = w.mk('IcaMetadata', version=('s', 'ics27-1'), controller_connection_id=of('connection_id'),
                           host_connection_id=of('counterparty_connection_id'), address=('s', ''), encoding=encoding,
                           tx_type=('s', 'sdk_multi_msg'))
                rep.need(M is not None and q.same(M, exp), pre + 'the version is the metadata of the options', q, pp.pp(cf('version')))


def c23(w, rep):
    rows = w.oks('instantiate')
    fail_closed(rep, rows)
    floor(rep, len(rows), 1, 'an instantiation that can succeed', 'instantiate')
    for r in rows:
        open_init_matches(w, rep, r, 'instantiate', A(w, 'instantiate', 'msg.channel_open_init_options'))
    n = 0
    for r in w.oks('execute'):
        if msg_variant(r) != 'CreateChannel':
            continue
        n += 1
        o = A(w, 'execute', 'msg.CreateChannel.channel_open_init_options')
        for q in r.split(o, OPT):
            open_init_matches(w, rep, q, 'execute', ('fld', o, OPT, 'Some.0') if q.variant(o) == 'Some' else STORED(OPTS))
    fail_closed(rep, w.oks('execute'))
    floor(rep, n, 1, 'a create-channel that can succeed', 'execute')


def c40(w, rep):
    """inductive: account recorded => channel recorded, with the same id; every use of either goes to that channel"""
    old_info, old_chan = S(w, 'state.ica_info'), S(w, 'ica_channel.channel')
    sets = 0
    for e in MUTATING:
        rows = w.oks(e)
        fail_closed(rep, rows)
        for r in rows:
            info, chan, status = NV(r, 'state.ica_info'), NV(r, 'ica_channel.channel'), NV(r, 'ica_channel.channel_status')
            if e == 'instantiate':
                rep.need(r.new(STATE) is not None and r.variant(info) == 'None' and r.new(CHAN) is None, 'a new contract has neither account nor channel', r)
                continue
            new_c = r.new(CHAN) is not None and not (r.stored(CHAN) == 'some' and r.same(chan, old_chan))
            new_i = r.new(STATE) is not None and not (r.stored(STATE) == 'some' and r.same(info, old_info))
            for i in (STATE, CHAN):
                rep.need(r.new(i) is None or r.new(i)[0] == 'some', 'a record is never deleted', r, i)
            if new_c or new_i:
                sets += 1
                if not rep.need(new_c and new_i, 'account and channel are recorded together', r, 'channel %s, account %s' % (new_c, new_i)):
                    continue
                if not rep.need(r.variant(info) == 'Some', 'a recorded channel comes with an account', r):
                    continue
                got = NV(r, 'state.ica_info.Some.0.channel_id')
                rep.need(r.same(got, NV(r, 'ica_channel.channel.endpoint.channel_id')), "the account's channel is the recorded channel", r, pp.pp(got))
                rep.need(r.variant(status) == 'Open', 'a newly recorded channel is open', r)
            elif r.new(CHAN) is not None and not r.same(status, S(w, 'ica_channel.channel_status')):
                rep.need(r.variant(status) == 'Closed', 'a recorded channel changes only by being closed', r, str(r.variant(status)))
            # what goes out, and what is remembered, is about that channel
            for sm in r.messages() or ():
                h = r.head(r.sub(sm)[0])
                x = r.head(h[3][0]) if h[0] == 'adt' and w.vname(h) == 'Ibc' else None
                if x is None or x[0] != 'adt':
                    continue
                k = w.vname(x)
                if k in ('SendPacket', 'CloseChannel', 'Transfer'):
                    c = w.fld(x, x[1], k + '.channel_id')
                    rep.need(r.same(c, S(w, 'state.ica_info.Some.0.channel_id')) or r.same(c, S(w, 'ica_channel.channel.endpoint.channel_id')),
                             'packets and close requests go to the recorded channel', r, pp.pp(c))
            if e == 'reply':
                for key, v in r.map_changes(PENDING):
                    if v[0] == 'some':
                        c = S(w, 'state.ica_info.Some.0.channel_id')
                        rep.need(mentions(key, c) or mentions(key, S(w, 'ica_channel.channel.endpoint.channel_id')), 'queries are remembered under the recorded channel', r, pp.pp(key)[:200])
    floor(rep, sets, 1, 'a call that records account and channel', 'ibc_channel_connect')
    rep.sample('paths that record an account and a channel: %d' % sets)
