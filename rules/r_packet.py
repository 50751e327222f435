"""C11, C13 - C17, C22, C30: packets, acknowledgements, replies."""
from .common import *
from .r_channel import callback_rules, timeout_refusals
from engine.core import arith

ACK = 'ibc_packet_ack'
DATA = 'acknowledgement::Data'


def ack_data(w):
    """the parsed acknowledgement (Result term) of an ack call"""
    return ('app', 'from_json<%s>' % w.adt(DATA), A(w, ACK, 'msg.acknowledgement.data'))


def ack_kind(r):
    """('Result'|'Error'|None, Data term)"""
    p = ack_data(r.w)
    if r.F.get(('is', p)) != 'Ok':
        return None, None
    d = ('fld', p, RES, 'Ok.0')
    return r.variant(d), d


def pkey(w, e):
    base = 'msg.original_packet' if e == ACK else 'msg.packet'
    return ('tup', (A(w, e, base + '.src.channel_id'), A(w, e, base + '.sequence')))


def tx_parts(w, d):
    """terms for the decoded transaction response, its last message and the query response"""
    data = w.fld(d, w.adt(DATA), 'Result.0')
    tx = ('app', 'decode<cosmos_sdk_proto::cosmos::base::abci::v1beta1::TxMsgData>', data)
    mr = ('fld', ('fld', tx, RES, 'Ok.0'), 'cosmos_sdk_proto::cosmos::base::abci::v1beta1::TxMsgData', 'msg_responses')
    last = ('last', mr)
    return tx, mr, last


def find_query_resp(r, mr):
    """the decoded MsgModuleQuerySafeResponse of the row, checked to come from the last response: (app term, ok value)"""
    for k, v in r.F.items():
        if k[0] == 'is' and k[1][0] == 'app' and k[1][1].startswith('decode<') and k[1][1].endswith('::MsgModuleQuerySafeResponse>'):
            return k[1], v
    return None, None


def from_last(r, src, mr):
    """src == (last element of mr).value"""
    if src[0] != 'fld' or src[3] != 'value':
        return False
    b = src[1]
    if b == ('last', mr):
        return True
    if b[0] == 'index' and b[1] == mr:
        i = b[2]
        return i == arith('sub', ('len', mr), ('i', 1))
    return False


def ack_refusals(w, rep):
    for r in [x for x in w.rows(ACK) if x.kind in ('err', 'panic')]:
        why = unreadable(r, STATE) or unreadable_map(r, PENDING) or r.F.get(('is', ack_data(w))) == 'Err'
        if not why:
            k, d = ack_kind(r)
            if k == 'Result' and r.stored(PENDING, pkey(w, ACK)) == 'some':
                tx, mr, last = tx_parts(w, d)
                q, qv = find_query_resp(r, mr)
                why = r.F.get(('is', tx)) == 'Err' or r.holds(mk_empty(mr)) is True or \
                    (qv == 'Err' and from_last(r, q[2], mr))
        rep.need(why and r.kind == 'err', 'an acknowledgement is refused only if it or the stored state cannot be parsed', r)


def c11(w, rep):
    rows = w.oks(ACK)
    fail_closed(rep, rows)
    seen = set()

    def want(r, c):
        k, d = ack_kind(r)
        f = lambda l: w.fld(c, 'IcaControllerCallbackMsg', 'OnAcknowledgementPacketCallback.' + l)
        if not rep.need(c[0] == 'adt' and w.vname(c) == 'OnAcknowledgementPacketCallback', 'ack: it is an acknowledgement callback', r, pp.pp(c)):
            return
        seen.add(k)
        rep.need(d is not None and k is not None and r.same(f('ica_acknowledgement'), d), 'ack: the callback carries the acknowledgement', r, pp.pp(f('ica_acknowledgement')))
        rep.need(r.same(f('original_packet'), A(w, ACK, 'msg.original_packet')), 'ack: the callback carries the original packet', r, pp.pp(f('original_packet')))
        rep.need(r.same(f('relayer'), A(w, ACK, 'msg.relayer')), 'ack: the callback carries the relayer', r, pp.pp(f('relayer')))
    callback_rules(w, rep, rows, 'acknowledgement', want)
    rep.need(seen >= {'Result', 'Error'}, 'success and error acknowledgements are both reported', ACK, str(seen))
    for r in rows:
        rep.need(r.F.get(('is', ack_data(w))) == 'Ok', 'an unparsable acknowledgement is an error', r)
    ack_refusals(w, rep)
    rep.sample('%d accepted acknowledgement paths, %d refused' % (len(rows), len(w.errs(ACK))))


def c13(w, rep):
    rows = w.oks(ACK)
    fail_closed(rep, rows)
    floor(rep, len(rows), 1, 'an acknowledgement that can be accepted', ACK)
    for r in rows:
        k, d = ack_kind(r)
        ps = r.parts(r.resp('events'))
        if not rep.need(k is not None and all(p[0] == 'e' for p in ps), 'the events are determined', r):
            continue
        evs = [r.head(p[1]) for p in ps]
        evs = [e for e in evs if e[0] == 'adt' and r.head(w.fld(e, e[1], 'ty')) == ('s', 'acknowledge_packet')]
        if not rep.need(len(evs) == 1, 'exactly one acknowledge_packet event', r, '%d' % len(evs)):
            continue
        aps = r.parts(w.fld(evs[0], evs[0][1], 'attributes'))
        if not rep.need(all(p[0] == 'e' for p in aps), 'the event attributes are determined', r):
            continue
        at = {}
        for p in aps:
            a = r.head(p[1])
            kk = r.head(w.fld(a, 'Attribute', 'key'))
            at.setdefault(kk[1] if kk[0] == 's' else kk, []).append(w.fld(a, 'Attribute', 'value'))
        pk = lambda x: A(w, ACK, 'msg.original_packet.' + x)
        exp = {'packet_sequence': ('display', pk('sequence')), 'packet_src_port': pk('src.port_id'), 'packet_src_channel': pk('src.channel_id')}
        if k == 'Result':
            exp['packet_ack_base64'] = ('app', 'base64', w.fld(d, w.adt(DATA), 'Result.0'))
        else:
            exp['error'] = w.fld(d, w.adt(DATA), 'Error.0')
        for key, val in exp.items():
            got = at.get(key, [])
            rep.need(len(got) == 1 and same_text(r, got[0], val), 'the event attribute %s' % key, r, ', '.join(map(pp.pp, got)) or 'missing')
        no = 'error' if k == 'Result' else 'packet_ack_base64'
        rep.need(no not in at, 'a success carries no error and vice versa', r)
    rep.sample('%d accepted acknowledgement paths' % len(rows))


def same_text(r, a, b):
    """equal up to to_string() of a string"""
    if r.same(a, b):
        return True
    s = lambda t: t[1] if t[0] == 'display' else t
    a2, b2 = r.head(a), r.head(b)
    if b2[0] == 'display' and a2[0] == 'display':
        return r.same(a2[1], b2[1])
    if b2[0] == 'app' and b2[1] == 'base64' and a2[0] == 'app' and 'base64' in a2[1]:
        return r.same(a2[2], b2[2])
    if b2[0] == 'app' and b2[1] == 'base64' and a2[0] == 'base64':
        return r.same(a2[1], b2[2])
    if b2[0] == 'app' and b2[1] == 'base64' and a2[0] == 'display':
        return r.same(a2[1], b2[2])
    if a2[0] == 'display' and b2[0] != 'display':
        return r.same(a2[1], b2)
    return False


def c14(w, rep):
    # the reply files the remembered queries under the packet's channel and sequence
    rows = w.oks('reply')
    fail_closed(rep, rows)
    floor(rep, len(rows), 1, 'a reply that can be accepted', 'reply')
    for r in rows:
        reply_move(w, rep, r)
    # acknowledgement and timeout forget exactly that entry
    for e in (ACK, 'ibc_packet_timeout'):
        rows = w.oks(e)
        fail_closed(rep, rows)
        floor(rep, len(rows), 1, 'an accepted packet event', e)
        key = pkey(w, e)
        for r in rows:
            ch = r.map_changes(PENDING)
            gone = r.stored(PENDING, key) == 'none' or any(k is not None and r.same(k, key) and v[0] == 'none' for k, v in r.map_raw(PENDING))
            rep.need(gone, "the packet's queries are forgotten", r)
            rep.need(all(k is not None and r.same(k, key) and v[0] == 'none' for k, v in ch), "no other packet's queries are affected", r,
                     '; '.join(pp.pp(k) if k else 'all' for k, v in ch))
            rep.need(not r.changed(QUERY), 'the queries of a packet being sent are not affected', r)
    ack_refusals(w, rep)
    timeout_refusals(w, rep)
    for e in MUTATING:
        if e in (ACK, 'ibc_packet_timeout', 'reply'):
            continue
        fail_closed(rep, w.oks(e))
        for r in w.oks(e):
            rep.need(not r.map_changes(PENDING), 'nothing else changes pending queries', r)
            if e != 'execute' or msg_variant(r) != 'SendCosmosMsgs':
                rep.need(not r.changed(QUERY), 'nothing else changes the queries being sent', r)
    # what a send remembers is what the packet contains, in order
    for r in send_rows(w):
        send_remembers(w, rep, r)


def reply_seq(w, r):
    """the sequence number found in the reply's data"""
    out = []
    d = A(w, 'reply', 'msg.result.Ok.0.data')
    for q, v in unwrap_or(r, d, ('seq', ())):
        out.append((q, v))
    return out


def reply_move(w, rep, r):
    ch = r.map_changes(PENDING)
    if not rep.need(len(ch) == 1 and ch[0][0] is not None and ch[0][1][0] == 'some', 'a reply files exactly one list of queries', r, str(len(ch))):
        return
    key, val = ch[0]
    rep.need(r.stored(QUERY) == 'some' and r.same(val[1], STORED(QUERY)), 'the filed queries are the remembered ones', r, pp.pp(val[1]))
    kt = r.head(key)
    if not rep.need(kt[0] == 'tup' and len(kt[1]) == 2, 'they are filed under channel and sequence', r, pp.pp(key)):
        return
    rep.need(r.stored(STATE) == 'some' and r.variant(S(w, 'state.ica_info')) == 'Some' and
             r.same(kt[1][0], S(w, 'state.ica_info.Some.0.channel_id')), "they are filed under the account's channel", r, pp.pp(kt[1][0]))
    for q, data in reply_seq(w, r):
        rep.need(is_seq_of(q, kt[1][1], data), "they are filed under the sequence in the reply's data", q, pp.pp(kt[1][1]))
    rep.need(r.variant(A(w, 'reply', 'msg.result')) == 'Ok', 'the reply reports a sent packet', r)


def is_seq_of(q, t, data):
    """t is protobuf field 1 (uint64) of data"""
    B = 'anybuf::bufany::Bufany'
    exp = ('fld', ('app', B + '::uint64', ('fld', ('app', B + '::deserialize', data), RES, 'Ok.0'), ('i', 1)), OPT, 'Some.0')
    if q.same(t, exp):
        return True
    h = q.head(t)
    # a decoded MsgSendPacketResponse
    if h[0] == 'fld' and h[3] == 'sequence' and h[1][0] == 'fld' and h[1][3] == 'Ok.0' and h[1][1][0] == 'app' and \
            h[1][1][1].startswith('decode<') and 'MsgSendPacketResponse' in h[1][1][1]:
        return q.same(h[1][1][2], data)
    return False


def send_rows(w):
    return [r for r in w.oks('execute') if msg_variant(r) == 'SendCosmosMsgs']


def send_remembers(w, rep, r):
    qs = A(w, 'execute', 'msg.SendCosmosMsgs.queries')
    emp = r.holds(mk_empty(qs))
    n = r.new(QUERY)
    if emp is True:
        return
    if not rep.need(n is not None and n[0] == 'some', 'a send with queries remembers them', r):
        return
    parts = r.parts(n[1])
    if not rep.need(len(parts) == 1 and parts[0][0] == 'm' and r.same(parts[0][1], qs), 'one entry per query is remembered, in order', r, pp.pp(n[1])[:300]):
        return
    for facts, ps in parts[0][2]:
        rep.need(len(ps) == 1 and ps[0][0] == 'e', 'one entry per query is remembered, in order', r.under(dict(facts)), str(len(ps)))


def c15(w, rep):
    rows = w.oks(ACK)
    fail_closed(rep, rows)
    key = pkey(w, ACK)
    paths = ('st', ('s', PENDING), key)
    n_ok = n_data = 0
    for r in rows:
        ms = r.messages()
        if not ms:
            continue
        c = callback_of(r, ms[0]) if len(ms) == 1 else None
        k, d = ack_kind(r)
        if not rep.need(c is not None and c[1][0] == 'adt' and k is not None, 'the callback is determined', r):
            continue
        qr = w.fld(c[1], 'IcaControllerCallbackMsg', 'OnAcknowledgementPacketCallback.query_result')
        st = r.stored(PENDING, key)
        v = r.variant(qr)
        if st == 'none':
            rep.need(v == 'None', 'no query result for a packet without queries', r, pp.pp(qr)[:300])
            continue
        if not rep.need(st == 'some' and v == 'Some', 'a query result for a packet with queries', r, pp.pp(qr)[:300]):
            continue
        n_ok += 1
        res = r.head(r.head(qr)[3][0])
        rv = r.variant(res)
        if k == 'Error':
            rep.need(rv == 'Error' and same_text(r, res[3][0], w.fld(d, w.adt(DATA), 'Error.0')), 'an error acknowledgement gives its error text as the query result', r, pp.pp(res)[:300])
            continue
        tx, mr, last = tx_parts(w, d)
        q, qv = find_query_resp(r, mr)
        if not rep.need(r.F.get(('is', tx)) == 'Ok' and qv == 'Ok' and from_last(r, q[2], mr),
                        'the query response is decoded from the last message response of the acknowledgement', r, pp.pp(q) if q else ''):
            continue
        Q = ('fld', q, RES, 'Ok.0')
        qt = q[1][len('decode<'):-1]
        resp = w.fld(Q, qt, 'responses')
        count = r.eq(('len', resp), ('len', paths))
        if rv == 'Success':
            n_data += 1
            rep.need(count is True, 'data is returned only if there is one response per query', r)
            rep.need(r.same(res[3][0], w.fld(Q, qt, 'height')) if w.p.label(res[1], res[2], 0) == 'Success.height' else False,
                     "the height is the host's", r, pp.pp(res[3][0]))
            ps = r.parts(w.fld(res, res[1], 'Success.responses'))
            good = len(ps) == 1 and ps[0][0] == 'm' and is_pairing(ps[0][1], paths, resp)
            if rep.need(good, 'one response per query, paired in order', r, ' ; '.join(pp.part(p, 0)[:200] for p in ps)):
                for facts, cs in ps[0][2]:
                    rep.need(len(cs) == 1 and cs[0][0] == 'e', 'one response per query, paired in order', r.under(dict(facts)))
                    if len(cs) == 1 and cs[0][0] == 'e':
                        t = cs[0][1]
                        rep.need(not foreign_elems(t, paths, resp), 'a response is built from its own query and answer only', r.under(dict(facts)), pp.pp(t)[:300])
        elif rv == 'Error':
            why = count is False or any(k2[0] in ('is', 'b', 'eqc', 'nis') and (mentions(k2[1], ('elem', resp)) or mentions(k2[1], ('elem', paths)))
                                        for k2 in r.F)
            rep.need(why, 'data is withheld only for a count mismatch or an undecodable response', r)
        else:
            rep.need(False, 'the query result is determined', r, pp.pp(res)[:300])
    floor(rep, n_data, 1, 'a successful query result', ACK)
    floor(rep, n_ok, 2, 'query results', ACK)
    rep.sample('%d callbacks with a query result, %d with data' % (n_ok, n_data))
    # the pending entry is what was sent for this very packet (C14) and the result is settled
    for r in send_rows(w):
        send_remembers(w, rep, r)
        # the answers come in the order of the requests in the packet, in the response to its last message
        sp = sent_packet(r)
        data = json_arg(r, w.fld(sp[1], sp[1][1], 'SendPacket.data')) if sp is not None else None
        if data is not None:
            m = lambda p: A(w, 'execute', 'msg.SendCosmosMsgs.' + p)
            packet_content(w, Only(rep, QUERY_ENTRY), r, data, m('messages'), m('queries'), S(w, 'state.ica_info.Some.0.ica_address'), m('packet_memo'))


QUERY_ENTRY = ('a query entry exactly when there are queries', 'a single query entry follows', 'the query entry is a MsgModuleQuerySafe',
               'the query entry holds all queries in order', 'one request per query')


class Only:
    """forwards only some obligations"""
    def __init__(self, rep, labels):
        self.rep, self.labels = rep, labels

    def need(self, c, label, *a):
        return self.rep.need(c, label, *a) if label in self.labels else c


def is_pairing(src, a, b):
    return src == ('zip', a, b) or src == ('zip', b, a) or src == a or src == b


def foreign_elems(t, a, b):
    return contains(t, lambda x: len(x) > 1 and x[0] in ('index', 'last') and x[1] in (a, b))


def sent_packet(r):
    """(sub message, SendPacket term) if exactly one packet is sent"""
    ms = r.messages()
    if ms is None or len(ms) != 1:
        return None
    h = r.head(r.sub(ms[0])[0])
    if h[0] != 'adt' or r.w.vname(h) != 'Ibc':
        return None
    x = r.head(h[3][0])
    if x[0] != 'adt' or r.w.vname(x) != 'SendPacket':
        return None
    return ms[0], x


def packet_content(w, rep, r, pkt, msgs, queries, owner, memo, pre=''):
    """pkt (an IcaPacketData term) contains exactly msgs then queries"""
    h = r.head(pkt)
    f = lambda l: w.fld(h, w.adt('IcaPacketData'), l)
    rep.need(r.same(f('type'), ('i', 1)), pre + 'the packet is an execute-transaction packet', r, pp.pp(f('type')))
    rep.need(r.same(f('memo'), memo), pre + 'the memo is carried unchanged', r, pp.pp(f('memo')))
    tx = proto_arg(r, f('data'))
    if not rep.need(tx is not None, pre + 'the data is a protobuf transaction', r, pp.pp(f('data'))[:300]):
        return
    tx = r.head(tx)
    if not rep.need(tx[0] == 'adt' and tx[1].endswith('::CosmosTx'), pre + 'the data is a CosmosTx', r, pp.pp(tx)[:300]):
        return
    parts = list(r.parts(w.fld(tx, tx[1], 'messages')))
    qemp = r.holds(mk_empty(queries)) if queries is not None else True
    memp = r.holds(mk_empty(msgs))
    if memp is not True:
        ok = bool(parts) and parts[0][0] == 'm' and r.same(parts[0][1], msgs)
        if not rep.need(ok, pre + 'the transaction starts with the messages, in order', r, pp.part(parts[0], 0)[:300] if parts else 'empty'):
            return
        for facts, cs in parts[0][2]:
            rep.need(len(cs) == 1 and cs[0][0] == 'e', pre + 'one entry per message', r.under(dict(facts)), '%d' % len(cs))
        parts = parts[1:]
    if qemp is True:
        rep.need(not parts, pre + 'nothing else without queries', r, '%d further parts' % len(parts))
        return
    if not rep.need(qemp is False, pre + 'a query entry exactly when there are queries', r):
        return
    if not rep.need(len(parts) == 1 and parts[0][0] == 'e', pre + 'a single query entry follows', r, '%d parts' % len(parts)):
        return
    a = r.head(parts[0][1])
    url = type_url_of(r, w.fld(a, a[1], 'type_url')) if a[0] == 'adt' else None
    rep.need(is_url(w, url, '/ibc.applications.interchain_accounts.host.v1.MsgModuleQuerySafe', 'MsgModuleQuerySafe'), pre + 'the query entry is a MsgModuleQuerySafe', r, repr(url))
    m = proto_arg(r, w.fld(a, a[1], 'value')) if a[0] == 'adt' else None
    if not rep.need(m is not None, pre + 'the query entry is protobuf-encoded', r):
        return
    m = r.head(m)
    mf = lambda l: w.fld(m, w.adt('MsgModuleQuerySafe'), l)
    rep.need(r.same(mf('signer'), owner), pre + 'the query entry is signed by the account', r, pp.pp(mf('signer')))
    qp = r.parts(mf('requests'))
    if rep.need(len(qp) == 1 and qp[0][0] == 'm' and r.same(qp[0][1], queries), pre + 'the query entry holds all queries in order', r, ' '.join(pp.part(x, 0)[:200] for x in qp)):
        for facts, cs in qp[0][2]:
            rep.need(len(cs) == 1 and cs[0][0] == 'e', pre + 'one request per query', r.under(dict(facts)), '%d' % len(cs))


def c16(w, rep, extra=()):
    rows = send_rows(w)
    fail_closed(rep, rows)
    floor(rep, len(rows), 1, 'a send that can succeed', 'contract::execute')
    m = lambda p: A(w, 'execute', 'msg.SendCosmosMsgs.' + p)
    for r in rows:
        sp = sent_packet(r)
        if not rep.need(sp is not None, 'a send produces one packet', r):
            continue
        data = json_arg(r, w.fld(sp[1], sp[1][1], 'SendPacket.data'))
        if not rep.need(data is not None, 'the packet is JSON', r):
            continue
        rep.need(r.variant(S(w, 'state.ica_info.Some.0.encoding')) == 'Protobuf', 'an encoding other than proto3 is refused', r)
        packet_content(w, rep, r, data, m('messages'), m('queries'), S(w, 'state.ica_info.Some.0.ica_address'), m('packet_memo'))
        rep.sample('send: %s' % pp.pp(data)[:200])
    for cfg, w2 in extra:
        lib_packets(w2, rep, '[features %s] ' % (cfg or 'none'))
    lib_packets(w, rep, '[library] ')


def lib_packets(w, rep, pre):
    """IcaPacketData::from_cosmos_msgs as a library function"""
    it = None
    for i in w.p.items:
        if i['path'].endswith('IcaPacketData::from_cosmos_msgs'):
            it = i
    if not rep.need(it is not None, pre + 'from_cosmos_msgs exists', 'IcaPacketData'):
        return
    byty = {}
    for n, t in zip(it['args'], it['in']):
        if 'CosmosMsg' in t:
            byty['msgs'] = n
        elif 'QueryRequest' in t:
            byty['queries'] = n
        elif 'TxEncoding' in t:
            byty['enc'] = n
        elif 'Option<' in t:
            byty['memo'] = n
        elif 'str' in t or 'String' in t:
            byty['owner'] = n
    rows = w.fn_rows('ibc::types::packet::IcaPacketData::from_cosmos_msgs') if w.p.by_path.get(w.crate + '::ibc::types::packet::IcaPacketData::from_cosmos_msgs') else w.analyse(it, it['args'])
    n = 0
    for r in rows:
        if r.kind != 'ok':
            continue
        n += 1
        pk = r.ret
        h = r.head(pk)
        if h[0] == 'tup':
            pk = h[1][0]
        g = lambda k: ('in', byty[k]) if k in byty else None
        rep.need(r.variant(g('enc')) == 'Protobuf', pre + 'an encoding other than proto3 is refused', r)
        packet_content(w, rep, r, pk, g('msgs'), g('queries'), g('owner'), g('memo'), pre)
    floor(rep, n, 1, pre + 'a packet that can be built', 'from_cosmos_msgs')


def c17(w, rep):
    rows = send_rows(w)
    fail_closed(rep, rows)
    floor(rep, len(rows), 1, 'a send that can succeed', 'contract::execute')
    for r in rows:
        rep.need(r.stored(STATE) == 'some' and r.variant(S(w, 'state.ica_info')) == 'Some', 'sending needs a recorded account', r)
        sp = sent_packet(r)
        if not rep.need(sp is not None, 'a send emits exactly one packet message and nothing else', r):
            continue
        x = sp[1]
        rep.need(r.same(w.fld(x, x[1], 'SendPacket.channel_id'), S(w, 'state.ica_info.Some.0.channel_id')), "the packet goes out on the account's channel", r,
                 pp.pp(w.fld(x, x[1], 'SendPacket.channel_id')))
        to = w.fld(x, x[1], 'SendPacket.timeout')
        tf = lambda l: w.fld(r.head(to), 'IbcTimeout', l)
        rep.need(r.variant(tf('block')) == 'None', 'no block-height timeout', r, pp.pp(tf('block')))
        ts = r.head(tf('timestamp'))
        now = A(w, 'execute', 'env.block.time')
        for q, secs in unwrap_or(r, A(w, 'execute', 'msg.SendCosmosMsgs.timeout_seconds'), ('i', 600)):
            exp = arith('add', now, arith('mul', secs, ('i', 1000000000)))
            rep.need(ts[0] == 'adt' and ts[2] == 1 and q.same(ts[3][0], exp), 'the packet times out the requested seconds after the block time', q, pp.pp(ts))
        rep.sample('send: channel=%s timeout=%s' % (pp.pp(w.fld(x, x[1], 'SendPacket.channel_id')), pp.pp(ts)))
    for e in MUTATING:
        for r in w.oks(e):
            if e == 'execute' and msg_variant(r) == 'SendCosmosMsgs':
                continue
            ms = r.messages()
            rep.need(ms is not None and not any(is_packet(r, m) for m in ms), 'only a send emits packets', r)


def is_packet(r, sm):
    h = r.head(r.sub(sm)[0])
    if h[0] != 'adt' or r.w.vname(h) != 'Ibc':
        return False
    return r.variant(h[3][0]) not in ('CloseChannel', None)


def c22(w, rep):
    rows = w.oks('reply')
    fail_closed(rep, rows)
    ids = set()
    for r in rows:
        i = r.head(A(w, 'reply', 'msg.id'))
        rep.need(i[0] == 'i', 'a reply is accepted only under one id', r)
        ids.add(i)
        reply_move(w, rep, r)
        n = r.new(QUERY)
        rep.need(n is not None and n[0] == 'none', 'the remembered queries are moved', r)
        rep.need(r.messages() == [], 'a reply sends nothing', r)
        rep.need(r.changes() <= {QUERY, PENDING}, 'a reply changes nothing else', r, str(r.changes()))
    rep.need(len(ids) == 1, 'there is exactly one reply id', 'contract::reply', str(ids))
    rid = next(iter(ids)) if len(ids) == 1 else None
    qs = A(w, 'execute', 'msg.SendCosmosMsgs.queries')
    n = {True: 0, False: 0}
    fail_closed(rep, w.oks('execute'))
    for r in send_rows(w):
        ms = r.messages()
        emp = r.holds(mk_empty(qs))
        if not rep.need(emp is not None and ms is not None and len(ms) == 1, 'asking for a reply depends on the queries', r):
            continue
        n[emp] += 1
        m, on, i, gas = r.sub(ms[0])
        rep.need(r.variant(gas) == 'None', 'no gas limit', r)
        if emp:
            rep.need(on == 'Never', 'a send without queries asks for no reply', r, str(on))
            rep.need(not r.changed(QUERY), 'a send without queries remembers none', r)
        else:
            rep.need(on == 'Success', 'a send with queries asks for a reply on success only', r, str(on))
            rep.need(i == rid, 'the reply id is the one accepted', r, pp.pp(i))
            send_remembers(w, rep, r)
            sent_equals_remembered(w, rep, r)
    rep.need(n[True] and n[False], 'sends with and without queries can succeed', 'contract::execute', str(n))
    for e in MUTATING:
        for r in w.oks(e):
            if e == 'execute' and msg_variant(r) == 'SendCosmosMsgs':
                continue
            ms = r.messages()
            rep.need(ms is not None and all(r.sub(m)[1] == 'Never' for m in ms), 'nothing else asks for a reply', r)
            if e != 'reply':
                rep.need(not r.changed(QUERY), 'nothing else touches the remembered queries', r)


def sent_equals_remembered(w, rep, r):
    """the remembered paths are the paths sent, query by query"""
    sp = sent_packet(r)
    data = json_arg(r, w.fld(sp[1], sp[1][1], 'SendPacket.data')) if sp else None
    tx = proto_arg(r, w.fld(r.head(data), w.adt('IcaPacketData'), 'data')) if data else None
    if tx is None:
        rep.need(False, 'the packet content is determined', r)
        return
    parts = r.parts(w.fld(r.head(tx), r.head(tx)[1], 'messages'))
    a = r.head(parts[-1][1]) if parts and parts[-1][0] == 'e' else ('bad',)
    m = proto_arg(r, w.fld(a, a[1], 'value')) if a[0] == 'adt' else None
    if m is None:
        rep.need(False, 'the packet content is determined', r)
        return
    req = r.parts(w.fld(r.head(m), w.adt('MsgModuleQuerySafe'), 'requests'))
    mem = r.parts(r.new(QUERY)[1]) if r.new(QUERY) and r.new(QUERY)[0] == 'some' else ()
    if not (len(req) == 1 and len(mem) == 1 and req[0][0] == 'm' and mem[0][0] == 'm'):
        return
    for facts, cs in mem[0][2]:
        rr = r.under(dict(facts))
        cand = [(f2, c2) for f2, c2 in req[0][2] if compatible(facts, f2)]
        good = len(cs) == 1 and cs[0][0] == 'e' and bool(cand)
        for f2, c2 in cand:
            r3 = rr.under(dict(f2))
            if not (good and len(c2) == 1 and c2[0][0] == 'e'):
                good = False
                break
            t = r3.head(cs[0][1])
            p = t[1][0] if t[0] == 'tup' else ('fld', t, '()', '0')
            good = good and r3.same(p, w.fld(r3.head(c2[0][1]), w.adt('AbciQueryRequest'), 'path'))
        rep.need(good, 'the remembered path is the path sent', rr, pp.pp(cs[0][1])[:300] if cs else '')


def compatible(f1, f2):
    a, b = dict(f1), dict(f2)
    for k, v in a.items():
        if k in b and b[k] != v:
            return False
        if k[0] == 'is' and v in b.get(('nis', k[1]), ()):
            return False
    for k, v in b.items():
        if k[0] == 'is' and v in a.get(('nis', k[1]), ()):
            return False
    return True
