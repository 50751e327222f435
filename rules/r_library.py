"""C36: what other contracts use of the library besides the helper types of C31."""
from .common import *
from .r_channel import open_init_content
from .r_helpers import ok_val
from .r_packet import tx_parts, DATA

ACKD = 'ibc::types::packet::acknowledgement::Data::'
ST = 'types::state::contract::'
CH = 'types::state::channel::ChannelState::'


def c36(w, rep):
    done = []

    def rows(path, names, aborts=False):
        """outcomes of a library function; a function that no longer exists has no outcome"""
        if w.fn(path) is None:
            return []
        rs = w.fn_rows(path, names)
        for r in rs:
            rep.need(aborts or r.kind != 'panic', 'the function never aborts', r)
        rs = [r for r in rs if r.kind != 'panic']
        rep.need(any(r.kind in ('ok', 'val') for r in rs), 'the function has a successful outcome', path)
        done.append(path)
        return rs

    def mut(path, names, m):
        if w.fn(path) is None:
            return []
        rs = w.mut_rows(path, names, m)
        for r, _ in rs:
            rep.need(r.kind != 'panic', 'the function never aborts', r)
        done.append(path)
        return [x for x in rs if x[0].kind in ('ok', 'val')]
    me = ('in', 'self')
    # ---- acknowledgements
    data = w.adt(DATA)
    tx, mr, last = tx_parts(w, me)

    def reasons(r, *more):
        return r.variant(me) == 'Error' or r.F.get(('is', tx)) == 'Err' or any(more)
    for r in rows(ACKD + 'to_tx_msg_data', ['self']):
        if r.kind == 'ok':
            v = ok_val(r)
            rep.need(r.variant(me) == 'Result', 'only a success acknowledgement has a transaction response', r)
            rep.need(good_decode(r, r.o.val, tx), 'the transaction response is decoded from the acknowledgement', r, pp.pp(v)[:200])
        else:
            rep.need(reasons(r), 'decoding is refused only for an error or undecodable acknowledgement', r)
    for n, names in (('decode_module_query_safe_resp', ['self', 'index']), ('decode_module_query_safe_resp_last_index', ['self'])):
        for r in rows(ACKD + n, names):
            ats = [('index', mr, ('in', 'index'))] if len(names) == 2 else [last, ('index', mr, arith('sub', ('len', mr), ('i', 1)))]
            terms = []
            for k in r.F:
                if k[0] == 'is' and k[1][0] == 'app' and k[1][1].startswith('decode<') and k[1][1].endswith('::MsgModuleQuerySafeResponse>'):
                    terms.append(k[1])
            if r.kind == 'ok':
                rep.need(r.variant(me) == 'Result' and r.F.get(('is', tx)) == 'Ok', 'only a success acknowledgement has a query response', r)
                src = terms[0][2] if len(terms) == 1 else ('bad',)
                rep.need(src[0] == 'fld' and src[3] == 'value' and src[1] in ats and good_decode(r, r.o.val, terms[0]),
                         'the query response is decoded from the message response it is asked for', r, pp.pp(r.o.val)[:200])
            else:
                none = r.holds(('lt', ('in', 'index'), ('len', mr))) is False if len(names) == 2 else r.holds(mk_empty(mr)) is True
                rep.need(reasons(r, none, any(r.F.get(('is', t)) == 'Err' for t in terms)), 'decoding is refused only for an error, a missing or an undecodable response', r)
    # ---- options
    opt = ('in', 'self')
    for r in rows('types::msg::options::ChannelOpenInitOptions::counterparty_port_id', ['self']):
        o = w.fld(opt, 'ChannelOpenInitOptions', 'counterparty_port_id')
        k = r.variant(o)
        rep.need(k == 'Some' and r.same(r.o.val, ('fld', o, OPT, 'Some.0')) or k == 'None' and r.same(r.o.val, ('s', 'icahost')),
                 'the effective counterparty port is the given one, else icahost', r)
    fn = 'ibc::types::stargate::channel::new_ica_channel_open_init_cosmos_msg'
    args = ['contract_address', 'connection_id', 'counterparty_port_id', 'counterparty_connection_id', 'tx_encoding', 'ordering']
    ren = {'channel_ordering': 'ordering'}
    for r in rows(fn, args):
        e = ('in', 'tx_encoding')
        for q, enc in unwrap_or(r, e, w.unit('TxEncoding', 'Protobuf')):
            open_init_content(w, rep, q, r.o.val, lambda l: ('in', ren.get(l, l)), ('in', 'contract_address'), enc, '[library] ')
    # ---- records
    s = w.adt('contract::State') if 'contract::State' not in w.p.adts else 'contract::State'
    info = w.fld(me, s, 'ica_info')
    for r in rows(ST + 'State::new', ['callback_address']):
        v = r.head(r.o.val)
        rep.need(r.variant(w.fld(v, s, 'ica_info')) == 'None' and r.same(w.fld(v, s, 'callback_address'), ('in', 'callback_address')),
                 'a new state has no account and the given callback address', r)
    for r in rows(ST + 'State::get_ica_info', ['self']):
        k = r.variant(info)
        rep.need(r.kind == 'ok' and k == 'Some' and r.same(ok_val(r), ('fld', info, OPT, 'Some.0')) or r.kind == 'err' and k == 'None',
                 'the account info is returned, an error only if there is none', r)

    def is_info(r, v):
        h = r.head(v)
        return h[0] == 'adt' and all(r.same(w.fld(h, h[1], l), ('in', l)) for l in ('ica_address', 'channel_id', 'encoding'))

    def rest(r, v, ty, but):
        """all fields but one as before"""
        h = r.head(v)
        if h[0] != 'adt':
            return False
        return all(w.p.label(h[1], h[2], i) == but or r.same(f, w.fld(me, ty, w.p.label(h[1], h[2], i))) for i, f in enumerate(h[3]))
    for r, v in mut(ST + 'State::set_ica_info', ['self', 'ica_address', 'channel_id', 'encoding'], 'self'):
        n = w.fld(r.head(v), s, 'ica_info')
        rep.need(r.variant(n) == 'Some' and is_info(r, r.head(n)[3][0]) and rest(r, v, s, 'ica_info'), 'exactly the account info is set, to the given values', r, pp.pp(v)[:200])
    for r, v in mut(ST + 'State::delete_ica_info', ['self'], 'self'):
        rep.need(r.variant(w.fld(r.head(v), s, 'ica_info')) == 'None' and rest(r, v, s, 'ica_info'), 'exactly the account info is deleted', r, pp.pp(v)[:200])
    for r in rows(ST + 'IcaInfo::new', ['ica_address', 'channel_id', 'encoding']):
        rep.need(is_info(r, r.o.val), 'the account info has the given values', r)
    c = w.adt('ChannelState')
    for r in rows(CH + 'new_open_channel', ['channel']):
        v = r.head(r.o.val)
        rep.need(r.same(w.fld(v, c, 'channel'), ('in', 'channel')) and r.variant(w.fld(v, c, 'channel_status')) == 'Open', 'a new channel state is the given channel, open', r)
    status = w.fld(me, c, 'channel_status')
    for r in [q for x in rows(CH + 'is_open', ['self']) for q in x.split(status, 'ChannelStatus')]:
        rep.need(truth(r) is (r.variant(status) == 'Open'), 'a channel is open exactly in the open status', r, pp.pp(r.o.val))
    for r, v in mut(CH + 'close', ['self'], 'self'):
        rep.need(r.variant(w.fld(r.head(v), c, 'channel_status')) == 'Closed' and rest(r, v, c, 'channel_status'), 'closing sets exactly the status', r)
    order = w.path(me, c, 'channel.order')
    for r in [q for x in rows(CH + 'is_ordered', ['self']) for q in x.split(order, 'IbcOrder')]:
        rep.need(truth(r) is (r.variant(order) == 'Ordered'), 'a channel is ordered exactly if its ordering says so', r, pp.pp(r.o.val))
    M = w.adt('IcaMetadata')
    mf = ['version', 'controller_connection_id', 'host_connection_id', 'address', 'encoding', 'tx_type']
    for r in rows('ibc::types::metadata::IcaMetadata::new', mf):
        v = r.head(r.o.val)
        rep.need(all(r.same(w.fld(v, M, l), ('in', l)) for l in mf), 'the metadata has the given values', r)
    conn = w.path(('in', 'channel'), w.adt('IbcChannel'), 'connection_id')
    for r in rows('ibc::types::metadata::IcaMetadata::validate', ['self', 'channel']):
        if r.kind == 'ok':
            metadata_facts(rep, r, me, conn, '[library] validation', False)
    floor(rep, len(done), 12, 'library functions', 'library')
    rep.sample('library functions: ' + ', '.join(d.rsplit('::', 1)[-1] for d in done))


def truth(r):
    v = r.o.val
    return v[1] if v[0] == 'b' else r.holds(v)


def good_decode(r, v, t):
    """the result is the Ok of t, passed through or rebuilt"""
    if v == t:
        return r.F.get(('is', t)) != 'Err'
    h = r.head(v)
    if h[0] == 'adt' and h[1] == RES and h[2] == 0:
        v = h[3][0]
        return r.same(v, ('fld', t, RES, 'Ok.0')) and r.F.get(('is', t)) == 'Ok'
    return False
