"""C18-C21: messages, queries and responses are converted to their counterparts, kind by kind.

The tables are the specification: for every supported kind, the counterpart type and, for every field of the counterpart,
where its value comes from.  A matcher m(row, actual) returns [] or a list of complaints.
"""
from .common import *
from .r_packet import same_text, send_rows, sent_packet, ACK, DATA, pkey, ack_kind, tx_parts, find_query_resp, from_last
import re

EMPTY = ('s', '')


def V(t):
    return lambda r, a: [] if r.same(a, t) else ['%s instead of %s' % (pp.pp(a)[:160], pp.pp(t)[:160])]


def K(c):
    return V(('i', c) if isinstance(c, int) and not isinstance(c, bool) else ('b', c) if isinstance(c, bool) else ('s', c))


def Txt(t):
    """the decimal text of t"""
    return lambda r, a: [] if r.same(a, ('display', t)) or same_text(r, a, ('display', t)) else ['%s instead of the text of %s' % (pp.pp(a)[:160], pp.pp(t)[:160])]


def Or(t, default):
    """t's content, or a default"""
    def m(r, a):
        out = []
        for q, v in unwrap_or(r, t, default):
            if not q.same(a, v):
                out.append('%s instead of %s (or its default)' % (pp.pp(a)[:160], pp.pp(t)[:160]))
        return out
    return m


def Opt(t, f):
    """Some(f(content)) exactly when t is Some"""
    def m(r, a):
        out = []
        for q in r.split(t, OPT):
            h = q.head(a)
            if q.variant(t) == 'None':
                if q.variant(a) != 'None':
                    out.append('%s where nothing is given' % pp.pp(a)[:160])
            elif q.variant(a) != 'Some' or h[0] != 'adt':
                out.append('%s although %s is given' % (pp.pp(a)[:160], pp.pp(t)[:160]))
            else:
                out += f(('fld', t, OPT, 'Some.0'))(q, h[3][0])
        return out
    return m


def OptIfNotEmpty(t):
    """None for an empty value, Some(value) otherwise"""
    def m(r, a):
        e = r.holds(mk_empty(t))
        rows = [(r, e)] if e is not None else [(r.under({('b', mk_empty(t)): x}), x) for x in (True, False)]
        out = []
        for q, em in rows:
            h = q.head(a)
            if em and q.variant(a) != 'None':
                out.append('%s although the value is empty' % pp.pp(a)[:160])
            if not em and not (q.variant(a) == 'Some' and h[0] == 'adt' and q.same(h[3][0], t)):
                out.append('%s instead of %s' % (pp.pp(a)[:160], pp.pp(t)[:160]))
        return out
    return m


def Some_(f):
    def m(r, a):
        h = r.head(a)
        if h[0] != 'adt' or r.variant(a) != 'Some':
            return ['%s is not given' % pp.pp(a)[:160]]
        return f(r, h[3][0])
    return m


def Nothing():
    return lambda r, a: [] if r.variant(a) == 'None' else ['%s instead of nothing' % pp.pp(a)[:160]]


def Each(src, f, skip=None):
    """one entry per element of src, in order; skip(row, elem): the element has no entry"""
    def m(r, a):
        e = ('elem', src)
        if skip is None and r.same(a, src):
            return f(e)(r, e)
        ps = r.parts(a)
        if not ps and r.holds(mk_empty(src)) is True:
            return []
        if len(ps) != 1 or ps[0][0] != 'm' or not r.same(ps[0][1], src):
            return ['%s is not one entry per element of %s' % (pp.pp(a)[:200], pp.pp(src)[:120])]
        out = []
        for facts, cs in ps[0][2]:
            q = r.under(dict(facts))
            if skip is not None:
                s = skip(q, e)
                if s is True and not cs:
                    continue
                if s is None:
                    out.append('an element is kept or dropped for an unknown reason')
                    continue
                if s and cs:
                    out.append('an entry for an element without content')
                    continue
            if len(cs) != 1 or cs[0][0] != 'e':
                out.append('%d entries for one element of %s' % (len(cs), pp.pp(src)[:120]))
                continue
            out += f(e)(q, cs[0][1])
        return out
    return m


def Same(t):
    return V(t)


class Spec:
    """matchers bound to a World"""

    def __init__(self, w):
        self.w = w

    def M(self, suffix, variant=None, **fields):
        """a value of the given type with every field matched"""
        w = self.w

        def m(r, a):
            h = r.head(a)
            if h[0] != 'adt' or not (h[1] == suffix or h[1].endswith('::' + suffix)):
                return ['%s is not a %s' % (pp.pp(h)[:160], suffix)]
            if variant is not None and w.vname(h) != variant:
                return ['%s is not %s::%s' % (pp.pp(h)[:160], suffix, variant)]
            out = []
            seen = set()
            for i, v in enumerate(h[3]):
                lab = w.p.label(h[1], h[2], i).split('.')[-1]
                key = lab if lab in fields else '_' + lab if '_' + lab in fields else 'f' + lab
                if key not in fields:
                    out.append('field %s of %s has no counterpart' % (lab, suffix))
                    continue
                seen.add(key)
                out += ['%s.%s: %s' % (suffix.rsplit('::', 1)[-1], lab, x) for x in fields[key](r, v)]
            out += ['%s has no field %s' % (suffix, k) for k in fields if k not in seen]
            return out
        return m

    def f(self, t, ty, path):
        w = self.w
        return w.path(t, ty if ty in w.p.adts else w.adt(ty), path)

    def coin(self, t):
        w = self.w
        c = lambda l: w.fld(t, COIN, l)
        return self.M('cosmos::base::v1beta1::Coin', denom=V(c('denom')), amount=Txt(c('amount')))

    def coins(self, t):
        return Each(t, self.coin)

    def vote(self, t):
        def m(r, a):
            out = []
            for q in r.split(t, 'cosmwasm_std::results::cosmos_msg::VoteOption' if 'cosmwasm_std::results::cosmos_msg::VoteOption' in self.w.p.adts else 'VoteOption'):
                n = {'Yes': 1, 'Abstain': 2, 'No': 3, 'NoWithVeto': 4}.get(q.variant(t))
                if not q.same(a, ('i', n)):
                    out.append('vote %s becomes option %s' % (q.variant(t), pp.pp(a)[:60]))
            return out
        return m


COIN = 'cosmwasm_std::coin::Coin'


def messages_table(w, t, me):
    """kind (path of variants) -> (counterpart, matcher); t: the message term, me: the account"""
    s = Spec(w)
    CMSG = w.adt('CosmosMsg')
    g = lambda p: s.f(t, CMSG, p)
    M, me = s.M, V(me)
    B, X, W, G, S, D = 'Bank.0.Send.', 'Ibc.0.Transfer.', 'Wasm.0.', 'Gov.0.', 'Staking.0.', 'Distribution.0.'
    wasm, stk, dis = 'cosmwasm::wasm::v1::', 'cosmos::staking::v1beta1::', 'cosmos::distribution::v1beta1::'
    has = lambda v: w.p.vindex(CMSG, v) is not None
    T = {}
    T['Bank', 'Send'] = ('cosmos::bank::v1beta1::MsgSend', lambda: dict(from_address=me, to_address=V(g(B + 'to_address')), amount=s.coins(g(B + 'amount'))))
    T['Ibc', 'Transfer'] = ('ibc::applications::transfer::v1::MsgTransfer', lambda: dict(
        source_port=K('transfer'), source_channel=V(g(X + 'channel_id')), token=Some_(s.coin(g(X + 'amount'))), sender=me,
        receiver=V(g(X + 'to_address')), memo=Or(g(X + 'memo'), EMPTY),
        timeout_height=Opt(g(X + 'timeout.block'), lambda b: M('core::client::v1::Height', revision_number=V(w.fld(b, 'IbcTimeoutBlock', 'revision')), revision_height=V(w.fld(b, 'IbcTimeoutBlock', 'height')))),
        timeout_timestamp=Or(g(X + 'timeout.timestamp'), ('i', 0))))
    T['Wasm', 'Execute'] = (wasm + 'MsgExecuteContract', lambda: dict(sender=me, contract=V(g(W + 'Execute.contract_addr')), msg=V(g(W + 'Execute.msg')), funds=s.coins(g(W + 'Execute.funds'))))
    for v, n in (('Instantiate', 'MsgInstantiateContract'), ('Instantiate2', 'MsgInstantiateContract2')):
        def mk(v=v):
            d = dict(sender=me, admin=Or(g(W + v + '.admin'), EMPTY), code_id=V(g(W + v + '.code_id')), label=V(g(W + v + '.label')),
                     msg=V(g(W + v + '.msg')), funds=s.coins(g(W + v + '.funds')))
            if v == 'Instantiate2':
                d.update(salt=V(g(W + v + '.salt')), fix_msg=K(False))
            return d
        T['Wasm', v] = (wasm + n, mk)
    T['Wasm', 'Migrate'] = (wasm + 'MsgMigrateContract', lambda: dict(sender=me, contract=V(g(W + 'Migrate.contract_addr')), code_id=V(g(W + 'Migrate.new_code_id')), msg=V(g(W + 'Migrate.msg'))))
    T['Wasm', 'UpdateAdmin'] = (wasm + 'MsgUpdateAdmin', lambda: dict(sender=me, new_admin=V(g(W + 'UpdateAdmin.admin')), contract=V(g(W + 'UpdateAdmin.contract_addr'))))
    T['Wasm', 'ClearAdmin'] = (wasm + 'MsgClearAdmin', lambda: dict(sender=me, contract=V(g(W + 'ClearAdmin.contract_addr'))))
    T['Gov', 'Vote'] = ('cosmos::gov::v1beta1::MsgVote', lambda: dict(proposal_id=V(g(G + 'Vote.proposal_id')), voter=me, option=s.vote(g(G + 'Vote.option'))))
    T['Gov', 'VoteWeighted'] = ('cosmos::gov::v1::MsgVoteWeighted', lambda: dict(
        proposal_id=V(g(G + 'VoteWeighted.proposal_id')), voter=me, metadata=K(''),
        options=Each(g(G + 'VoteWeighted.options'), lambda e: M('cosmos::gov::v1::WeightedVoteOption',
                     option=s.vote(w.fld(e, wvo(w), 'option')),
                     weight=Txt(w.fld(e, wvo(w), 'weight'))))))
    if has('Staking'):
        for v, n in (('Delegate', 'MsgDelegate'), ('Undelegate', 'MsgUndelegate')):
            T['Staking', v] = (stk + n, lambda v=v: dict(delegator_address=me, validator_address=V(g(S + v + '.validator')), amount=Some_(s.coin(g(S + v + '.amount')))))
        T['Staking', 'Redelegate'] = (stk + 'MsgBeginRedelegate', lambda: dict(
            delegator_address=me, validator_src_address=V(g(S + 'Redelegate.src_validator')), validator_dst_address=V(g(S + 'Redelegate.dst_validator')),
            amount=Some_(s.coin(g(S + 'Redelegate.amount')))))
    if has('Distribution'):
        T['Distribution', 'WithdrawDelegatorReward'] = (dis + 'MsgWithdrawDelegatorReward', lambda: dict(delegator_address=me, validator_address=V(g(D + 'WithdrawDelegatorReward.validator'))))
        T['Distribution', 'SetWithdrawAddress'] = (dis + 'MsgSetWithdrawAddress', lambda: dict(delegator_address=me, withdraw_address=V(g(D + 'SetWithdrawAddress.address'))))
        T['Distribution', 'FundCommunityPool'] = (dis + 'MsgFundCommunityPool', lambda: dict(depositor=me, amount=s.coins(g(D + 'FundCommunityPool.amount'))))
    T['Stargate',] = (None, None)
    return T


def wvo(w):
    c = [n for n in w.p.adts if n.startswith('cosmwasm_std::') and n.endswith('::WeightedVoteOption')]
    if len(c) != 1:
        raise Inconclusive('WeightedVoteOption: %s' % c)
    return c[0]


def kind_terms(w, t, top, kind):
    """[(term, variant)] describing a kind of the enum value t"""
    out = [(t, kind[0])]
    if len(kind) > 1:
        out.append((w.path(t, top, kind[0] + '.0'), kind[1]))
    return out


def known_kind(w, r, t, top, kinds):
    """the kind of the table the row is about, or None"""
    for k in kinds:
        if all(r.variant(x) == v for x, v in kind_terms(w, t, top, k)):
            return k
    return None


def may_be(w, r, t, top, kind):
    """the row does not exclude that t is of this kind"""
    return not any(r.not_variant(x, v) for x, v in kind_terms(w, t, top, kind))


def url_ok(u, want):
    full = '/' + want.replace('::', '.')
    return u == full or (isinstance(u, tuple) and u[0] == 'type_url' and (u[1] == want or u[1].endswith('::' + want)))


def message_ok(w, rep, r, t, me, any_, pre, table=None):
    """any_ is the faithful conversion of message t"""
    top = w.adt('CosmosMsg')
    T = table or messages_table(w, t, me)
    k = known_kind(w, r, t, top, T)
    if not rep.need(k is not None, pre + 'a converted message is of a known kind', r, pp.pp(any_)[:200]):
        return None
    a = r.head(any_)
    if not rep.need(a[0] == 'adt' and a[1].endswith('::Any'), pre + 'a message becomes an Any', r, pp.pp(a)[:200]):
        return k
    url, val = w.fld(a, a[1], 'type_url'), w.fld(a, a[1], 'value')
    name = '::'.join(k)
    if k == ('Stargate',):
        rep.need(r.same(url, w.path(t, top, 'Stargate.type_url')), pre + 'a pre-encoded message keeps its type', r, pp.pp(url)[:200])
        rep.need(r.same(val, w.path(t, top, 'Stargate.value')), pre + 'a pre-encoded message keeps its bytes', r, pp.pp(val)[:200])
        return k
    want, fields = T[k]
    u = type_url_of(r, url)
    rep.need(url_ok(u, want), '%s%s is sent as %s' % (pre, name, want), r, repr(u))
    p = proto_arg(r, val)
    if rep.need(p is not None, '%s%s is protobuf-encoded' % (pre, name), r, pp.pp(val)[:200]):
        bad = Spec(w).M(want, **fields())(r, p)
        rep.need(not bad, '%severy field of %s is carried over to its counterpart' % (pre, name), r, '; '.join(bad[:4]))
    return k


def convert_fn_rows(w):
    it = w.fn('types::cosmos_msg::convert_to_proto_any')
    if it is None:
        raise Inconclusive('convert_to_proto_any not found')
    rows = w.fn_rows('types::cosmos_msg::convert_to_proto_any')
    names = {}
    for n, ty in zip(it['args'], it['in']):
        names['msg' if 'CosmosMsg' in ty else 'me'] = ('in', n)
    return rows, names['msg'], names['me']


def send_conversions(w):
    """[(row, case row, message term, Any term)] of the contract's sends, and the signer"""
    out = []
    msgs = A(w, 'execute', 'msg.SendCosmosMsgs.messages')
    for r in send_rows(w):
        tx = send_tx(w, r)
        if tx is None:
            continue
        for p in r.parts(tx):
            if p[0] == 'm' and r.same(p[1], msgs):
                for facts, cs in p[2]:
                    out.append((r, r.under(dict(facts)), cs))
    return out, ('elem', msgs)


def send_tx(w, r):
    sp = sent_packet(r)
    if sp is None:
        return None
    data = json_arg(r, w.fld(sp[1], sp[1][1], 'SendPacket.data'))
    if data is None:
        return None
    tx = proto_arg(r, w.fld(r.head(data), w.adt('IcaPacketData'), 'data'))
    if tx is None:
        return None
    tx = r.head(tx)
    return w.fld(tx, tx[1], 'messages') if tx[0] == 'adt' else None


def c18(w, rep, extra=()):
    for pre, w2 in [('', w)] + [('[features %s] ' % (c or 'none'), x) for c, x in extra]:
        rows, t, me = convert_fn_rows(w2)
        T = messages_table(w2, t, me)
        for r in rows:
            if r.kind == 'ok':
                message_ok(w2, rep, r, t, me, r.ret, pre + '[library] ', T)
            elif r.kind == 'val':
                rep.need(False, pre + 'the conversion is determined', r, pp.pp(r.o.val)[:200])
        rep.sample('%slibrary conversion: %d paths, %d kinds' % (pre, len(rows), len(T)))
    cases, e = send_conversions(w)
    me = S(w, 'state.ica_info.Some.0.ica_address')
    T = messages_table(w, e, me)
    floor(rep, len(cases), len(T), 'a converted message for every kind', 'execute [SendCosmosMsgs]')
    for r, q, cs in cases:
        rep.need(r.variant(S(w, 'state.ica_info')) == 'Some', 'the account is recorded', r)
        if rep.need(len(cs) == 1 and cs[0][0] == 'e', 'one entry per message', q, str(len(cs))):
            message_ok(w, rep, q, e, me, cs[0][1], '', T)
    rep.sample('sends: %d converted message cases' % len(cases))


# ---------------------------------------------------------------------------------------------------- queries
P = {'Balance': '/cosmos.bank.v1beta1.Query/Balance', 'AllBalances': '/cosmos.bank.v1beta1.Query/AllBalances',
     'DenomMetadata': '/cosmos.bank.v1beta1.Query/DenomMetadata', 'AllDenomMetadata': '/cosmos.bank.v1beta1.Query/DenomsMetadata',
     'Supply': '/cosmos.bank.v1beta1.Query/SupplyOf',
     'Validator': '/cosmos.staking.v1beta1.Query/Validator', 'AllValidators': '/cosmos.staking.v1beta1.Query/Validators',
     'Delegation': '/cosmos.staking.v1beta1.Query/Delegation', 'AllDelegations': '/cosmos.staking.v1beta1.Query/DelegatorDelegations',
     'BondedDenom': '/cosmos.staking.v1beta1.Query/Params',
     'ContractInfo': '/cosmwasm.wasm.v1.Query/ContractInfo', 'Raw': '/cosmwasm.wasm.v1.Query/RawContractState',
     'Smart': '/cosmwasm.wasm.v1.Query/SmartContractState'}


def queries_table(w, t):
    s = Spec(w)
    top = w.adt('QueryRequest')
    g = lambda p: s.f(t, top, p)
    bank, stk, wasm = 'cosmos::bank::v1beta1::Query', 'cosmos::staking::v1beta1::Query', 'cosmwasm::wasm::v1::Query'
    T = {}
    B = 'Bank.0.'
    T['Bank', 'Balance'] = (bank + 'BalanceRequest', lambda: dict(address=V(g(B + 'Balance.address')), denom=V(g(B + 'Balance.denom'))))
    T['Bank', 'AllBalances'] = (bank + 'AllBalancesRequest', lambda: dict(address=V(g(B + 'AllBalances.address')), pagination=Nothing(), resolve_denom=K(False)))
    T['Bank', 'DenomMetadata'] = (bank + 'DenomMetadataRequest', lambda: dict(denom=V(g(B + 'DenomMetadata.denom'))))
    PR = 'cosmwasm_std::pagination::PageRequest'
    pf = lambda e, l: w.fld(e, PR if PR in w.p.adts else pagereq(w), l)
    T['Bank', 'AllDenomMetadata'] = (bank + 'DenomsMetadataRequest', lambda: dict(pagination=Opt(g(B + 'AllDenomMetadata.pagination'), lambda e: s.M(
        'cosmos::base::query::v1beta1::PageRequest', key=Or(pf(e, 'key'), ('seq', ())), offset=K(0), limit=V(pf(e, 'limit')), count_total=K(False), reverse=V(pf(e, 'reverse'))))))
    T['Bank', 'Supply'] = (bank + 'SupplyOfRequest', lambda: dict(denom=V(g(B + 'Supply.denom'))))
    W = 'Wasm.0.'
    T['Wasm', 'Smart'] = (wasm + 'SmartContractStateRequest', lambda: dict(address=V(g(W + 'Smart.contract_addr')), query_data=V(g(W + 'Smart.msg'))))
    T['Wasm', 'Raw'] = (wasm + 'RawContractStateRequest', lambda: dict(address=V(g(W + 'Raw.contract_addr')), query_data=V(g(W + 'Raw.key'))))
    T['Wasm', 'ContractInfo'] = (wasm + 'ContractInfoRequest', lambda: dict(address=V(g(W + 'ContractInfo.contract_addr'))))
    if w.p.vindex(top, 'Staking') is not None:
        K_ = 'Staking.0.'
        T['Staking', 'Validator'] = (stk + 'ValidatorRequest', lambda: dict(validator_addr=V(g(K_ + 'Validator.address'))))
        T['Staking', 'AllValidators'] = (stk + 'ValidatorsRequest', lambda: dict(status=K(''), pagination=Nothing()))
        T['Staking', 'Delegation'] = (stk + 'DelegationRequest', lambda: dict(delegator_addr=V(g(K_ + 'Delegation.delegator')), validator_addr=V(g(K_ + 'Delegation.validator'))))
        T['Staking', 'AllDelegations'] = (stk + 'DelegatorDelegationsRequest', lambda: dict(delegator_addr=V(g(K_ + 'AllDelegations.delegator')), pagination=Nothing()))
        T['Staking', 'BondedDenom'] = (stk + 'ParamsRequest', lambda: dict())
    T['Stargate',] = (None, None)
    return T


def pagereq(w):
    c = [n for n in w.p.adts if n.startswith('cosmwasm_std::') and n.endswith('::PageRequest')]
    if len(c) != 1:
        raise Inconclusive('PageRequest: %s' % c)
    return c[0]


def optional_fields(w, want, d):
    """drop expectations for fields the counterpart type of this version does not have"""
    c = [n for n in w.p.adts if n.endswith('::' + want)]
    if len(c) == 1:
        fs = set(w.p.adts[c[0]]['variants'][0]['fields'])
        return {k: v for k, v in d.items() if k in fs or k != 'resolve_denom'}
    return d


def query_ok(w, rep, r, t, path, data, flag, pre, T):
    top = w.adt('QueryRequest')
    k = known_kind(w, r, t, top, T)
    if not rep.need(k is not None, pre + 'a converted query is of a known kind', r, pp.pp(path)[:200]):
        return None
    name = '::'.join(k)
    if k == ('Stargate',):
        if path is not None:
            rep.need(r.same(path, w.path(t, top, 'Stargate.path')), pre + 'a pre-encoded query keeps its path', r, pp.pp(path)[:200])
        if data is not None:
            rep.need(r.same(data, w.path(t, top, 'Stargate.data')), pre + 'a pre-encoded query keeps its bytes', r, pp.pp(data)[:200])
        if flag is not None:
            rep.need(r.same(flag, ('b', True)), pre + 'a pre-encoded query is marked as such', r, pp.pp(flag)[:80])
        return k
    want, fields = T[k]
    if path is not None:
        rep.need(r.same(path, ('s', P[k[1]])), '%s%s is sent to %s' % (pre, name, P[k[1]]), r, pp.pp(path)[:200])
    if flag is not None:
        rep.need(r.same(flag, ('b', False)), '%s%s is not marked as pre-encoded' % (pre, name), r, pp.pp(flag)[:80])
    if data is not None:
        p = proto_arg(r, data)
        if k == ('Staking', 'BondedDenom') and r.head(data) in EMPTIES:
            return k    # the encoding of an empty request
        if rep.need(p is not None, '%s%s is protobuf-encoded' % (pre, name), r, pp.pp(data)[:200]):
            bad = Spec(w).M(want, **optional_fields(w, want, fields()))(r, p)
            rep.need(not bad, '%severy parameter of %s is carried over to its counterpart' % (pre, name), r, '; '.join(bad[:4]))
    return k


def query_fn_rows(w):
    it = w.fn('types::query_msg::query_to_protobuf')
    if it is None:
        raise Inconclusive('query_to_protobuf not found')
    return w.fn_rows('types::query_msg::query_to_protobuf'), ('in', it['args'][0])


def send_queries(w):
    """cases of the query entry and of the remembered queries: [(row, case row, kind, parts)]"""
    qs = A(w, 'execute', 'msg.SendCosmosMsgs.queries')
    out = []
    for r in send_rows(w):
        if r.holds(mk_empty(qs)) is True:
            continue
        tx = send_tx(w, r)
        ps = r.parts(tx) if tx is not None else ()
        if ps and ps[-1][0] == 'e':
            a = r.head(ps[-1][1])
            m = proto_arg(r, w.fld(a, a[1], 'value')) if a[0] == 'adt' else None
            if m is not None:
                m = r.head(m)
                for p in r.parts(w.fld(m, m[1], 'requests')) if m[0] == 'adt' and m[1].endswith('MsgModuleQuerySafe') else ():
                    if p[0] == 'm' and r.same(p[1], qs):
                        out += [(r, r.under(dict(f)), 'request', cs) for f, cs in p[2]]
        n = r.new(QUERY)
        if n is not None and n[0] == 'some':
            for p in r.parts(n[1]):
                if p[0] == 'm' and r.same(p[1], qs):
                    out += [(r, r.under(dict(f)), 'pending', cs) for f, cs in p[2]]
    return out, ('elem', qs)


def c20(w, rep, extra=()):
    for pre, w2 in [('', w)] + [('[features %s] ' % (c or 'none'), x) for c, x in extra]:
        rows, t = query_fn_rows(w2)
        T = queries_table(w2, t)
        for r in rows:
            if r.kind == 'panic':
                continue
            v = r.head(r.o.val)
            if rep.need(v[0] == 'tup' and len(v[1]) == 3, pre + '[library] a query becomes a path, bytes and a flag', r, pp.pp(v)[:200]):
                query_ok(w2, rep, r, t, v[1][0], v[1][1], v[1][2], pre + '[library] ', T)
        rep.sample('%slibrary conversion: %d paths, %d kinds' % (pre, len(rows), len(T)))
    cases, e = send_queries(w)
    T = queries_table(w, e)
    for what in ('request', 'pending'):
        floor(rep, len([c for c in cases if c[2] == what]), len(T), 'a %s for every query kind' % what, 'execute [SendCosmosMsgs]')
    for r, q, what, cs in cases:
        if not rep.need(len(cs) == 1 and cs[0][0] == 'e', 'one %s per query' % what, q, str(len(cs))):
            continue
        v = q.head(cs[0][1])
        if what == 'request':
            if rep.need(v[0] == 'adt' and v[1].endswith('AbciQueryRequest'), 'a query becomes a request', q, pp.pp(v)[:200]):
                query_ok(w, rep, q, e, w.fld(v, v[1], 'path'), w.fld(v, v[1], 'data'), None, '', T)
        elif rep.need(v[0] == 'tup' and len(v[1]) == 2, 'a query is remembered by path and flag', q, pp.pp(v)[:200]):
            query_ok(w, rep, q, e, v[1][0], None, v[1][1], '[remembered] ', T)
    rep.sample('sends: %d query cases' % len(cases))


# ---------------------------------------------------------------------------------------------------- C19
def supported(w, rep, rows, t, top, T, what, pre):
    """a refusing row excludes every documented kind; every documented kind is accepted by some row"""
    for r in rows:
        if r.kind in ('panic', 'err'):
            ks = [k for k in T if may_be(w, r, t, top, k)]
            rep.need(not ks, '%sa supported %s is not refused' % (pre, what), r, ', '.join('::'.join(k) for k in ks[:5]))
        else:
            rep.need(known_kind(w, r, t, top, T) is not None, '%san accepted %s is of a documented kind' % (pre, what), r)
    for k in T:
        rep.need(any(known_kind(w, r, t, top, T) == k for r in rows if r.kind in ('ok', 'val')), '%s%s is supported' % (pre, '::'.join(k)), pre + what)


def c19(w, rep, extra=()):
    for pre, w2 in [('', w)] + [('[features %s] ' % (c or 'none'), x) for c, x in extra]:
        rows, t, me = convert_fn_rows(w2)
        supported(w2, rep, rows, t, w2.adt('CosmosMsg'), messages_table(w2, t, me), 'message', pre + '[library] ')
        try:
            rows, t = query_fn_rows(w2)
        except Inconclusive:
            if w2 is w or 'query' in pre:
                raise
            continue
        supported(w2, rep, rows, t, w2.adt('QueryRequest'), queries_table(w2, t), 'query', pre + '[library] ')
    # the contract itself
    fail_closed(rep, send_rows(w))
    cases, e = send_conversions(w)
    T = messages_table(w, e, ('s', ''))
    top = w.adt('CosmosMsg')
    exclusive(w, rep, [(q, cs) for _, q, cs in cases], e, top, T, 'message')
    qcases, qe = send_queries(w)
    QT = queries_table(w, qe)
    qtop = w.adt('QueryRequest')
    for what in ('request', 'pending'):
        exclusive(w, rep, [(q, cs) for _, q, x, cs in qcases if x == what], qe, qtop, QT, 'query ' + what)
    n = 0
    for r in w.rows('execute'):
        if r.kind in ('panic', 'err') and msg_variant(r) == 'SendCosmosMsgs':
            for t, tp, TT, what in ((e, top, T, 'message'), (qe, qtop, QT, 'query')):
                if any(k[0] in ('is', 'nis', 'b') and isinstance(k[1], tuple) and mentions(k[1], t) for k in r.F):
                    n += 1
                    ks = [k for k in TT if may_be(w, r, t, tp, k)]
                    rep.need(not ks, 'a supported %s is not refused' % what, r, ', '.join('::'.join(k) for k in ks[:5]))
    rep.sample('%d message cases, %d query cases, %d refusing paths' % (len(cases), len(qcases), n))


def exclusive(w, rep, cases, t, top, T, what):
    for q, cs in cases:
        rep.need(known_kind(w, q, t, top, T) is not None, 'a sent %s is of a documented kind' % what, q)
        rep.need(len(cs) == 1 and cs[0][0] == 'e', 'a %s is never dropped' % what, q, '%d entries' % len(cs))
    for k in T:
        rep.need(any(known_kind(w, q, t, top, T) == k for q, _ in cases), '%s is supported as a %s' % ('::'.join(k), what), 'execute [SendCosmosMsgs]')


# ---------------------------------------------------------------------------------------------------- responses
def Parsed(t, ty):
    """the number written in text t"""
    def m(r, a):
        h = r.head(a)
        ok = h[0] == 'fld' and h[2] == RES and h[3] == 'Ok.0' and h[1][0] == 'app' and h[1][1].startswith('parse<') and h[1][1].rstrip('>').endswith('::' + ty) and r.same(h[1][2], t)
        return [] if ok else ['%s instead of the number in %s' % (pp.pp(a)[:160], pp.pp(t)[:160])]
    return m


def OrElse(t, f, default):
    """f(content of t), or the default matcher"""
    def m(r, a):
        out = []
        for q in r.split(t, OPT):
            out += (f(('fld', t, OPT, 'Some.0')) if q.variant(t) == 'Some' else default)(q, a)
        return out
    return m


def responses_table(w, D):
    """path -> (response type, matcher of the result given the decoded response); D(type): decoded response term"""
    s = Spec(w)
    M = s.M
    BK, WS, SK = 'BankQueryResponse', 'WasmQueryResponse', 'StakingQueryResponse'
    bank, stk, wasm = 'cosmos::bank::v1beta1::', 'cosmos::staking::v1beta1::', 'cosmwasm::wasm::v1::'
    F = lambda t, ty, l: w.fld(t, full(w, ty), l)
    PC = 'cosmos::base::v1beta1::Coin'
    coin = lambda t: M('cosmwasm_std::coin::Coin', denom=V(F(t, PC, 'denom')), amount=Parsed(F(t, PC, 'amount'), 'Uint128'))
    nocoin = M('cosmwasm_std::coin::Coin', denom=K(''), amount=K(0))
    # a missing proto coin taken as the default proto coin has the amount text ''
    nocoin2 = lambda r, a: [] if not nocoin(r, a) or not M('cosmwasm_std::coin::Coin', denom=K(''), amount=Parsed(EMPTY, 'Uint128'))(r, a) else nocoin(r, a)
    PM, PU = bank + 'Metadata', bank + 'DenomUnit'
    unit = lambda e: M('DenomUnit', denom=V(F(e, PU, 'denom')), exponent=V(F(e, PU, 'exponent')), aliases=V(F(e, PU, 'aliases')))
    mf = lambda t: {l: V(F(t, PM, l)) for l in ('name', 'symbol', 'description', 'base', 'display', 'uri', 'uri_hash')}
    metadata = lambda t: M('DenomMetadata', denom_units=Each(F(t, PM, 'denom_units'), unit), **mf(t))
    nometa = M('DenomMetadata', denom_units=V(('seq', ())), **{l: K('') for l in ('name', 'symbol', 'description', 'base', 'display', 'uri', 'uri_hash')})
    PV = stk + 'Validator'

    def rate(v, l):
        com = F(v, PV, 'commission')
        return OrElse(com, lambda c: OrElse(F(c, stk + 'Commission', 'commission_rates'), lambda x: Parsed(F(x, stk + 'CommissionRates', l), 'Decimal'), Parsed(EMPTY, 'Decimal')), Parsed(EMPTY, 'Decimal'))
    validator = lambda v: M('cosmwasm_std::query::staking::Validator', address=V(F(v, PV, 'operator_address')), commission=rate(v, 'rate'), max_commission=rate(v, 'max_rate'), max_change_rate=rate(v, 'max_change_rate'))
    DR, DL = stk + 'DelegationResponse', stk + 'Delegation'
    deleg = lambda d: lambda x: M('Delegation', delegator=V(F(x, DL, 'delegator_address')), validator=V(F(x, DL, 'validator_address')), amount=OrElse(F(d, DR, 'balance'), coin, nocoin2))
    CI = wasm + 'ContractInfo'
    cinfo = lambda c: M('ContractInfoResponse', code_id=V(F(c, CI, 'code_id')), creator=V(F(c, CI, 'creator')), admin=OptIfNotEmpty(F(c, CI, 'admin')), pinned=K(False), ibc_port=OptIfNotEmpty(F(c, CI, 'ibc_port_id')))

    def wrap(outer, inner_ty, variant, body):
        return M('IcaQueryResponse', outer, f0=M(inner_ty, variant, f0=body))

    def opt_deleg(t):
        def m(r, a):
            out = []
            for q in r.split(t, OPT):
                if q.variant(t) == 'None':
                    out += Nothing()(q, a)
                else:
                    d = ('fld', t, OPT, 'Some.0')
                    out += Opt(F(d, DR, 'delegation'), deleg(d))(q, a)
            return out
        return m

    def skip(q, e):
        v = q.variant(F(e, DR, 'delegation'))
        return None if v is None else v == 'None'
    T = {}

    def add(k, ty, mk):
        T[P[k]] = (ty, mk)
    add('Balance', bank + 'QueryBalanceResponse', lambda d, ty: wrap('Bank', BK, 'Balance', M('BalanceResponse', amount=OrElse(F(d, ty, 'balance'), coin, nocoin2))))
    add('AllBalances', bank + 'QueryAllBalancesResponse', lambda d, ty: wrap('Bank', BK, 'AllBalances', M('AllBalanceResponse', amount=Each(F(d, ty, 'balances'), coin))))
    add('DenomMetadata', bank + 'QueryDenomMetadataResponse', lambda d, ty: wrap('Bank', BK, 'DenomMetadata', M('DenomMetadataResponse', metadata=OrElse(F(d, ty, 'metadata'), metadata, nometa))))
    add('AllDenomMetadata', bank + 'QueryDenomsMetadataResponse', lambda d, ty: wrap('Bank', BK, 'AllDenomMetadata', M(
        'AllDenomMetadataResponse', metadata=Each(F(d, ty, 'metadatas'), metadata), next_key=Opt(F(d, ty, 'pagination'), lambda p: V(F(p, 'cosmos::base::query::v1beta1::PageResponse', 'next_key'))))))
    add('Supply', bank + 'QuerySupplyOfResponse', lambda d, ty: wrap('Bank', BK, 'Supply', M('SupplyResponse', amount=OrElse(F(d, ty, 'amount'), coin, nocoin2))))
    add('ContractInfo', wasm + 'QueryContractInfoResponse', lambda d, ty: wrap('Wasm', WS, 'ContractInfo', Opt(F(d, ty, 'contract_info'), cinfo)))
    add('Raw', wasm + 'QueryRawContractStateResponse', lambda d, ty: wrap('Wasm', WS, 'RawContractState', OptIfNotEmpty(F(d, ty, 'data'))))
    add('Smart', wasm + 'QuerySmartContractStateResponse', lambda d, ty: wrap('Wasm', WS, 'SmartContractState', V(F(d, ty, 'data'))))
    if any(n.endswith(stk + 'QueryValidatorResponse') for n in w.p.adts):
        add('Validator', stk + 'QueryValidatorResponse', lambda d, ty: wrap('Staking', SK, 'Validator', M('ValidatorResponse', validator=Opt(F(d, ty, 'validator'), validator))))
        add('AllValidators', stk + 'QueryValidatorsResponse', lambda d, ty: wrap('Staking', SK, 'AllValidators', M('AllValidatorsResponse', validators=Each(F(d, ty, 'validators'), validator))))
        add('Delegation', stk + 'QueryDelegationResponse', lambda d, ty: wrap('Staking', SK, 'Delegation', M('IcaDelegationResponse', delegation=opt_deleg(F(d, ty, 'delegation_response')))))
        add('AllDelegations', stk + 'QueryDelegatorDelegationsResponse', lambda d, ty: wrap('Staking', SK, 'AllDelegations', M('IcaAllDelegationsResponse', delegations=Each(
            F(d, ty, 'delegation_responses'), lambda e: (lambda r, a: deleg(e)(('fld', F(e, DR, 'delegation'), OPT, 'Some.0'))(r, a)), skip))))
        add('BondedDenom', stk + 'QueryParamsResponse', lambda d, ty: wrap('Staking', SK, 'BondedDenom', M('BondedDenomResponse', denom=V(F(('fld', F(d, ty, 'params'), OPT, 'Some.0'), stk + 'Params', 'bond_denom')))))
    return T


def full(w, ty):
    if ty in w.p.adts:
        return ty
    c = [n for n in w.p.adts if n.endswith('::' + ty) and '<' not in n]
    if len(c) == 1:
        return c[0]
    c = [n for n in c if n.startswith('cosmos_sdk_proto::')]
    if len(c) == 1:
        return c[0]
    raise Inconclusive('type %s: %s' % (ty, c or 'not found'))


def decoded(w, r, resp, want):
    """the decoded response term if the row decoded `resp` as type `want` successfully"""
    for k, v in r.F.items():
        if k[0] == 'is' and v == 'Ok' and k[1][0] == 'app' and k[1][1].startswith('decode<') and r.same(k[1][2], resp):
            ty = k[1][1][len('decode<'):-1]
            if ty.endswith('::' + want):
                return ('fld', k[1], RES, 'Ok.0'), ty
    return None


def path_excluded(r, path, const):
    """the row excludes path == const"""
    if r.eq(path, ('s', const)) is False:
        return True
    h = r.head(path)
    if h[0] == 's':
        return h[1] != const
    for k, v in r.F.items():
        if k[0] in ('b', 'is', 'eqc') and contains(k[1], lambda x: x == path):
            x = fold_text(k[1], path, const)
            if x is None:
                continue
            if k[0] == 'b' and isinstance(x[0], bool) and x[0] != v:
                return True
            if k[0] == 'is' and isinstance(x[0], tuple) and x[0] and x[0][0] in ('Some', 'None') and x[0][0] != v:
                return True
            if k[0] == 'eqc' and v[0] == 's' and isinstance(x[0], str) and x[0] != v[1]:
                return True
    return False


def fold_text(t, path, const):
    """the value of a text expression over `path` at path == const, as (value,); None when it cannot be computed"""
    if t == path:
        return (const,)
    if t[0] == 's' or t[0] == 'b' and isinstance(t[1], bool) or t[0] == 'i' and isinstance(t[1], int):
        return (t[1],)
    if t[0] == 'starts':
        a, b = fold_text(t[1], path, const), fold_text(t[2], path, const)
        return (a[0].startswith(b[0]),) if a and b and isinstance(a[0], str) and isinstance(b[0], str) else None
    if t[0] == 'eq':
        a, b = fold_text(t[1], path, const), fold_text(t[2], path, const)
        return (a[0] == b[0],) if a and b and type(a[0]) == type(b[0]) else None
    if t[0] == 'len' and (a := fold_text(t[1], path, const)):
        return (len(a[0].encode()),) if isinstance(a[0], str) else None
    if t[0] == 'fld':
        a = fold_text(t[1], path, const)
        if a and isinstance(a[0], tuple):
            if t[3] == 'Some.0' and a[0][0] == 'Some':
                return (a[0][1],)
            if t[2] == '()' and a[0][0] == '()' and str(t[3]).isdigit():
                return (a[0][1 + int(t[3])],)
        return None
    if t[0] == 'app' and isinstance(t[1], str) and t[1].startswith('str::'):
        nm = t[1][5:].split('<')[0]
        xs = [fold_text(x, path, const) for x in t[2:]]
        if not xs or any(x is None for x in xs) or not isinstance(xs[0][0], str):
            return None
        a = xs[0][0]
        pat = None
        if len(xs) > 1:
            pat = chr(xs[1][0]) if 'char' in t[1] and type(xs[1][0]) is int else xs[1][0]
            if not isinstance(pat, str) or not pat:
                return None
        opt = lambda x: (('None',),) if x is None else (('Some', x),)
        if nm in ('split_once', 'rsplit_once') and pat:
            h, s, q = a.partition(pat) if nm == 'split_once' else a.rpartition(pat)
            return opt(('()', h, q) if s else None)
        if nm in ('strip_prefix', 'strip_suffix') and pat:
            ok = a.startswith(pat) if nm == 'strip_prefix' else a.endswith(pat)
            return opt((a[len(pat):] if nm == 'strip_prefix' else a[:-len(pat)]) if ok else None)
        if nm in ('find', 'rfind') and pat:
            k = a.find(pat) if nm == 'find' else a.rfind(pat)
            return opt(None if k < 0 else len(a[:k].encode()))
        if nm in ('starts_with', 'ends_with', 'contains') and pat:
            return (a.startswith(pat) if nm == 'starts_with' else a.endswith(pat) if nm == 'ends_with' else pat in a,)
        if nm == 'is_empty':
            return (not a,)
    return None


def decode_failed(w, r, resp):
    """the response cannot be decoded: wrong protobuf, a number that does not parse, or missing parameters"""
    for k, v in r.F.items():
        if k[0] == 'is' and v == 'Err' and k[1][0] == 'app' and (k[1][1].startswith('decode<') or k[1][1].startswith('parse<')):
            if k[1][1].startswith('parse<') or r.same(k[1][2], resp):
                return True
        if k[0] == 'is' and v == 'None' and k[1][0] == 'fld' and k[1][3] == 'params' and 'QueryParamsResponse' in k[1][2]:
            return True
        # (for some element)
        if k[0] == 'b' and k[1][0] in ('forall', 'exists') and contains(k[1], lambda x: x[0] == 'app' and isinstance(x[1], str) and x[1].startswith('parse<')):
            return True
    return False


def response_case(w, rep, r, path, resp, flag, out, pre, T):
    """out is the decoded answer of one query"""
    f = r.holds(flag) if flag[0] != 'b' else flag[1]
    if not rep.need(f is not None, pre + 'pre-encoded queries are told apart', r):
        return None
    if f:
        h = r.head(out)
        ok = h[0] == 'adt' and h[1].endswith('::IcaQueryResponse') and w.vname(h) == 'Stargate'
        if rep.need(ok, pre + "a pre-encoded query's response is returned as raw bytes", r, pp.pp(h)[:200]):
            rep.need(r.same(w.fld(h, h[1], 'Stargate.data'), resp), pre + "a pre-encoded query's response bytes are unchanged", r, pp.pp(h)[:200])
            rep.need(same_text(r, w.fld(h, h[1], 'Stargate.path'), path), pre + "a pre-encoded query's response names its path", r, pp.pp(h)[:200])
        return 'stargate'
    ps = [p for p in T if r.eq(path, ('s', p)) is True]
    if not rep.need(len(ps) == 1, pre + 'an answer is given only for a known path', r, pp.pp(out)[:200]):
        return None
    want, mk = T[ps[0]]
    d = decoded(w, r, resp, want)
    if rep.need(d is not None, '%s%s is decoded as %s' % (pre, ps[0], want), r):
        bad = mk(d[0], d[1])(r, out)
        rep.need(not bad, '%severy field of the answer to %s is taken from its counterpart' % (pre, ps[0]), r, '; '.join(bad[:4]))
    return ps[0]


def c21(w, rep, extra=()):
    for pre, w2 in [('', w)] + [('[features %s] ' % (c or 'none'), x) for c, x in extra]:
        it = w2.fn('types::query_msg::from_protobuf::response')
        if it is None:
            raise Inconclusive('from_protobuf::response not found')
        rows = w2.fn_rows('types::query_msg::from_protobuf::response')
        arg = {}
        for n, ty in zip(it['args'], it['in']):
            arg['flag' if ty == 'bool' else 'path' if 'str' in ty else 'resp'] = ('in', n)
        T = responses_table(w2, None)
        seen = set()
        for r in rows:
            if r.kind == 'ok':
                seen.add(response_case(w2, rep, r, arg['path'], arg['resp'], arg['flag'], r.ret, pre + '[library] ', T))
            else:
                f = r.holds(arg['flag'])
                rep.need(f is False, pre + "[library] a pre-encoded query's response is always returned", r)
                ks = [p for p in T if not path_excluded(r, arg['path'], p)]
                rep.need(not ks or decode_failed(w2, r, arg['resp']), pre + '[library] a decodable answer is not refused', r, ', '.join(ks[:3]))
        for p in list(T) + ['stargate']:
            rep.need(p in seen, '%s[library] an answer to %s can be decoded' % (pre, p), 'from_protobuf::response')
        # what can be sent can be decoded
        qrows, t = query_fn_rows(w2)
        for k in queries_table(w2, t):
            if k != ('Stargate',):
                rep.need(P[k[1]] in T and P[k[1]] in seen, pre + 'every query that can be sent has a decoder', '::'.join(k))
        rep.sample('%slibrary: %d paths through the decoder' % (pre, len(rows)))
    # the answers delivered by the contract
    T = responses_table(w, None)
    key = pkey(w, ACK)
    paths = ('st', ('s', PENDING), key)
    pe = ('elem', paths)
    n, seen = 0, set()
    for r in w.oks(ACK):
        ms = r.messages()
        c = callback_of(r, ms[0]) if ms and len(ms) == 1 else None
        if c is None or c[1][0] != 'adt' or w.vname(c[1]) != 'OnAcknowledgementPacketCallback':
            continue
        qr = w.fld(c[1], 'IcaControllerCallbackMsg', 'OnAcknowledgementPacketCallback.query_result')
        if r.variant(qr) != 'Some':
            continue
        res = r.head(r.head(qr)[3][0])
        if res[0] != 'adt' or w.vname(res) != 'Success':
            continue
        for p in r.parts(w.fld(res, res[1], 'Success.responses')):
            if p[0] != 'm':
                rep.need(False, 'the answers are built one by one', r, pp.part(p, 0)[:200])
                continue
            src = p[1]
            rs = None
            k, d = ack_kind(r)
            if k == 'Result':
                tx, mr, last = tx_parts(w, d)
                q, qv = find_query_resp(r, mr)
                if qv == 'Ok' and from_last(r, q[2], mr):
                    rs = w.fld(('fld', q, RES, 'Ok.0'), q[1][len('decode<'):-1], 'responses')
            if not rep.need(rs is not None and (src in (('zip', paths, rs), ('zip', rs, paths))
                                                or src in (paths, rs) and r.eq(('len', rs), ('len', paths)) is True),
                            'answers are paired with the queries', r, pp.pp(src)[:200]):
                continue
            for facts, cs in p[2]:
                q = r.under(dict(facts))
                n += 1
                if rep.need(len(cs) == 1 and cs[0][0] == 'e', 'one answer per query', q):
                    seen.add(response_case(w, rep, q, ('fld', pe, '()', '0'), ('elem', rs), ('fld', pe, '()', '1'), cs[0][1], '', T))
    for p in list(T) + ['stargate']:
        rep.need(p in seen, 'an answer to %s is delivered' % p, ACK)
    rep.sample('acknowledgements: %d answer cases' % n)
