"""C32, C33: the example contracts."""
from .common import *
from .r_helpers import one_msg, predicted, empty

COUNT, ICAS, IDS = 'ica_count', 'ica_states', 'contract_addr_to_ica_id'


def known_effects(rep, w, entries):
    for e in entries:
        fail_closed(rep, w.rows(e))


def msgs(rep, row):
    ms = row.messages()
    rep.need(ms is not None, 'the messages sent are exactly known', row)
    return ms or []


def answers(rep, row, expected, what):
    v = row.head(row.ret)
    rep.need(v[0] == 'json' and row.same(v[1], expected), what, row)


def c32(w, rep):
    known_effects(rep, w, ['instantiate', 'execute', 'query'])
    sender, me = A(w, 'execute', 'info.sender'), A(w, 'execute', 'env.contract.address')
    st = w.adt('cw_ica_owner::state::contract::ContractState')
    rec, ica = w.adt('state::ica::IcaContractState'), w.adt('state::ica::IcaState')
    admin, cid = w.fld(STORED('state'), st, 'admin'), w.fld(STORED('state'), st, 'ica_controller_code_id')
    n = 0
    for row in w.oks('instantiate'):
        n += 1
        rep.need(row.changes() == {'state'}, 'creation stores the contract state and nothing else', row)
        v = row.new_value('state')
        m = A(w, 'instantiate', 'msg.admin')
        for r in row.split(m, OPT):
            got = w.fld(v, st, 'admin')
            if r.variant(m) == 'None':
                rep.need(r.same(got, A(w, 'instantiate', 'info.sender')), 'without a given admin, the creator is the admin', r)
            else:
                given = r.head(m)[3][0]
                rep.need(r.same(got, given) or got[0] == 'fld' and got[3] == 'Ok.0' and got[1][0] == 'app' and 'addr_validate' in got[1][1] and r.same(got[1][-1], given),
                         'the given admin is the admin', r)
        rep.need(row.same(w.fld(v, st, 'ica_controller_code_id'), A(w, 'instantiate', 'msg.ica_controller_code_id')), 'the given code id is stored', row)
        rep.need(not msgs(rep, row), 'creation sends nothing', row)
    floor(rep, n, 1, 'a successful creation', 'instantiate')
    seen = set()
    for row in w.oks('execute'):
        k = msg_variant(row)
        seen.add(k)
        if k in ('CreateIcaContract', 'SendPredefinedAction') or k is None:
            rep.need(row.stored('state') == 'some' and row.eq(sender, admin) is True, 'only the admin creates controllers and sends actions', row)
        if k == 'CreateIcaContract':
            create(w, rep, row, me, cid, rec)
        elif k == 'SendPredefinedAction':
            rep.need(not row.changes(), 'sending an action changes nothing stored', row)
            i = A(w, 'execute', 'msg.SendPredefinedAction.ica_id')
            rep.need(row.stored(ICAS, i) == 'some', 'an action goes through a recorded controller', row)
            ms = msgs(rep, row)
            if rep.need(len(ms) == 1, 'an action is one message', row):
                e = wasm_execute(row, row.sub(ms[0])[0])
                if rep.need(e is not None, 'an action is a contract call', row):
                    rep.need(row.same(e[0], w.fld(('st', ('s', ICAS), i), rec, 'contract_addr')), 'an action goes to the controller of the given number', row)
                    rep.need(empty(row, e[2]), 'an action carries no funds', row)
                    action(w, rep, row, e[1])
        elif k == 'ReceiveIcaCallback':
            callback(w, rep, row, sender, rec, ica)
        else:
            rep.need(False, 'only the known messages are accepted', row)
    for k in ('CreateIcaContract', 'SendPredefinedAction', 'ReceiveIcaCallback'):
        rep.need(k in seen, '%s can succeed' % k, 'execute')
    bad = ('none', 'bad')
    erred = lambda r: any(f[0] == 'is' and v == 'Err' and isinstance(f[1], tuple) and f[1][0] in ('app', 'call') for f, v in r.F.items())
    for row in w.rows('instantiate'):
        if row.kind != 'ok':
            m = A(w, 'instantiate', 'msg.admin')
            rep.need(row.variant(m) == 'Some' and erred(row), 'creation is refused only for an invalid admin', row)
    for row in w.rows('execute'):
        if row.kind == 'ok':
            continue
        k = msg_variant(row)
        not_admin = row.stored('state') in bad or row.eq(sender, admin) is False
        if k == 'CreateIcaContract':
            why = not_admin or erred(row) or row.kind == 'panic' and any(f[0] == 'b' and v is True and f[1][:2] == ('app', 'overflow') for f, v in row.F.items())
        elif k == 'SendPredefinedAction':
            why = not_admin or row.stored(ICAS, A(w, 'execute', 'msg.SendPredefinedAction.ica_id')) in bad
        else:
            why = row.stored(IDS, sender) in bad or row.stored(ICAS, ('st', ('s', IDS), sender)) in bad
        rep.need(why, 'the admin and the recorded controllers are not refused', row, str(k))
    for row in w.rows('query'):
        if row.kind != 'ok':
            rep.need(any(f[0] == 'stored' and v in bad for f, v in row.F.items()), 'a query is refused only when there is nothing to report', row)
    q = {}
    for row in w.oks('query'):
        k = msg_variant(row)
        q[k] = 1
        if k == 'GetContractState':
            answers(rep, row, STORED('state'), 'the state query returns the stored state')
        elif k == 'GetIcaContractState':
            answers(rep, row, ('st', ('s', ICAS), A(w, 'query', 'msg.GetIcaContractState.ica_id')), "the controller query returns the record of the given number")
        elif k == 'GetIcaCount':
            answers(rep, row, STORED(COUNT), 'the count query returns the stored count')
    floor(rep, len(q), 3, 'an answer for every query', 'query')
    rep.sample('owner example: instantiate, CreateIcaContract, SendPredefinedAction, ReceiveIcaCallback and the three queries')


def create(w, rep, row, me, cid, rec):
    s = row.stored(COUNT)
    if s == 'some':
        n = STORED(COUNT)
    elif s in ('none', 'bad'):
        n = ('i', 0)
    else:
        rep.need(False, 'the number of a new controller is the stored count', row)
        return
    nxt = row.new_value(COUNT)
    want = ('i', 1) if n == ('i', 0) else None
    ok = nxt is not None and (row.same(nxt, want) if want else nxt[0] == 'add' and {nxt[1], nxt[2]} == {('i', 1), n} or
                              nxt[0] == 'app' and 'add' in nxt[1] and {('i', 1), n} == set(nxt[2:]))
    rep.need(ok, 'every created controller uses up one number', row, pp.pp(nxt) if nxt else '')
    rep.need(row.changes() <= {COUNT, ICAS, IDS}, 'creating a controller records it and nothing else', row)
    recs, ids = row.map_raw(ICAS), row.map_raw(IDS)
    if not rep.need(len(recs) == 1 and len(ids) == 1 and recs[0][1][0] == 'some' and ids[0][1][0] == 'some', 'one record and one address entry are written', row):
        return
    key, val = recs[0]
    rep.need(row.same(key, n), 'a new controller is recorded under a fresh number', row)
    addr = w.fld(val[1], rec, 'contract_addr')
    rep.need(row.variant(w.fld(val[1], rec, 'ica_state')) == 'None', 'a new controller starts without an account', row)
    rep.need(row.same(ids[0][0], addr) and row.same(ids[0][1][1], n), 'the address entry names the recorded controller', row)
    ms = msgs(rep, row)
    if not rep.need(len(ms) == 1, 'creating a controller sends one message', row):
        return
    rep.need(is_plain(row, ms[0]), 'the creation must succeed for the record to be kept', row)
    f = one_msg(row, row.sub(ms[0])[0], 'Instantiate2')
    if not rep.need(f is not None, 'the controller is created at a predictable address', row):
        return
    rep.need(row.same(f('code_id'), cid), 'the controller is created from the stored code id', row)
    predicted(w, rep, row, addr, cid, f('salt'))
    j = json_arg(row, f('msg'))
    if rep.need(j is not None, 'the controller gets an instantiation message', row):
        j = row.head(j)
        ty = w.adt('cw_ica_controller::types::msg::InstantiateMsg')
        for l in ('owner', 'send_callbacks_to'):
            o = row.head(w.fld(j, ty, l))
            rep.need(o[0] == 'adt' and row.w.vname(o) == 'Some' and row.same(o[3][0], me), 'the created controller is owned by, and calls back, this contract', row, l)
        rep.need(row.same(w.fld(j, ty, 'channel_open_init_options'), A(w, 'execute', 'msg.CreateIcaContract.channel_open_init_options')),
                 'the controller opens its channel with the given options', row)


def action(w, rep, row, m):
    j = json_arg(row, m)
    j = row.head(j) if j is not None else ('none',)
    ok = j[0] == 'adt' and w.vname(j) == 'SendCosmosMsgs'
    if ok:
        ps = row.parts(w.fld(j, j[1], 'SendCosmosMsgs.messages'))
        ok = len(ps) == 1 and ps[0][0] == 'e'
        if ok:
            b = row.head(ps[0][1])
            ok = b[0] == 'adt' and w.vname(b) == 'Bank'
            if ok:
                s = row.head(b[3][0])
                ok = s[0] == 'adt' and w.vname(s) == 'Send' and row.same(w.fld(s, s[1], 'Send.to_address'), A(w, 'execute', 'msg.SendPredefinedAction.to_address'))
                coin = row.parts(w.fld(s, s[1], 'Send.amount')) if ok else ()
                ok = len(coin) == 1 and coin[0][0] == 'e'
                if ok:
                    c = row.head(coin[0][1])
                    ok = row.same(w.fld(c, c[1], 'denom'), ('s', 'stake')) and row.same(w.fld(c, c[1], 'amount'), ('i', 100)) if c[0] == 'adt' else False
    rep.need(ok, 'the action sends 100 stake to the given recipient', row)


def callback(w, rep, row, sender, rec, ica):
    i = ('st', ('s', IDS), sender)
    # ('bad': there is a record that cannot be read, which the contract never writes)
    rep.need(row.stored(IDS, sender) == 'some' and row.stored(ICAS, i) in ('some', 'bad'), 'a callback is accepted only from a recorded controller', row)
    rep.need(not msgs(rep, row), 'a callback sends nothing', row)
    cb = A(w, 'execute', 'msg.ReceiveIcaCallback.0')
    old = ('st', ('s', ICAS), i)
    if row.not_variant(cb, 'OnChannelOpenAckCallback'):
        rep.need(not row.changes(), 'a packet callback changes nothing', row)
        return
    if not rep.need(row.variant(cb) == 'OnChannelOpenAckCallback', 'only a channel-open callback updates a record', row):
        return
    rep.need(row.changes() <= {ICAS}, 'a callback changes only the record of its sender', row)
    ws = row.map_raw(ICAS)
    if not rep.need(len(ws) == 1 and row.same(ws[0][0], i) and ws[0][1][0] == 'some', 'a channel-open callback updates the record of its sender', row):
        return
    v = ws[0][1][1]
    rep.need(row.same(w.fld(v, rec, 'contract_addr'), w.fld(old, rec, 'contract_addr')), 'the controller address is kept', row)
    s = row.head(w.fld(v, rec, 'ica_state'))
    if not rep.need(s[0] == 'adt' and w.vname(s) == 'Some', 'the account is recorded', row):
        return
    s = s[3][0]
    c = lambda l: A(w, 'execute', 'msg.ReceiveIcaCallback.0.OnChannelOpenAckCallback.' + l)
    ch = w.fld(s, ica, 'channel_state')
    cs = w.adt('ChannelState')
    rep.need(row.same(w.fld(s, ica, 'ica_id'), i), 'the account carries the number of its controller', row)
    rep.need(row.same(w.fld(s, ica, 'ica_addr'), c('ica_address')), 'the account address is the reported one', row)
    rep.need(row.same(w.fld(s, ica, 'tx_encoding'), c('tx_encoding')), 'the encoding is the reported one', row)
    rep.need(row.same(w.fld(ch, cs, 'channel'), c('channel')) and row.variant(w.fld(ch, cs, 'channel_status')) == 'Open', 'the reported channel is recorded as open', row)


def c33(w, rep):
    known_effects(rep, w, ['instantiate', 'execute', 'query'])
    CB = 'callback_counter'
    ty = w.adt('CallbackCounter')
    LISTS = ('success', 'error', 'timeout')
    old = {l: w.fld(STORED(CB), ty, l) for l in LISTS}
    n = 0
    for row in w.oks('instantiate'):
        n += 1
        rep.need(row.changes() == {CB}, 'creation stores the counter and nothing else', row)
        v = row.new_value(CB)
        for l in LISTS:
            rep.need(empty(row, w.fld(v, ty, l)), 'the counter starts empty', row, l)
    floor(rep, n, 1, 'a successful creation', 'instantiate')
    cb = A(w, 'execute', 'msg.ReceiveIcaCallback.0')
    ack = lambda r: w.path(cb, w.adt('IcaControllerCallbackMsg'), 'OnAcknowledgementPacketCallback.ica_acknowledgement')
    hit = set()
    for row0 in w.oks('execute'):
        for row1 in row0.split(cb, 'IcaControllerCallbackMsg'):
            k = row1.variant(cb)
            for row in (row1.split(ack(row1), w.adt('acknowledgement::Data')) if k == 'OnAcknowledgementPacketCallback' else [row1]):
                rep.need(not msgs(rep, row), 'a callback sends nothing', row)
                if k == 'OnChannelOpenAckCallback':
                    hit.add(k)
                    rep.need(not row.changes(), 'a channel-open callback changes nothing', row)
                    continue
                if k == 'OnTimeoutPacketCallback':
                    to = 'timeout'
                elif k == 'OnAcknowledgementPacketCallback':
                    to = {'Result': 'success', 'Error': 'error'}.get(row.variant(ack(row)))
                else:
                    to = None
                if not rep.need(to is not None, 'the kind of callback is known', row):
                    continue
                hit.add(to)
                rep.need(row.stored(CB) == 'some' and row.changes() <= {CB}, 'a callback changes only the counter', row)
                v = row.new_value(CB)
                for l in LISTS:
                    new = w.fld(v, ty, l) if v is not None else ('bad', 'removed')
                    if l == to:
                        ps = row.parts(new)
                        rep.need(len(ps) == 2 and ps[0][0] == 's' and row.same(ps[0][1], old[l]) and ps[1][0] == 'e' and row.same(ps[1][1], cb) or
                                 row.holds(mk_empty(old[l])) is True and len(ps) == 1 and ps[0][0] == 'e' and row.same(ps[0][1], cb),
                                 'the callback is appended once to the list it belongs to', row, l)
                    else:
                        rep.need(row.same(new, old[l]), 'the other lists are unchanged', row, l)
    rep.need(hit == {'OnChannelOpenAckCallback', 'success', 'error', 'timeout'}, 'every kind of callback is accepted', 'execute', str(sorted(hit)))
    for row in w.rows('execute'):
        if row.kind != 'ok':
            rep.need(row.stored(CB) in ('none', 'bad'), 'a callback is refused only when the counter cannot be read', row)
    n = 0
    for row in w.oks('query'):
        n += 1
        answers(rep, row, STORED(CB), 'the query returns the recorded lists')
    floor(rep, n, 1, 'an answer', 'query')
    rep.sample('callback counter: instantiate, ReceiveIcaCallback by kind of callback, GetCallbackCounter')
