"""C01 - C04, C07 - C09, C24 - C26, C29: who may do what, and which calls may change which stored item."""
from .common import *


def owner_is_sender(row):
    w = row.w
    own = S(w, 'ownership.owner')
    return (row.stored(OWN) == 'some' and row.variant(own) == 'Some'
            and row.eq(S(w, 'ownership.owner.Some.0'), A(w, 'execute', 'info.sender')) is True)


def c01(w, rep):
    rows = w.oks('execute')
    fail_closed(rep, rows)
    seen = set()
    for r in rows:
        v = msg_variant(r)
        seen.add(v)
        if v == 'UpdateOwnership':
            rep.need(r.new(OWN) is not None, 'an accepted ownership message takes effect', r)
            if OWN in r.changes():
                ownership_change(w, rep, r)
            continue
        rep.need(owner_is_sender(r), 'an accepted message requires caller == stored owner', r)
        rep.sample('execute[%s]: %s' % (v, r.desc()[:300]))
    floor(rep, len(seen - {None, 'UpdateOwnership'}), 1, 'an owner-only execute message that can succeed', 'contract::execute')


def ownership_change(w, rep, r):
    act = A(w, 'execute', 'msg.UpdateOwnership.0')
    sender = A(w, 'execute', 'info.sender')
    a = r.variant(act)
    n = lambda f: NV(r, 'ownership.' + f)
    if a == 'TransferOwnership':
        rep.need(owner_is_sender(r), 'a transfer is started only by the stored owner', r)
        rep.need(r.same(n('owner'), S(w, 'ownership.owner')), 'a transfer keeps the owner until accepted', r)
        no = A(w, 'execute', 'msg.UpdateOwnership.0.TransferOwnership.new_owner')
        rep.need(is_valid_addr_of(r, n('pending_owner'), no), 'the pending owner is the requested, validated address', r)
        rep.need(r.same(n('pending_expiry'), A(w, 'execute', 'msg.UpdateOwnership.0.TransferOwnership.expiry')), 'the pending expiry is the requested one', r)
    elif a == 'AcceptOwnership':
        po = S(w, 'ownership.pending_owner')
        rep.need(r.stored(OWN) == 'some' and r.variant(po) == 'Some' and r.eq(S(w, 'ownership.pending_owner.Some.0'), sender) is True,
                 'ownership is accepted only by the pending owner', r)
        ex = S(w, 'ownership.pending_expiry')
        good = r.variant(ex) == 'None'
        if r.variant(ex) == 'Some':
            e = ('fld', ex, OPT, 'Some.0')
            ev = r.variant(e)
            name = w.p.adt_of.get(e)
            if ev == 'Never':
                good = True
            elif ev == 'AtHeight':
                good = r.holds(('lt', A(w, 'execute', 'env.block.height'), ('fld', e, name, 'AtHeight.0'))) is True
            elif ev == 'AtTime':
                good = r.holds(('lt', A(w, 'execute', 'env.block.time'), ('fld', e, name, 'AtTime.0'))) is True
        rep.need(good, 'ownership is accepted only before the expiry, at the current block', r)
        rep.need(r.same(n('owner'), po), 'the new owner is the pending owner', r)
    else:
        rep.need(False, 'only a transfer or an acceptance changes ownership', r, str(a))


def is_valid_addr_of(r, got, requested):
    """got == Some(addr_validate(requested))"""
    h = r.head(got)
    if h[0] != 'adt' or h[2] != 1:
        return False
    return validated(r, h[3][0], requested)


def validated(r, v, requested):
    app = ('app', 'addr_validate', requested)
    v = r.head(v)
    return v == ('fld', app, RES, 'Ok.0') or (v == requested and r.F.get(('is', app)) == 'Ok')


def c02(w, rep):
    rows = w.oks('instantiate')
    fail_closed(rep, rows)
    floor(rep, len(rows), 1, 'an instantiation that succeeds', 'contract::instantiate')
    req = A(w, 'instantiate', 'msg.owner')
    sender = A(w, 'instantiate', 'info.sender')
    for r0 in rows:
        for r, want in unwrap_or(r0, req, sender):
            n = r.new(OWN)
            if not rep.need(n is not None and n[0] == 'some', 'instantiation records an owner', r):
                continue
            o = r.head(NV(r, 'ownership.owner'))
            good = o[0] == 'adt' and o[2] == 1
            if good:
                v = o[3][0]
                good = validated(r, v, want) or (want == sender and r.head(v) == sender)
            rep.need(good, 'the owner is the requested address, else the caller', r, pp.pp(o))
            rep.need(r.variant(NV(r, 'ownership.pending_owner')) == 'None', 'no transfer is pending after instantiation', r)
    act = A(w, 'execute', 'msg.UpdateOwnership.0')
    for r in w.oks('execute'):
        v = msg_variant(r)
        if v == 'UpdateOwnership':
            rep.need(r.variant(act) != 'RenounceOwnership' and r.variant(act) is not None, 'renouncing is rejected', r)
        if OWN in r.changes():
            rep.need(v == 'UpdateOwnership', 'only an ownership update touches the stored ownership', r)
            n = r.new(OWN)
            rep.need(n is not None and n[0] == 'some' and r.variant(NV(r, 'ownership.owner')) == 'Some',
                     'the stored owner is never absent after an update', r)
    fail_closed(rep, w.oks('execute'))
    for e in MUTATING:
        if e in ('instantiate', 'execute'):
            continue
        for r in w.oks(e):
            rep.need(OWN not in r.changes(), 'only an ownership update touches the stored ownership', r)
        fail_closed(rep, w.oks(e))


def flag_rules(w, rep, flag, setters, user):
    """`flag` becomes true only in `setters` (entry, msg variant or None), and false exactly in `user`"""
    for e in MUTATING:
        rows = w.oks(e)
        fail_closed(rep, rows)
        for r in rows:
            if flag not in r.changes() and r.new(flag) is None:
                continue
            n = r.new(flag)
            # no stored permission is the same as a stored refusal
            v = r.head(n[1]) if n[0] == 'some' else FALSE
            mv = msg_variant(r)
            if (e, mv) == user:
                rep.need(v == FALSE, 'the permission is used up', r, repr(v))
            elif e == 'instantiate' and v == FALSE and (e, None) not in setters:
                continue
            elif (e, mv) in setters or (e, None) in setters:
                rep.need(v == TRUE, 'the permission is given with the request', r, repr(v))
            else:
                rep.need(flag not in r.changes(), 'the permission changes only by a request and its use', r, repr(v))


def c03(w, rep):
    flag_rules(w, rep, ALLOW_OPEN, {('instantiate', None), ('execute', 'CreateChannel')}, ('ibc_channel_open', 'OpenInit'))
    use = w.oks('ibc_channel_open')
    floor(rep, len(use), 1, 'an open-init that can be accepted', 'ibc_channel_open')
    for r in use:
        rep.need(r.stored(ALLOW_OPEN) == 'some' and r.holds(STORED(ALLOW_OPEN)) is True, 'an open-init needs the stored permission', r)
        n = r.new(ALLOW_OPEN)
        rep.need(n is not None and (n[0] == 'none' or r.head(n[1]) == FALSE), 'an accepted open-init uses up the permission', r)
        rep.sample('ibc_channel_open: ' + r.desc()[:300])
    for e in ALL:
        for r in w.oks(e):
            if e == 'query':
                continue
            ms = r.messages()
            k = sum(1 for m in ms if is_open_init(r, m)) if ms is not None else None
            mv = msg_variant(r)
            req = e == 'instantiate' or (e, mv) == ('execute', 'CreateChannel')
            if req:
                n = r.new(ALLOW_OPEN)
                rep.need(n is not None and n[0] == 'some' and r.head(n[1]) == TRUE, 'a request gives the permission', r)
                rep.need(k == 1, 'the permission is given together with exactly one open-init message', r)
            else:
                rep.need(k == 0, 'only a request sends an open-init message', r)


def c04(w, rep):
    flag_rules(w, rep, ALLOW_CLOSE, {('execute', 'CloseChannel')}, ('ibc_channel_close', 'CloseInit'))
    n_use = 0
    for r in w.oks('ibc_channel_close'):
        mv = msg_variant(r)
        if mv == 'CloseConfirm':
            continue
        n_use += 1
        rep.need(r.stored(ALLOW_CLOSE) == 'some' and r.holds(STORED(ALLOW_CLOSE)) is True, 'a close-init needs the stored permission', r)
        n = r.new(ALLOW_CLOSE)
        rep.need(n is not None and (n[0] == 'none' or r.head(n[1]) == FALSE), 'an accepted close-init uses up the permission', r)
    floor(rep, n_use, 1, 'a close-init that can be accepted', 'ibc_channel_close')
    nreq = 0
    for r in w.oks('execute'):
        if msg_variant(r) != 'CloseChannel':
            continue
        nreq += 1
        rep.need(r.stored(CHAN) == 'some' and r.variant(S(w, 'ica_channel.channel_status')) == 'Open', 'closing needs the recorded channel to be open', r)
        n = r.new(ALLOW_CLOSE)
        rep.need(n is not None and n[0] == 'some' and r.head(n[1]) == TRUE, 'a close request gives the permission', r)
        ms = r.messages()
        if rep.need(ms is not None and len(ms) == 1, 'a close request sends exactly one message', r):
            c = close_target(r, ms[0])
            rep.need(c is not None and is_plain(r, ms[0]) and r.same(c, S(w, 'ica_channel.channel.endpoint.channel_id')),
                     'the close message names the recorded channel', r)
    floor(rep, nreq, 1, 'a close request that can succeed', 'contract::execute')
    for e in MUTATING:
        for r in w.oks(e):
            if (e, msg_variant(r)) == ('execute', 'CloseChannel'):
                continue
            ms = r.messages()
            rep.need(ms is not None and not any(close_target(r, m) for m in ms), 'only a close request sends a close message', r)


def close_target(r, sm):
    h = r.head(r.sub(sm)[0])
    if h[0] != 'adt' or r.w.vname(h) != 'Ibc':
        return None
    x = r.head(h[3][0])
    if x[0] != 'adt' or r.w.vname(x) != 'CloseChannel':
        return None
    return r.w.fld(x, x[1], 'CloseChannel.channel_id')


def not_open(r):
    return r.stored(CHAN) == 'none' or (r.stored(CHAN) == 'some' and r.not_variant(S(r.w, 'ica_channel.channel_status'), 'Open'))


def c07(w, rep):
    for e in ('ibc_channel_open', 'ibc_channel_connect'):
        rows = w.oks(e)
        fail_closed(rep, rows)
        floor(rep, len(rows), 1, 'an accepted handshake step', e)
        for r in rows:
            rep.need(not_open(r), 'a handshake step is accepted only while no channel is open', r)
            rep.sample(e + ': ' + r.desc()[:300])


def c08(w, rep):
    for r in w.rows('ibc_packet_receive'):
        rep.need(r.kind != 'ok' and not (r.kind == 'val'), 'an incoming packet never succeeds', r)
    for r in w.rows('ibc_channel_open'):
        if r.kind == 'ok':
            rep.need(msg_variant(r) == 'OpenInit', 'only the controller-side open step can succeed', r)
    for r in w.rows('ibc_channel_connect'):
        if r.kind == 'ok':
            rep.need(msg_variant(r) == 'OpenAck', 'only the controller-side connect step can succeed', r)
    exp = {(s[0], s[1]) for s in w.p.stripped if 'wasm32' in s[2]}
    for e in ENTRIES:
        it = w.fn(ENTRIES[e][0] + '::' + e)
        rep.need(it is not None, 'the entry point exists', e)
        mod = it['path'].rsplit('::', 1)[0] if it else ''
        rep.need((mod, '__wasm_export_' + e) in exp, 'the entry point is exported by the wasm build', e, 'no #[entry_point] export of ' + e)
    rep.sample('exports: ' + ', '.join(sorted(x[1] for x in exp)))


def c09(w, rep):
    for e in MUTATING:
        rows = w.oks(e)
        fail_closed(rep, rows)
        for r in rows:
            mv = msg_variant(r)
            if e == 'ibc_channel_close':
                ch = A(w, e, 'msg.%s.channel' % mv) if mv else ('bad', '?')
                rec = S(w, 'ica_channel.channel')
                rep.need(r.stored(CHAN) == 'some' and mv is not None and all_eq(r, ch, rec, w.adt('IbcChannel')),
                         'a close notification is accepted only for exactly the recorded channel', r)
                rep.need(r.variant(S(w, 'ica_channel.channel_status')) == 'Open', 'a close notification is accepted only while open', r)
                n = r.new(CHAN)
                good = n is not None and n[0] == 'some' and r.same(NV(r, 'ica_channel.channel'), rec) and \
                    r.variant(NV(r, 'ica_channel.channel_status')) == 'Closed'
                rep.need(good, 'an accepted close notification records the channel as closed', r)
                rep.sample('ibc_channel_close: ' + r.desc()[:300])
                continue
            if CHAN not in r.changes():
                rep.need(True, 'the recorded channel changes only by handshake, close or timeout', r)
                continue
            good = (e == 'ibc_channel_connect' and mv == 'OpenAck') or \
                (e == 'ibc_packet_timeout' and r.variant(S(w, 'ica_channel.channel.order')) == 'Ordered')
            rep.need(good, 'the recorded channel changes only by handshake, close or timeout', r)
            if e == 'ibc_packet_timeout':
                rep.need(r.same(NV(r, 'ica_channel.channel'), S(w, 'ica_channel.channel')) and r.variant(NV(r, 'ica_channel.channel_status')) == 'Closed',
                         'a timeout can only close the recorded channel', r)
            if e == 'ibc_channel_connect':
                rep.need(r.variant(NV(r, 'ica_channel.channel_status')) == 'Open', 'a completed handshake records an open channel', r)
    seen = {msg_variant(r) for r in w.oks('ibc_channel_close')}
    rep.need('CloseInit' in seen, 'a close-init can be accepted', 'ibc_channel_close')
    rep.need('CloseConfirm' in seen, 'a close-confirm can be accepted', 'ibc_channel_close')
    # refusals of a close notification need a reason
    for r in [x for x in w.rows('ibc_channel_close') if x.kind in ('err', 'panic')]:
        mv = msg_variant(r)
        if mv is None:
            rep.need(False, 'a close notification is refused only for a reason', r)
            continue
        ch = A(w, 'ibc_channel_close', 'msg.%s.channel' % mv)
        why = unreadable(r, CHAN) or unequal(r, ch, S(w, 'ica_channel.channel')) or \
            r.not_variant(S(w, 'ica_channel.channel_status'), 'Open')
        if mv == 'CloseInit':
            why = why or unreadable(r, ALLOW_CLOSE) or r.holds(STORED(ALLOW_CLOSE)) is False
        rep.need(why and r.kind == 'err', 'a close notification is refused only for a reason', r)


def c24(w, rep):
    for e in MUTATING:
        rows = w.oks(e)
        fail_closed(rep, rows)
        for r in rows:
            mv = msg_variant(r)
            if e == 'instantiate':
                n = r.new(OPTS)
                rep.need(n is not None and n[0] == 'some' and r.same(n[1], A(w, e, 'msg.channel_open_init_options')),
                         'instantiation remembers its options', r)
            elif e == 'execute' and mv == 'CreateChannel':
                o = A(w, e, 'msg.CreateChannel.channel_open_init_options')
                for q in r.split(o, OPT):
                    if q.variant(o) == 'Some':
                        n = q.new(OPTS)
                        rep.need(n is not None and n[0] == 'some' and q.same(n[1], ('fld', o, OPT, 'Some.0')),
                                 'create-channel remembers the options it was given', q)
                    else:
                        rep.need(OPTS not in q.changes(), 'create-channel without options keeps the remembered ones', q)
                        rep.need(q.stored(OPTS) == 'some', 'create-channel without options needs remembered ones', q)
            else:
                rep.need(OPTS not in r.changes(), 'nothing else changes the remembered options', r)
    # the options used
    for r in w.oks('execute'):
        if msg_variant(r) != 'CreateChannel':
            continue
        o = A(w, 'execute', 'msg.CreateChannel.channel_open_init_options')
        for q in r.split(o, OPT):
            eff = ('fld', o, OPT, 'Some.0') if q.variant(o) == 'Some' else STORED(OPTS)
            other = STORED(OPTS) if q.variant(o) == 'Some' else None
            from .r_channel import open_init_matches
            open_init_matches(w, rep, q, 'execute', eff, 'the request uses the effective options: ')
    rep.need(any(msg_variant(r) == 'CreateChannel' for r in w.oks('execute')), 'a create-channel can succeed', 'contract::execute')
    for r in [x for x in w.rows('execute') if x.kind == 'err' and msg_variant(x) == 'CreateChannel']:
        o = A(w, 'execute', 'msg.CreateChannel.channel_open_init_options')
        why = unreadable(r, OWN) or r.variant(S(w, 'ownership.owner')) == 'None' or \
            r.eq(S(w, 'ownership.owner.Some.0'), A(w, 'execute', 'info.sender')) is False or \
            (r.variant(o) == 'None' and unreadable(r, OPTS)) or r.stored(OPTS) == 'bad'
        rep.need(why, 'a create-channel of the owner is refused only without any options', r)


def c25(w, rep):
    for e in MUTATING:
        rows = w.oks(e)
        fail_closed(rep, rows)
        for r in rows:
            mv = msg_variant(r)
            if e == 'instantiate' or (e == 'execute' and mv == 'UpdateCallbackAddress'):
                req = A(w, e, 'msg.send_callbacks_to' if e == 'instantiate' else 'msg.UpdateCallbackAddress.callback_address')
                for q in r.split(req, OPT):
                    n = q.new(STATE)
                    got = NV(q, 'state.callback_address')
                    if e == 'instantiate' and not rep.need(n is not None and n[0] == 'some', 'instantiation records the state', q):
                        continue
                    if q.variant(req) == 'None':
                        rep.need(q.variant(got) == 'None', 'no requested address clears the callback address', q)
                    else:
                        rep.need(is_valid_addr_of(q, got, ('fld', req, OPT, 'Some.0')), 'the callback address is the requested one, validated', q)
                    if e == 'execute':
                        rep.need(q.stored(STATE) == 'some' and q.same(NV(q, 'state.ica_info'), S(w, 'state.ica_info')),
                                 'an update keeps the recorded account', q)
                        rep.need(q.changes() <= {STATE}, 'an update changes nothing else', q, str(q.changes()))
                        rep.need(q.messages() == [], 'an update sends nothing', q)
            elif STATE in r.changes():
                n = r.new(STATE)
                rep.need(n[0] == 'some' and r.stored(STATE) == 'some' and r.same(NV(r, 'state.callback_address'), S(w, 'state.callback_address')),
                         'nothing else changes the callback address', r)
            else:
                rep.need(True, 'nothing else changes the callback address', r)
    rep.need(any(msg_variant(r) == 'UpdateCallbackAddress' for r in w.oks('execute')), 'an update can succeed', 'contract::execute')


def c26(w, rep):
    rows = w.oks('migrate')
    fail_closed(rep, rows)
    floor(rep, len(rows), 1, 'a migration that can succeed', 'contract::migrate')
    name = version = None
    for r in w.oks('instantiate'):
        n = r.new(CINFO)
        if n is not None and n[0] == 'some':
            name, version = NV(r, 'contract_info.contract'), NV(r, 'contract_info.version')
        rep.need(n is not None and n[0] == 'some', 'instantiation records name and version', r)
    if name is None:
        return
    rep.need(name == ('s', 'crates.io:cw-ica-controller'), 'the contract name is the released one', 'contract::instantiate', pp.pp(name))
    import re
    cv = crate_version()
    rep.need(version == ('s', cv), 'the recorded version is the crate version', 'contract::instantiate', '%s vs %s' % (pp.pp(version), cv))
    old = ('app', 'parse<semver::Version>', S(w, 'contract_info.version'))
    new = ('app', 'parse<semver::Version>', version)
    okf = lambda t: ('fld', t, RES, 'Ok.0')
    for r in rows:
        rep.need(r.stored(CINFO) == 'some' and r.eq(S(w, 'contract_info.contract'), name) is True, 'the stored name must be this contract', r)
        lt = r.holds(('lt', okf(old), okf(new))) is True or sem_lt(r, okf(old), okf(new))
        rep.need(lt, 'the stored version must be strictly lower', r)
        rep.need(r.stored(STATE) == 'some', 'the stored state must be readable', r)
        info = S(w, 'state.ica_info')
        for q in r.split(info, OPT):
            if q.variant(info) == 'Some':
                rep.need(q.variant(S(w, 'state.ica_info.Some.0.encoding')) == 'Protobuf', 'a recorded account must use proto3', q)
        n = r.new(CINFO)
        rep.need(n is not None and n[0] == 'some' and r.same(NV(r, 'contract_info.contract'), name) and r.same(NV(r, 'contract_info.version'), version),
                 'the new name and version are recorded', r)
        rep.need(r.changes() <= {CINFO}, 'a migration changes nothing else', r, str(r.changes()))
        rep.need(r.messages() == [], 'a migration sends nothing', r)
        rep.sample('migrate: ' + r.desc()[:400])


def sem_lt(r, a, b):
    """a < b expressed through cmp/partial_cmp"""
    return False


def crate_version():
    for l in open(build.REPO + '/Cargo.toml'):
        l = l.strip()
        if l.startswith('version') and '=' in l:
            return l.split('=', 1)[1].strip().strip('"')


def c29(w, rep):
    rows = w.rows('query')
    fail_closed(rep, [r for r in rows if r.kind == 'ok'])
    want = {'GetContractState': STATE, 'GetChannel': CHAN, 'Ownership': OWN}
    seen = set()
    for r in rows:
        mv = msg_variant(r)
        rep.need(not r.store, 'a query writes nothing', r)
        if r.kind == 'ok':
            seen.add(mv)
            if not rep.need(mv in want, 'only the three queries are answered', r):
                continue
            j = json_arg(r, r.ret)
            rep.need(j is not None and r.stored(want[mv]) == 'some' and r.same(j, STORED(want[mv])), 'the answer is exactly the stored item', r)
            rep.sample('query[%s] -> %s' % (mv, pp.pp(r.ret)[:200]))
        else:
            rep.need(r.kind == 'err' and mv in want and unreadable(r, want[mv]), 'a query fails only if the item cannot be read', r)
    for mv in want:
        rep.need(mv in seen, 'the query is answered', 'contract::query', mv)
