"""C31: the helper types external contracts use."""
from .common import *

CON, CODE, QRY = 'helpers::CwIcaControllerContract::', 'helpers::CwIcaControllerCode::', 'helpers::CwIcaControllerContractQuerier::'


def inner(w, ty, i='0'):
    return w.fld(('in', 'self'), ty, i)


def one_msg(row, v, variant):
    """fields of a CosmosMsg::Wasm(WasmMsg::variant)"""
    h = row.head(v)
    if h[0] != 'adt' or row.w.vname(h) != 'Wasm':
        return None
    x = row.head(h[3][0])
    if x[0] != 'adt' or row.w.vname(x) != variant:
        return None
    return lambda l: row.w.fld(x, x[1], variant + '.' + l)


def ok_val(row):
    v = row.o.val
    if v[0] == 'adt' and v[1] == RES:
        return v[3][0] if v[2] == 0 else None
    return v


def empty(row, v):
    return row.head(v) in EMPTIES or row.holds(mk_empty(v)) is True


def is_json_of(row, v, arg):
    j = row.head(v)
    return j[0] == 'json' and row.same(j[1], ('in', arg))


def opt_same(row, v, arg):
    """v is the optional argument, possibly converted"""
    a = ('in', arg)
    k = row.variant(a)
    h = row.head(v)
    if k == 'None':
        return row.variant(v) == 'None' or h[0] == 'adt' and row.w.vname(h) == 'None'
    return row.same(v, a)


def c31(w, rep):
    con, code, qr = w.adt('CwIcaControllerContract'), w.adt('CwIcaControllerCode'), w.adt('CwIcaControllerContractQuerier')
    addr = inner(w, con)
    cid = inner(w, code)

    def rows(path, names=None):
        rs = w.fn_rows(path, names)
        n = 0
        for r in rs:
            rep.need(r.kind != 'panic', 'a helper never aborts', r)
            if r.kind in ('ok', 'val'):
                n += 1
                yield r
        rep.need(n > 0, 'the helper has a successful outcome', path)
    # accessors: what the other helpers are built from
    for r in rows(CON + 'new', ['addr']):
        rep.need(r.same(w.fld(ok_val(r), con, '0'), ('in', 'addr')), 'the wrapper holds the given address', r)
    for r in rows(CON + 'addr', ['self']):
        rep.need(r.same(ok_val(r), addr), 'the wrapped address is returned', r)
    for r in rows(CODE + 'new', ['code_id']):
        rep.need(r.same(w.fld(ok_val(r), code, '0'), ('in', 'code_id')), 'the wrapper holds the given code id', r)
    for r in rows(CODE + 'code_id', ['self']):
        rep.need(r.same(ok_val(r), cid), 'the wrapped code id is returned', r)

    def msg(r, v, variant):
        f = one_msg(r, v, variant)
        rep.need(f is not None, 'the helper builds a WasmMsg::%s' % variant, r)
        return f
    for r in rows(CON + 'execute', ['self', 'msg']):
        f = msg(r, ok_val(r), 'Execute')
        if f:
            rep.need(r.same(f('contract_addr'), addr), 'the message targets the wrapped contract', r)
            rep.need(is_json_of(r, f('msg'), 'msg'), 'the message carries the given message', r)
            rep.need(empty(r, f('funds')), 'no funds are sent', r)
    for r in rows(CON + 'update_admin', ['self', 'admin']):
        f = msg(r, ok_val(r), 'UpdateAdmin')
        if f:
            rep.need(r.same(f('contract_addr'), addr), 'the message targets the wrapped contract', r)
            rep.need(r.same(f('admin'), ('in', 'admin')), 'the message carries the given admin', r)
    for r in rows(CON + 'clear_admin', ['self']):
        f = msg(r, ok_val(r), 'ClearAdmin')
        if f:
            rep.need(r.same(f('contract_addr'), addr), 'the message targets the wrapped contract', r)
    for r in rows(CON + 'migrate', ['self', 'msg', 'new_code_id']):
        f = msg(r, ok_val(r), 'Migrate')
        if f:
            rep.need(r.same(f('contract_addr'), addr), 'the message targets the wrapped contract', r)
            rep.need(r.same(f('new_code_id'), ('in', 'new_code_id')), 'the message carries the given code id', r)
            rep.need(is_json_of(r, f('msg'), 'msg'), 'the message carries the given message', r)

    def instantiation(r, f):
        rep.need(r.same(f('code_id'), cid), 'the message targets the wrapped code id', r)
        rep.need(is_json_of(r, f('msg'), 'msg'), 'the message carries the given message', r)
        rep.need(r.same(f('label'), ('in', 'label')), 'the message carries the given label', r)
        rep.need(opt_same(r, f('admin'), 'admin'), 'the message carries the given admin', r)
        rep.need(empty(r, f('funds')), 'no funds are sent', r)
    for r in rows(CODE + 'instantiate', ['self', 'msg', 'label', 'admin']):
        f = msg(r, ok_val(r), 'Instantiate')
        if f:
            instantiation(r, f)
    for r in rows(CODE + 'instantiate2', ['self', 'api', 'querier', 'env', 'msg', 'label', 'admin', 'salt']):
        v = ok_val(r)
        if not rep.need(v[0] == 'tup' and len(v[1]) == 2, 'the message and the predicted address are returned', r):
            continue
        f = msg(r, v[1][0], 'Instantiate2')
        if f:
            instantiation(r, f)
            rep.need(same_bytes(r, f('salt'), ('in', 'salt')), 'the message carries the given salt', r)
        predicted(w, rep, r, v[1][1], cid)
    # queries
    for n, variant in (('get_channel', 'GetChannel'), ('get_contract_state', 'GetContractState'), ('ownership', 'Ownership')):
        for r in rows(QRY + n, ['self']):
            query(w, rep, r, r.o.val, inner(w, qr, 'addr'), variant, n)
    for r in rows(CON + 'query', ['self', 'querier']):
        v = r.head(r.o.val)
        rep.need(v[0] == 'adt' and v[1] == qr and r.same(w.fld(v, qr, 'addr'), addr) and r.same(w.fld(v, qr, 'querier'), ('in', 'querier')),
                 'the query helper asks the wrapped contract through the given querier', r)
    for r in rows(QRY + 'new', ['querier', 'addr']):
        v = r.head(r.o.val)
        rep.need(v[0] == 'adt' and v[1] == qr and r.same(w.fld(v, qr, 'addr'), ('in', 'addr')) and r.same(w.fld(v, qr, 'querier'), ('in', 'querier')),
                 'the query helper asks the given address through the given querier', r)
    rep.sample('helpers: execute, query, update_admin, clear_admin, migrate, instantiate, instantiate2, get_channel, get_contract_state, ownership')


def same_bytes(row, a, b):
    return row.same(a, b)


def app(t, name):
    return t[0] == 'app' and isinstance(t[1], str) and (t[1] == name or t[1].startswith(name + '<') or t[1].endswith('::' + name))


def unwrap(t):
    return t[1] if t[0] == 'fld' and t[3] == 'Ok.0' else None


def predicted(w, rep, r, v, cid, given=('in', 'salt')):
    """addr_humanize(instantiate2_address(checksum of the code, canonical(env.contract.address), salt))"""
    h = unwrap(v)
    if not rep.need(h is not None and app(h, 'addr_humanize'), 'the predicted address is the humanized form', r):
        return
    i = unwrap(h[-1])
    if not rep.need(i is not None and app(i, 'instantiate2_address') and len(i) == 5, 'the predicted address comes from instantiate2_address', r):
        return
    chk, creator, salt = i[2:5]
    c = unwrap(creator)
    env = w.path(('in', 'env'), 'cosmwasm_std::types::Env', 'contract.address')
    rep.need(c is not None and app(c, 'addr_canonicalize') and r.same(c[-1], env), 'the predicted creator is the calling contract', r)
    rep.need(same_bytes(r, salt, given), 'the predicted salt is the given one', r)
    q = chk
    while q[0] == 'fld' and not (q[3] == 'Ok.0'):
        q = q[1]
    q = unwrap(q)
    lab = []
    t = chk
    while t[0] == 'fld':
        lab.append(t[3])
        t = t[1]
    ok = q is not None and app(q, 'query') and 'CodeInfoResponse' in q[1] and 'checksum' in lab
    if rep.need(ok, 'the predicted checksum is the queried one', r):
        req = r.head(q[-1])
        good = False
        if req[0] == 'adt' and w.vname(req) == 'Wasm':
            x = r.head(req[3][0])
            good = x[0] == 'adt' and w.vname(x) == 'CodeInfo' and r.same(w.fld(x, x[1], 'CodeInfo.code_id'), cid)
        rep.need(good, 'the checksum queried is that of the wrapped code id', r)


def query(w, rep, r, v, addr, variant, n):
    t = v
    # the result as it came from the querier, possibly taken apart and rebuilt
    if v[0] == 'adt' and v[1] == RES:
        t = v[3][0]
        t = unwrap(t) if v[2] == 0 else t[1] if t[0] == 'fld' and t[3] == 'Err.0' else None
    if not rep.need(t is not None and app(t, 'query'), '%s returns what the contract answered' % n, r):
        return
    req = r.head(t[-1])
    if not rep.need(req[0] == 'adt' and w.vname(req) == 'Wasm' and w.vname(r.head(req[3][0])) == 'Smart', '%s is a smart query' % n, r):
        return
    x = r.head(req[3][0])
    rep.need(r.same(w.fld(x, x[1], 'Smart.contract_addr'), addr), '%s asks the wrapped contract' % n, r)
    j = json_arg(r, w.fld(x, x[1], 'Smart.msg'))
    j = r.head(j) if j is not None else ('none',)
    rep.need(j[0] == 'adt' and j[1].endswith('::QueryMsg') and w.vname(j) == variant, '%s sends the query it is named after' % n, r)
