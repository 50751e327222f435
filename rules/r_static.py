"""C30: no abort on packet events, and determinism."""
import re
from .common import *

# library functions that can abort and that the models treat as total
MAY_ABORT = re.compile('|'.join((
    r'alloc::vec::Vec::(insert|drain|split_off|splice)$', r'\[T\]::(split_at|split_at_mut|swap|rotate_\w+|copy_from_slice|clone_from_slice|chunks\w*|windows|select_nth\w*)$',
    r'alloc::string::String::(remove|insert|insert_str|drain|split_off|replace_range|truncate)$', r'str::(split_at|split_at_mut|repeat)$',
    r'alloc::collections::vec_deque::VecDeque::(insert|swap|range|drain|split_off)$',
    r'core::cell::RefCell::(borrow|borrow_mut|replace|swap)$', r'core::ops::index::IndexMut::index_mut$',
    r'core::iter::traits::iterator::Iterator::step_by$', r'core::(option|result)::\w+::(unwrap|expect)\w*_unchecked$',
    r'core::(slice|str)::\w+::(index|slice)\w*_fail$', r'core::char::\w*::from_digit$',
    r'core::(num|char)::\S*::(pow|abs|isqrt|ilog\w*|div_euclid|rem_euclid|next_power_of_two|unwrap\w*)$',
    r'[iu](8|16|32|64|128|size)::(pow|ilog\w*|div_euclid|rem_euclid|next_power_of_two|abs|div_ceil|next_multiple_of)$',
    r'core::intrinsics::(abort|unreachable)\S*', r'std::process::\S*',
    r'hex::decode_to_slice.*unwrap', r'alloc::vec::from_elem$',
)))
# things whose value differs between two runs on the same chain state
NONDET_CALL = re.compile(r'^(std::time::|std::thread::|std::env::|std::fs::|std::net::|std::process::|std::random|core::random|'
                         r'getrandom|rand(_core|_chacha)?::|std::io::std|core::any::Any::type_id|core::any::type_name|'
                         r'std::hash::BuildHasher|core::hash::BuildHasher::hash_one|chrono::|uuid::|fastrand::|core::f(32|64)::|std::f(32|64)::|f(32|64)::|core::fmt::rt::Argument::new_pointer|core::ptr::\S*addr)')
NONDET_TYPE = re.compile(r'(^|[<&( ,])(f32|f64)([>), ]|$)|(std::collections::hash|hashbrown)\S*::(Iter|IterMut|Keys|Values|ValuesMut|Drain|IntoIter|IntoKeys|IntoValues|'
                         r'Union|Intersection|Difference|ExtractIf)\b|std::time::(Instant|SystemTime)|std::thread::')
# writing out a hash collection as a whole: its order differs
ORDERED_BY_HASH = re.compile(r'std::collections::hash|hashbrown')
MINE = ('cw_ica_controller::',)


def counter(t):
    """a value that counts elements of a list: it cannot overflow"""
    if t[0] in ('i', 'len', 'idx') or t[:2] == ('app', 'position'):
        return True
    if t[0] == 'havoc':
        return True
    return t[0] in ('add', 'sub') and all(counter(x) for x in t[1:])


def benign(r):
    info = r.o.info
    if info and info[0] == 'assert' and 'overflow Add' in str(info[1]):
        for k, v in r.F.items():
            if k[0] == 'b' and v and k[1][0] == 'app' and k[1][1] == 'overflow' and k[1][2] == ('s', 'add') and counter(k[1][3]) and counter(k[1][4]):
                return True
    return False


def c30(w, rep):
    for e in ('ibc_packet_ack', 'ibc_packet_timeout'):
        n0 = len(w.interps)
        rows = w.rows(e)
        I = w.interps[-1]
        floor(rep, len([r for r in rows if r.kind == 'ok']), 2, 'a successful outcome of ' + e, e)
        for r in rows:
            rep.need(r.kind != 'panic' or benign(r), 'handling the event never aborts', r, 'abort: %r' % (r.o.info,))
        for (name, raw), span in sorted(I.called.items()):
            m = MAY_ABORT.search(raw)
            rep.need(not m, 'no function that can abort is called while handling the event', e, '%s at %s' % (raw, span))
        rep.sample('%s: %d abstract paths, %d distinct callees, none aborts' % (e, len(rows), len(I.called)))
    # determinism: every function of the contract that an entry point can reach
    for e in ENTRIES:
        w.rows(e)
    keys, calls = {}, {}
    for I in w.interps:
        for k in I.analysed:
            keys[k] = 1
        for (name, raw), span in I.called.items():
            calls.setdefault((name, raw), span)
    for (name, raw), span in sorted(calls.items()):
        bad = NONDET_CALL.search(raw) or NONDET_CALL.search(name)
        rep.need(not bad, 'no entry point calls anything nondeterministic', span, raw)
    p = w.p
    for k in sorted(keys):
        if not p.bodies[k]['def'].startswith(MINE) if isinstance(p.bodies[k].get('def'), str) else not k.startswith(MINE):
            continue
        for t in sorted(set(p.bodies[k]['locals'])):
            dd = p.types[t]['d']
            rep.need(not NONDET_TYPE.search(dd), 'no value whose content can differ between nodes is used', k, dd)
        for bl in (x for x in p.bodies[k]['blocks'] if x and x['t']):
            t = bl['t']
            if t[0] == 'call' and t[1][0] == 'fn' and re.search(r'new_debug|serialize|to_json|serde', t[1][1]['raw']):
                dd = ' '.join(p.types[x]['d'] for x in t[1][1]['targs'])
                rep.need(not ORDERED_BY_HASH.search(dd), 'nothing is written out in the order of a hash', t[5], dd)
            for x in bl.get('s', ()):
                rep.need(not (x[0] == 'a' and x[2][0] == 'cast' and 'Expose' in x[2][1]), 'no address becomes a number', k, str(x[2][1]) if x[0] == 'a' and x[2][0] == 'cast' else '')
    stat = [i for i in p.items if i['kind'] == 'static']
    rep.need(not [i for i in stat if i.get('mut')], 'there is no mutable global state', 'crate', str(stat[:2]))
    rep.sample('determinism: %d functions and %d callees reachable from %d entry points' % (len(keys), len(calls), len(ENTRIES)))
