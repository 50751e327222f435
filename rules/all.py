from . import r_auth as a, r_channel as c, r_packet as k, r_convert as v, r_static as st, r_wire as wi, r_helpers as he, r_examples as ex, r_refuse as rf, r_library as li
from .base import World
from engine import build
RULES = {}
for _m in (a, c, k, v, st, wi, he, ex, rf, li):
    for _n in dir(_m):
        if len(_n) == 3 and _n[0] == 'c' and _n[1:].isdigit():
            RULES[_n.upper()] = getattr(_m, _n)
# crate configurations analysed besides the contract build (default features)
CONFIGS = {'C16': {'extra': ['', 'query']}, 'C18': {'extra': ['']}, 'C19': {'extra': ['', 'query']}, 'C20': {'extra': ['query']}, 'C21': {'extra': ['query']},
           'C28': {'extra': ['', 'macro']}, 'C32': {'main': False, 'extra': ['cw-ica-owner']}, 'C33': {'main': False, 'extra': ['callback-counter']}}
ASSUMPTIONS = [
    'rustc lowers the source to MIR faithfully',
    'the models of the standard library, cosmwasm-std, cw-storage-plus, serde-json-wasm and prost in engine/models.py '
    '(a stored item reads back as written; encoding is injective; a transaction that fails or aborts is rolled back)',
    'the chain runtime delivers IBC events and replies as documented by CosmWasm',
]
EXTRA_ASSUMPTIONS = {}
TECHNIQUE = {'': 'static analysis: path-sensitive provenance dataflow (abstract interpretation) over the MIR of the contract'}
NOTE = {'': 'Every path of the analysed functions is covered, with unknown inputs and unknown storage; the result is as good '
            'as the models of library calls (engine/models.py), which are assumed. Calls without a model are treated as '
            'able to return anything, and as a violation when they could touch storage or the response.'}
NOT_APPLICABLE = {}


def run(pid, rep, ws):
    """ws: [(configuration, World)]"""
    if 'extra' in CONFIGS.get(pid, {}):
        if ws[0][0] == 'main':
            RULES[pid](ws[0][1], rep, extra=ws[1:])
        else:
            RULES[pid](ws[0][1], rep)
    else:
        RULES[pid](ws[0][1], rep)


def dump(n):
    """(dump, crate); None for a crate of ours that the repository's current code no longer lets compile"""
    try:
        return build.get(n)
    except build.BuildError:
        if n != 'macro':
            raise
        build.get('main')  # the library itself compiles
        return None


def world(n):
    d = dump(n)
    return World(*d) if d else None
