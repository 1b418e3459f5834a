"""Results depend on the arguments only: no hidden state, no I/O, no shared storage."""
from .common import *

EXPLANATION = ('Effect and storage analysis: every public operation is abstractly interpreted from the state the import leaves '
               'behind; writes to module, class or function attributes, closures and caches, memoised functions, impure calls '
               '(clock, randomness, environment, files, numpy global settings) and writes into storage created at import are '
               'violations, and so is returning storage that outlives the call and is not an argument.')
ASSUMPTIONS = ('library calls are classified by name in nvstat/npmodel.py',)

KINDS = {'global': 'writes a module global', 'classattr': 'writes a class attribute', 'funcattr': 'writes a function attribute',
         'closure': 'writes a variable of an enclosing function that outlives the call', 'extattr': 'writes an attribute of a library',
         'impure': 'calls an impure operation', 'memo': 'returns results of a memoised function'}


def check(rep, root):
    rep.rule('no-hidden-state', 'no write to storage that outlives the call, no memoisation, no impure call')
    rep.rule('fresh-result', 'no array, list or object created at import time is handed out in a result')
    from ..cases import UTIL_CASES, DEFAULT_CASES
    R = runner(root, sym_axes=False)
    for r in sweep(rep, R, CASES + DEFAULT_CASES + UTIL_CASES):
        judge(rep, r, R)
    return functions(R)


def judge(rep, r, R):
    k = 0
    for e in r.effects:
        k += 1
        bad = None
        if e.kind in ('store', 'mutate', 'setattr'):
            if e.info.get('birth') == 'import':
                bad = 'writes into %s, which is created once at import and shared by all calls' % (e.info.get('label') or 'storage')
        elif e.kind == 'closure':
            if e.info.get('birth') == 'import':
                bad = KINDS['closure']
        elif e.kind == 'memo':
            bad = 'memoised function %s: the caller receives storage shared with other callers' % e.info.get('func')
            rep.ob('no-hidden-state', memo_ok(e, R), e.loc, '%s' % r.case.anchor, bad)
            continue
        elif e.kind == 'impure' and e.info.get('path') in ('print',):
            bad = 'prints'
        elif e.kind in KINDS:
            bad = '%s (%s)' % (KINDS[e.kind], e.info.get('name') or e.info.get('path') or e.info.get('func') or '')
        if bad:
            rep.ob('no-hidden-state', False, e.loc, '%s' % r.case.anchor, bad)
    rep.ob('no-hidden-state', True, construct='%s: %d effects' % (label(r), k), n=max(k, 1))
    for o in r.obs:
        for v in reach(o.val, r.state):
            i = v.cell if isinstance(v, Arr) else v.id
            b = R.W.I.birth.get(i)
            if isinstance(v, Arr):
                n = r.state.heap.get(i)
                if getattr(n, 'shape', None) == ():
                    continue
            if b == 'import':
                rep.ob('fresh-result', False, o.node.loc if o.node is not None else None, '%s%s' % (r.case.anchor, o.label),
                       'the result is (a view of) %s, which every call shares' % (R.W.I.label.get(i) or 'storage created at import'))
            else:
                rep.ob('fresh-result', True)


def memo_ok(e, R):
    return False


def reach(v, st, seen=None):
    seen = set() if seen is None else seen
    if isinstance(v, Inst):
        if v.id in seen or st is None:
            return
        seen.add(v.id)
        yield v
        c = st.heap.get(v.id)
        for x in (c.values() if isinstance(c, dict) else ()):
            for y in reach(x, st, seen):
                yield y
        return
    if isinstance(v, Arr):
        yield v
    elif isinstance(v, (PyList, PyDict)):
        yield v
    elif isinstance(v, (tuple,)):
        for x in v:
            for y in reach(x, st, seen):
                yield y
