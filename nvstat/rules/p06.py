"""Operations never modify what they are given."""
from .common import *

EXPLANATION = ('Effect analysis: every public operation is abstractly interpreted on symbolic inputs in several layouts; every '
               'write (item assignment, in-place operator, attribute assignment, container mutation) reached on any path, '
               'including writes through views and aliases, is attributed to the storage it lands in. A write into storage '
               'that existed before the call is a violation.')
ASSUMPTIONS = ('numpy functions outside the modelled subset are listed as undecided',
               'storage identity follows numpy view/copy semantics as modelled in nvstat/npmodel.py')


def check(rep, root):
    rep.rule('no-input-write', 'no write of the operation lands in an array, list, dict or object that was passed in')
    R = runner(root)
    from ..cases import UTIL_CASES, DEFAULT_CASES
    for r in sweep(rep, R, CASES + DEFAULT_CASES + UTIL_CASES):
        judge(rep, r, R)
    return functions(R)


def judge(rep, r, R):
    n_ok = 0
    for e in r.effects:
        if e.kind == 'store':
            if e.info.get('birth') != 'setup':
                n_ok += 1
                continue
            n = r.state.heap.get(e.info['cell']) if r.state else None
            if n is not None and getattr(n, 'shape', None) == ():
                continue      # numbers are immutable
            nm = R.W.cells.get(e.info['cell']) or e.info.get('label') or 'an input'
            rep.ob('no-input-write', False, e.loc, '%s writes into %s' % (r.case.anchor, nm),
                   '%s modifies the storage of the argument %s' % (e.info['what'], nm))
        elif e.kind in ('mutate', 'setattr'):
            if e.info.get('birth') != 'setup':
                n_ok += 1
                continue
            if 'mutates' in r.case.tags and e.kind == 'setattr':
                continue
            obj = e.info.get('obj')
            nm = R.W.cells.get(getattr(obj, 'id', None)) or e.info.get('label') or 'an input'
            rep.ob('no-input-write', False, e.loc, '%s changes %s' % (r.case.anchor, nm),
                   '%s of an object that was passed in (%s)' % (e.info.get('what') or 'attribute %s' % e.info.get('name'), nm))
        elif e.kind == 'setattr-opaque' or e.kind == 'setitem-opaque':
            rep.undecide('no-input-write', e.loc, r.case.anchor, 'write to an unmodelled object')
    rep.ob('no-input-write', True, construct='%s: %d writes, all into storage created by the call' % (label(r), n_ok), n=max(1, n_ok))
