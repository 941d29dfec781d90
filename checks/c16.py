"""C16: aggregation over exactly the averaging axes"""
from checks.common import *

RULE = ('Every aggregating metric is interpreted abstractly for an enumeration of array ranks and averaging axes (none, single, several, negative, list, integer, unsorted); '
        'the term must aggregate exactly those axes and keep the others, in order, at the specified position.')
ASSUMPTIONS = []


def obs(cls, boot):
    for m in METRICS[cls] + ['corr']:
        yield m, {}
    yield 'iou_determ', dict(over=T0)
    if cls != 'VerifyDeterm':
        yield 'brier', dict(over=T0)
        yield 'binned_spread_skill', dict(nbins=NB)
        yield 'brier_decomp', dict(below=T0)
        yield 'reliability', dict(nbins=NB, over=T0)
        yield 'iou_prob', dict(over=(T0, PT), below=(None, None))


def form(C, cls, rank, given, ax, m, kw, how, boot):
    """the same axes in another accepted form"""
    want = Case(C, cls, rank, ax, boot=boot).want(m, **kw)
    if how == 'constructor':
        c = Case(C, cls, rank, None, boot=boot, avg_axis=given)
        return require_equal(c.got(m, **kw), want, '%s.%s with avg_axis=%s' % (cls, m, given), where=anchor(C, cls, m))
    s = Case(C, cls, rank, (0,) if ax != (0,) else None, boot=boot).s

    def go(s):
        s.meth('set_avg_axis', given)
        return s.meth(m, **kw)
    return require_equal(value(s.do(go), m), want, '%s.%s after set_avg_axis(%s)' % (cls, m, given), where=anchor(C, cls, m))


FORMS = [(1, 0, (0,)), (1, [0], (0,)), (2, 0, (0,)), (2, 1, (1,)), (2, -1, (1,)), (2, [0, 1], (0, 1)), (2, [1], (1,)), (3, [0, 2], (0, 2)), (3, 2, (2,)), (2, None, None)]


def run(C):
    cs = cases(C.tier)
    few = [(1, None), (2, (1,)), (3, (0, 2))]
    for cls in CLASSES:
        for rank, ax in cs if C.tier != 'quick' or cls in ('VerifyDeterm', 'VerifyEnsemble') else few:
            for boot in (None, N):
                if boot is not None and C.tier == 'quick' and (rank, ax) not in few + [(2, (0,)), (2, (-1,)), (3, (-3, -1))]:
                    continue
                c = Case(C, cls, rank, ax, boot=boot)
                for m, kw in obs(cls, boot):
                    C.ob('%s.%s%s %s%s' % (cls, m, sorted(kw), ctag(rank, ax), ' boot' if boot is not None else ''), c.agree, m, **kw)
    skips = [(1, (0,)), (2, (-1,)), (2, (-2,)), (2, (0, 1)), (3, (-2,)), (3, (-3, -1)), (3, (0, 2))]
    for cls in CLASSES:
        for rank, ax in cs if C.tier != 'quick' else skips:
            for boot in (None, N) if C.tier != 'quick' or cls == 'VerifyDeterm' else (None,):
                c = Case(C, cls, rank, ax, skip=True, boot=boot)
                for m, kw in obs(cls, boot):
                    C.ob('%s.%s%s %s skip%s' % (cls, m, sorted(kw), ctag(rank, ax), ' boot' if boot is not None else ''), c.agree, m, **kw)
    for rank, given, ax in FORMS:
        for how in ('constructor', 'setter'):
            for cls, ms in (('VerifyDeterm', ['error', 'rmse', 'corr']), ('VerifyEnsemble', ['crps', 'binned_spread_skill'])):
                for m in ms:
                    for boot in (None, N):
                        kw = dict(nbins=NB) if m == 'binned_spread_skill' else {}
                        C.ob('%s.%s avg_axis=%s rank=%d by %s%s' % (cls, m, given, rank, how, ' boot' if boot is not None else ''), form, C, cls, rank, given, ax, m, kw, how, boot)
    for rank, given, ax in ((2, (1, 0), (0, 1)), (3, (2, 0), (0, 2)), (3, (-1, 0), (0, 2))):
        for m in ('error', 'sq_error', 'ab_error'):
            C.ob('VerifyDeterm.%s avg_axis=%s rank=%d' % (m, given, rank), form, C, 'VerifyDeterm', rank, given, ax, m, {}, 'constructor', None)
    for rank, given, ax in ((2, (1, 0), (0, 1)), (3, (2, 0), (0, 2)), (3, (2, 1), (1, 2)), (3, (-1, 1), (1, 2)), (3, (1, 0), (0, 1)), (3, (-1, -3), (0, 2))):
        for boot in (None, N):
            for how in ('constructor', 'setter'):
                for m, kw in (('error', {}), ('reliability', dict(nbins=NB, over=T0)), ('binned_spread_skill', dict(nbins=NB))):
                    if m != 'error' or boot is not None:
                        C.ob('VerifyEnsemble.%s avg_axis=%s rank=%d by %s%s' % (m, given, rank, how, ' boot' if boot is not None else ''), form, C, 'VerifyEnsemble', rank, given, ax, m, kw, how, boot)
    for cls in PROB[:2]:
        for rank, ax in few:
            for ens in (-1, 0):
                c = Case(C, cls, rank, ax, members=isym('K'), ens=ens)
                C.ob('%s.spread members at %d %s' % (cls, ens, ctag(rank, ax)), c.agree, 'spread')
