"""C24: metric formulas"""
from checks.common import *

RULE = ('Every public metric of every verifier class is abstractly interpreted on symbolic inputs (ranks 1-3, symbolic extents and values; '
        'all branches followed, both paths joined as gated values); the resulting value term must be identical, modulo algebraic normalisation, '
        'to the term of the reference formula in spec/metrics.py interpreted by the same analyser.')
ASSUMPTIONS = ['arithmetic is over the reals extended with NaN (rounding is ignored)', 'numpy/scipy/properscoring functions have their documented meaning']

TH = [dict(over=T0), dict(below=T0)]


def pairs(cls):
    """(metric, arguments, minimum object settings)"""
    for m in METRICS[cls] + ['f_determ', 'corr']:
        yield m, {}
    for k in TH:
        yield 'iou_determ', k
    if cls == 'VerifyDeterm':
        return
    yield 'variance', {}
    for k in TH:
        for m in ('cdf', 'sharpness', 'brier'):
            yield m, k
    yield 'iou_prob', dict(over=(T0, PT), below=(None, None))
    yield 'iou_prob', dict(below=(T0, PT), over=(None, None))


def run(C):
    cs = [(1, None), (2, (0,)), (3, (0, 2))] if C.tier == 'quick' else cases('thorough')
    for cls in CLASSES:
        for rank, ax in cs:
            c = Case(C, cls, rank, ax)
            for m, k in pairs(cls):
                C.ob('%s.%s%s %s' % (cls, m, sorted(k), ctag(rank, ax)), c.agree, m, **k)
    K = isym('K')
    for cls in PROB[:2]:
        for rank, ax in cs[:2]:
            for ens in (-1, 0):
                c = Case(C, cls, rank, ax, members=K, ens=ens)
                C.ob('%s.prob_to_ens members at %d rank=%d' % (cls, ens, rank), c.agree, 'prob_to_ens')
                C.ob('%s.spread members at %d %s' % (cls, ens, ctag(rank, ax)), c.agree, 'spread')
    for rank, ax in cs[:2]:
        c = Case(C, 'VerifyProbGaussian', rank, ax, trunc=True)
        for k in TH:
            C.ob('truncated VerifyProbGaussian.cdf%s %s' % (sorted(k), ctag(rank, ax)), c.agree, 'cdf', **k)
        C.ob('truncated VerifyProbGaussian.crps %s' % ctag(rank, ax), c.agree, 'crps')
    for rank, ax in cs[1:2]:
        for ens in (-1, 0):
            c = Case(C, 'VerifyEnsemble', rank, ax, ens=ens)
            for m, k in pairs('VerifyEnsemble'):
                C.ob('VerifyEnsemble.%s%s members first %s' % (m, sorted(k), ctag(rank, ax)), c.agree, m, **k)
