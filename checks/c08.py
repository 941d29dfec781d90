"""C08: forecast and observed events agree"""
from checks.common import *

RULE = ('Every metric that compares a forecast event with an observed event is interpreted abstractly; its term must be the one in which the forecast '
        'probability and the observed indicator use the same threshold, direction and inequality (spec/metrics.py, `event`).')
ASSUMPTIONS = ['sklearn.metrics.roc_curve/auc have their documented meaning']


def binarize(C, rank, kw):
    r = fcall(C, 'PyAnEn.utils_verify', 'binarize_obs', [A('o', shape(rank))], kw)
    return require_equal(value(r, 'binarize_obs'), spec(C, 'metrics.event', A('o', shape(rank)), kw.get('over'), kw.get('below')),
                         'binarize_obs does not mark the specified event', where='PyAnEn/utils_verify.py (binarize_obs)')


def run(C):
    cs = [(1, None), (2, (0,))] if C.tier == 'quick' else cases('thorough')
    for rank in (1, 2, 3):
        for kw in (dict(over=T0), dict(below=T0), dict(over=0.0), dict(below=0.0)):
            C.ob('binarize_obs %s rank=%d' % (sorted(kw.items(), key=str), rank), binarize, C, rank, kw)
    for cls in CLASSES:
        variants = [({}, '')]
        if cls == 'VerifyEnsemble':
            variants += [(dict(ens=0), 'members first ')]
        if cls == 'VerifyProbGaussian':
            variants += [(dict(trunc=True), 'truncated ')]
        for obj, tag in variants:
            for rank, ax in cs:
                for skip in (False, True):
                    c = Case(C, cls, rank, ax, skip, **obj)
                    for kw in (dict(over=T0), dict(below=T0)):
                        ms = ['iou_determ'] if cls == 'VerifyDeterm' else ['iou_determ', 'brier', 'roc', 'brier_decomp', 'cdf', 'sharpness']
                        for m in ms:
                            C.ob('%s%s.%s%s %s skip=%s' % (tag, cls, m, sorted(kw), ctag(rank, ax), skip), c.agree, m, **kw)
                        if cls != 'VerifyDeterm' and (rank == 1 or C.tier != 'quick'):
                            C.ob('%s%s.reliability%s %s skip=%s' % (tag, cls, sorted(kw), ctag(rank, ax), skip), c.agree, 'reliability', nbins=NB, **kw)
                    if cls != 'VerifyDeterm':
                        C.ob('%s%s.iou_prob over %s skip=%s' % (tag, cls, ctag(rank, ax), skip), c.agree, 'iou_prob', over=(T0, PT), below=(None, None))
                        C.ob('%s%s.iou_prob below %s skip=%s' % (tag, cls, ctag(rank, ax), skip), c.agree, 'iou_prob', below=(T0, PT), over=(None, None))
                        C.ob('%s%s.iou_prob mixed %s skip=%s' % (tag, cls, ctag(rank, ax), skip), c.agree, 'iou_prob', over=(T0, None), below=(None, PT))
