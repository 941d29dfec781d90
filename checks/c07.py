"""C07: exactly one of over/below; exceedance is the complement of non-exceedance"""
from checks.common import *

RULE = ('For every thresholded metric of every verifier class the call with neither and with both of over/below is interpreted abstractly and must have no normal '
        'exit (every path ends in an exception); and the term returned by cdf(over=t) must equal 1 minus the term returned by cdf(below=t).')

T1 = fsym('t1')
METH = ['cdf', 'sharpness', 'brier', 'brier_decomp', 'reliability', 'roc', 'iou_determ']


def refuses(C, cls, meth, rank, kw, members=None):
    s = Case(C, cls, rank, None).s
    r = s.run(meth, **kw)
    if r.ok:
        raise Violated('%s.%s(%s) returns a value although %s' % (
            cls, meth, ', '.join('%s=%s' % (k, show_arg(v)) for k, v in kw.items()), 'both thresholds are given' if kw else 'no threshold is given'),
            where=anchor(C, cls, meth))
    return 'always raises %s' % sorted({str(l.exc) for l in r.leaves})


def refuses_fn(C, fn, args, kw):
    r = fcall(C, 'PyAnEn.utils_verify', fn, args, kw)
    if r.ok:
        raise Violated('%s(%s) returns a value' % (fn, sorted(kw)), where='PyAnEn/utils_verify.py (%s)' % fn)
    return 'always raises %s' % sorted({str(l.exc) for l in r.leaves})


def complement(C, cls, rank, meth, **obj):
    c = Case(C, cls, rank, None, **obj)
    over, below = c.got(meth, over=T0), Case(C, cls, rank, None, **obj).got(meth, below=T0)
    return require_equal(over, spec(C, 'metrics.complement', below, True), '%s.%s(over=t) is not 1 - %s(below=t)' % (cls, meth, meth), where=anchor(C, cls, meth))


def run(C):
    for cls in CLASSES:
        for m in METH:
            if cls == 'VerifyDeterm' and m != 'iou_determ':
                continue
            for rank in (1, 2):
                C.ob('%s.%s neither rank=%d' % (cls, m, rank), refuses, C, cls, m, rank, {})
                C.ob('%s.%s both rank=%d' % (cls, m, rank), refuses, C, cls, m, rank, dict(over=T0, below=T1))
                C.ob('%s.%s both, equal, rank=%d' % (cls, m, rank), refuses, C, cls, m, rank, dict(over=T0, below=T0))
                C.ob('%s.%s both, zero, rank=%d' % (cls, m, rank), refuses, C, cls, m, rank, dict(over=0.0, below=0.0))
        if cls == 'VerifyDeterm':
            continue
        C.ob('%s.iou_prob neither' % cls, refuses, C, cls, 'iou_prob', 2, dict(over=(None, None), below=(None, None)))
        C.ob('%s.iou_prob both' % cls, refuses, C, cls, 'iou_prob', 2, dict(over=(T0, PT), below=(T1, PT)))
        C.ob('%s.iou_prob value both' % cls, refuses, C, cls, 'iou_prob', 2, dict(over=(T0, PT), below=(T1, None)))
        C.ob('%s.iou_prob probability both' % cls, refuses, C, cls, 'iou_prob', 2, dict(over=(T0, PT), below=(None, PT)))
        C.ob('%s.iou_prob probability neither' % cls, refuses, C, cls, 'iou_prob', 2, dict(over=(T0, None), below=(None, None)))
        for rank in (1, 2, 3):
            for m in ('cdf', 'sharpness'):
                C.ob('%s.%s complement rank=%d' % (cls, m, rank), complement, C, cls, rank, m)
    for m in ('cdf', 'sharpness'):
        C.ob('truncated VerifyProbGaussian.%s complement' % m, complement, C, 'VerifyProbGaussian', 2, m, trunc=True)
        C.ob('truncated VerifyProbGamma.%s complement' % m, complement, C, 'VerifyProbGamma', 2, m, trunc=True)
        C.ob('kernel density VerifyEnsemble.%s complement' % m, complement, C, 'VerifyEnsemble', 2, m, env_=dict(ens_to_prob_method='kde'))
        C.ob('VerifyEnsemble.%s complement, members first' % m, complement, C, 'VerifyEnsemble', 2, m, ens=0)
    o, f = A('o', shape(2)), A('f', shape(2))
    for fn, args in (('binarize_obs', [o]), ('iou_determ', [f, o]), ('ens_to_prob', [A('f', shape(3)), -1])):
        C.ob('%s neither' % fn, refuses_fn, C, fn, args, {})
        C.ob('%s both' % fn, refuses_fn, C, fn, args, dict(over=T0, below=T1))
        C.ob('%s both equal' % fn, refuses_fn, C, fn, args, dict(over=T0, below=T0))
