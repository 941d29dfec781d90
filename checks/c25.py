"""C25: CRPS closed forms"""
from checks.common import *

RULE = ('crps() of every family is interpreted abstractly; its term must equal the closed form of the family (spec/metrics.py) or, for the hurdle family, the '
        'trapezoidal integral of the Brier term over the configured points.')
ASSUMPTIONS = ['tensorflow branch: tf.math.igamma(k, x) = gamma cdf(x, k), tf.math.lbeta = log beta; scoring functions of properscoring have their documented meaning']


def direct(C, fn, args, kw, want, env_=None):
    r = fcall(C, 'PyAnEn.utils_crps', fn, args, kw, env_=env_)
    return require_equal(value(r, fn), want, '%s is not the closed form' % fn, where='PyAnEn/utils_crps.py (%s)' % fn)


def run(C):
    cs = [(1, None), (2, (0,)), (2, (1,)), (3, (0, 2))] if C.tier == 'quick' else cases('thorough')
    for cls in CLASSES[1:]:
        for rank, ax in cs:
            for skip in (False, True):
                for boot in (None, N):
                    c = Case(C, cls, rank, ax, skip, boot=boot)
                    C.ob('%s.crps %s skip=%s%s' % (cls, ctag(rank, ax), skip, ' boot' if boot is not None else ''), c.agree, 'crps')
    for rank, ax in cs:
        C.ob('truncated VerifyProbGaussian.crps %s' % ctag(rank, ax), Case(C, 'VerifyProbGaussian', rank, ax, trunc=True).agree, 'crps')
        for ens in (0, -1):
            for split in (False, True):
                C.ob('VerifyEnsemble.crps members at %d split=%s %s' % (ens, split, ctag(rank, ax)),
                     Case(C, 'VerifyEnsemble', rank, ax, ens=ens, env_=dict(split_crps_ensemble_along_0=split)).agree, 'crps')
    for rank in (1, 2, 3):
        sh = shape(rank)
        mu, sg, sf, o = (A(k, sh) for k in ('mu', 'sigma', 'shift', 'o'))
        C.ob('crps_gamma rank=%d' % rank, direct, C, 'crps_gamma', [mu, sg, sf, o], dict(reduce_sum=False), spec(C, 'metrics.crps_gamma', mu, sg, sf, o))
        for skip in (False, True):
            C.ob('crps_gamma reduced rank=%d skip=%s' % (rank, skip), direct, C, 'crps_gamma', [mu, sg, sf, o], {},
                 spec(C, 'metrics.avg', spec(C, 'metrics.crps_gamma', mu, sg, sf, o), None, skip), dict(skip_nan=skip))
        C.ob('crps_gamma tensorflow rank=%d' % rank, direct, C, 'crps_gamma', [mu, sg, sf, o], dict(reduce_sum=False), spec(C, 'metrics.crps_gamma', mu, sg, sf, o), dict(use_tensorflow_math=True))
        C.ob('crps_truncated_gaussian rank=%d' % rank, direct, C, 'crps_truncated_gaussian', [o, mu, sg], dict(l=0), spec(C, 'metrics.crps_truncgaussian', mu, sg, o))
    B = isym('B')
    for rank, ax in cs:
        C.ob('VerifyProbGammaHurdle.crps with B points %s' % ctag(rank, ax), Case(C, 'VerifyProbGammaHurdle', rank, ax, n_approx_bins=B).agree, 'crps')
        C.ob('VerifyProbGammaHurdle.crps with given range %s' % ctag(rank, ax),
             Case(C, 'VerifyProbGammaHurdle', rank, ax, n_approx_bins=B, integration_range=(fsym('lo'), fsym('hi'))).agree, 'crps')
