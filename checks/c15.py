"""C15: bootstrap intervals"""
from checks.common import *

RULE = ('With boot_samples=N every aggregating metric is interpreted abstractly; its term must be [lower quantile, mean, upper quantile] of `boot_repeats` statistics, each of '
        'N draws with replacement from the pooled averaging axes of that location, stacked at the specified position with kept axes in order.')
ASSUMPTIONS = ['np.random.choice/randint draw uniformly with replacement; two draws of equal shape and bounds are interchangeable']


def obs(cls):
    for m in METRICS[cls] + ['corr']:
        yield m, {}
    if cls != 'VerifyDeterm':
        yield 'brier', dict(over=T0)
        yield 'brier', dict(below=T0)
        yield 'binned_spread_skill', dict(nbins=NB)
        yield 'brier_decomp', dict(below=T0)
        yield 'brier_decomp', dict(over=T0)


def setter(C, cls, rank, ax, m, kw, how):
    """boot samples installed, and removed, through the setters"""
    want = Case(C, cls, rank, ax, boot=N if how != 'disable' else None).want(m, **kw)
    s = Case(C, cls, rank, ax, boot=None if how == 'set' else isym('N0')).s

    def go(s):
        if how == 'disable':
            s.meth('disable_boot')
        else:
            s.meth('set_boot_samples', N)
        return s.meth(m, **kw)
    return require_equal(value(s.do(go), m), want, '%s.%s after %s does not use the requested bootstrap samples' % (cls, m, how), where=anchor(C, cls, m))


def interval_args(C, fn, args, kw, want, what):
    r = fcall(C, 'PyAnEn.utils_verify', fn, args, kw)
    return require_equal(value(r, fn), want, what, where='PyAnEn/utils_verify.py (%s)' % fn)


def run(C):
    cs = [(1, None), (1, (0,)), (2, (0,)), (2, (1,)), (2, None), (3, (0, 2))] if C.tier == 'quick' else cases('thorough')
    for cls in CLASSES:
        for rank, ax in cs:
            for skip in (False, True):
                c = Case(C, cls, rank, ax, skip, boot=N)
                for m, kw in obs(cls):
                    C.ob('%s.%s%s %s skip=%s' % (cls, m, sorted(kw), ctag(rank, ax), skip), c.agree, m, **kw)
    for rank, ax in cs[:4]:
        for skip in (False, True):
            c = Case(C, 'VerifyEnsemble', rank, ax, skip, boot=N, env_=dict(boot_repeats=isym('Rset'), boot_confidence=fsym('cset')))
    for cls, m, kw in (('VerifyDeterm', 'error', {}), ('VerifyDeterm', 'corr', {}), ('VerifyEnsemble', 'brier', dict(over=T0)),
                       ('VerifyEnsemble', 'binned_spread_skill', dict(nbins=NB)), ('VerifyEnsemble', 'brier_decomp', dict(over=T0))):
        for how in ('set', 'replace', 'disable'):
            C.ob('%s.%s after setter (%s)' % (cls, m, how), setter, C, cls, 2, (0,), m, kw, how)
    x = A('x', shape(2))
    R, c = isym('R'), fsym('conf')
    for ax in (None, (0,), (1,), (0, 1)):
        C.ob('boot_arr with explicit settings axis=%s' % (ax,), interval_args, C, 'boot_arr', [x, ax, N, R, c], {},
             spec(C, 'metrics.boot', x, ax, N, R, c, False), 'boot_arr ignores its explicit repeats or confidence')
