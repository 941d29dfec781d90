"""C17: missing values"""
from checks.common import *

RULE = ('Every aggregating metric is interpreted abstractly twice, with pyanen_skip_nan False and True; aggregates must be the NaN-propagating form in the first '
        'and the NaN-ignoring form in the second case (the two are distinct terms of the value domain).')
ASSUMPTIONS = ['np.nanmean/nanmax/nanmin/nanquantile ignore NaN; np.mean/max/min/quantile propagate it']


def obs(cls, boot):
    for m in METRICS[cls] + ['corr']:
        yield m, {}
    if cls != 'VerifyDeterm':
        yield 'brier', dict(over=T0)
        yield 'binned_spread_skill', dict(nbins=NB)
        yield 'brier_decomp', dict(below=T0)
        if boot is None:
            yield 'roc', dict(over=T0)
            yield 'roc', dict(below=T0)


VALUES_ON = ['True', 'true', '1', 'yes']
VALUES_OFF = ['False', 'false', '0', 'no']


def setting(C, value_, on, m, kw, boot):
    c = Case(C, 'VerifyEnsemble', 2, (0,), on, boot=boot, env_=dict(skip_nan=value_))
    return c.agree(m, **kw)


def run(C):
    cs = [(1, None), (2, (0,)), (3, (0, 2))] if C.tier == 'quick' else cases('thorough')
    for cls in CLASSES:
        for rank, ax in cs:
            for boot in (None, N):
                for skip in (False, True):
                    c = Case(C, cls, rank, ax, skip, boot=boot)
                    for m, kw in obs(cls, boot):
                        C.ob('%s.%s%s %s skip=%s%s' % (cls, m, sorted(kw), ctag(rank, ax), skip, ' boot' if boot is not None else ''), c.agree, m, **kw)
    for vals, on in ((VALUES_ON, True), (VALUES_OFF, False)):
        for v in vals:
            for m, kw in (('error', {}), ('spread', {}), ('corr', {}), ('roc', dict(over=T0)), ('binned_spread_skill', dict(nbins=NB)), ('brier_decomp', dict(below=T0))):
                for boot in (None, N):
                    C.ob('skip_nan=%s %s%s' % (v, m, ' boot' if boot is not None else ''), setting, C, v, on, m, kw, boot)
    for cls in PROB[:2]:
        for rank, ax in cs:
            for skip in (False, True):
                for ens in (-1, 0):
                    c = Case(C, cls, rank, ax, skip, members=isym('K'), ens=ens)
                    C.ob('%s.spread members at %d %s skip=%s' % (cls, ens, ctag(rank, ax), skip), c.agree, 'spread')
    x = A('f', shape(1))
