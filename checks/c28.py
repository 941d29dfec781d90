"""C28: binned spread-skill"""
from checks.common import *

RULE = ('binned_spread_skill() is interpreted abstractly; per kept location its term must be the root of the average variance and squared error over nearly equal bins '
        'cut along increasing variance, both averaged over the same samples.')
ASSUMPTIONS = []


def direct(C, rank, ax, skip, boot, explicit):
    v, s = A('v', shape(rank)), A('s', shape(rank))
    args = [v, s, NB, ax]
    kw = {}
    if boot:
        kw['boot_samples'] = N
    if explicit:
        kw.update(repeats=isym('R'), confidence=fsym('conf'), skip_nan=skip)
    r = fcall(C, 'PyAnEn.utils_ss', 'binned_spread_skill', args, kw, env_=dict(skip_nan=skip if not explicit else not skip))
    if boot:
        R, c = (isym('R'), fsym('conf')) if explicit else fcall(C, 'spec.metrics', 'settings', []).term.args
        want = spec(C, 'metrics.spread_skill_boot', v, s, ax, NB, N, R, c, skip)
    else:
        want = spec(C, 'metrics.spread_skill', v, s, ax, NB, skip)
    return require_equal(value(r, 'binned_spread_skill'), want, 'utils_ss.binned_spread_skill is not the specified diagnostic', where='PyAnEn/utils_ss.py')


def run(C):
    cs = cases(C.tier)
    for cls in CLASSES[1:]:
        for rank, ax in cs if cls == 'VerifyEnsemble' or C.tier != 'quick' else [(1, None), (2, (1,)), (3, (0, 2))]:
            for skip in (False, True):
                for boot in (None, N):
                    c = Case(C, cls, rank, ax, skip, boot=boot)
                    C.ob('%s %s skip=%s%s' % (cls, ctag(rank, ax), skip, ' boot' if boot is not None else ''), c.agree, 'binned_spread_skill', nbins=NB)
    for ens in (0,):
        for rank, ax in cs[:5]:
            C.ob('VerifyEnsemble members first %s' % ctag(rank, ax), Case(C, 'VerifyEnsemble', rank, ax, ens=ens).agree, 'binned_spread_skill', nbins=NB)
    for rank, ax in cs:
        for skip in (False, True):
            for boot in (False, True):
                for explicit in (False, True):
                    C.ob('binned_spread_skill function %s skip=%s boot=%s explicit=%s' % (ctag(rank, ax), skip, boot, explicit), direct, C, rank, ax, skip, boot, explicit)
