"""C18: distribution parameters"""
from checks.common import *

RULE = ('CDF, sampling, deterministic value, variance and CRPS of each parametric family are interpreted abstractly, serially and in parallel; every distribution term must be built '
        'from the same parameters (location, scale, shape, truncation bounds) derived from the forecast, as spelled out in spec/metrics.py.')
ASSUMPTIONS = ['scipy.stats distributions have their documented parametrisation', 'draws of equal shape and parameters are interchangeable']
K = isym('K')


def trunc_method(C, meth, names, sp, accept=()):
    I = C.interp()
    env(I)
    try:
        cls = C.W.import_name(I, 'PyAnEn.dist_truncgamma', 'truncgamma_gen')
    except Dead:
        raise Vanished('PyAnEn.dist_truncgamma.truncgamma_gen')
    sh = shape(2)
    a = {n: array(I, n, sh) for n in names if n != 'size'}
    if 'size' in names:
        a['size'] = lift(I, [K, sh[0], sh[1]])

    def th():
        o = I.call(cls, [], {})
        return I.call(I.getattr(o, meth), [], a)
    got = value(drive_run(I, th), 'truncgamma_gen.' + meth)

    def S(nm):
        return spec(C, 'metrics.' + nm, *[(A(n, sh) if n != 'size' else [K, sh[0], sh[1]]) for n in names])
    return require_equal(got, S(sp), 'truncgamma_gen.%s is not the truncated gamma distribution' % meth,
                         where='PyAnEn/dist_truncgamma.py (%s)' % meth, accept=[S(z) for z in accept])


from vsa.scen import run as drive_run


def function(C, fn, names, args, kw, want, env_):
    r = fcall(C, 'PyAnEn.utils_dist', fn, args, kw, env_=env_)
    return require_equal(value(r, fn), want, '%s uses other parameters' % fn, where='PyAnEn/utils_dist.py (%s)' % fn)


def arr_threshold(C, cls, rank, trunc, workers):
    """threshold given per location"""
    c = Case(C, cls, rank, None, trunc=trunc, env_=dict(tqdm_workers=workers))
    t = A('o', shape(rank))
    want = c.P(below=t)
    got = value(c.s.do(lambda s: s.I.call(s.I.getattr(s.obj, '_cdf'), [], {'below': s.o})), cls + '._cdf')
    return require_equal(got, want, '%s._cdf with one threshold per location' % cls, where=anchor(C, cls, 'cdf'))


def run(C):
    ranks = (1, 2) if C.tier == 'quick' else (1, 2, 3)
    for w, ax in (('1', '-1'), ('4', '-1'), ('4', '-2')):
        e = dict(tqdm_workers=w, tqdm_map_axis=ax)
        for rank in ranks:
            if ax == '-2' and rank < 2:
                continue
            for cls in PROB:
                for tr in (False, True) if cls != 'VerifyProbGammaHurdle' else (False,):
                    c = Case(C, cls, rank, None, trunc=tr, env_=e)
                    tag = '%s%s rank=%d workers=%s map_axis=%s' % ('truncated ' if tr else '', cls, rank, w, ax)
                    C.ob('cdf below ' + tag, c.agree, 'cdf', below=T0)
                    C.ob('cdf over ' + tag, c.agree, 'cdf', over=T0)
                    C.ob('cdf array threshold ' + tag, arr_threshold, C, cls, rank, tr, w)
                    if cls != 'VerifyProbGammaHurdle':
                        for ens in (-1, 0, 1):
                            C.ob('prob_to_ens at %d %s' % (ens, tag), Case(C, cls, rank, None, trunc=tr, members=K, ens=ens, env_=e).agree, 'prob_to_ens')
            for cls in PROB:
                if w == '1':
                    c = Case(C, cls, rank, None, env_=e)
                    for m in ('variance', 'f_determ', 'crps'):
                        C.ob('%s %s rank=%d' % (m, cls, rank), c.agree, m)
    C.ob('truncated VerifyProbGaussian.crps', Case(C, 'VerifyProbGaussian', 2, None, trunc=True).agree, 'crps')
    C.ob('truncgamma _cdf', trunc_method, C, '_cdf', ['x', 'a', 'b', 's'], 'tg_cdf', ['tg_cdf1'])
    C.ob('truncgamma _pdf', trunc_method, C, '_pdf', ['x', 'a', 'b', 's'], 'tg_pdf')
    C.ob('truncgamma _ppf', trunc_method, C, '_ppf', ['q', 'a', 'b', 's'], 'tg_ppf')
    C.ob('truncgamma _rvs', trunc_method, C, '_rvs', ['a', 'b', 's', 'size'], 'tg_rvs')
