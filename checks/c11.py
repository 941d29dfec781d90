"""C11: numerical integration depends only on the grid and the verifier"""
from checks.common import *

RULE = ('CRPS, mean and variance by integration are interpreted abstractly for each verifier, with the range given or derived from the observations, any number of points, serial and parallel, with and without the memory-mapped buffer, '
        'configured by arguments or settings. Parallel results arrive in an unknown order (a permutation symbol). The term reached must be the trapezoidal sum of the specification, which contains neither.')
ASSUMPTIONS = ['a memory-mapped buffer holds what was last written at each index', 'ray tasks run the given function once each', 'float64 buffer and array arithmetic agree']
LO, HI = fsym('lo'), fsym('hi')
BINS = isym('bins')
SPEC = {'VerifyProbGaussian': 'integral_gaussian', 'VerifyProbGamma': 'integral_gamma', 'VerifyProbGammaHurdle': 'integral_hurdle', 'VerifyEnsemble': 'integral_ensemble'}


def want(c, which, lo, hi, n):
    cls = c.cls
    if cls == 'VerifyProbGaussian':
        return c.S('integral_gaussian', which, c.arr('mu'), c.arr('sigma'), c.o, c.trunc, lo, hi, n)
    if cls == 'VerifyProbGamma':
        return c.S('integral_gamma', which, c.arr('unshifted_mu'), c.arr('sigma'), c.arr('shift'), c.o, lo, hi, n)
    if cls == 'VerifyEnsemble':
        return c.S('integral_ensemble', which, c.arr('f'), c.o, c.ens, lo, hi, n)
    return c.S('integral_hurdle', which, c.arr('pop'), c.arr('mu'), c.arr('sigma'), c.o, lo, hi, n)


def limits(c, rng, mult):
    if rng is not None:
        return rng
    return c.S('integration_limits', c.o, 5 if mult is None else int(mult)).args


def place(C, which):
    return anchor(C, 'VerifyProbGammaHurdle', which) if which == 'crps' else 'PyAnEn/utils_approximation.py (Integration._%s)' % which


def direct(C, cls, rank, which, rng, n, mode, v):
    """class Integration used on a verifier"""
    args, env_ = mode
    env_ = dict(env_, **v.get('env_', {}))
    c = Case(C, cls, rank, (0,), config=EMPTY, **dict(v, env_=env_))
    kw = dict(args)
    if rng is not None:
        kw['integration_range'] = rng
    if n is not None:
        kw['nbins'] = n

    def go(s):
        I = s.I
        integ = C.W.import_name(I, 'PyAnEn.utils_approximation', 'Integration')
        ob = I.call(integ, [s.obj], {k: lift(I, x) for k, x in kw.items()})
        return I.call(I.getattr(ob, which), [], {})
    r = c.s.do(go)
    what = 'Integration(%s).%s' % (cls, which)
    got = value(r, what)
    lo, hi = limits(c, rng, env_.get('integrate_range_multiplier'))
    return require_equal(got, want(c, which, lo, hi, 20 if n is None else n), '%s (%s) is not the trapezoidal sum over the grid' % (what, mtag('', dict(kw, **env_))), where=place(C, which))


def method(C, rank, axis, m, v):
    return Case(C, 'VerifyProbGammaHurdle', rank, axis, config=EMPTY if 'working_directory' in v else None, **v).agree(m)


def setter(C, rank, m, name, args, ctor):
    """set_bins / set_integration_range act like the constructor arguments"""
    c = Case(C, 'VerifyProbGammaHurdle', rank, (0,), **ctor)

    def go(s):
        s.meth(name, *args)
        return s.meth(m)
    got = value(c.s.do(go), m)
    d = dict(n_approx_bins=args[0]) if name == 'set_bins' else dict(integration_range=tuple(args))
    w = Case(C, 'VerifyProbGammaHurdle', rank, (0,), **d)
    return require_equal(got, w.want(m), 'VerifyProbGammaHurdle.%s after %s is not the value for that grid' % (m, name), where=anchor(C, 'VerifyProbGammaHurdle', name))


def modes(tier):
    for less in (False, True):
        for w in (1, 4):
            yield 'workers=%s less_memory=%s' % (w, less), (dict(workers=w, less_memory=less), {})
            yield 'env workers=%s less_memory=%s' % (w, less), ({}, dict(tqdm_workers=str(w), integrate_with_less_memory=str(less)))
        yield 'two of many workers less_memory=%s' % less, (dict(workers=2, less_memory=less), dict(tqdm_workers='8'))
        yield 'serial although workers are set, less_memory=%s' % less, (dict(workers=1, less_memory=less), dict(tqdm_workers='8'))
    yield 'directory given', (dict(less_memory=True, memmap_dir='/scratch'), {})
    yield 'directory set', ({}, dict(integrate_with_less_memory='1', integrate_wdir='/scratch'))
    yield 'progress shown', (dict(disable_pbar=False, leave_pbar=True, less_memory=True), dict(tqdm_disable='False', tqdm_leave='True'))
    yield 'chunks', (dict(workers=3, chunksize=7), dict(tqdm_chunksize='11'))


def run(C):
    quick = C.tier == 'quick'
    ranks = (1, 2, 3)
    grids = [('given', (LO, HI), BINS), ('derived', None, None), ('derived, points given', None, BINS), ('given, default points', (LO, HI), None), ('five points', (LO, HI), 5)]
    vs = [('VerifyProbGammaHurdle', {}), ('VerifyProbGaussian', {}), ('VerifyProbGaussian', dict(trunc=True)), ('VerifyProbGamma', {}), ('VerifyEnsemble', {}), ('VerifyEnsemble', dict(ens=0)), ('VerifyProbGammaHurdle', dict(boot=N)),
          ('VerifyProbGammaHurdle', dict(skip=True)), ('VerifyProbGammaHurdle', dict(working_directory=WD)), ('VerifyProbGammaHurdle', dict(env_=dict(integrate_range_multiplier='3'))), ('VerifyProbGaussian', dict(working_directory=WD))]
    for cls, v in vs:
        for rank in ranks if cls == 'VerifyProbGammaHurdle' or not quick else (2,):
            for which in ('crps', 'mean', 'variance'):
                for gname, rng, n in grids:
                    for mname, mode in modes(C.tier):
                        if quick and (rank != 2 or v) and gname not in ('given', 'derived'):
                            continue
                        C.ob('Integration.%s of %s rank=%d range %s, %s' % (which, vtag(cls, v), rank, gname, mname), direct, C, cls, rank, which, rng, n, mode, v)
    for rank, axis in ((1, None), (2, None), (2, (0,)), (2, (1,)), (3, (0, 2))):
        for m in ('crps', 'f_determ', 'variance', 'error', 'sq_error', 'ab_error', 'rmse'):
            for boot in (None, N):
                for env_ in ({}, dict(tqdm_workers='4'), dict(integrate_with_less_memory='True'), dict(tqdm_workers='2', integrate_with_less_memory='true', integrate_range_multiplier='7')):
                    for ctor in ({}, dict(integration_range=(LO, HI), n_approx_bins=BINS), dict(n_approx_bins=3), dict(working_directory=WD)):
                        v = dict(ctor, env_=env_)
                        if boot is not None:
                            v['boot'] = boot
                        C.ob('%s rank=%d axis=%s %s' % (m, rank, axis, vtag('', v)), method, C, rank, axis, m, v)
    for rank in (1, 2):
        for m in ('crps', 'f_determ', 'variance', 'sq_error'):
            for ctor in ({}, dict(integration_range=(fsym('a'), fsym('b')))):
                C.ob('%s after set_integration_range rank=%d %s' % (m, rank, bool(ctor)), setter, C, rank, m, 'set_integration_range', [LO, HI], ctor)
            for ctor in ({}, dict(n_approx_bins=7)):
                C.ob('%s after set_bins rank=%d %s' % (m, rank, bool(ctor)), setter, C, rank, m, 'set_bins', [BINS], ctor)
