"""C10: parallel execution returns the serial result"""
from checks.common import *

RULE = ('Every operation that may run in parallel is interpreted abstractly with one worker and with several (an arbitrary number, and literal ones), for each mapping axis and chunk size; split, '
        'map and reassembly are normalised away and the two result terms must be equal. Functions handed to workers may not write to anything but fresh data.')
ASSUMPTIONS = ['process_map and ray return the results of the mapped function; process_map keeps the order of the inputs, ray completes in any order',
               'draws of equal shape and parameters are interchangeable between worker processes']
K = isym('K')
FALSE_ = tm.FALSE


def pair(C, cls, meth, kw, rank, par, rest, what, **ctor):
    e1 = dict(rest, tqdm_workers='1')
    e2 = dict(rest, **par)
    a = Case(C, cls, rank, env_=e1, **ctor)
    b = Case(C, cls, rank, env_=e2, **ctor)
    serial = a.got(meth, **kw)
    parallel = b.got(meth, **kw)
    return require_equal(parallel, serial, '%s differs between one worker and %s' % (what, par), where=anchor(C, cls, meth))


def run(C):
    ranks = (1, 2) if C.tier == 'quick' else (1, 2, 3)
    pars = [dict(tqdm_workers='4', tqdm_map_axis=ax, tqdm_chunksize=ch) for ax, ch in (('-1', '1'), ('-2', '1'), ('-1', '7'))]
    pars += [dict(tqdm_workers='2', tqdm_map_axis='-1'), dict(tqdm_workers=None, tqdm_map_axis='-1'), dict(tqdm_workers=None, tqdm_map_axis='-2', tqdm_chunksize=None)]
    if C.tier != 'quick':
        pars += [dict(tqdm_workers='64', tqdm_map_axis=ax, tqdm_chunksize=None) for ax in ('-1', '-2', '-3')]
    for rank in ranks:
        for par in pars:
            if rank < -int(par['tqdm_map_axis']):
                continue
            pt = 'workers=%s map_axis=%s chunksize=%s' % tuple(par.get('tqdm_' + k, '1') if par.get('tqdm_' + k, '1') is not None else 'any' for k in ('workers', 'map_axis', 'chunksize'))
            for skip in (False, True):
                rest = dict(skip_nan=skip)
                for ens in (-1, 0):
                    for method in ('moments', 'kde'):
                        r2 = dict(rest, ens_to_prob_method=method)
                        tag = '%s rank=%d ens=%d skip=%s %s' % (method, rank, ens, skip, pt)
                        for m, kw in (('cdf', dict(below=T0)), ('cdf', dict(over=T0)), ('brier', dict(over=T0)), ('reliability', dict(nbins=NB, below=T0))):
                            if skip and m == 'cdf':
                                continue
                            C.ob('VerifyEnsemble.%s %s %s' % (m, list(kw), tag), pair, C, 'VerifyEnsemble', m, kw, rank, par, r2, 'VerifyEnsemble.' + m, ens=ens)
                    tag = 'rank=%d ens=%d skip=%s %s' % (rank, ens, skip, pt)
                    C.ob('VerifyEnsemble.rank_hist ' + tag, pair, C, 'VerifyEnsemble', 'rank_hist', {}, rank, par, rest, 'VerifyEnsemble.rank_hist', ens=ens)
                    for m in ('spread', 'crps', 'variance', 'f_determ', 'corr', 'error'):
                        C.ob('VerifyEnsemble.%s %s' % (m, tag), pair, C, 'VerifyEnsemble', m, {}, rank, par, rest, 'VerifyEnsemble.' + m, ens=ens)
                for cls in PROB:
                    for tr in (False, True) if cls != 'VerifyProbGammaHurdle' else (False,):
                        tag = '%s%s rank=%d skip=%s %s' % ('truncated ' if tr else '', cls, rank, skip, pt)
                        for m, kw in (('cdf', dict(below=T0)), ('cdf', dict(over=T0)), ('sharpness', dict(over=T0)), ('brier', dict(below=T0)), ('roc', dict(over=T0)), ('pit', {}),
                                      ('brier_decomp', dict(over=T0))):
                            if skip and m in ('cdf', 'sharpness'):
                                continue
                            C.ob('%s %s of %s' % (m, list(kw), tag), pair, C, cls, m, kw, rank, par, rest, cls + '.' + m, trunc=tr)
                        if cls != 'VerifyProbGammaHurdle':
                            for ens in (-1, 0):
                                C.ob('prob_to_ens at %d of %s' % (ens, tag), pair, C, cls, 'prob_to_ens', {}, rank, par, rest, cls + '.prob_to_ens', trunc=tr, members=K, ens=ens)
                            C.ob('spread of ' + tag, pair, C, cls, 'spread', {}, rank, par, rest, cls + '.spread', trunc=tr, members=K)
                            C.ob('rank_hist of ' + tag, pair, C, cls, 'rank_hist', {}, rank, par, rest, cls + '.rank_hist', trunc=tr, members=K)
                        for m in ('f_determ', 'variance', 'error', 'crps'):
                            if m == 'crps' and tr and cls == 'VerifyProbGamma':
                                continue
                            C.ob('%s of %s' % (m, tag), pair, C, cls, m, {}, rank, par, rest, cls + '.' + m, trunc=tr)
