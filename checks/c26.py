"""C26: rank histogram and probability integral transform"""
from checks.common import *

RULE = ('rank_hist() and pit() of every family are interpreted abstractly; the loop over tie counts and the parallel split are normalised away and the term must equal the reference construction '
        '(spec/metrics.py: rank_hist, pit, reliability_index).')
ASSUMPTIONS = ['scipy.stats.rankdata(method="min") ranks as documented; ranks of columns holding NaN are not specified (they are masked)',
               'np.random.randint and uniform rvs draw uniformly; two draws of equal shape and bounds are interchangeable']
K = isym('K')


def index(C):
    x = A('freqs', (dim('M'),))
    s = Sc(C, 'VerifyDeterm', 1)
    r = s.run('reliability_index', x)
    return require_equal(value(r, 'reliability_index'), spec(C, 'metrics.reliability_index', x), 'reliability_index is not the total deviation from a flat histogram', where=anchor(C, 'VerifyDeterm', 'reliability_index'))


def helper(C, rank, ax, skip):
    sh = shape(rank)
    o = A('o', sh)
    p = ax % (rank + 1)
    f = A('f', sh[:p] + (dim('E'),) + sh[p:])
    r = fcall(C, 'PyAnEn.utils_verify', 'rank_histogram', [f, o, ax], {}, env_=dict(skip_nan=skip))
    return require_equal(value(r, 'rank_histogram'), spec(C, 'metrics.rank_hist', f, o, ax, skip), 'rank_histogram does not rank each location among its own members', where='PyAnEn/utils_verify.py (rank_histogram)')


def run(C):
    ranks = (1, 2) if C.tier == 'quick' else (1, 2, 3, 4)
    workers = [{}, dict(tqdm_workers='4', tqdm_map_axis='-1'), dict(tqdm_workers='4', tqdm_map_axis='-2'), dict(tqdm_workers=None)]
    for rank in ranks:
        for skip in (False, True):
            for e in workers:
                if rank < 2 and e.get('tqdm_map_axis') == '-2':
                    continue
                for ax in (-1, 0, rank):
                    C.ob('VerifyEnsemble.rank_hist rank=%d members at %d skip=%s %s' % (rank, ax, skip, e), Case(C, 'VerifyEnsemble', rank, skip=skip, ens=ax, env_=e).agree, 'rank_hist')
            for ax in range(-1, rank + 1):
                C.ob('rank_histogram rank=%d members at %d skip=%s' % (rank, ax, skip), helper, C, rank, ax, skip)
            for cls in PROB:
                for tr in (False, True) if cls != 'VerifyProbGammaHurdle' else (False,):
                    tag = '%s%s rank=%d skip=%s' % ('truncated ' if tr else '', cls, rank, skip)
                    for rz in (None, True, False):
                        kw = {} if rz is None else dict(pit_randomize_zero_ranks=rz)
                        for m in ('pit', 'rank_hist'):
                            C.ob('%s of %s randomize=%s' % (m, tag, rz), Case(C, cls, rank, skip=skip, trunc=tr, **kw).agree, m)
                    if cls != 'VerifyProbGammaHurdle':
                        for ax in range(-1, rank):
                            C.ob('sampled rank_hist of %s members at %d' % (tag, ax), Case(C, cls, rank, skip=skip, trunc=tr, members=K, ens=ax).agree, 'rank_hist')
    C.ob('reliability_index', index, C)
