"""C19: the ensemble axis position does not matter"""
from checks.common import *
from vsa.arr import cmp_, transpose
from vsa.interp import Cell, Ext, Val
from vsa import terms as tm

RULE = ('Every ensemble metric is interpreted abstractly with members along the last and along the first axis, for each way to name the axis and with the axis left to be guessed; with '
        'the members-last array being the transposed members-first one the result terms must be equal. Changing axis or collapse function later must give the term of a fresh construction; other axes must be refused.')
ASSUMPTIONS = ['guessing is specified only where one of the two layouts fits (the number of members differs from the grid extents)']
E = dim('E')


def metrics():
    yield from ((m, {}) for m in ('error', 'sq_error', 'ab_error', 'rmse', 'spread', 'crps', 'variance', 'f_determ', 'corr', 'rank_hist'))
    for kw in (dict(over=T0), dict(below=T0)):
        for m in ('brier', 'cdf', 'iou_determ', 'brier_decomp', 'roc', 'sharpness'):
            yield m, kw
        yield 'reliability', dict(kw, nbins=NB)
    yield 'binned_spread_skill', dict(nbins=NB)


def show_axis(a):
    return 'guessed' if a is None else str(a)


def obj(C, rank, first, how, e, sq=False, **ctor):
    s = Sc(C, 'VerifyEnsemble', rank, env_=e, ens_axis=0 if first else -1, **ctor)
    if sq:
        sh = (dim('n'),) * (rank + 1)
        s.f, s.o = A('f', sh)(s.I), A('o', sh[1:])(s.I)
    s.ctor['ensemble_axis'] = how
    return s


def distinct(s):
    """the number of members is none of the grid extents, which differ"""
    ds = list(s.shape) + [E]
    for i, d in enumerate(ds):
        for e in ds[i + 1:]:
            s.I.S.facts[cmp_('eq', d, e)] = False


def layouts(C, rank, m, kw, first, how, e, ctor):
    s = obj(C, rank, first, how, e, **ctor)
    f = s.I.read(s.f)
    base = obj(C, rank, False, -1, e, **ctor)
    if first:
        r = rank + 1
        base.f = base.I.new(Cell('arr', transpose(f, list(range(1, r)) + [0]), user='f'))
    want = value(base.run(m, **kw), m)
    if how is None:
        distinct(s)
    got = value(s.run(m, **kw), m)
    return require_equal(got, want, 'VerifyEnsemble.%s with members along the %s axis (ensemble_axis=%s) differs from ensemble_axis=-1' % (m, 'first' if first else 'last', show_axis(how)),
                         where=anchor(C, 'VerifyEnsemble', m))


def refused(C, rank, how, setter):
    s = obj(C, rank, False, -1 if setter else how, {})
    if setter:
        r = s.do(lambda s: s.meth('set_ensemble_axis', how))
    else:
        r = s.do(lambda s: None)
    if r.ok:
        raise Violated('VerifyEnsemble accepts ensemble_axis=%s for forecasts of rank %d' % (how, rank + 1), where=anchor(C, 'VerifyEnsemble', 'validate'))
    return 'refused: %s' % sorted({str(l.exc) for l in r.leaves})


def axis_setter(C, rank, m, kw, a, b):
    want = value(obj(C, rank, False, b, {}, sq=True).run(m, **kw), m)
    s = obj(C, rank, False, a, {}, sq=True)

    def go(s):
        s.meth('set_ensemble_axis', b)
        return s.meth(m, **kw)
    return require_equal(value(s.do(go), m), want, 'VerifyEnsemble.%s after set_ensemble_axis(%s) differs from constructing with it' % (m, b), where=anchor(C, 'VerifyEnsemble', 'set_ensemble_axis'))


def collapse_setter(C, rank, m, kw, fn, first):
    ax = 0 if first else -1
    want = value(obj(C, rank, first, ax, {}, ensemble_collapse_func=Ext(fn)).run(m, **kw), m)
    s = obj(C, rank, first, ax, {})

    def go(s):
        s.meth('set_collapse_func', Ext(fn))
        return s.meth(m, **kw)
    return require_equal(value(s.do(go), m), want, 'VerifyEnsemble.%s after set_collapse_func(%s) differs from constructing with it' % (m, fn), where=anchor(C, 'VerifyEnsemble', 'set_collapse_func'))


def collapse_value(C, rank, fn, first):
    ax = 0 if first else -1
    s = obj(C, rank, first, ax, {}, ensemble_collapse_func=Ext(fn))
    want = s.I.read(s.I.call(Ext(fn), [s.f], dict(axis=Val(tm.const(ax)))))
    return require_equal(value(s.run('f_determ'), 'f_determ'), want, 'the deterministic forecast is not the collapsed ensemble (%s)' % fn, where=anchor(C, 'VerifyEnsemble', 'collapse_ensembles'))


def run(C):
    ranks = (1, 2) if C.tier == 'quick' else (1, 2, 3)
    envs = [{}, dict(skip_nan=True), dict(split_crps_ensemble_along_0=True), dict(ens_to_prob_method='kde'), dict(tqdm_workers='4', tqdm_map_axis='-1')]
    for rank in ranks:
        for first, how in ((False, rank), (False, None), (True, 0), (True, -rank - 1), (True, None)):
            for ctor in [{}, dict(avg_axis=(0,))] + ([dict(avg_axis=(1,))] if rank > 1 else []) + [dict(boot_samples=N), dict(ensemble_collapse_func=Ext('numpy.median'))]:
                for e in envs:
                    if e and (ctor and C.tier == 'quick' or how is None):
                        continue
                    for m, kw in metrics():
                        if ctor.get('boot_samples') is not None and m in ('cdf', 'sharpness', 'iou_determ', 'roc', 'variance', 'f_determ', 'rank_hist'):
                            continue
                        if 'ensemble_collapse_func' in ctor and m not in ('error', 'sq_error', 'ab_error', 'rmse', 'f_determ', 'corr', 'iou_determ', 'binned_spread_skill'):
                            continue
                        C.ob('%s%s rank=%d members %s ensemble_axis=%s %s %s' % (m, sorted(kw), rank, 'first' if first else 'last', show_axis(how), sorted(ctor), e),
                             layouts, C, rank, m, kw, first, how, e, ctor)
        for how in sorted(set(range(-rank - 3, rank + 3)) - {0, -1, rank, -rank - 1}) + ['0', 1.5]:
            for setter in (False, True):
                C.ob('ensemble_axis=%r refused for rank %d%s' % (how, rank + 1, ' by the setter' if setter else ''), refused, C, rank, how, setter)
        for m, kw in metrics():
            for a, b in ((-1, 0), (0, -1), (0, rank), (-1, -rank - 1)):
                C.ob('%s%s rank=%d set_ensemble_axis %d to %d' % (m, sorted(kw), rank, a, b), axis_setter, C, rank, m, kw, a, b)
        for m, kw in (('error', {}), ('sq_error', {}), ('ab_error', {}), ('rmse', {}), ('f_determ', {}), ('corr', {}), ('iou_determ', dict(over=T0)), ('binned_spread_skill', dict(nbins=NB)), ('spread', {})):
            for fn in ('numpy.median', 'numpy.max', 'numpy.nanmean'):
                for first in (False, True):
                    C.ob('%s rank=%d set_collapse_func %s members %s' % (m, rank, fn, 'first' if first else 'last'), collapse_setter, C, rank, m, kw, fn, first)
        for fn in ('numpy.median', 'numpy.max', 'numpy.nanmean', 'numpy.mean'):
            for first in (False, True):
                C.ob('f_determ rank=%d collapsed by %s members %s' % (rank, fn, 'first' if first else 'last'), collapse_value, C, rank, fn, first)
