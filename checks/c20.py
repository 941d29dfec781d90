"""C20: unsupported metrics and options fail loudly"""
from checks.common import *
from vsa.arr import cmp_
from vsa import terms as tm

RULE = ('Every metric a verifier type does not define, every unknown probability method (a symbolic string different from the documented ones), unknown comparison criterion and contradictory threshold choice '
        'is interpreted abstractly: no path may return normally, and no path may write a cache file of that metric.')
ASSUMPTIONS = ['sklearn refuses unknown kernels itself']
ALL = ('error', 'sq_error', 'ab_error', 'rmse', 'variance', 'crps', 'rank_hist', 'spread', 'f_determ', 'corr', 'binned_spread_skill', 'reliability', 'roc', 'sharpness', 'iou_determ', 'iou_prob', 'cdf',
       'brier', 'brier_decomp')
THR = ('reliability', 'roc', 'sharpness', 'iou_determ', 'cdf', 'brier', 'brier_decomp')
DETERM = ('error', 'sq_error', 'ab_error', 'rmse', 'iou_determ', 'f_determ', 'corr')


def args(m):
    if m in THR:
        yield dict(over=T0)
        yield dict(below=T0)
    elif m == 'iou_prob':
        yield dict(over=(T0, PT), below=(None, None))
        yield dict(over=(None, None), below=(T0, PT))
    else:
        yield {}


def stored(log):
    return [e for e in log if e.kind in ('dump', 'replace', 'move', 'copyfile', 'write')]


def refused(C, r, what, where, save=True):
    if r.ok:
        raise Violated('%s returns a value' % what, where=where)
    if not r.leaves:
        raise Undecided('%s: no exit found' % what)
    for l in r.leaves:
        w = stored(l.state.log) if save else []
        if w:
            raise Violated('%s writes %s before it fails' % (what, show(w[0].data[0], 5)), where='%s:%s' % w[0].site)
    return 'raises %s' % sorted({str(l.exc) for l in r.leaves})


def base_obj(C, mod, cls, e, **ctor):
    """an instance of an abstract base class"""
    s = Sc(C, 'VerifyDeterm', 2, env_=e, config=EMPTY)

    def make():
        c = C.W.import_name(s.I, 'PyAnEn.' + mod, cls)
        s.obj = s.I.call(c, [], {k: lift(s.I, v) for k, v in ctor.items()})
        return s.obj
    s.make = make
    return s


def metric(C, s, cls, m, kw, what='', save=True):
    return refused(C, s.run(m, **kw), '%s.%s%s' % (cls, m, what), anchor(C, cls, m), save)


def sym_setting(I, name, known):
    x = tm.sym(name, 'str')
    for k in known:
        I.S.facts[cmp_('eq', x, tm.const(k))] = False
    return x


def method(C, m, kw, rank, ens, workers, boot, value_):
    e = dict(tqdm_workers=workers)
    x = tm.sym('method', 'str') if value_ is None else value_
    s = Sc(C, 'VerifyEnsemble', rank, env_=dict(e, ens_to_prob_method=x), ens_axis=ens, config=EMPTY, ensemble_axis=ens, **(dict(boot_samples=N) if boot else {}), working_directory=WD)
    if value_ is None:
        sym_setting(s.I, 'method', ('kde', 'moments'))
    return refused(C, s.run(m, **kw), 'VerifyEnsemble.%s with ens_to_prob_method=%s' % (m, 'any undocumented name' if value_ is None else repr(value_)), anchor(C, 'VerifyEnsemble', m))


def criterion(C, crit):
    I = C.interp()
    n = dim('n')
    x = tm.sym('crit', 'str') if crit == 'any' else crit
    if crit == 'any':
        sym_setting(I, 'crit', ('MSE', 'MAD', 'MAPE', 'poly'))
    r = fcall(C, 'PyAnEn.utils_significance', 'diebold_mariano_test', [A(k, (n,)) for k in ('actual', 'p1', 'p2')], dict(crit=x), I=I)
    return refused(C, r, 'diebold_mariano_test with criterion %s' % crit, 'PyAnEn/utils_significance.py (diebold_mariano_test)', False)


def run(C):
    ranks = (1, 2) if C.tier == 'quick' else (1, 2, 3)
    for save in (False, True):
        ctor = dict(working_directory=WD) if save else {}
        tag = ' saving' if save else ''
        for m in ALL:
            for kw in args(m):
                for rank in ranks:
                    if m not in DETERM:
                        for boot in (False, True):
                            s = Sc(C, 'VerifyDeterm', rank, config=EMPTY, **dict(ctor, **(dict(boot_samples=N) if boot else {})))
                            C.ob('VerifyDeterm.%s%s rank=%d%s%s' % (m, sorted(kw), rank, tag, ' boot' if boot else ''), metric, C, s, 'VerifyDeterm', m, kw)
                C.ob('Verify.%s%s%s' % (m, sorted(kw), tag), metric, C, base_obj(C, 'Verify', 'Verify', {}, **ctor), 'Verify', m, kw)
                C.ob('VerifyProb.%s%s%s' % (m, sorted(kw), tag), metric, C, base_obj(C, 'VerifyProb', 'VerifyProb', {}, **ctor), 'VerifyProb', m, kw)
        for m in ('prob_to_ens', 'pit'):
            C.ob('VerifyProb.%s%s' % (m, tag), metric, C, base_obj(C, 'VerifyProb', 'VerifyProb', {}, **ctor), 'VerifyProb', m, {})
        for rank in ranks:
            for members in (None, isym('K')):
                mk = {} if members is None else dict(n_sample_members=members)
                for m in ('prob_to_ens', 'spread') + (('rank_hist',) if mk else ()):
                    C.ob('VerifyProbGammaHurdle.%s rank=%d members=%s%s' % (m, rank, members is not None, tag), metric, C, Sc(C, 'VerifyProbGammaHurdle', rank, config=EMPTY, **dict(ctor, **mk)), 'VerifyProbGammaHurdle', m, {})
                for boot in (False, True):
                    b = dict(boot_samples=N) if boot else {}
                    C.ob('truncated VerifyProbGamma.crps rank=%d%s%s' % (rank, tag, ' boot' if boot else ''), metric, C, Sc(C, 'VerifyProbGamma', rank, config=EMPTY, truncated=True, **dict(ctor, **mk, **b)), 'VerifyProbGamma', 'crps', {})
            for cls in ('VerifyProbGaussian', 'VerifyProbGamma'):
                for m in ('prob_to_ens', 'spread'):
                    C.ob('%s.%s without a number of members rank=%d%s' % (cls, m, rank, tag), metric, C, Sc(C, cls, rank, config=EMPTY, **ctor), cls, m, {}, ' without a number of members')
            for cls in CLASSES:
                for m in THR:
                    if cls == 'VerifyDeterm' and m != 'iou_determ':
                        continue
                    for kw, what in (({}, ' without a threshold'), (dict(over=T0, below=fsym('t2')), ' with both thresholds')):
                        if m == 'iou_determ' and kw:
                            continue
                        C.ob('%s.%s%s rank=%d%s' % (cls, m, what, rank, tag), metric, C, Sc(C, cls, rank, config=EMPTY, **ctor), cls, m, kw, what, m in ('cdf', 'sharpness'))
    for m in THR + ('iou_prob',):
        if m == 'iou_determ':
            continue
        for kw in args(m):
            for rank in ranks:
                for ens in (-1, 0):
                    for workers in ('1', '4', None):
                        for boot in (False, True):
                            for v in (None, 'Moments', ''):
                                if v is not None and (boot or rank > 1):
                                    continue
                                C.ob('%s%s unknown method %s rank=%d members at %d workers=%s%s' % (m, sorted(kw), v, rank, ens, workers, ' boot' if boot else ''), method, C, m, kw, rank, ens, workers, boot, v)
    for crit in ('any', 'mse', 'RMSE', '', 'Poly', 'POLY', 'MAE', None):
        C.ob('criterion %r' % (crit,), criterion, C, crit)
