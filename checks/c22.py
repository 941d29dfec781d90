"""C22: the Diebold-Mariano test"""
from checks.common import *

RULE = ('diebold_mariano_test() is interpreted abstractly for each loss criterion, horizon and rank; its term must be the reference statistic and p-value; the statistic of swapped '
        'forecasts must be the negated one; invalid arguments must have no normal exit.')
ASSUMPTIONS = ['scipy.stats.t.cdf(x, df) is the distribution function of Student t']
MOD, FN = 'PyAnEn.utils_significance', 'diebold_mariano_test'
WHERE = 'PyAnEn/utils_significance.py (diebold_mariano_test)'


def arrays(rank):
    return [A(n, shape(rank)) for n in ('y', 'p', 'q')]


def agree(C, rank, h, crit, power, mod):
    kw = {}
    if h is not None:
        kw['h'] = h
    if crit is not None:
        kw['crit'] = crit
    if power is not None:
        kw['power'] = power
    r = fcall(C, mod, FN, arrays(rank), kw)
    want = spec(C, 'metrics.dm', *arrays(rank), 1 if h is None else h, crit or 'MSE', 2 if power is None else power)
    return require_equal(value(r, FN), want, 'diebold_mariano_test(h=%s, crit=%s, power=%s)' % (h, crit, power), where=WHERE)


def swapped(C, rank, h, crit):
    y, p, q = arrays(rank)
    a = value(fcall(C, MOD, FN, [y, p, q], dict(h=h, crit=crit)), FN)
    b = value(fcall(C, MOD, FN, [y, q, p], dict(h=h, crit=crit)), FN)
    require_equal(b.args[0], tm.mul(const(-1), a.args[0]), 'swapping the forecasts does not negate the statistic', where=WHERE)
    return require_equal(b.args[1], a.args[1], 'swapping the forecasts changes the p-value', where=WHERE)


def refuses(C, args, kw):
    r = fcall(C, MOD, FN, args, kw)
    if r.ok:
        raise Violated('diebold_mariano_test accepts %s' % {k: show_arg(v) for k, v in kw.items()}, where=WHERE)
    return 'every path ends in an exception'


def run(C):
    for mod in (MOD, 'PyAnEn'):
        for rank in (1, 2) if C.tier == 'quick' else (1, 2, 3):
            for crit in (None, 'MSE', 'MAD', 'MAPE', 'poly'):
                for h in (None, 1, 2, 3, 4) if C.tier == 'quick' else (None, 1, 2, 3, 4, 5, 8):
                    C.ob('%s rank=%d crit=%s h=%s' % (mod, rank, crit, h), agree, C, rank, h, crit, None, mod)
            for power in (1, 2, 3, 4):
                C.ob('%s rank=%d poly power=%d' % (mod, rank, power), agree, C, rank, 2, 'poly', power, mod)
    for crit in ('MSE', 'MAD', 'MAPE', 'poly'):
        for h in (1, 2, 3):
            C.ob('swapped forecasts crit=%s h=%d' % (crit, h), swapped, C, 1, h, crit)
    y, p, q = arrays(1)
    for h in (0, -1, 1.5, 0.5, "1", None):
        C.ob('invalid horizon %r' % (h,), refuses, C, [y, p, q], dict(h=h))
    C.ob('horizon as long as the series', refuses, C, [y, p, q], dict(h=DIMS_N()))
    for crit in ('mse', 'RMSE', '', None, 'MSE ', 2):
        C.ob('unknown criterion %r' % (crit,), refuses, C, [y, p, q], dict(crit=crit))
    short = A('q', (tm.add(shape(1)[0], const(-1)),))
    C.ob('first forecast of another length', refuses, C, [y, short, q], {})
    C.ob('second forecast of another length', refuses, C, [y, p, short], {})
    C.ob('observations of another length', refuses, C, [short, p, q], {})
    for i in range(3):
        for bad in ([1.0, 2.0], 'x', 3.0):
            a = [y, p, q]
            a[i] = bad
            C.ob('argument %d is %r' % (i, bad), refuses, C, a, {})


def DIMS_N():
    return shape(1)[0]
