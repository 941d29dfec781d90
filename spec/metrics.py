"""Reference definitions of the verification metrics (read, never executed).

Written from the documentation and the literature, not from the code.
Conventions: `axis` is None or a tuple, `ens` the ensemble axis of `f`.
"""
import numpy as np
import pandas as pd
import properscoring as ps

from scipy import stats, special
from sklearn import metrics as skm
from sklearn.neighbors import KernelDensity
from PyAnEn.dist_truncgamma import truncgamma_gen

BIG = 10000


# ------------------------------------------------------------ aggregation

def avg(x, axis, skip_nan):
    if skip_nan:
        return np.nanmean(x, axis=axis)
    return np.mean(x, axis=axis)


def boot(x, axis, n, repeats, confidence, skip_nan):
    """[lower, mean, upper] of the resampled averages, on a new first axis"""
    pool = to_pool(x, axis)
    return np.moveaxis(np.array([interval_of_means(pool[:, i], n, repeats, confidence, skip_nan) for i in range(pool.shape[1])]), -1, 0).reshape(-1, *kept(x, axis))


def interval_of_means(pop, n, repeats, confidence, skip_nan):
    means = np.array([one_mean(np.random.choice(pop, size=n, replace=True), skip_nan) for _ in range(repeats)])
    return [np.quantile(means, (1 - confidence) / 2), np.mean(means), np.quantile(means, (1 + confidence) / 2)]


def one_mean(x, skip_nan):
    if skip_nan:
        return np.nanmean(x)
    return np.mean(x)


def norm_axis(x, axis):
    if axis is None:
        return list(range(x.ndim))
    return sorted([a % x.ndim for a in axis])


def kept(x, axis):
    ax = norm_axis(x, axis)
    return tuple([x.shape[i] for i in range(x.ndim) if i not in ax])


def to_pool(x, axis):
    """[samples, kept locations]"""
    ax = norm_axis(x, axis)
    rest = [i for i in range(x.ndim) if i not in ax]
    x = np.transpose(x, ax + rest)
    return x.reshape(-1, int(np.prod(x.shape[len(ax):])))


# ------------------------------------------------------- deterministic

def error(f, o):
    return f - o


def sq_error(f, o):
    return (f - o) ** 2


def ab_error(f, o):
    return np.abs(f - o)


def spread(f, ens, skip_nan):
    if skip_nan:
        return np.nanmax(f, axis=ens) - np.nanmin(f, axis=ens)
    return np.max(f, axis=ens) - np.min(f, axis=ens)


def ens_variance(f, ens):
    return np.var(f, axis=ens)


def prob_variance(sigma):
    return sigma ** 2


# ----------------------------------------------------------- probabilities

def event(x, over, below):
    if over is None:
        return x <= below
    return x > over


def complement(p, over):
    if over:
        return 1 - p
    return p


def clip01(p):
    return np.minimum(np.maximum(p, 0), 1)


def cdf_ens(f, ens, t):
    return np.mean(f <= t, axis=ens)


def cdf_kde(f, ens, t, bandwidth, kernel, samples, multiplier):
    """Riemann sum of a kernel density estimate of the members, from far below the smallest member to the threshold"""
    x = np.moveaxis(f, ens, 0)
    pool = x.reshape(x.shape[0], -1)
    return np.array([kde_one(pool[:, i], t, bandwidth, kernel, samples, multiplier) for i in range(pool.shape[1])]).reshape(x.shape[1:])


def kde_one(members, t, bandwidth, kernel, samples, multiplier):
    lo, hi = np.min(members), np.max(members)
    grid = np.linspace(lo - multiplier * (hi - lo), t, samples)
    logdens = KernelDensity(bandwidth=bandwidth, kernel=kernel).fit(members.reshape(-1, 1)).score_samples(grid.reshape(-1, 1))
    return clip01(np.sum(np.exp(logdens)) * (grid[1] - grid[0]))


def cdf_gaussian(mu, sigma, t, truncated):
    if truncated:
        return clip01(stats.truncnorm.cdf(t, a=-mu / sigma, b=BIG, loc=mu, scale=sigma))
    return clip01(stats.norm.cdf(t, loc=mu, scale=sigma))


def gamma_shape(mu, sigma):
    return (mu / sigma) ** 2


def gamma_scale(mu, sigma):
    return sigma ** 2 / mu


def cdf_gamma(umu, sigma, shift, t):
    return clip01(stats.gamma.cdf(t, a=gamma_shape(umu, sigma), loc=shift, scale=gamma_scale(umu, sigma)))


def cdf_truncgamma(umu, sigma, shift, t):
    scale = gamma_scale(umu, sigma)
    return clip01(truncgamma_gen().cdf(t, a=-shift / scale, b=BIG, s=gamma_shape(umu, sigma), loc=shift, scale=scale))


def tg_cdf(x, a, b, s):
    inside = (special.gammainc(s, x) - special.gammainc(s, a)) / (special.gammainc(s, b) - special.gammainc(s, a))
    return np.where((x < a) | (x > b), 0.0, inside)


def tg_cdf1(x, a, b, s):
    inside = (special.gammainc(s, x) - special.gammainc(s, a)) / (special.gammainc(s, b) - special.gammainc(s, a))
    return np.where(x < a, 0.0, np.where(x > b, 1.0, inside))


def tg_pdf(x, a, b, s):
    inside = np.exp(special.xlogy(s - 1, x) - x - special.gammaln(s)) / (special.gammainc(s, b) - special.gammainc(s, a))
    return np.where((x < a) | (x > b), 0.0, inside)


def tg_ppf(q, a, b, s):
    return special.gammaincinv(s, special.gammainc(s, a) + q * (special.gammainc(s, b) - special.gammainc(s, a)))


def tg_rvs(a, b, s, size):
    return tg_ppf(np.random.uniform(0, 1, size), a, b, s)


def cdf_hurdle(pop, mu, sigma, t):
    p = np.where(t > 0, 1 - pop + pop * stats.gamma.cdf(t, a=gamma_shape(mu, sigma), scale=gamma_scale(mu, sigma)), 1 - pop)
    return clip01(np.where(t < 0, 0, p))


def brier(p, o, over, below):
    return (p - event(o, over, below)) ** 2


def iou(a, b, axis):
    return np.sum(a & b, axis=axis) / np.sum(a | b, axis=axis)


def iou_determ(f, o, axis, over, below):
    if over is None:
        return iou(f < below, o < below, axis)
    return iou(f > over, o > over, axis)


def iou_prob(p, o, axis, over, below, pover, pbelow):
    if pover is None:
        return iou(p < pbelow, event(o, over, below), axis)
    return iou(p > pover, event(o, over, below), axis)


def roc(p, o, over, below, skip_nan):
    y, p = event(o, over, below).flatten(), p.flatten()
    if skip_nan:
        ok = ~np.isnan(p) & ~np.isnan(y)
        y, p = y[ok], p[ok]
    fpr, tpr, _ = skm.roc_curve(y_true=y, y_score=p)
    return fpr, tpr, skm.auc(fpr, tpr)


# ------------------------------------------------------------------- CRPS

def crps_gaussian(mu, sigma, o):
    return ps.crps_gaussian(o, mu=mu, sig=sigma)


def crps_truncgaussian(mu, sigma, o):
    """Gaussian truncated below at zero (scoringRules, crps_gtnorm with lower=0, upper=Inf)"""
    y = (o - mu) / sigma
    l = -mu / sigma
    z = np.maximum(y, l)
    p = 1 / (1 - stats.norm.cdf(l))
    return sigma * (np.abs(y - z) + p * z * (2 * stats.norm.cdf(z) - 1 - stats.norm.cdf(l)) + 2 * p * stats.norm.pdf(z)
                    - p ** 2 / np.sqrt(np.pi) * (1 - stats.norm.cdf(l * np.sqrt(2))))


def crps_gamma(umu, sigma, shift, o):
    """censored shifted gamma (Scheuerer and Hamill 2015, eq. 12)"""
    k = gamma_shape(umu, sigma)
    theta = gamma_scale(umu, sigma)
    y = (o - shift) / theta
    c = -shift / theta
    Fky = stats.gamma.cdf(y, k)
    Fkc = stats.gamma.cdf(c, k)
    B = np.exp(special.gammaln(0.5) + special.gammaln(k + 0.5) - special.gammaln(k + 1))
    return theta * (y * (2 * Fky - 1)
                    - k * (2 * stats.gamma.cdf(y, k + 1) - 1 + Fkc ** 2 - 2 * stats.gamma.cdf(c, k + 1) * Fkc)
                    - c * Fkc ** 2
                    - k / np.pi * B * (1 - stats.gamma.cdf(2 * c, 2 * k)))


def crps_ens(f, o, ens):
    return ps.crps_ensemble(o, f, axis=ens)


# ------------------------------------------------- sample-wise diagnostics

def pearson(f, o, axis, skip_nan):
    pf, po = to_pool(f, axis), to_pool(o, axis)
    r = np.array([one_corr(pf[:, i], po[:, i], skip_nan) for i in range(pf.shape[1])])
    return r.reshape(kept(f, axis))


def one_corr(f, o, skip_nan):
    if skip_nan:
        ok = ~np.isnan(f) & ~np.isnan(o)
        return np.corrcoef(f[ok], o[ok])[0, 1]
    return np.corrcoef(f, o)[0, 1]


def quant(x, q, skip_nan):
    if skip_nan:
        return np.nanquantile(x, q)
    return np.quantile(x, q)


def interval(x, confidence, skip_nan):
    return [quant(x, (1 - confidence) / 2, skip_nan), one_mean(x, skip_nan), quant(x, (1 + confidence) / 2, skip_nan)]


def pearson_boot(f, o, axis, n, repeats, confidence, skip_nan):
    pf, po = to_pool(f, axis), to_pool(o, axis)
    r = np.array([corr_interval(pf[:, i], po[:, i], n, repeats, confidence, skip_nan) for i in range(pf.shape[1])])
    return np.moveaxis(r.reshape(*kept(f, axis), 3), -1, 0)


def corr_interval(f, o, n, repeats, confidence, skip_nan):
    return interval(np.array([resampled_corr(f, o, n, skip_nan) for _ in range(repeats)]), confidence, skip_nan)


def resampled_corr(f, o, n, skip_nan):
    i = np.random.randint(0, len(f), size=n)
    return one_corr(f[i], o[i], skip_nan)


# ------------------------------------------------------- spread and skill

def spread_skill(var, sq, axis, nbins, skip_nan):
    v, s = to_pool(var, axis), to_pool(sq, axis)
    spread = [[np.sqrt(one_mean(piece(v[:, i], v[:, i], nbins, b), skip_nan)) for b in range(nbins)] for i in range(v.shape[1])]
    rmse = [[np.sqrt(one_mean(piece(s[:, i], v[:, i], nbins, b), skip_nan)) for b in range(nbins)] for i in range(v.shape[1])]
    return np.array(spread).reshape(*kept(var, axis), nbins), np.array(rmse).reshape(*kept(var, axis), nbins)


def piece(x, key, nbins, b):
    """members of x in bin b when bins of equal size are cut along increasing key"""
    return np.array_split(x[np.argsort(key)], nbins)[b]


def spread_skill_boot(var, sq, axis, nbins, n, repeats, confidence, skip_nan):
    v, s = to_pool(var, axis), to_pool(sq, axis)
    both = [[pair_interval(piece(v[:, i], v[:, i], nbins, b), piece(s[:, i], v[:, i], nbins, b), n, repeats, confidence, skip_nan)
             for b in range(nbins)] for i in range(v.shape[1])]
    spread = np.array([[both[i][b][0] for b in range(nbins)] for i in range(v.shape[1])])
    rmse = np.array([[both[i][b][1] for b in range(nbins)] for i in range(v.shape[1])])
    return np.sqrt(spread).reshape(*kept(var, axis), nbins, 3), np.sqrt(rmse).reshape(*kept(var, axis), nbins, 3)


def pair_interval(v, s, n, repeats, confidence, skip_nan):
    """variance and squared error are resampled together"""
    mv, ms = [], []
    for _ in range(repeats):
        i = np.random.randint(0, len(v), size=n)
        mv.append(one_mean(v[i], skip_nan))
        ms.append(one_mean(s[i], skip_nan))
    return interval(np.array(mv), confidence, False), interval(np.array(ms), confidence, False)


def settings():
    import os
    return int(os.environ['pyanen_boot_repeats']), float(os.environ['pyanen_boot_confidence'])


# ---------------------------------------------------------- conversions

def same(x):
    return x


def root(x):
    return np.sqrt(x)


def ens_mean(f, ens):
    return np.mean(f, axis=ens)


def cdf_ens_array(f, ens, t):
    return np.mean(f <= np.expand_dims(t, ens), axis=ens)


# ------------------------------------------------------------- sampling

def sample_gaussian(mu, sigma, n, pos, truncated):
    if truncated:
        x = stats.truncnorm(a=-mu / sigma, b=BIG, loc=mu, scale=sigma).rvs([n] + list(mu.shape))
    else:
        x = stats.norm(loc=mu, scale=sigma).rvs([n] + list(mu.shape))
    return np.moveaxis(x, 0, pos)


def sample_gamma(umu, sigma, shift, n, pos, truncated):
    if truncated:
        scale = gamma_scale(umu, sigma)
        x = truncgamma_gen()(a=-shift / scale, b=BIG, s=gamma_shape(umu, sigma), loc=shift, scale=scale).rvs([n] + list(umu.shape))
        return np.moveaxis(x, 0, pos)
    x = stats.gamma(a=gamma_shape(umu, sigma), loc=shift, scale=gamma_scale(umu, sigma)).rvs([n] + list(umu.shape))
    return np.moveaxis(x, 0, pos)


# ---------------------------------------------------------- integration

def integration_limits(o, multiplier):
    width = np.max(o) - np.min(o)
    return np.min(o) - multiplier * width, np.max(o) + multiplier * width


def hurdle_at(pop, mu, sigma, lo, hi, n):
    """CDF at n equally spaced points, on a new first axis"""
    return np.array([cdf_hurdle(pop, mu, sigma, x) for x in np.linspace(lo, hi, n)])


def bcol(x, like):
    """x along the first axis of an array with the extents of `like` behind it"""
    return x.reshape(-1, *([1] * like.ndim))


def hurdle_mean(pop, mu, sigma, lo, hi, n):
    x = bcol(np.linspace(lo, hi, n), mu)
    p = hurdle_at(pop, mu, sigma, lo, hi, n)
    return np.sum((x[1:] + x[:-1]) / 2 * (p[1:] - p[:-1]), axis=0)


def hurdle_variance(pop, mu, sigma, lo, hi, n):
    x = bcol(np.linspace(lo, hi, n), mu)
    p = hurdle_at(pop, mu, sigma, lo, hi, n)
    second = np.sum((x[1:] ** 2 + x[:-1] ** 2) / 2 * (p[1:] - p[:-1]), axis=0)
    return second - hurdle_mean(pop, mu, sigma, lo, hi, n) ** 2


def hurdle_crps(pop, mu, sigma, o, lo, hi, n):
    x = bcol(np.linspace(lo, hi, n), mu)
    b = np.array([brier(cdf_hurdle(pop, mu, sigma, v), o, None, v) for v in np.linspace(lo, hi, n)])
    return np.sum((b[1:] + b[:-1]) / 2 * (x[1:] - x[:-1]), axis=0)


# ------------------------------------------------------ reliability etc.

def bin_of(p, nbins):
    return np.digitize(p, np.linspace(0, 1 + 1e-8, nbins + 1)) - 1


def flat_counts(x):
    return pd.value_counts(x).sort_index()


def reliability_one(p, e, nbins):
    """per occupied bin: mean forecast probability, observed frequency; sizes of bins and of outcomes"""
    ids = bin_of(p, nbins)
    size = np.bincount(ids, minlength=nbins + 1)
    used = size != 0
    return (np.bincount(ids, weights=p, minlength=nbins + 1)[used] / size[used], np.bincount(ids, weights=e, minlength=nbins + 1)[used] / size[used],
            flat_counts(ids), flat_counts(e))


def reliability(p, event, nbins, axis):
    pp, pe = to_pool(p, axis), to_pool(event, axis)
    if len(kept(p, axis)) == 0:
        return reliability_one(pp[:, 0], pe[:, 0], nbins)
    cols = [reliability_one(pp[:, i], pe[:, i], nbins) for i in range(pp.shape[1])]
    return (np.array([c[0] for c in cols]).reshape(*kept(p, axis), -1), np.array([c[1] for c in cols]).reshape(*kept(p, axis), -1),
            np.array([c[2].to_numpy() for c in cols]).reshape(*kept(p, axis), -1), np.array([c[3].to_numpy() for c in cols]).reshape(*kept(p, axis), -1))


def reliability_boot_one(p, e, nbins, n, repeats, confidence, skip_nan):
    ids = bin_of(p, nbins)
    pred, true = [], []
    for b in range(nbins + 1):
        inside = np.where(ids == b)[0]
        if len(inside) > 0:
            mp, mt = [], []
            for _ in range(repeats):
                i = np.random.choice(inside, size=n, replace=True)
                mp.append(one_mean(p[i], skip_nan))
                mt.append(one_mean(e[i], skip_nan))
            pred.append(interval(np.array(mp), confidence, False))
            true.append(interval(np.array(mt), confidence, False))
    return np.array(pred), np.array(true), flat_counts(ids), flat_counts(e)


def reliability_boot(p, event, nbins, axis, n, repeats, confidence, skip_nan):
    pp, pe = to_pool(p, axis), to_pool(event, axis)
    if len(kept(p, axis)) == 0:
        return reliability_boot_one(pp[:, 0], pe[:, 0], nbins, n, repeats, confidence, skip_nan)
    cols = [reliability_boot_one(pp[:, i], pe[:, i], nbins, n, repeats, confidence, skip_nan) for i in range(pp.shape[1])]
    return (np.array([c[0] for c in cols]).reshape(*kept(p, axis), -1, 3), np.array([c[1] for c in cols]).reshape(*kept(p, axis), -1, 3),
            np.array([c[2].to_numpy() for c in cols]).reshape(*kept(p, axis), -1), np.array([c[3].to_numpy() for c in cols]).reshape(*kept(p, axis), -1))


def brier_decomp(p, event, axis, skip_nan):
    pp, pe = to_pool(p, axis), to_pool(event, axis)
    r = np.array([decompose(pp[:, i], pe[:, i], skip_nan) for i in range(pp.shape[1])]).reshape(*kept(p, axis), 3)
    return r[..., 0], r[..., 1], r[..., 2]


def decompose(p, e, skip_nan):
    where = np.digitize(p, np.linspace(0, 1, 21)[1:-1])
    base = one_mean(e, skip_nan)
    rel, res = 0, 0
    for b in range(np.max(where) + 1):
        inside = where == b
        if np.sum(inside) > 0:
            rel += np.sum(inside) * (one_mean(p[inside], skip_nan) - one_mean(e[inside], skip_nan)) ** 2
            res += np.sum(inside) * (one_mean(e[inside], skip_nan) - base) ** 2
    return [rel / len(p), res / len(p), base * (1 - base)]


def brier_decomp_boot(p, event, axis, n, repeats, confidence, skip_nan):
    pp, pe = to_pool(p, axis), to_pool(event, axis)
    r = np.array([decompose_interval(pp[:, i], pe[:, i], n, repeats, confidence, skip_nan) for i in range(pp.shape[1])]).reshape(*kept(p, axis), 3, 3)
    r = np.moveaxis(r, -1, 0)
    return r[..., 0], r[..., 1], r[..., 2]


def decompose_interval(p, e, n, repeats, confidence, skip_nan):
    rel, res, unc = [], [], []
    for _ in range(repeats):
        i = np.random.randint(0, len(p), size=n)
        d = decompose(p[i], e[i], skip_nan)
        rel.append(d[0])
        res.append(d[1])
        unc.append(d[2])
    return [interval(np.array(rel), confidence, skip_nan), interval(np.array(res), confidence, skip_nan), interval(np.array(unc), confidence, skip_nan)]


# ------------------------------------------------------------------ significance
def loss(e, actual, crit, power):
    if crit == 'MSE':
        return e * e
    if crit == 'MAD':
        return np.abs(e)
    if crit == 'MAPE':
        return np.abs(e / actual)
    return e ** power


def dm(actual, p1, p2, h, crit, power):
    y = actual.reshape(-1)
    d = loss(y - p1.reshape(-1), y, crit, power) - loss(y - p2.reshape(-1), y, crit, power)
    n = d.size
    c = d - np.mean(d)
    longrun = np.mean(c * c)
    for k in range(1, h):
        longrun = longrun + 2 * np.mean(c[:n - k] * c[k:])
    s = np.mean(d) / np.sqrt(longrun / n) * np.sqrt((n + 1 - 2 * h + h * (h - 1) / n) / n)
    return s, 2 * stats.t(n - 1).cdf(-abs(s))


# ------------------------------------------------------------ ranks

def rank_hist(f, o, ens, skip_nan):
    """one plus the number of smaller members, plus a random number of the members equal to the observation"""
    members = np.moveaxis(f, ens, 0)
    ties = np.sum(members == o, axis=0)
    rank = 1 + np.sum(members < o, axis=0) + np.random.randint(0, ties + 1)
    if skip_nan:
        return np.where(np.isnan(o) | np.any(np.isnan(members), axis=0), np.nan, rank)
    return rank


def pit(p, o, randomize):
    """cdf at the observation, uniform below its value where nothing was observed"""
    if randomize:
        return np.where(o == 0, np.random.uniform(0, 1, p.shape) * p, p)
    return p


def reliability_index(freqs):
    return np.sum(np.abs(freqs / np.sum(freqs) - 1 / len(freqs)))


def first_member(x, axis):
    """a collapse function whose result is a view of its argument"""
    return np.moveaxis(x, axis, 0)[0]


# integration over any verifier: p is its cdf, b its Brier score, as functions of the threshold

def grid_mean(values, x):
    """trapezoidal mean of a cdf known at the points x (first axis)"""
    xs = bcol(x, values[0])
    return np.sum((xs[1:] + xs[:-1]) / 2 * (values[1:] - values[:-1]), axis=0)


def grid_variance(values, x):
    xs = bcol(x, values[0])
    return np.sum((xs[1:] ** 2 + xs[:-1] ** 2) / 2 * (values[1:] - values[:-1]), axis=0) - grid_mean(values, x) ** 2


def grid_crps(values, x):
    xs = bcol(x, values[0])
    return np.sum((values[1:] + values[:-1]) / 2 * (xs[1:] - xs[:-1]), axis=0)


def integral_gaussian(which, mu, sigma, o, truncated, lo, hi, n):
    x = np.linspace(lo, hi, n)
    if which == 'crps':
        return grid_crps(np.array([brier(cdf_gaussian(mu, sigma, v, truncated), o, None, v) for v in x]), x)
    p = np.array([cdf_gaussian(mu, sigma, v, truncated) for v in x])
    return grid_mean(p, x) if which == 'mean' else grid_variance(p, x)


def integral_gamma(which, umu, sigma, shift, o, lo, hi, n):
    x = np.linspace(lo, hi, n)
    if which == 'crps':
        return grid_crps(np.array([brier(cdf_gamma(umu, sigma, shift, v), o, None, v) for v in x]), x)
    p = np.array([cdf_gamma(umu, sigma, shift, v) for v in x])
    return grid_mean(p, x) if which == 'mean' else grid_variance(p, x)


def integral_hurdle(which, pop, mu, sigma, o, lo, hi, n):
    x = np.linspace(lo, hi, n)
    if which == 'crps':
        return grid_crps(np.array([brier(cdf_hurdle(pop, mu, sigma, v), o, None, v) for v in x]), x)
    p = np.array([cdf_hurdle(pop, mu, sigma, v) for v in x])
    return grid_mean(p, x) if which == 'mean' else grid_variance(p, x)


def integral_ensemble(which, f, o, ens, lo, hi, n):
    x = np.linspace(lo, hi, n)
    if which == 'crps':
        return grid_crps(np.array([brier(cdf_ens(f, ens, v), o, None, v) for v in x]), x)
    p = np.array([cdf_ens(f, ens, v) for v in x])
    return grid_mean(p, x) if which == 'mean' else grid_variance(p, x)
