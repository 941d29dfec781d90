"""Shared scenario enumeration and the table of specified metric values."""
from vsa.scen import *
from vsa.arr import dims
from vsa.lib import strcat

T0 = fsym('t')
N = isym('N')
NB = isym('b')
PT = fsym('pt')

PROB = ['VerifyProbGaussian', 'VerifyProbGamma', 'VerifyProbGammaHurdle']
AXES = {1: [None, (0,)], 2: [None, (0,), (1,), (0, 1), (-1,)], 3: [None, (0,), (0, 2), (2,), (-3, -1)]}
AXES_FULL = {1: [None, (0,), (-1,)],
             2: [None, (0,), (1,), (0, 1), (-1,), (-2,), (-2, -1)],
             3: [None, (0,), (1,), (2,), (0, 1), (0, 2), (1, 2), (0, 1, 2), (-1,), (-2,), (-3, -1), (0, -1)]}


def axes(tier):
    return AXES_FULL if tier == 'thorough' else AXES


def cases(tier):
    ax = axes(tier)
    return [(r, a) for r in (1, 2, 3) for a in ax[r]]


class Case:
    """a verifier object plus the values its metrics are specified to have"""

    def __init__(self, C, cls, rank=2, axis=None, skip=False, ens=-1, boot=None, trunc=False, members=None, env_=None, config=None, **ctor):
        self.C, self.cls, self.rank, self.axis, self.skip, self.ens, self.boot, self.trunc, self.members = C, cls, rank, axis, skip, ens, boot, trunc, members
        kw = dict(avg_axis=axis)
        if boot is not None:
            kw['boot_samples'] = boot
        if cls == 'VerifyEnsemble':
            kw['ensemble_axis'] = ens
        if cls in PROB:
            if trunc:
                kw['truncated'] = True
            if members is not None:
                kw['n_sample_members'] = members
                kw['move_sampled_ens_axis'] = ens
        kw.update(ctor)
        self.ctor = kw
        self.nint = kw.get('n_approx_bins', 20)
        self.range = kw.get('integration_range')
        e = dict(skip_nan=skip)
        e.update(env_ or {})
        self.env = e
        self.s = Sc(C, cls, rank, env_=e, ens_axis=ens, config=config, **kw)
        self.shape = shape(rank)
        self.o = A('o', self.shape)
        self.memo = {}

    # ------------------------------------------------------------ inputs
    def arr(self, name):
        if name == 'f' and self.cls == 'VerifyEnsemble':
            p = self.ens % (self.rank + 1)
            return A('f', self.shape[:p] + (dim('E'),) + self.shape[p:])
        return A(name, self.shape)

    def S(self, name, *args, **kw):
        return spec(self.C, 'metrics.' + name, *args, **kw)

    def once(self, key, fn):
        if key not in self.memo:
            self.memo[key] = fn()
        return self.memo[key]

    # --------------------------------------------------------- specified
    def F(self):
        """deterministic form of the forecast"""
        return self.once('F', self._F)

    def _F(self):
        if self.cls == 'VerifyDeterm':
            return self.S('same', self.arr('f'))
        if self.cls == 'VerifyEnsemble':
            return self.S('ens_mean', self.arr('f'), self.ens)
        if self.cls == 'VerifyProbGammaHurdle':
            lo, hi = self.lohi()
            return self.S('hurdle_mean', self.arr('pop'), self.arr('mu'), self.arr('sigma'), lo, hi, self.nint)
        return self.S('same', self.arr('mu'))

    def lohi(self):
        if self.range is not None:
            return self.range
        return self.once('lohi', lambda: self.S('integration_limits', self.o, int(self.env.get('integrate_range_multiplier', 5))).args)

    def P(self, over=None, below=None):
        p = self.once(('P', over, below), lambda: self._P(below if over is None else over))
        return p if over is None else self.S('complement', p, True)

    def _P(self, t):
        if self.cls == 'VerifyEnsemble' and self.env.get('ens_to_prob_method') == 'kde':
            e = dict(ENV0, **self.env)
            return self.S('cdf_kde', self.arr('f'), self.ens, t, float(e['kde_bandwidth']), e['kde_kernel'], int(e['kde_samples']), int(e['kde_multiply_spread']))
        if self.cls == 'VerifyEnsemble':
            return self.S('cdf_ens_array' if is_array(t) else 'cdf_ens', self.arr('f'), self.ens, t)
        if self.cls == 'VerifyProbGaussian':
            return self.S('cdf_gaussian', self.arr('mu'), self.arr('sigma'), t, self.trunc)
        if self.cls == 'VerifyProbGamma':
            if self.trunc:
                return self.S('cdf_truncgamma', self.arr('unshifted_mu'), self.arr('sigma'), self.arr('shift'), t)
            return self.S('cdf_gamma', self.arr('unshifted_mu'), self.arr('sigma'), self.arr('shift'), t)
        if self.cls == 'VerifyProbGammaHurdle':
            return self.S('cdf_hurdle', self.arr('pop'), self.arr('mu'), self.arr('sigma'), t)
        raise KeyError(self.cls)

    def members_(self):
        return self.once('ens', self._members)

    def _members(self):
        if self.cls == 'VerifyProbGaussian':
            return self.S('sample_gaussian', self.arr('mu'), self.arr('sigma'), self.members, self.ens, self.trunc)
        if self.cls == 'VerifyProbGamma':
            return self.S('sample_gamma', self.arr('unshifted_mu'), self.arr('sigma'), self.arr('shift'), self.members, self.ens, self.trunc)

    def element(self, metric, **kw):
        """metric before aggregation"""
        return self.once((metric, tuple(sorted(kw.items()))), lambda: self._element(metric, **kw))

    def _element(self, metric, **kw):
        if metric in ('error', 'sq_error', 'ab_error'):
            return self.S(metric, self.F(), self.o)
        if metric == 'spread':
            if self.cls == 'VerifyEnsemble':
                return self.S('spread', self.arr('f'), self.ens, self.skip)
            return self.S('spread', self.members_(), self.ens, self.skip)
        if metric == 'brier':
            return self.S('brier', self.P(**kw), self.o, kw.get('over'), kw.get('below'))
        if metric == 'crps':
            if self.cls == 'VerifyEnsemble':
                return self.S('crps_ens', self.arr('f'), self.o, self.ens)
            if self.cls == 'VerifyProbGaussian':
                return self.S('crps_truncgaussian' if self.trunc else 'crps_gaussian', self.arr('mu'), self.arr('sigma'), self.o)
            if self.cls == 'VerifyProbGamma':
                return self.S('crps_gamma', self.arr('unshifted_mu'), self.arr('sigma'), self.arr('shift'), self.o)
            lo, hi = self.lohi()
            return self.S('hurdle_crps', self.arr('pop'), self.arr('mu'), self.arr('sigma'), self.o, lo, hi, self.nint)
        if metric == 'variance':
            if self.cls == 'VerifyEnsemble':
                return self.S('ens_variance', self.arr('f'), self.ens)
            if self.cls == 'VerifyProbGammaHurdle':
                lo, hi = self.lohi()
                return self.S('hurdle_variance', self.arr('pop'), self.arr('mu'), self.arr('sigma'), lo, hi, self.nint)
            return self.S('prob_variance', self.arr('sigma'))
        raise KeyError(metric)

    def boot_settings(self):
        return self.once('boot', lambda: fcall(self.C, 'spec.metrics', 'settings', []).term.args)

    def agg(self, x):
        if self.boot is None:
            return self.S('avg', x, self.axis, self.skip)
        R, c = self.boot_settings()
        return self.S('boot', x, self.axis, self.boot, R, c, self.skip)

    def want(self, metric, **kw):
        if metric in ('error', 'sq_error', 'ab_error', 'spread', 'brier', 'crps'):
            return self.agg(self.element(metric, **kw))
        if metric == 'rmse':
            return self.S('root', self.agg(self.element('sq_error')))
        if metric == 'variance':
            return self.element('variance')
        if metric == 'f_determ':
            return self.F()
        if metric in ('cdf', 'sharpness'):
            return self.P(**kw)
        if metric == 'prob_to_ens':
            return self.members_()
        if metric == 'corr':
            if self.boot is None:
                return self.S('pearson', self.F(), self.o, self.axis, self.skip)
            R, c = self.boot_settings()
            return self.S('pearson_boot', self.F(), self.o, self.axis, self.boot, R, c, self.skip)
        if metric == 'iou_determ':
            return self.S('iou_determ', self.F(), self.o, self.axis, kw.get('over'), kw.get('below'))
        if metric == 'iou_prob':
            ov, be = kw.get('over', (None, None)), kw.get('below', (None, None))
            return self.S('iou_prob', self.P(over=ov[0], below=be[0]), self.o, self.axis, ov[0], be[0], ov[1], be[1])
        if metric == 'roc':
            return self.S('roc', self.P(**kw), self.o, kw.get('over'), kw.get('below'), self.skip)
        if metric == 'binned_spread_skill':
            v, q = self.element('variance'), self.element('sq_error')
            if self.boot is None:
                return self.S('spread_skill', v, q, self.axis, kw['nbins'], self.skip)
            R, c = self.boot_settings()
            return self.S('spread_skill_boot', v, q, self.axis, kw['nbins'], self.boot, R, c, self.skip)
        if metric == 'reliability':
            p, e = self.P(over=kw.get('over'), below=kw.get('below')), self.S('event', self.o, kw.get('over'), kw.get('below'))
            if self.boot is None:
                return self.S('reliability', p, e, kw['nbins'], self.axis)
            R, c = self.boot_settings()
            return self.S('reliability_boot', p, e, kw['nbins'], self.axis, self.boot, R, c, self.skip)
        if metric == 'brier_decomp':
            p, e = self.P(**kw), self.S('event', self.o, kw.get('over'), kw.get('below'))
            if self.boot is None:
                return self.S('brier_decomp', p, e, self.axis, self.skip)
            R, c = self.boot_settings()
            return self.S('brier_decomp_boot', p, e, self.axis, self.boot, R, c, self.skip)
        if metric == 'rank_hist':
            if self.cls == 'VerifyEnsemble':
                return self.S('rank_hist', self.arr('f'), self.o, self.ens, self.skip)
            if self.members is not None:
                return self.S('rank_hist', self.members_(), self.o, self.ens, self.skip)
            return self.want('pit')
        if metric == 'pit':
            return self.S('pit', self.P(below=self.o), self.o, self.ctor.get('pit_randomize_zero_ranks', True))
        raise KeyError(metric)

    # ------------------------------------------------------------ actual
    def got(self, metric, **kw):
        r = self.s.run(metric, **kw)
        return value(r, '%s.%s(%s)' % (self.cls, metric, ', '.join('%s=%s' % (k, show_arg(v)) for k, v in kw.items())))

    def agree(self, metric, **kw):
        a = self.got(metric, **kw)
        return require_equal(a, self.want(metric, **kw), '%s.%s on rank %d, avg_axis=%s, skip_nan=%s%s does not have the specified value' % (
            self.cls, metric, self.rank, self.axis, self.skip, ', bootstrapped' if self.boot is not None else ''), where=anchor(self.C, self.cls, metric))


def is_array(t):
    return callable(t) and not isinstance(t, (Value, T)) or isinstance(t, T) and bool(dims(t))


def show_arg(v):
    return show(v) if isinstance(v, T) else str(v)


def anchor(C, cls, meth):
    """file:line of the definition of a public method (for reports)"""
    import ast
    for mod in ('PyAnEn.' + cls, 'PyAnEn.VerifyProb', 'PyAnEn.Verify'):
        tree = C.W.trees.get(mod)
        if tree is None:
            continue
        for want in ('_' + meth, meth):
            for node in ast.walk(tree):
                if isinstance(node, ast.FunctionDef) and node.name == want:
                    if mod == 'PyAnEn.Verify' and want.startswith('_') and cls != 'Verify':
                        continue
                    return '%s:%d (%s)' % (C.W.paths[mod], node.lineno, node.name)
    return None


def ctag(rank, axis, **kw):
    return ' '.join(['rank=%d' % rank, 'axis=%s' % (axis,)] + ['%s=%s' % i for i in kw.items()])


METRICS = {
    'VerifyDeterm': ['error', 'sq_error', 'ab_error', 'rmse'],
    'VerifyEnsemble': ['error', 'sq_error', 'ab_error', 'rmse', 'spread', 'crps'],
    'VerifyProbGaussian': ['error', 'sq_error', 'ab_error', 'rmse', 'crps'],
    'VerifyProbGamma': ['error', 'sq_error', 'ab_error', 'rmse', 'crps'],
    'VerifyProbGammaHurdle': ['error', 'sq_error', 'ab_error', 'rmse', 'crps'],
}


# ---------------------------------------------------------------- saving
WD = strcat([const('/w/'), tm.sym('wd', 'str')])     # any non-empty name
EMPTY = dict(exists=lambda I, p: FALSE)        # nothing saved before
KM = isym('K')


def catalog(cls, members=False):
    """(method, arguments) of every metric a verifier type supports"""
    for m in METRICS[cls] + ['f_determ', 'corr']:
        yield m, {}
    for k in (dict(over=T0), dict(below=T0)):
        yield 'iou_determ', k
    if cls == 'VerifyDeterm':
        return
    yield 'variance', {}
    for k in (dict(over=T0), dict(below=T0)):
        for m in ('cdf', 'sharpness', 'brier', 'roc', 'brier_decomp'):
            yield m, k
        yield 'reliability', dict(k, nbins=NB)
    yield 'binned_spread_skill', dict(nbins=NB)
    yield 'iou_prob', dict(over=(T0, PT), below=(None, None))
    yield 'iou_prob', dict(below=(T0, PT), over=(None, None))
    if cls == 'VerifyEnsemble':
        yield 'rank_hist', {}
    else:
        if members:
            yield 'prob_to_ens', {}
            yield 'spread', {}
        yield 'rank_hist', {}
        yield 'pit', {}


def mtag(m, kw):
    return '%s(%s)' % (m, ', '.join('%s=%s' % (k, show_arg(v) if not isinstance(v, tuple) else '(%s)' % ', '.join(map(show_arg, v))) for k, v in sorted(kw.items())))


def variants(tier):
    """(class, constructor settings of Case) for the effect properties"""
    for cls in CLASSES:
        yield cls, {}
        yield cls, dict(boot=N)
        if cls == 'VerifyEnsemble':
            yield cls, dict(ens=0, skip=True)
            yield cls, dict(env_=dict(ens_to_prob_method='kde'))
            yield cls, dict(env_=dict(split_crps_ensemble_along_0='True'), ens=0)
        if cls in PROB[:2]:
            yield cls, dict(members=KM, trunc=True)
            yield cls, dict(members=KM, ens=0, skip=True)
            yield cls, dict(members=KM, clip_member_to_zero=fsym('clip'))
            yield cls, dict(env_=dict(tqdm_workers='4'), members=KM)
        if cls == 'VerifyProbGammaHurdle':
            yield cls, dict(integration_range=(fsym('lo'), fsym('hi')), n_approx_bins=isym('bins'))
            yield cls, dict(env_=dict(tqdm_workers='4'))
            yield cls, dict(env_=dict(integrate_with_less_memory='True'))


def vtag(cls, v):
    return cls + (' ' + ' '.join('%s=%s' % (k, show_arg(x)) for k, x in sorted(v.items())) if v else '')


def can(cls, v, m):
    if m == 'crps' and cls == 'VerifyProbGamma' and v.get('trunc'):
        return False
    return True


def saved(S):
    """final contents of the files written so far: path -> data"""
    out = {}
    for k, st in S.res.items():
        if isinstance(k, tuple) and k[0] == 'fs' and isinstance(st, tuple) and st[0] == 'data':
            out[k[1]] = st[1]
    return out
