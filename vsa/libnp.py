"""Models of numpy / scipy / sklearn / pandas / properscoring calls."""
import ast
import math
from fractions import Fraction
from .arr import *
from . import arr as _arr
from . import terms as tm
from .interp import *
from .lib import strcat, tostr, seqcat

for _b in ('scatter', 'dictmap', 'anyof'):
    tm.BINDERS.add(_b)

ALIAS = {'numpy.amax': 'numpy.max', 'numpy.amin': 'numpy.min', 'numpy.absolute': 'numpy.abs', 'numpy.fabs': 'numpy.abs',
         'numpy.true_divide': 'numpy.divide', 'numpy.row_stack': 'numpy.vstack', 'numpy.random.random_sample': 'numpy.random.random',
         'numpy.bitwise_and': 'numpy.logical_and', 'numpy.bitwise_or': 'numpy.logical_or', 'numpy.invert': 'numpy.logical_not',
         'numpy.bitwise_not': 'numpy.logical_not', 'numpy.bitwise_xor': 'numpy.logical_xor', 'numpy.float_power': 'numpy.power',
         'numpy.conjugate': 'numpy.positive', 'tqdm.auto.tqdm': 'tqdm.tqdm', 'tqdm.notebook.tqdm': 'tqdm.tqdm', 'tqdm.std.tqdm': 'tqdm.tqdm',
         'tqdm.auto.trange': 'tqdm.trange', 'numpy.asfarray': 'numpy.asarray', 'numpy.asanyarray': 'numpy.asarray',
         'numpy.ascontiguousarray': 'numpy.asarray', 'math.sqrt': 'numpy.sqrt', 'math.exp': 'numpy.exp', 'math.log': 'numpy.log',
         'math.fabs': 'numpy.abs', 'math.floor': 'numpy.floor', 'math.ceil': 'numpy.ceil', 'math.isnan': 'numpy.isnan', 'math.prod': 'numpy.prod',
         'math.pi': 'numpy.pi', 'math.e': 'numpy.e', 'math.inf': 'numpy.inf', 'math.nan': 'numpy.nan', 'math.pow': 'numpy.power',
         'numpy.NaN': 'numpy.nan', 'numpy.acos': 'numpy.arccos', 'scipy.stats.stats.rankdata': 'scipy.stats.rankdata',
         'setuptools._distutils.util.strtobool': 'distutils.util.strtobool', 'math.fsum': 'builtins.sum', 'math.gamma': 'scipy.special.gamma',
         'math.lgamma': 'scipy.special.gammaln', 'properscoring._crps.crps_ensemble': 'properscoring.crps_ensemble'}

SIG = {}


def sig(names, spec):
    for n in names.split():
        SIG['numpy.' + n if '.' not in n else n] = spec.split()


sig('mean nanmean sum nansum var nanvar std nanstd prod nanprod', 'a axis dtype out keepdims')
SIG['numpy.var'] = SIG['numpy.nanvar'] = SIG['numpy.std'] = SIG['numpy.nanstd'] = 'a axis dtype out ddof keepdims'.split()
sig('max nanmax min nanmin any all ptp median nanmedian', 'a axis out keepdims')
sig('argmax argmin nanargmax nanargmin', 'a axis out')
sig('count_nonzero', 'a axis keepdims')
sig('average', 'a axis weights returned')
sig('abs sqrt exp log isnan square sign floor ceil isfinite isinf log1p expm1 sin cos tan rint log2 log10 tanh arctanh negative positive reciprocal logical_not cbrt degrees radians arccos arcsin arctan', 'x out')
sig('add subtract multiply divide power mod floor_divide maximum minimum fmax fmin logical_and logical_or logical_xor greater greater_equal less less_equal equal not_equal hypot copysign arctan2', 'x1 x2 out')
sig('where', 'condition x y')
sig('clip', 'a a_min a_max out')
sig('array', 'object dtype copy')
sig('asarray', 'a dtype')
sig('copy', 'a order')
sig('full', 'shape fill_value dtype')
sig('full_like', 'a fill_value dtype')
sig('zeros ones empty', 'shape dtype')
sig('zeros_like ones_like empty_like', 'a dtype')
sig('linspace', 'start stop num endpoint')
sig('arange', 'start stop step dtype')
sig('moveaxis', 'a source destination')
sig('rollaxis', 'a axis start')
sig('transpose', 'a axes')
sig('swapaxes', 'a axis1 axis2')
sig('reshape', 'a shape order')
sig('ravel', 'a order')
sig('squeeze', 'a axis')
sig('expand_dims', 'a axis')
sig('concatenate', 'arrays axis')
sig('stack', 'arrays axis')
sig('vstack hstack dstack column_stack', 'arrays')
sig('append', 'arr values axis')
sig('split array_split', 'ary indices_or_sections axis')
sig('delete', 'arr obj axis')
sig('insert', 'arr obj values axis')
sig('take', 'a indices axis')
sig('take_along_axis', 'arr indices axis')
sig('apply_along_axis', 'func1d axis arr')
sig('sort argsort', 'a axis kind')
sig('partition argpartition', 'a kth axis')
sig('unique', 'ar')
sig('digitize', 'x bins right')
sig('searchsorted', 'a v side sorter')
sig('bincount', 'x weights minlength')
sig('histogram', 'a bins range density weights')
sig('quantile nanquantile percentile nanpercentile', 'a q axis out overwrite_input method')
sig('corrcoef', 'x y')
sig('cov', 'm y')
sig('diff', 'a n axis')
sig('cumsum cumprod', 'a axis')
sig('nonzero flatnonzero', 'a')
sig('broadcast_to', 'array shape')
sig('tile', 'A reps')
sig('repeat', 'a repeats axis')
sig('shape ndim size', 'a')
sig('atleast_1d atleast_2d', 'a')
sig('flip', 'm axis')
sig('fliplr flipud', 'm')
sig('roll', 'a shift axis')
sig('trapz trapezoid', 'y x dx axis')
sig('interp', 'x xp fp')
sig('isclose allclose', 'a b rtol atol')
sig('array_equal', 'a1 a2')
sig('dot matmul', 'a b')
sig('round', 'a decimals')
sig('nan_to_num', 'x copy nan')
sig('isin in1d', 'element test_elements')
sig('setdiff1d', 'ar1 ar2')
sig('outer', 'a b')
sig('sum_', 'a')
sig('copyto', 'dst src')
sig('put', 'a ind v')
sig('fill_diagonal', 'a val')
sig('meshgrid', 'x y')
sig('isscalar', 'x')
sig('seterr errstate', '')
sig('memmap', 'filename dtype mode offset shape order')
sig('float64 float32 int64 int32 intp', 'x')
sig('bool_', 'x')
sig('random.choice', '')
SIG['numpy.random.choice'] = 'a size replace p'.split()
SIG['numpy.random.randint'] = 'low high size dtype'.split()
SIG['numpy.random.random'] = ['size']
SIG['numpy.random.normal'] = 'loc scale size'.split()
SIG['numpy.random.uniform'] = 'low high size'.split()
SIG['numpy.random.gamma'] = 'shape scale size'.split()
SIG['numpy.random.permutation'] = ['x']
SIG['numpy.random.shuffle'] = ['x']
SIG['numpy.random.seed'] = ['seed']
SIG['numpy.random.default_rng'] = ['seed']
SIG['numpy.random.RandomState'] = ['seed']
SIG['scipy.stats.rankdata'] = 'a method axis nan_policy'.split()
SIG['scipy.stats.pearsonr'] = 'x y'.split()
SIG['scipy.stats.spearmanr'] = 'a b'.split()
for _n, _s in dict(gamma='x', gammaln='x', loggamma='x', erf='x', erfc='x', ndtr='x', ndtri='x', gammainc='a x', gammaincc='a x', gammaincinv='a y',
                   xlogy='x y', beta='a b', betaln='a b', digamma='x', psi='x', logit='x', expit='x').items():
    SIG['scipy.special.' + _n] = _s.split()
SIG['sklearn.metrics.roc_curve'] = 'y_true y_score'.split()
SIG['sklearn.metrics.auc'] = 'x y'.split()
SIG['sklearn.metrics.roc_auc_score'] = 'y_true y_score'.split()
SIG['pandas.value_counts'] = ['values']
SIG['properscoring.crps_ensemble'] = 'observations forecasts weights issorted axis'.split()
SIG['tensorflow.math.igamma'] = 'a x'.split()
SIG['tensorflow.math.lbeta'] = ['x']
SIG['tensorflow.stack'] = 'values axis'.split()
SIG['properscoring.crps_gaussian'] = 'x mu sig grad'.split()
SIG['distutils.util.strtobool'] = ['val']

FAM = {'norm': [], 'gamma': ['a'], 'truncnorm': ['a', 'b'], 'uniform': [], 't': ['df'], 'expon': [], 'beta': ['a', 'b'], 'lognorm': ['s'],
       'weibull_min': ['c'], 'chi2': ['df']}
XM = {'cdf': 'x', 'sf': 'x', 'pdf': 'x', 'logpdf': 'x', 'logcdf': 'x', 'logsf': 'x', 'ppf': 'q', 'isf': 'q'}

# attributes that do not exist in the installed numpy
GONE = {'numpy.' + x for x in ('float', 'int', 'object', 'str', 'complex', 'float_', 'NaN', 'Inf', 'product', 'cumproduct', 'alltrue', 'sometrue')}


def sum_terms(xs):
    r = ZERO
    for x in xs:
        r = add(r, x)
    return r


class Tracked(dict):
    """arguments of a library call, remembering which of them its model looked at"""

    def __init__(self, d):
        dict.__init__(self, d)
        self.used = set()

    def __getitem__(self, k):
        self.used.add(k)
        return dict.__getitem__(self, k)

    def get(self, k, *a):
        self.used.add(k)
        return dict.get(self, k, *a)

    def pop(self, k, *a):
        self.used.add(k)
        return dict.pop(self, k, *a)

    def __contains__(self, k):
        self.used.add(k)
        return dict.__contains__(self, k)

    def items(self):
        self.used.update(dict.keys(self))
        return dict.items(self)


class Np:
    def __init__(self, lib):
        self.lib = lib

    # ---------------------------------------------------------- helpers
    def viewof(self, I, v, f, may=False):
        t = I.read(v)
        r = f(t)
        if not isinstance(v, Ref) or I.cell(v).kind not in ('arr', 'view') or dims(r) == ():
            return I.fresh(r)
        if r is t:
            return v
        tmp = tm.tmpsym('v', 'ndarray', dims(t))
        p = subst(f(tmp), {tmp: HOLE})
        return I.new(Cell('view', None, base=v.loc, path=p, may=may))

    def arr_t(self, t):
        """term of np.asarray(t)"""
        if t.op in ('list', 'tuple', 'map', 'perm', 'cat', 'fmap', 'flatmap', 'append'):
            return self.mkarr(t)
        if t.op == 'range':
            return T('call', 'numpy.arange', (('start', t.args[0]), ('stop', t.args[1]))) if t.args[2] is ONE else T('arr', t)
        if t.op == 'totuple' or t.op == 'tolist':
            return self.arr_t(t.args[0])
        if t.op == 'ite' and kind(t) in ('list', 'tuple', 'any'):
            return ite(t.args[0], self.arr_t(t.args[1]), self.arr_t(t.args[2]))
        return t

    def mkarr(self, t):
        if t.op == 'flatmap':
            d = adims(t)
            if d is not None:
                w = self.mkarr(tm.rebuild('map', t.args))
                if dims(w) is not None:
                    return reshape(w, list(d))
        if t.op == 'map':
            w = self.vec_stack(t)
            if w is not None:
                return w
        if t.op == 'list' and t.args and all(x.op == 'getitem' for x in t.args):
            # [x[0], x[1], ...] covering the whole of x
            x0 = t.args[0].args[0]
            d = dims(x0)
            if d and is_int(d[0]) and cval(d[0]) == len(t.args) and all(x.args[0] is x0 and x.args[1] is const(j) for j, x in enumerate(t.args)):
                return x0
        return T('arr', t)

    def asint(self, t):
        if t.op == 'call' and t.args[0] == 'int' and kind(dict(t.args[1])['x']) == 'int':
            return dict(t.args[1])['x']
        return t

    def to_int(self, I, t):
        if t.op == 'ite':
            return ite(t.args[0], self.to_int(I, t.args[1]), self.to_int(I, t.args[2]))
        if is_const(t):
            v = cval(t)
            if isinstance(v, str):
                try:
                    return const(int(v))
                except ValueError:
                    I.raise_leaf('ValueError', 'int(%r)' % v)
            if v is None:
                I.raise_leaf('TypeError')
            return const(int(v))
        if kind(t) == 'int':
            return t
        if t.op == 'tostr' and kind(t.args[0]) == 'int':
            return t.args[0]
        if t.op == 'call' and t.args[0] in ('numpy.astype',):
            return self.to_int(I, dict(t.args[1])['x'])
        return T('call', 'int', (('x', t),))

    def to_float(self, I, t):
        if t.op == 'ite':
            return ite(t.args[0], self.to_float(I, t.args[1]), self.to_float(I, t.args[2]))
        if is_const(t):
            v = cval(t)
            if isinstance(v, str):
                try:
                    return const(float(v))
                except ValueError:
                    I.raise_leaf('ValueError', 'float(%r)' % v)
            if v is None:
                I.raise_leaf('TypeError')
            return const(v if not isinstance(v, bool) else int(v))
        if kind(t) in ('float', 'num', 'int'):
            return t
        if t.op == 'tostr' and kind(t.args[0]) in ('float', 'num', 'int'):
            return t.args[0]
        return T('call', 'float', (('x', t),))

    def full_of(self, t):
        if t.op == 'call' and t.args[0] == 'numpy.full':
            k = dict(t.args[1])
            if dims(k['fill_value']) == ():
                return k['fill_value']
        if t.op == 'lay':
            return self.full_of(t.args[0])
        if t.op == 'getitem' and self.full_of(t.args[0]) is not None:
            return self.full_of(t.args[0])
        return None

    def defull(self, ts):
        ds = [dims(t) for t in ts]
        if any(d is None for d in ds):
            return list(ts)
        whole = bcast(ds)
        out = list(ts)
        for j, t in enumerate(out):
            v = self.full_of(t)
            if v is not None:
                rest = bcast([dims(x) for i, x in enumerate(out) if i != j])
                if rest is not None and rest == whole:
                    out[j] = v
        return out

    def defull2(self, a, b):
        if a.op in ('call', 'lay', 'getitem') or b.op in ('call', 'lay', 'getitem'):
            return self.defull([a, b])
        return a, b

    def boolop(self, nm, a, b):
        neutral, absorb = (TRUE, FALSE) if nm == 'band' else (FALSE, TRUE)
        if nm != 'bxor':
            for x, y in ((a, b), (b, a)):
                v = full_fill(x)
                if v is neutral and bcast([dims(a), dims(b)]) == dims(y):
                    return y
                if v is absorb and bcast([dims(a), dims(b)]) == dims(x):
                    return x
            if a is neutral:
                return b
            if b is neutral:
                return a
            if a is b:
                return a
            l = list(a.args) if a.op == nm else [a]
            l += list(b.args) if b.op == nm else [b]
            u = []
            for x in l:
                if x not in u:
                    u.append(x)
            return T(nm, *sorted(u, key=lambda x: x.k))
        return T(nm, *sorted((a, b), key=lambda x: x.k))

    def binv(self, t):
        if t.op == 'binv':
            return t.args[0]
        v = full_fill(t)
        if v is TRUE or v is FALSE:
            return mkfull(not_(v), dims(t))
        if t is TRUE or t is FALSE or (kind(t) == 'bool' and t.op in ('not', 'and', 'or')):
            return not_(t)
        if t.op == 'eq':
            return cmp_('ne', *t.args)
        if t.op == 'ne':
            return cmp_('eq', *t.args)
        if t.op == 'bor':
            r = [self.binv(x) for x in t.args]
            o = r[0]
            for x in r[1:]:
                o = self.boolop('band', o, x)
            return o
        if t.op == 'band':
            r = [self.binv(x) for x in t.args]
            o = r[0]
            for x in r[1:]:
                o = self.boolop('bor', o, x)
            return o
        if t.op == 'lay':
            return mk_lay(self.binv(t.args[0]), t.args[1], t.args[2])
        if t.op == 'ite':
            return ite(t.args[0], self.binv(t.args[1]), self.binv(t.args[2]))
        return T('binv', t)

    def cmpn(self, op, a, b):
        a, b = self.arr_t(a) if kind(b) == 'ndarray' else a, self.arr_t(b) if kind(a) == 'ndarray' else b
        a, b = self.defull2(a, b)
        fa, fb = full_fill(a), full_fill(b)
        if (fa is not None or fb is not None) and all(f is not None or dims(x) == () for f, x in ((fa, a), (fb, b))):
            d = bcast([dims(a), dims(b)])
            if d:
                return mkfull(self.cmpn(op, a if fa is None else fa, b if fb is None else fb), d)
        if op == 'gt':
            op, a, b = 'lt', b, a
        elif op == 'ge':
            op, a, b = 'le', b, a
        if a.op == 'ite' and is_const(b) and kind(a) in ('int', 'float', 'num'):
            return ite(a.args[0], self.cmpn(op, a.args[1], b), self.cmpn(op, a.args[2], b))
        if b.op == 'ite' and is_const(a) and kind(b) in ('int', 'float', 'num'):
            return ite(b.args[0], self.cmpn(op, a, b.args[1]), self.cmpn(op, a, b.args[2]))
        if kind(a) == 'ndarray' or kind(b) == 'ndarray':
            return lift_lay(T(op, a, b) if op in ('lt', 'le') and count_cmp(op, a, b) is None else cmp_(op, a, b))
        return cmp_(op, a, b)

    def ew(self, q, t):
        """elementwise numpy function of one argument"""
        n = q.split('.')[-1]
        if n == 'sqrt':
            return lift_lay(power(t, Fraction(1, 2)))
        if n == 'square':
            return lift_lay(power(t, 2))
        if n == 'negative':
            return lift_lay(neg(t))
        if n == 'positive':
            return t
        if n == 'reciprocal':
            return lift_lay(power(t, -1))
        v = full_fill(t)
        if v is not None and n not in ('isnan', 'isfinite', 'isinf') and dims(v) == ():
            return mkfull(self.ew(q, v), dims(t))
        if n == 'logical_not':
            return self.binv(t)
        if n == 'abs':
            if is_num(t):
                return const(abs(cval(t)))
            return lift_lay(T('call', 'numpy.abs', (('x', self.possign(t)),)))
        if t.op == 'ite' and kind(t) == 'ndarray' or t.op == 'ite' and n in ('isnan', 'isfinite'):
            return ite(t.args[0], self.ew(q, t.args[1]), self.ew(q, t.args[2]))
        if n == 'isnan':
            if is_boolish(t) or is_num(t):
                return FALSE if dims(t) == () else T('call', 'numpy.full', (('fill_value', FALSE), ('shape', T('tuple', *dims(t))))) if dims(t) else T('call', q, (('x', t),))
            w = self.isnan_parts(t)
            if w is not None:
                return w
        if n == 'floor' and kind(t) == 'int':
            return t
        if n == 'log' and t.op == 'call' and t.args[0] == 'scipy.special.gamma' and all(is_num(v) for k, v in t.args[1]):
            return T('call', 'scipy.special.gammaln', t.args[1])
        if n in ('loggamma',):
            return T('call', 'scipy.special.gammaln', (('x', t),))
        if n == 'exp' and t is ZERO:
            return ONE
        if n == 'log' and t is ONE:
            return ZERO
        if n == 'round':
            return lift_lay(T('call', 'numpy.round', (('a', t),)))
        return lift_lay(T('call', q, (('x', t),)))

    def isnan_parts(self, t):
        """missing values propagate through sums and products (overflow and infinities aside)"""
        d = dims(t)
        if not d:
            return None
        if t.op == 'call' and t.args[0] in ('numpy.sum', 'numpy.max', 'numpy.min', 'numpy.prod', 'numpy.var') and set(a for a, v in t.args[1]) == {'a', 'axis'}:
            k = dict(t.args[1])
            return self.red_t('numpy.any', self.ew('numpy.isnan', k['a']), k['axis'])
        if t.op == 'poly':
            at = []
            for m, _c in t.args[0]:
                for x, e in m:
                    if dims(x) is None or dims(x) and e < 0:
                        return None
                    if dims(x) and x not in at:
                        at.append(x)
            if not at or at == [t]:
                return None
            o = self.ew('numpy.isnan', at[0])
            for x in at[1:]:
                o = self.boolop('bor', o, self.ew('numpy.isnan', x))
            return o if dims(o) == d else None
        return None

    def possign(self, t):
        if t.op == 'poly' and t.args[0][0][1] < 0:
            return neg(t)
        if t.op == 'call' and t.args[0] == 'numpy.abs':
            return dict(t.args[1])['x']
        return t

    # ---------------------------------------------------------- reductions
    PERMINV = {'numpy.mean', 'numpy.nanmean', 'numpy.sum', 'numpy.nansum', 'numpy.max', 'numpy.nanmax', 'numpy.min', 'numpy.nanmin', 'numpy.var',
               'numpy.nanvar', 'numpy.median', 'numpy.nanmedian', 'numpy.any', 'numpy.all', 'numpy.prod', 'numpy.count_nonzero'}

    def red_t(self, q, a, axis, extra=()):
        extra = tuple(sorted(extra))
        a = self.arr_t(a)
        ex = dict(extra)
        if a.op == 'ite':
            return ite(a.args[0], self.red_t(q, a.args[1], axis, extra), self.red_t(q, a.args[2], axis, extra))
        r = rank(a)
        ax = norm_axis(axis, r)
        if a.op == 'arr' and a.args[0].op == 'perm' and q in self.PERMINV and (ax is None or ax == (0,)):
            a = T('arr', a.args[0].args[0])
        if q in ('numpy.std', 'numpy.nanstd'):
            return power(self.red_t(q.replace('std', 'var'), a, axis, extra), Fraction(1, 2))
        if q == 'numpy.ptp':
            return sub(self.red_t('numpy.max', a, axis, extra), self.red_t('numpy.min', a, axis, extra))
        if q == 'numpy.nansum' and is_boolish(a):
            q = 'numpy.sum'
        if q == 'numpy.count_nonzero':
            if is_boolish(a):
                q = 'numpy.sum'
            elif kind(a) == 'ndarray':
                a = T('ne', *sorted((a, ZERO), key=lambda x: x.k))
                q = 'numpy.sum'
        if ex.get('keepdims') is FALSE:
            ex.pop('keepdims')
            extra = tuple(sorted(ex.items()))
        if ex.get('keepdims') is TRUE and r is not None and ax != 'unk':
            ex.pop('keepdims')
            y = self.red_t(q, a, axis, tuple(sorted(ex.items())))
            for p in (range(r) if ax is None else ax):
                if dims(y) is None:
                    return T('call', q, (('a', a), ('axis', axis)) + extra)
                y = expand_at(y, p)
            return y
        if r == 0 and q in ('numpy.sum', 'numpy.mean', 'numpy.max', 'numpy.min', 'numpy.nanmean', 'numpy.nansum') and axis is NONE and kind(a) != 'any':
            return a
        if ax != 'unk' and r is not None and not ex:
            d = dims(a)
            if q == 'numpy.mean':
                n = prod(d if ax is None else [d[p] for p in ax if p < r])
                if not (is_int(n) and cval(n) == 0):
                    s = self.red_t('numpy.sum', a, axis)
                    return lift_lay(div(s, n))
            if q in ('numpy.prod',) and a.op == 'arr' and a.args[0].op in ('list', 'tuple') and r == 1:
                return prod(a.args[0].args)
            if q in ('numpy.max', 'numpy.min') and a.op == 'arr' and a.args[0].op in ('list', 'tuple') and r == 1:
                o = a.args[0].args[0]
                for x in a.args[0].args[1:]:
                    o = (max2 if q == 'numpy.max' else min2)(o, x)
                return o
            if q == 'numpy.sum':
                fv = self.full_of(a)
                if fv is not None:
                    n = prod(d if ax is None else [d[p] for p in ax])
                    rest = [] if ax is None else [d[p] for p in range(r) if p not in ax]
                    s = mul(fv, n)
                    return s if not rest else T('call', 'numpy.full', (('fill_value', s), ('shape', T('tuple', *rest))))
                if (ax == (0,) or (ax is None and r == 1)) and not (is_int(d[0]) and cval(d[0]) <= 0):
                    if contains(a, lambda z: z.op == 'arr' and (z.args[0].op == 'map' or z.args[0].op == 'list' and is_int(d[0]) and cval(d[0]) <= 12)) and not is_boolish(a):
                        i = tm.tmpsym('i', 'int', ())
                        e = self.elem0(a, i, d)
                        if e is not None:
                            return bigsum(d[0], e, i)
                # constant factors move out of a sum
                if a.op == 'poly' and len(a.args[0]) == 1:
                    m, c = a.args[0][0]
                    out = [(x, e) for x, e in m if dims(x) == ()]
                    inn = [(x, e) for x, e in m if dims(x) != ()]
                    if (out or c != 1) and inn:
                        core = ONE
                        for x, e in inn:
                            core = mul(core, power(x, e))
                        f = const(c)
                        for x, e in out:
                            f = mul(f, power(x, e))
                        if dims(core) == d:
                            return mul(f, self.red_t(q, core, axis))
        if ax != 'unk' and not ex and a.op == 'poly' and len(a.args[0]) > 1 and q in ('numpy.sum', 'numpy.nansum', 'numpy.nanmean'):
            f, core = self.content(a, q == 'numpy.sum')
            if f is not ONE and dims(core) == dims(a):
                return mul(f, self.red_t(q, core, axis))
        if ax == 'unk':
            return T('call', q, tuple(sorted((('a', a), ('axis', axis)) + extra)))
        return reduce_(q, a, axis, extra)

    def content(self, a, factors=True):
        """(f, core) with a == f * core: the common scalar factor of the terms of a sum, signed so that core starts positive"""
        ms = a.args[0]
        g = 0
        den = 1
        for _m, c in ms:
            g = math.gcd(g, c.numerator)
            den = den * c.denominator // math.gcd(den, c.denominator)
        g = Fraction(g, den)
        if ms[0][1] < 0:
            g = -g
        com = None
        if factors:
            for m, _c in ms:
                e = {x: k for x, k in m if dims(x) == ()}
                com = e if com is None else {x: min(k, e[x]) for x, k in com.items() if x in e}
        f = const(g)
        for x, k in (com or {}).items():
            f = mul(f, power(x, k))
        if f is ONE:
            return ONE, a
        core = ZERO
        for m, c in ms:
            p = const(c / g)
            for x, k in m:
                p = mul(p, power(x, k - (com or {}).get(x, 0)))
            core = add(core, p)
        return f, core

    def elem0(self, t, i, d):
        """element i along axis 0 of an elementwise term with dims d, or None"""
        r = len(d)
        dt = dims(t)
        if dt is None:
            return None
        if len(dt) < r:
            return t
        if dt[0] is ONE and d[0] is not ONE:
            return getitem(t, ZERO)
        if t.op == 'poly':
            out = ZERO
            for m, c in t.args[0]:
                p = const(c)
                for x, e in m:
                    y = self.elem0(x, i, d)
                    if y is None:
                        return None
                    p = mul(p, power(y, e))
                out = add(out, p)
            return npoly(out)
        if t.op in ('psum', 'opow'):
            return self.elem0(t.args[0], i, d)
        if t.op in ('where', 'max2', 'min2'):
            xs = [self.elem0(x, i, d) for x in t.args]
            if any(x is None for x in xs):
                return None
            return tm.rebuild(t.op, tuple(xs))
        if t.op == 'call' and t.args[0] in EW_CALLS:
            ks = [(k, self.elem0(v, i, d)) for k, v in t.args[1]]
            if any(v is None for _, v in ks):
                return None
            return tm.rebuild('call', (t.args[0], tuple(ks)))
        return getitem(t, i)

    def sum_fmap(self, t):
        if t.op == 'fmap':
            n, g, x = t.args
            h = tm.binder_h(t)
            i = tm.tmpsym('i', 'int', ())
            return bigsum(n, ite(inst(g, h, (i,)), inst(x, h, (i,)), ZERO), i)
        return T('call', 'sum', (('a', t),))

    # ---------------------------------------------------------- layouts
    def perm_t(self, t, perm):
        if t.op == 'call' and t.args[0] == 'numpy.concatenate':
            k = dict(t.args[1])
            if k['arrays'].op == 'list' and is_int(k['axis']):
                return self.concat([self.perm_t(x, perm) for x in k['arrays'].args], perm.index(cval(k['axis'])))
        if t.op == 'ite':
            return ite(t.args[0], self.perm_t(t.args[1], perm), self.perm_t(t.args[2], perm))
        if dims(t) is None:
            return T('call', 'numpy.transpose', (('a', t), ('axes', T('tuple', *[const(p) for p in perm]))))
        return transpose(t, perm)

    def moveaxis_t(self, I, t, src, dst):
        r = rank(t)
        if t.op == 'ite' and r is None:
            return ite(t.args[0], self.moveaxis_t(I, t.args[1], src, dst), self.moveaxis_t(I, t.args[2], src, dst))

        def aslist(x):
            if is_int(x):
                return [cval(x)]
            if x.op in ('tuple', 'list') and all(is_int(y) for y in x.args):
                return [cval(y) for y in x.args]
            if x.op == 'range' and all(is_int(y) for y in x.args):
                return list(range(*(cval(y) for y in x.args)))
            if x.op in ('arr', 'totuple', 'tolist'):
                return aslist(x.args[0])
            return None
        s, d = aslist(src), aslist(dst)
        if r is None or s is None or d is None:
            return T('call', 'numpy.moveaxis', (('a', t), ('destination', dst), ('source', src)))
        if any(not -r <= x < r for x in s + d) or len(s) != len(d):
            I.raise_leaf('AxisError')
        s = [x % r for x in s]
        d = [x % r for x in d]
        order = [n for n in range(r) if n not in s]
        for dd, ss in sorted(zip(d, s)):
            order.insert(dd, ss)
        return self.perm_t(t, order)

    def reshape_t(self, I, t, shape, order=NONE):
        sh = shape_arg(shape)
        if t.op == 'ite':
            return ite(t.args[0], self.reshape_t(I, t.args[1], shape, order), self.reshape_t(I, t.args[2], shape, order))
        if order is not NONE and is_strc(order) and cval(order) == 'F' and sh is not None and rank(t) is not None:
            r = self.reshape_t(I, self.perm_t(t, list(range(rank(t)))[::-1]), T('tuple', *sh[::-1]))
            if rank(r) == len(sh):
                return self.perm_t(r, list(range(len(sh)))[::-1])
        if sh is None or (order is not NONE and not (is_strc(order) and cval(order) == 'C')):
            return T('call', 'numpy.reshape', tuple(sorted((('a', t), ('shape', shape)) + ((('order', order),) if order is not NONE else ()))))
        if self.full_of(t) is not None and t.op == 'call' and not any(is_int(x) and cval(x) < 0 for x in sh):
            return T('call', 'numpy.full', (('fill_value', self.full_of(t)), ('shape', T('tuple', *sh))))
        r = reshape(t, sh)
        if r is not None:
            return self.unlay(r)
        return T('call', 'numpy.reshape', (('a', t), ('shape', T('tuple', *sh))))

    def unlay(self, t):
        """drop a unit axis made by a length-one slice: x[i:i+1] squeezed is x[i]"""
        if t.op == 'lay' and t.args[0].op == 'getitem':
            y, fact, groups = t.args
            d = dims(y)
            x, idx = y.args
            ii = as_index(idx)
            if d is not None and all(is_basic(i) for i in ii):
                units = [p for p in range(len(d)) if d[p] is ONE]
                nout = sum(1 for g in groups if not g)
                if units and nout == 0 and len(groups) == sum(1 for p in range(len(d)) if d[p] is not ONE):
                    new = []
                    pos = 0
                    ok = True
                    for i in ii:
                        if i.op == 'slice':
                            if d[pos] is ONE:
                                if i.args[0] is NONE:
                                    new.append(ZERO)
                                else:
                                    new.append(i.args[0])
                            else:
                                new.append(i)
                            pos += 1
                        else:
                            new.append(i)
                    if all(p < pos for p in units):
                        z = getitem(x, T('tuple', *new) if len(new) > 1 else new[0])
                        keep = [p for p in range(len(d)) if d[p] is not ONE]
                        f2 = tuple(fact[p] for p in keep)
                        g2 = tuple(tuple((keep.index(a), k) for a, k in g) for g in groups)
                        if dims(z) is not None and len(dims(z)) == len(f2):
                            return mk_lay(z, f2, g2)
        return t

    def concat(self, els, ax):
        out = []
        for e in els:
            if e.op == 'call' and e.args[0] == 'numpy.concatenate' and dict(e.args[1])['axis'] is const(ax) and dict(e.args[1])['arrays'].op == 'list':
                out += list(dict(e.args[1])['arrays'].args)
            else:
                out.append(e)
        if len(out) == 1:
            return out[0]
        return T('call', 'numpy.concatenate', (('arrays', T('list', *out)), ('axis', const(ax))))

    def concatenate_t(self, I, a, axis):
        if a.op in ('list', 'tuple'):
            els = [self.arr_t(x) for x in a.args]
            if not els:
                I.raise_leaf('ValueError')
            rk = [rank(x) for x in els]
            if axis is NONE:
                return self.concat([self.ravel_t(I, x) for x in els], 0)
            if is_int(axis) and rk[0] is not None:
                if not -rk[0] <= cval(axis) < rk[0]:
                    I.raise_leaf('AxisError')
                if any(r is not None and r != rk[0] for r in rk):
                    I.raise_leaf('ValueError', 'concatenate ranks')
                return self.concat(els, cval(axis) % rk[0])
            return T('call', 'numpy.concatenate', (('arrays', T('list', *els)), ('axis', axis)))
        if a.op == 'ite':
            return ite(a.args[0], self.concatenate_t(I, a.args[1], axis), self.concatenate_t(I, a.args[2], axis))
        if a.op == 'map' and is_int(axis):
            w = self.vec_concat(a, cval(axis))
            if w is not None:
                return w
            r = rank(a.args[1])
            if r:
                axis = const(cval(axis) % r)
        return T('call', 'numpy.concatenate', (('arrays', a), ('axis', axis)))

    def ravel_t(self, I, t, order=NONE):
        d = dims(t)
        if order is not NONE and not (is_strc(order) and cval(order) == 'C'):
            return self.reshape_t(I, t, T('tuple', prod(d) if d is not None else const(-1)), order)
        if d is None:
            return T('call', 'numpy.reshape', (('a', t), ('shape', T('tuple', const(-1)))))
        return self.reshape_t(I, t, T('tuple', prod(d)))

    # ---------------------------------------------------------- vectorisation of maps
    POINT = {'properscoring.crps_gaussian'}

    def vec_concat(self, m, axis):
        """np.concatenate([body(X[..., i:i+1, ...]) for i], axis) == body(X) for pointwise bodies"""
        n, body = m.args
        h = tm.binder_h(m)
        i = tm.tmpsym('i', 'int', ())
        b = inst(body, h, (i,))
        d = dims(b)
        if d is None or not d:
            return None
        p = axis - len(d) if axis >= 0 else axis
        if not -len(d) <= p < 0 or d[p] is not ONE:
            return None
        w = self.lift_slice(b, i, n, p)
        if w is None or tm.occurs(i, w):
            return None
        dw = dims(w)
        if dw is None or len(dw) != len(d) or dw[p] is not n:
            return None
        return w

    def vec_stack(self, m):
        n, body = m.args
        h = tm.binder_h(m)
        i = tm.tmpsym('i', 'int', ())
        b = inst(body, h, (i,))
        d = dims(b)
        if d is None:
            return None
        if b.op == 'getitem' and as_index(b.args[1])[0] is i and not tm.occurs(i, b.args[0]):
            x = b.args[0]
            dx = dims(x)
            rest = as_index(b.args[1])[1:]
            if dx is not None and dx[0] is n and not any(tm.occurs(i, r) for r in rest) and all(is_basic(r) for r in rest):
                return getitem(x, T('tuple', FULL, *rest)) if rest else x
        if any(x is ONE for x in d):
            # chunks of length one along some axis: np.array(list) has a unit axis there
            for p in range(-len(d), 0):
                if d[p] is ONE:
                    w = self.lift_slice(b, i, n, p)
                    if w is not None and not tm.occurs(i, w) and dims(w) is not None and len(dims(w)) == len(d) and dims(w)[p] is n:
                        q = p + len(d)
                        order = [q] + [z for z in range(len(d)) if z != q]
                        return expand_at(transpose(w, order), q + 1)
        w = self.lift_scalar(b, i, n, len(d))
        if w is not None and not tm.occurs(i, w) and dims(w) == (n,) + d:
            return w
        return None

    def lift_slice(self, t, i, n, p):
        """whole-array version of t, where t's axis p (from the end) is the length-one chunk axis"""
        if not tm.occurs(i, t) and t.op != 'draw':
            d = dims(t)
            if d is None:
                return None
            if len(d) >= -p and d[p] is ONE and self.full_of(t) is None:
                # a constant along the chunk axis broadcasts
                return t
            if self.full_of(t) is not None and len(d) >= -p:
                dd = list(d)
                if dd[p] is ONE:
                    dd[p] = n
                return T('call', 'numpy.full', (('fill_value', self.full_of(t)), ('shape', T('tuple', *dd))))
            return t if len(d) < -p else None
        d = dims(t)
        if t.op == 'getitem':
            x, idx = t.args
            ii = as_index(idx)
            if tm.occurs(i, x):
                if all(is_basic(z) for z in ii) and not any(tm.occurs(i, z) for z in ii):
                    dx = dims(x)
                    if dx is None:
                        return None
                    # axis of x that becomes axis p of t
                    keep = []
                    q = 0
                    for z in ii:
                        if z.op == 'slice':
                            keep.append((q, z))
                        q += 1
                    keep += [(z, FULL) for z in range(q, len(dx))]
                    if len(keep) < -p:
                        return None
                    q, z = keep[p]
                    if z is not FULL:
                        return None
                    w = self.lift_slice(x, i, n, q - len(dx))
                    return None if w is None else getitem(w, idx)
                return None
            dx = dims(x)
            if dx is None:
                return None
            new = []
            hit = None
            keep = []
            for q, z in enumerate(ii):
                if z.op == 'slice' and z.args[0] is i and z.args[1] is add(i, ONE):
                    if hit is not None:
                        return None
                    hit = q
                    new.append(FULL)
                    keep.append(q)
                elif tm.occurs(i, z):
                    return None
                else:
                    if not is_basic(z):
                        return None
                    new.append(z)
                    if z.op == 'slice':
                        keep.append(q)
            keep += list(range(len(ii), len(dx)))
            if hit is None or len(keep) < -p or keep[p] != hit or dx[hit] is not n:
                return None
            return getitem(x, T('tuple', *new))
        if t.op == 'poly':
            out = ZERO
            for m, c in t.args[0]:
                pr = const(c)
                for x, e in m:
                    y = self.lift_slice(x, i, n, p)
                    if y is None:
                        return None
                    pr = mul(pr, power(y, e))
                out = add(out, pr)
            return out
        if t.op in ('psum', 'opow'):
            return self.lift_slice(t.args[0], i, n, p)
        if t.op in EW_OPS and t.op != 'dist':
            xs = [self.lift_slice(x, i, n, p) for x in t.args]
            return None if any(x is None for x in xs) else tm.rebuild(t.op, tuple(xs))
        if t.op == 'dist':
            ks = [(k, self.lift_slice(v, i, n, p)) for k, v in t.args[2]]
            return None if any(v is None for _, v in ks) else tm.rebuild('dist', (t.args[0], t.args[1], tuple(ks)))
        if t.op == 'ite':
            if tm.occurs(i, t.args[0]):
                return None
            xs = [self.lift_slice(x, i, n, p) for x in t.args[1:]]
            return None if any(x is None for x in xs) else ite(t.args[0], *xs)
        if t.op == 'draw':
            ks = []
            for k, v in t.args[1]:
                if k == 'size':
                    s = shape_arg(v)
                    if s is None or len(s) < -p or s[p] is not ONE:
                        return None
                    s = list(s)
                    s[p] = n
                    ks.append((k, T('tuple', *s)))
                else:
                    y = self.lift_slice(v, i, n, p)
                    if y is None:
                        return None
                    ks.append((k, y))
            return mkdraw(t.args[0], tuple(ks), tuple(x for x in t.args[2] if x is not i), t.args[3])
        if t.op == 'call':
            q = t.args[0]
            k = dict(t.args[1])
            if q in EW_CALLS or q in self.POINT:
                ks = [(a, self.lift_slice(v, i, n, p)) for a, v in t.args[1]]
                return None if any(v is None for _, v in ks) else tm.rebuild('call', (q, tuple(ks)))
            if q in RED and 'keepdims' not in k:
                a = k['a']
                r = rank(a)
                ax = norm_axis(k['axis'], r) if r is not None else 'unk'
                if ax == 'unk' or ax is None:
                    return None
                keep = [z for z in range(r) if z not in ax]
                if len(keep) < -p:
                    return None
                w = self.lift_slice(a, i, n, keep[p] - r)
                if w is None:
                    return None
                return self.red_t(q, w, T('tuple', *[const(z) for z in ax]), tuple((x, y) for x, y in t.args[1] if x not in ('a', 'axis')))
            if q == 'numpy.concatenate' and k['arrays'].op == 'list' and is_int(k['axis']) and d is not None and cval(k['axis']) != len(d) + p:
                xs = [self.lift_slice(x, i, n, p) for x in k['arrays'].args]
                return None if any(x is None for x in xs) else self.concat(xs, cval(k['axis']))
            if q == 'scipy.stats.rankdata' and is_int(k.get('axis', NONE)):
                r = rank(k['a'])
                if r is not None and cval(k['axis']) % r != r + p:
                    w = self.lift_slice(k['a'], i, n, p)
                    if w is not None:
                        k['a'] = w
                        return T('call', q, tuple(sorted(k.items())))
            if q == 'numpy.full' and d is not None and len(d) >= -p and d[p] is ONE:
                v = self.lift_slice(k['fill_value'], i, n, p)
                if v is not None:
                    dd = list(d)
                    dd[p] = n
                    return T('call', q, (('fill_value', v), ('shape', T('tuple', *dd))))
        if t.op == 'lay' and d is not None:
            x, fact, groups = t.args
            if len(groups) >= -p and groups[p] == ():
                for q in range(len(fact)):
                    if fact[q] == ():
                        w = self.lift_slice(x, i, n, q - len(fact))
                        if w is not None and dims(w) is not None and len(dims(w)) == len(fact) and dims(w)[q] is n:
                            f2 = list(fact)
                            f2[q] = (n,)
                            g2 = list(groups)
                            g2[p + len(groups)] = ((q, 0),)
                            return mk_lay(w, tuple(f2), tuple(g2))
        return None

    def lift_scalar(self, t, i, n, r):
        """whole version of t(i) with the index as a new leading axis (t has rank r)"""
        if not tm.occurs(i, t):
            d = dims(t)
            return t if d is not None and len(d) <= r else None
        if t.op == 'getitem':
            x, idx = t.args
            ii = as_index(idx)
            dx = dims(x)
            if x.op == 'draw' and x.args[0] in ITEMWISE and len(ii) == 1 and ii[0] is ZERO and dx is not None and len(dx) == 1 and \
                    all(dims(v) == () for a, v in x.args[1] if a != 'size'):
                # one of several draws
                return self.lift_scalar(mkdraw(x.args[0], tuple((a, v) for a, v in x.args[1] if a != 'size'), x.args[2], x.args[3]), i, n, r)
            if ii and ii[0] is i and not tm.occurs(i, x) and dx is not None and dx[0] is n and all(is_basic(z) for z in ii) and \
                    not any(tm.occurs(i, z) for z in ii[1:]) and rank(t) == r:
                return getitem(x, T('tuple', FULL, *ii[1:])) if len(ii) > 1 else x
            if sum(1 for z in ii if z is i) == 1 and not tm.occurs(i, x) and dx is not None and all(is_basic(z) for z in ii) and rank(t) == r and \
                    sum(1 for z in ii if tm.occurs(i, z)) == 1 and len(ii) <= len(dx):
                p = [z is i for z in ii].index(True)
                if dx[p] is n:
                    w = getitem(x, T('tuple', *[FULL if z is i else z for z in ii]))
                    p2 = sum(1 for z in ii[:p] if not _arr.is_scalar_index(z))
                    if rank(w) == r + 1:
                        return self.perm_t(w, [p2] + [z for z in range(r + 1) if z != p2])
            if tm.occurs(i, x) and rank(t) == r and all(is_basic(z) for z in ii) and not any(tm.occurs(i, z) for z in ii) and dx is not None:
                w = self.lift_scalar(x, i, n, len(dx))
                return None if w is None else getitem(w, T('tuple', FULL, *ii))
            return None
        if t.op == 'draw' and t.args[0] in ITEMWISE and 'rng' not in dict(t.args[1]):
            ks = {}
            for a, v in t.args[1]:
                if a == 'size':
                    continue
                if dims(v) != ():
                    return None
                w = self.lift_scalar(v, i, n, 0)
                if w is None:
                    return None
                ks[a] = expand_tail(w, r) if dims(w) else w
                if ks[a] is None:
                    return None
            d = dims(t)
            if d is None or any(tm.occurs(i, x) for x in d):
                return None
            ks['size'] = T('tuple', n, *d)
            return mkdraw(t.args[0], tuple(sorted(ks.items())), tuple(x for x in t.args[2] if x is not i), t.args[3])
        if t.op == 'lay' and rank(t) == r and not any(tm.occurs(i, y) for fx in t.args[1] for y in fx):
            w = self.lift_scalar(t.args[0], i, n, len(t.args[1]))
            if w is None or rank(w) != len(t.args[1]) + 1:
                return None
            return _arr.mk_lay(w, ((n,),) + t.args[1], (((0, 0),),) + tuple(tuple((a + 1, b) for a, b in g) for g in t.args[2]))
        if t.op == 'poly':
            out = ZERO
            for m, c in t.args[0]:
                pr = const(c)
                for x, e in m:
                    y = self.lift_scalar(x, i, n, r)
                    if y is None:
                        return None
                    pr = mul(pr, power(y, e))
                out = add(out, pr)
            return out
        if t.op in ('psum', 'opow'):
            return self.lift_scalar(t.args[0], i, n, r)
        if t.op in EW_OPS and t.op != 'dist':
            xs = [self.lift_scalar(x, i, n, r) for x in t.args]
            return None if any(x is None for x in xs) else tm.rebuild(t.op, tuple(xs))
        if t.op == 'dist':
            ks = [(k, self.lift_scalar(v, i, n, r)) for k, v in t.args[2]]
            return None if any(v is None for _, v in ks) else tm.rebuild('dist', (t.args[0], t.args[1], tuple(ks)))
        if t.op == 'call':
            q = t.args[0]
            k = dict(t.args[1])
            if q in EW_CALLS or q in self.POINT:
                ks = [(a, self.lift_scalar(v, i, n, r)) for a, v in t.args[1]]
                return None if any(v is None for _, v in ks) else tm.rebuild('call', (q, tuple(ks)))
            if q == 'properscoring.crps_ensemble' and set(k) == {'observations', 'forecasts'}:
                o = self.lift_scalar(k['observations'], i, n, r)
                f = self.lift_scalar(k['forecasts'], i, n, r + 1)
                if o is None or f is None:
                    return None
                return T('call', q, (('forecasts', f), ('observations', o)))
            if q in RED and r >= 0:
                a = k['a']
                ra = rank(a)
                ax = norm_axis(k['axis'], ra) if ra is not None else 'unk'
                if ax == 'unk' or not ra:
                    return None
                ax = tuple(range(ra)) if ax is None else ax
                w = self.lift_scalar(a, i, n, ra)
                if w is None:
                    return None
                return self.red_t(q, w, T('tuple', *[const(z + 1) for z in ax]), tuple((x, y) for x, y in t.args[1] if x not in ('a', 'axis')))
        return None

    # ---------------------------------------------------------- indexing
    def normidx(self, t, kt):
        ii = as_index(kt)
        out = []
        for i in ii:
            if i.op == 'list' or i.op == 'map':
                i = self.arr_t(i)
            if i.op == 'nz':
                i = i.args[0]
            if i.op == 'nz0' and rank(i.args[0]) == 1:
                i = i.args[0]
            if i.op == 'call' and i.args[0] == 'int':
                pass
            if i.op == 'not' or i.op == 'and' or i.op == 'or':
                pass
            out.append(i)
        return out[0] if len(out) == 1 else T('tuple', *out)

    def gi(self, t, kt):
        kt = self.normidx(t, kt)
        if t.op == 'call' and t.args[0] == 'numpy.concatenate':
            k = dict(t.args[1])
            ii = as_index(kt)
            if k['arrays'].op == 'list' and k['axis'] is ZERO and ii:
                els = k['arrays'].args
                d0 = dims(els[0])
                if d0 and d0[0] is ONE:
                    rest = ii[1:]
                    if ii[0] is ZERO:
                        y = getitem(els[0], ZERO)
                        return getitem(y, T('tuple', *rest)) if rest else y
                    if ii[0].op == 'slice' and ii[0].args[0] is ONE and ii[0].args[1] is NONE and ii[0].args[2] in (NONE, ONE):
                        y = self.concat(list(els[1:]), 0)
                        return self.gi(y, T('tuple', FULL, *rest)) if rest else y
                    if ii[0].op == 'slice' and ii[0].args[0] in (NONE, ZERO) and ii[0].args[1] is ONE and not rest:
                        return els[0]
            if k['arrays'].op == 'list' and is_int(k['axis']) and 0 < cval(k['axis']) < len(ii) and all(is_basic(z) for z in ii):
                els, p = k['arrays'].args, cval(k['axis'])
                one = [dims(e) is not None and len(dims(e)) > p and dims(e)[p] is ONE for e in (els[0], els[-1])]
                if ii[p] is ZERO and one[0]:
                    return self.gi(els[0], kt)
                if ii[p] is const(-1) and one[1]:
                    return self.gi(els[-1], kt)
                if ii[p].op == 'slice' and ii[p].args[0] is ONE and ii[p].args[1] is NONE and ii[p].args[2] in (NONE, ONE) and one[0]:
                    y = self.concat(list(els[1:]), p)
                    rest = ii[:p] + [FULL] + ii[p + 1:]
                    return y if all(is_full(z) for z in rest) else self.gi(y, T('tuple', *rest))
            if k['arrays'].op == 'list' and is_int(k['axis']) and cval(k['axis']) > 0 and len(ii) <= cval(k['axis']) and all(is_basic(z) for z in ii):
                drop = sum(1 for z in ii if is_scalar_index(z))
                return self.concat([getitem(x, kt) for x in k['arrays'].args], cval(k['axis']) - drop)
            if k['arrays'].op == 'list' and k['axis'] is ZERO and len(ii) > 1 and is_full(ii[0]) and all(is_basic(z) for z in ii):
                return self.concat([getitem(x, kt) for x in k['arrays'].args], 0)
        if kt.op == 'getitem' and kt.args[0].op in ('nz0',) and not is_scalar_index(kt):
            return self.gi(self.gi(t, kt.args[0]), kt.args[1])
        if t.op == 'call' and t.args[0] == 'numpy.corrcoef' and kt.op == 'tuple' and len(kt.args) == 2 and {cval(x) if is_int(x) else 9 for x in kt.args} in ({0, 1}, {0, -1}, {1, -2}):
            k = dict(t.args[1])
            if 'y' in k:
                return T('pearson', *sorted((k['x'], k['y']), key=lambda z: z.k))
            if k['x'].op == 'arr' and k['x'].args[0].op in ('list', 'tuple') and len(k['x'].args[0].args) == 2:
                return T('pearson', *sorted(k['x'].args[0].args, key=lambda z: z.k))
        if t.op == 'call' and t.args[0] == 'scipy.stats.pearsonr' and kt is ZERO:
            k = dict(t.args[1])
            return T('pearson', *sorted((k['x'], k['y']), key=lambda z: z.k))
        if t.op == 'call' and t.args[0] == 'scipy.stats.rankdata':
            w = self.rank_of(t, kt)
            if w is not None:
                return w
        if t.op == 'nz' and kt is ZERO:
            return T('nz0', t.args[0])
        if t.op == 'call' and t.args[0] == 'numpy.corrcoef' and is_int(kt):
            return T('getitem', t, kt)
        if t.op == 'getitem' and t.args[0].op == 'call' and t.args[0].args[0] == 'numpy.corrcoef' and is_int(kt) and is_int(t.args[1]):
            return self.gi(t.args[0], T('tuple', t.args[1], kt))
        if self.full_of(t) is not None and dims(t):
            d = gi_dims(t, kt)
            if d is not None:
                return self.full_of(t) if d == () else T('call', 'numpy.full', (('fill_value', self.full_of(t)), ('shape', T('tuple', *d))))
        return getitem(t, kt)

    def rank_of(self, t, kt):
        """rank of element i along the first axis: 1 + #{smaller} (method='min'), #{smaller or equal} (method='max')"""
        k = dict(t.args[1])
        ii = as_index(kt)
        m = k.get('method', const('average'))
        if k.get('axis', NONE) is not ZERO or k.get('nan_policy', const('propagate')) is not const('propagate') or not ii or not is_int(ii[0]) \
                or m not in (const('min'), const('max')):
            return None
        c, i = k['a'], ii[0]
        d = dims(c)
        if not d or len(d) < 2:
            return None
        x = self.gi(c, i)
        # the element itself adds nothing to #{smaller} and 1 to #{smaller or equal}
        others = self.gi(c, T('slice', ONE, NONE, NONE)) if i is ZERO else self.gi(c, T('slice', NONE, const(-1), NONE)) if i is const(-1) else None
        op = 'lt' if m is const('min') else 'le'
        if others is not None:
            r = add(ONE, self.red_t('numpy.sum', self.cmpn(op, others, x), ZERO))
        else:
            r = add(ONE if op == 'lt' else ZERO, self.red_t('numpy.sum', self.cmpn(op, c, x), ZERO))
        return self.gi(r, T('tuple', *ii[1:])) if len(ii) > 1 else r

    def rank_eq(self, a, b):
        """equal ranks are equal values: rankdata(c)[i] == rankdata(c)[j:]  ->  c[i] == c[j:]"""
        for x, y in ((a, b), (b, a)):
            k = ii = None
            if y.op == 'call' and y.args[0] == 'scipy.stats.rankdata':
                t, ii = y, None
            elif y.op == 'getitem' and y.args[0].op == 'call' and y.args[0].args[0] == 'scipy.stats.rankdata':
                t, ii = y.args[0], y.args[1]
            else:
                continue
            c = dict(t.args[1])['a']
            for i in (ZERO, const(-1)):
                if self.rank_of(t, i) is x:
                    return self.cmpn('eq', self.gi(c, i), c if ii is None else self.gi(c, ii))
        return None

    def index(self, I, v, kt):
        t = I.read(v)
        if kind(t) in ('list', 'tuple', 'dict', 'str', 'loaded') or t.op in ('nz', 'raydone'):
            return I.fresh(self.gi(t, kt))
        ii = as_index(kt)
        if kind(t) == 'ndarray' and all(i is NONE or i is T('const', '...') or is_basic(i) for i in ii):
            d = dims(t)
            if d is not None:
                p = 0
                for i in ii:
                    if i is NONE or i is T('const', '...'):
                        p = 99 if i is not NONE else p
                        continue
                    if p >= len(d) and p < 99:
                        I.raise_leaf('IndexError')
                    if is_int(i) and p < len(d) and is_int(d[p]) and not -cval(d[p]) <= cval(i) < cval(d[p]):
                        I.raise_leaf('IndexError')
                    p += 1
            return self.viewof(I, v, lambda x: self.gi(x, kt))
        return I.fresh(self.gi(t, kt))

    def setindex(self, I, o, kt, v):
        t = I.read(o)
        val = I.read(v)
        kt = self.normidx(t, kt)
        if val.op in ('list', 'map', 'tuple', 'fmap') and kind(t) == 'ndarray':
            val = self.arr_t(val)
        if kind(t) == 'ndarray' or dims(t):
            I.write_cell(o.loc, store(t, kt, val), 'item assignment')
            return
        I.effect('extstore', t, kt, val)
        I._set_content(o.loc, T('store', t, kt, val))

    # ---------------------------------------------------------- attributes
    def ext_attr(self, I, o, name):
        q = o.q + '.' + name
        if q in GONE:
            I.raise_leaf('AttributeError', q)
        q = ALIAS.get(q, q)
        if q in ('numpy.nan', 'numpy.inf', 'numpy.pi', 'numpy.e'):
            return Val(T('sym', q))
        if q == 'numpy.newaxis':
            return VNONE
        if name == '__name__':
            return Val(const(o.q.split('.')[-1]))
        if q == 'os.sep':
            return Val(const('/'))
        return Ext(q)

    def attr(self, I, o, t, name):
        """attribute (not method) of a data value, or None"""
        if t.op == 'ite' and name in ('shape', 'ndim', 'size', 'T', 'dtype') and kind(t) != 'ndarray':
            return I.branch(t.args[0], lambda: I.getattr(I.fresh(t.args[1]), name), lambda: I.getattr(I.fresh(t.args[2]), name))
        d = dims(t)
        if name == 'shape':
            if kind(t) in ('str', 'list', 'tuple', 'dict', 'none', 'int', 'bool') or (kind(t) == 'float' and t.op in ('const', 'sym')):
                I.raise_leaf('AttributeError', 'shape of ' + kind(t))
            if d is not None:
                return Tup([Val(x) for x in d])
            return Val(T('shape', t))
        if kind(t) in ('list', 'tuple', 'str', 'dict', 'none') or t.op == 'str':
            return None
        if name == 'ndim':
            return Val(const(len(d))) if d is not None else Val(T('attr', t, 'ndim'))
        if name == 'size':
            return Val(prod(d)) if d is not None else Val(T('attr', t, 'size'))
        if name == 'T' and kind(t) == 'ndarray' and d is not None:
            return self.viewof(I, o, lambda x: self.perm_t(x, list(range(len(d)))[::-1]))
        if name == 'dtype':
            return Val(T('dtype', t))
        if name == 'flat' and kind(t) == 'ndarray':
            return self.viewof(I, o, lambda x: self.ravel_t(I, x))
        if name == 'values' and kind(t) not in ('dict', 'loaded'):
            return I.fresh(T('attr', t, 'values'))
        if name in ('data',) and kind(t) == 'ndarray':
            return o
        if name in ('dims', 'variables', 'coords', 'encoding', 'data', 'attrs', 'iloc', 'loc', 'name', 'index', 'columns', 'statistic', 'pvalue'):
            if name == 'statistic' and t.op == 'call' and t.args[0] == 'scipy.stats.pearsonr':
                return I.fresh(self.gi(t, ZERO))
            return I.fresh(T('attr', t, name))
        return None

    # ---------------------------------------------------------- calls
    def bindsig(self, I, q, args, kwargs):
        names = SIG[q]
        d = {}
        if len(args) > len(names):
            raise Unsupported('too many arguments for ' + q)
        for n, a in zip(names, args):
            d[n] = a
        for k, a in kwargs.items():
            d[k] = a
        return d

    def ext_call(self, I, q, args, kwargs):
        q = ALIAS.get(q, q)
        if q.startswith('builtins.'):
            return self.lib.call(I, Ext(q), args, kwargs)
        r = self.lib.sys.ext_call(I, q, args, kwargs)
        if r is not None:
            return r
        parts = q.split('.')
        if q.startswith('scipy.stats.') and len(parts) >= 3 and parts[2] in FAM:
            if len(parts) == 3:
                return self.frozen(I, parts[2], args, kwargs)
            return self.dist_call(I, parts[2], parts[3], args, kwargs)
        if q.startswith('numpy.random.') and q not in ('numpy.random.seed', 'numpy.random.shuffle', 'numpy.random.default_rng', 'numpy.random.RandomState', 'numpy.random.Generator'):
            return self.rand(I, q, args, kwargs)
        if q == 'numpy.random.shuffle':
            return self.shuffle(I, args[0])
        if q == 'numpy.random.seed':
            I.effect('seed', I.read(args[0]) if args else NONE)
            return VNONE
        if q in ('numpy.random.default_rng', 'numpy.random.RandomState'):
            return Val(T('rng', I.read(args[0]) if args else NONE))
        if q.endswith('.reduce') and q[:-7] in SIG:
            k = {'numpy.add': 'numpy.sum', 'numpy.multiply': 'numpy.prod', 'numpy.maximum': 'numpy.max', 'numpy.minimum': 'numpy.min',
                 'numpy.logical_and': 'numpy.all', 'numpy.logical_or': 'numpy.any'}.get(q[:-7])
            if k:
                kw = dict(kwargs)
                if len(args) < 2 and 'axis' not in kw:
                    kw['axis'] = Val(ZERO)
                return self.ext_call(I, k, args, kw)
        if q == 'numpy.apply_along_axis':
            kw = dict(kwargs)
            pos = list(args)
            ff = pos.pop(0) if pos else kw.pop('func1d')
            ax = pos.pop(0) if pos else kw.pop('axis')
            ar = pos.pop(0) if pos else kw.pop('arr')
            return self.apply_along(I, ff, ax, ar, pos, kw)
        if q in SIG:
            d = self.bindsig(I, q, args, kwargs)
            if q not in ('numpy.array', 'numpy.asarray', 'numpy.memmap') and 'dtype' in d and self.plain_dtype(I, d['dtype'], q):
                d.pop('dtype')
            m = getattr(self, 'f_' + q.replace('.', '_'), None)
            if m is not None:
                d = Tracked(d)
                r = m(I, d)
                for a in d:
                    if a not in d.used and I.read(d[a]) is not NONE and not (a == 'order' and I.read(d[a]) is const('C')):
                        raise Unsupported('argument %s of %s' % (a, q))
                return r
            out = d.pop('out', None)
            r = self.generic(I, q, d)
            if out is not None and I.read(out) is not NONE:
                I.write_cell(out.loc, I.read(r), 'out=')
                return out
            return r
        if q in ('numpy.float64', 'numpy.float32'):
            return args[0] if args else Val(ZERO)
        I.event(('call', q))
        ks = [(str(j), I.read(a)) for j, a in enumerate(args)] + [(k, I.read(a)) for k, a in kwargs.items()]
        t = T('call', q, tuple(sorted(ks)))
        last = parts[-1]
        if last[:1].isupper():
            return I.new(Cell('arr', t))
        return I.fresh(t)

    def plain_dtype(self, I, v, q):
        """a dtype that does not change the values"""
        n = v.q if isinstance(v, Ext) else None
        if n is None:
            t = I.read(v)
            n = cval(t) if is_strc(t) else None if t is NONE else str(t)
        n = None if n is None else n.split('.')[-1]
        if n in (None, 'float', 'float64', 'double', 'd', 'f8', 'object', 'O', 'longdouble'):
            return True
        return n in ('int', 'int64', 'bool', 'bool_', 'intp', 'int32', 'i8') and q in ('numpy.sum', 'numpy.cumsum', 'numpy.arange', 'numpy.count_nonzero')

    def generic(self, I, q, d):
        n = q.split('.')[-1]
        k = {a: I.read(v) for a, v in d.items()}
        if 'axis' in k and k['axis'].op == 'ite':
            c, x, y = k['axis'].args
            return I.branch(c, lambda: self.generic(I, q, dict(d, axis=I.fresh(x))), lambda: self.generic(I, q, dict(d, axis=I.fresh(y))))
        if q in RED or q in ('numpy.nanprod',):
            a = k.pop('a')
            ax = k.pop('axis', NONE)
            k.pop('dtype', None)
            if a is NONE:
                I.raise_leaf('TypeError')
            if ax.op == 'arr':
                ax = ax.args[0]
            r = rank(self.arr_t(a))
            na = norm_axis(ax, r)
            if r is not None and na not in (None, 'unk') and any(not 0 <= x < r for x in na):
                I.raise_leaf('AxisError')
            return I.fresh(self.red_t(q, a, ax, tuple(k.items())))
        if q in EW_CALLS or n in ('isinf', 'negative', 'positive', 'reciprocal', 'logical_not', 'cbrt', 'loggamma') and set(k) == {'x'}:
            ts = self.defull([self.arr_t(v) for v in k.values()])
            if len(ts) == 1 and q not in ('scipy.special.x',):
                return I.fresh(self.ew(q, ts[0]))
            kk = dict(zip(k.keys(), ts))
            if q in ('numpy.power',):
                return I.fresh(self.lib.arith(I, 'Pow', kk['x1'], kk['x2']))
            if q in ('numpy.mod', 'numpy.floor_divide'):
                return I.fresh(self.lib.arith(I, 'Mod' if n == 'mod' else 'FloorDiv', kk['x1'], kk['x2']))
            if n in ('fmax', 'fmin'):
                return I.fresh(T('call', q, tuple(sorted(kk.items()))))
            if n == 'betaln':
                g = lambda x: T('call', 'scipy.special.gammaln', (('x', x),))
                return I.fresh(sub(add(g(kk['a']), g(kk['b'])), g(add(kk['a'], kk['b']))))
            if n == 'beta':
                g = lambda x: T('call', 'scipy.special.gammaln', (('x', x),))
                return I.fresh(T('call', 'numpy.exp', (('x', sub(add(g(kk['a']), g(kk['b'])), g(add(kk['a'], kk['b'])))),)))
            if n == 'gammaincc':
                return I.fresh(sub(ONE, T('call', 'scipy.special.gammainc', tuple(sorted(kk.items())))))
            return I.fresh(lift_lay(T('call', q, tuple(sorted(kk.items())))))
        ops = {'add': 'Add', 'subtract': 'Sub', 'multiply': 'Mult', 'divide': 'Div'}
        if q.startswith('numpy.') and n in ops:
            return I.fresh(self.lib.arith(I, ops[n], self.arr_t(k['x1']), self.arr_t(k['x2'])))
        cm = {'greater': 'gt', 'greater_equal': 'ge', 'less': 'lt', 'less_equal': 'le'}
        if n in cm:
            return I.fresh(self.cmpn(cm[n], k['x1'], k['x2']))
        if n in ('equal', 'not_equal'):
            return I.fresh(lift_lay(cmp_('eq' if n == 'equal' else 'ne', k['x1'], k['x2'])))
        if n in ('logical_and', 'logical_or', 'logical_xor'):
            return I.fresh(self.lib.arith(I, {'logical_and': 'BitAnd', 'logical_or': 'BitOr', 'logical_xor': 'BitXor'}[n], k['x1'], k['x2']))
        if n in ('maximum', 'minimum'):
            a, b = self.defull([self.arr_t(k['x1']), self.arr_t(k['x2'])])
            return I.fresh(lift_lay((max2 if n == 'maximum' else min2)(a, b)))
        if q == 'scipy.special.ndtr':
            return I.fresh(self.dist_t('norm', 'cdf', k['x'], {}))
        for a in list(k):
            if k[a].op in ('list', 'map', 'perm') and a in ('a', 'x', 'arr', 'y'):
                k[a] = self.arr_t(k[a])
        I.event(('call', q))
        return I.fresh(T('call', q, tuple(sorted(k.items()))))

    # --- specific functions
    def f_numpy_average(self, I, d):
        if 'weights' in d and I.read(d['weights']) is not NONE:
            return I.fresh(T('call', 'numpy.average', tuple(sorted((k, I.read(v)) for k, v in d.items()))))
        d.pop('weights', None)
        return self.generic(I, 'numpy.mean', d)

    def f_numpy_where(self, I, d):
        c = I.read(d['condition'])
        if 'x' not in d:
            return I.fresh(T('nz', c))
        a, b = I.read(d['x']), I.read(d['y'])
        ts = self.defull([c, self.arr_t(a), self.arr_t(b)])
        return I.fresh(lift_lay(where(*ts)))

    def f_numpy_nonzero(self, I, d):
        return I.fresh(T('nz', I.read(d['a'])))

    def f_numpy_flatnonzero(self, I, d):
        return I.fresh(T('nz0', self.ravel_t(I, I.read(d['a']))))

    def f_numpy_clip(self, I, d):
        a = self.arr_t(I.read(d['a']))
        lo = I.read(d.get('a_min', d.get('min', VNONE)))
        hi = I.read(d.get('a_max', d.get('max', VNONE)))
        r = a
        if lo is not NONE:
            r = max2(r, lo)
        if hi is not NONE:
            r = min2(r, hi)
        r = lift_lay(r)
        out = d.get('out')
        if out is not None and I.read(out) is not NONE:
            I.write_cell(out.loc, r, 'out=')
            return out
        return I.fresh(r)

    def f_numpy_array(self, I, d):
        t = self.arr_t(I.read(d['object']))
        if 'copy' in d and I.read(d['copy']) is FALSE and isinstance(d['object'], Ref):
            return d['object']
        t = self.with_dtype(I, t, d.get('dtype'))
        return I.fresh(t)

    def with_dtype(self, I, t, dt):
        if dt is None:
            return t
        x = I.read(dt)
        return self.astype_t(t, x)

    def dtname(self, x):
        if x.op == 'ext':
            return x.args[0].split('.')[-1]
        if is_strc(x):
            return cval(x)
        return None

    def astype_t(self, t, x):
        n = self.dtname(x)
        if n is None:
            return t if x.op == 'dtype' or x is NONE else T('call', 'numpy.astype', (('dtype', x), ('x', t)))
        if n.startswith('float') or n in ('double', 'f8', 'd', 'longdouble'):
            if n in ('float32', 'float16', 'f4', 'half', 'single'):
                return T('call', 'numpy.astype', (('dtype', const('float32')), ('x', t)))
            return t
        if n.startswith('int') or n in ('uint8', 'i8', 'int_', 'intp', 'uint', 'uint64'):
            if is_boolish(t) or kind(t) == 'int':
                return t
            if is_num(t) and type(cval(t)) is int:
                return t
            return T('call', 'numpy.astype', (('dtype', const('int')), ('x', t)))
        if n in ('bool', 'bool_'):
            if is_boolish(t):
                return t
            return T('call', 'numpy.astype', (('dtype', const('bool')), ('x', t)))
        return T('call', 'numpy.astype', (('dtype', const(n)), ('x', t)))

    def f_numpy_asarray(self, I, d):
        v = d['a']
        if isinstance(v, Ref) and I.cell(v).kind in ('arr', 'view') and kind(I.read(v)) == 'ndarray':
            t = self.with_dtype(I, I.read(v), d.get('dtype'))
            return v if t is I.read(v) else I.fresh(t)
        return I.fresh(self.with_dtype(I, self.arr_t(I.read(v)), d.get('dtype')))

    def f_numpy_copy(self, I, d):
        return I.fresh(self.arr_t(I.read(d['a'])))

    def mkfull(self, I, shape, v):
        s = shape_arg(shape)
        if s == ():
            return v
        if s is None:
            return T('call', 'numpy.full', (('fill_value', v), ('shape', shape)))
        if dims(v) == s and v is not NONE and dims(v) != ():
            return v
        return T('call', 'numpy.full', (('fill_value', v), ('shape', T('tuple', *s))))

    def f_numpy_full(self, I, d):
        return I.fresh(self.mkfull(I, I.read(d['shape']), I.read(d['fill_value'])))

    def f_numpy_zeros(self, I, d):
        return I.fresh(self.mkfull(I, I.read(d['shape']), ZERO))

    def f_numpy_ones(self, I, d):
        return I.fresh(self.mkfull(I, I.read(d['shape']), ONE))

    def f_numpy_empty(self, I, d):
        s = shape_arg(I.read(d['shape']))
        return I.fresh(T('call', 'numpy.empty', (('shape', T('tuple', *s) if s is not None else I.read(d['shape'])),)))

    def _like(self, I, d, v):
        t = I.read(d['a'])
        dd = dims(t)
        sh = T('tuple', *dd) if dd is not None else T('shape', t)
        if v is None:
            return I.fresh(T('call', 'numpy.empty', (('shape', sh),)))
        return I.fresh(self.mkfull(I, sh, v))

    def f_numpy_full_like(self, I, d):
        return self._like(I, d, I.read(d['fill_value']))

    def f_numpy_zeros_like(self, I, d):
        return self._like(I, d, ZERO)

    def f_numpy_ones_like(self, I, d):
        return self._like(I, d, ONE)

    def f_numpy_empty_like(self, I, d):
        return self._like(I, d, None)

    def f_numpy_linspace(self, I, d):
        k = {a: I.read(v) for a, v in d.items()}
        k.setdefault('num', const(50))
        if k.get('endpoint') is TRUE:
            k.pop('endpoint')
        return I.fresh(T('call', 'numpy.linspace', tuple(sorted(k.items()))))

    def f_numpy_arange(self, I, d):
        if 'stop' not in d:
            d = dict(d, stop=d['start'], start=Val(ZERO))
        k = {a: I.read(v) for a, v in d.items()}
        if k.get('step') is ONE:
            k.pop('step')
        if all(is_int(x) for x in k.values()):
            r = range(cval(k['start']), cval(k['stop']), cval(k.get('step', ONE)))
            if len(r) <= 64:
                return I.fresh(T('arr', T('list', *[const(x) for x in r])))
        return I.fresh(T('call', 'numpy.arange', tuple(sorted(k.items()))))

    def f_numpy_moveaxis(self, I, d):
        s, t = I.read(d['source']), I.read(d['destination'])
        for x, nm in ((s, 'source'), (t, 'destination')):
            if x.op == 'ite':
                return I.branch(x.args[0], lambda: self.f_numpy_moveaxis(I, dict(d, **{nm: I.fresh(x.args[1])})),
                                lambda: self.f_numpy_moveaxis(I, dict(d, **{nm: I.fresh(x.args[2])})))
        return self.viewof(I, d['a'], lambda a: self.moveaxis_t(I, a, s, t))

    def f_numpy_rollaxis(self, I, d):
        ax, st = I.read(d['axis']), I.read(d['start']) if 'start' in d else ZERO
        r = rank(I.read(d['a']))
        if r is not None and is_int(ax) and is_int(st):
            a = cval(ax) % r
            s = cval(st) if cval(st) >= 0 else cval(st) + r
            if a < s:
                s -= 1
            return self.viewof(I, d['a'], lambda x: self.moveaxis_t(I, x, const(a), const(s)))
        raise Unsupported('rollaxis')

    def f_numpy_transpose(self, I, d):
        t = I.read(d['a'])
        r = rank(t)
        ax = I.read(d['axes']) if 'axes' in d else NONE
        if ax.op == 'arr':
            ax = ax.args[0]
        if r is None:
            return I.fresh(T('call', 'numpy.transpose', (('a', t), ('axes', ax))))
        if ax is NONE:
            p = list(range(r))[::-1]
        elif ax.op in ('tuple', 'list') and all(is_int(x) for x in ax.args):
            p = [cval(x) % r if -r <= cval(x) < r else 99 for x in ax.args]
            if sorted(p) != list(range(r)):
                I.raise_leaf('ValueError', 'transpose axes')
        else:
            return I.fresh(T('call', 'numpy.transpose', (('a', t), ('axes', ax))))
        return self.viewof(I, d['a'], lambda x: self.perm_t(x, p))

    def f_numpy_swapaxes(self, I, d):
        t = I.read(d['a'])
        r = rank(t)
        a, b = I.read(d['axis1']), I.read(d['axis2'])
        if r is None or not is_int(a) or not is_int(b):
            raise Unsupported('swapaxes')
        p = list(range(r))
        x, y = cval(a) % r, cval(b) % r
        p[x], p[y] = p[y], p[x]
        return self.viewof(I, d['a'], lambda z: self.perm_t(z, p))

    def f_numpy_reshape(self, I, d):
        sh = I.read(d.get('shape', d.get('newshape', VNONE)))
        order = I.read(d['order']) if 'order' in d else NONE
        t = I.read(d['a'])
        if kind(t) == 'ndarray' and isinstance(d['a'], Ref):
            I.event(('reshape', ''))
            return self.viewof(I, d['a'], lambda x: self.reshape_t(I, x, sh, order), may=True)
        return I.fresh(self.reshape_t(I, self.arr_t(t), sh, order))

    def f_numpy_ravel(self, I, d):
        t = I.read(d['a'])
        o = I.read(d['order']) if 'order' in d else NONE
        if kind(t) == 'ndarray':
            return self.viewof(I, d['a'], lambda x: self.ravel_t(I, x, o), may=True)
        return I.fresh(self.ravel_t(I, self.arr_t(t), o))

    def f_numpy_float32(self, I, d):
        return I.fresh(self.astype_t(I.read(d['x']), const('float32')) if 'x' in d else ZERO)

    def f_numpy_squeeze(self, I, d):
        t = I.read(d['a'])
        dd = dims(t)
        ax = I.read(d['axis']) if 'axis' in d else NONE
        if dd is None:
            return I.fresh(T('call', 'numpy.squeeze', (('a', t), ('axis', ax))))
        if ax is NONE:
            axes = [p for p, x in enumerate(dd) if x is ONE]
            if any(not is_int(x) for x in dd):
                # how many axes are dropped depends on the data
                return I.fresh(T('call', 'numpy.squeeze', (('a', t), ('axis', ax))))
        else:
            n = norm_axis(ax, len(dd))
            if n == 'unk':
                raise Unsupported('squeeze axis')
            axes = list(range(len(dd))) if n is None else list(n)
            if any(is_int(dd[p]) and dd[p] is not ONE for p in axes):
                I.raise_leaf('ValueError', 'squeeze')
            if any(dd[p] is not ONE for p in axes):
                I.raise_leaf('ValueError', 'squeeze')
        return self.viewof(I, d['a'], lambda x: self.unlay(squeeze_at(x, axes)))

    def f_numpy_expand_dims(self, I, d):
        t = I.read(d['a'])
        ax = I.read(d['axis'])
        r = rank(t)
        if ax.op == 'ite':
            return I.branch(ax.args[0], lambda: self.f_numpy_expand_dims(I, dict(d, axis=I.fresh(ax.args[1]))), lambda: self.f_numpy_expand_dims(I, dict(d, axis=I.fresh(ax.args[2]))))
        if r is None or not (is_int(ax) or ax.op == 'tuple' and all(is_int(x) for x in ax.args)):
            return I.fresh(T('call', 'numpy.expand_dims', (('a', t), ('axis', ax))))
        axs = [cval(ax)] if is_int(ax) else [cval(x) for x in ax.args]
        n = r + len(axs)

        def f(x):
            if self.full_of(x) is not None and x.op == 'call':
                dd = list(dims(x))
                for p in sorted(a % n for a in axs):
                    dd.insert(p, ONE)
                return T('call', 'numpy.full', (('fill_value', self.full_of(x)), ('shape', T('tuple', *dd))))
            for p in sorted(a % n for a in axs):
                x = expand_at(x, p)
            return x
        return self.viewof(I, d['a'], f)

    def f_numpy_concatenate(self, I, d):
        ax = I.read(d['axis']) if 'axis' in d else ZERO
        I.event(('concatenate', ''))
        if ax.op == 'ite':
            return I.branch(ax.args[0], lambda: self.f_numpy_concatenate(I, dict(d, axis=I.fresh(ax.args[1]))), lambda: self.f_numpy_concatenate(I, dict(d, axis=I.fresh(ax.args[2]))))
        return I.fresh(self.concatenate_t(I, self.lib.listterm(I, d['arrays']), ax))

    def f_numpy_append(self, I, d):
        a, v = self.arr_t(I.read(d['arr'])), self.arr_t(I.read(d['values']))
        ax = I.read(d['axis']) if 'axis' in d else NONE
        return I.fresh(self.concatenate_t(I, T('list', a, v), ax))

    def f_numpy_stack(self, I, d):
        ax = I.read(d['axis']) if 'axis' in d else ZERO
        t = self.arr_t(self.lib.listterm(I, d['arrays']))
        r = rank(t)
        if ax is ZERO:
            return I.fresh(t)
        if r is None or not is_int(ax):
            return I.fresh(T('call', 'numpy.stack', (('arrays', t), ('axis', ax))))
        return I.fresh(self.moveaxis_t(I, t, ZERO, const(cval(ax) % r)))

    def f_numpy_vstack(self, I, d):
        t = self.lib.listterm(I, d['arrays'])
        if t.op in ('list', 'tuple'):
            els = [self.arr_t(x) for x in t.args]
            if all(rank(x) == 1 for x in els):
                return I.fresh(T('arr', T('list', *els)))
            els = [expand_at(x, 0) if rank(x) == 1 else x for x in els]
            return I.fresh(self.concatenate_t(I, T('list', *els), ZERO))
        return I.fresh(T('call', 'numpy.vstack', (('arrays', t),)))

    def f_numpy_hstack(self, I, d):
        t = self.lib.listterm(I, d['arrays'])
        if t.op in ('list', 'tuple'):
            els = [self.arr_t(x) for x in t.args]
            return I.fresh(self.concatenate_t(I, T('list', *els), ZERO if rank(els[0]) == 1 else ONE))
        if t.op == 'map':
            return I.fresh(self.concatenate_t(I, t, ONE if rank(t.args[1]) not in (0, 1) else ZERO))
        return I.fresh(T('call', 'numpy.hstack', (('arrays', t),)))

    def f_numpy_split(self, I, d):
        return self._split(I, d, 'split')

    def f_numpy_array_split(self, I, d):
        return self._split(I, d, 'array_split')

    def _split(self, I, d, nm):
        t = I.read(d['ary'])
        n = I.read(d['indices_or_sections'])
        ax = I.read(d['axis']) if 'axis' in d else ZERO
        dd = dims(t)
        if ax.op == 'ite':
            return I.branch(ax.args[0], lambda: self._split(I, dict(d, axis=I.fresh(ax.args[1])), nm), lambda: self._split(I, dict(d, axis=I.fresh(ax.args[2])), nm))
        if dd is None or not is_int(ax):
            return I.fresh(T('call', 'numpy.' + nm, (('a', t), ('axis', ax), ('n', n))))
        if not -len(dd) <= cval(ax) < len(dd):
            I.raise_leaf('AxisError')
        p = cval(ax) % len(dd)
        i = tm.tmpsym('i', 'int', ())
        if n is dd[p]:
            e = getitem(t, T('tuple', *([FULL] * p + [T('slice', i, add(i, ONE), NONE)])))
            return I.fresh(lam_map(n, i, e))
        if n.op in ('list', 'tuple') or kind(n) == 'ndarray':
            return I.fresh(T('call', 'numpy.' + nm, (('a', t), ('axis', ax), ('n', n))))
        a, b = T('cut', dd[p], n, i), T('cut', dd[p], n, add(i, ONE))
        e = getitem(t, T('tuple', *([FULL] * p + [T('slice', a, b, NONE)])))
        return I.fresh(tm.bind('map', (n,), i, (e,)))

    def f_numpy_delete(self, I, d):
        a = d['arr']
        o = I.read(d['obj'])
        t = I.read(a)
        ax = I.read(d['axis']) if 'axis' in d else NONE
        s = None
        if isinstance(a, Tup) or t.op in ('list', 'tuple') or (t.op == 'arr' and t.args[0].op in ('list', 'tuple')):
            s = list(t.args if t.op != 'arr' else t.args[0].args)
            if o.op == 'ite':
                return I.branch(o.args[0], lambda: self.f_numpy_delete(I, dict(d, obj=I.fresh(o.args[1]))), lambda: self.f_numpy_delete(I, dict(d, obj=I.fresh(o.args[2]))))
            if is_int(o):
                if not -len(s) <= cval(o) < len(s):
                    I.raise_leaf('IndexError')
                del s[cval(o)]
                return I.fresh(T('arr', T('list', *s)))
            if o.op in ('tuple', 'list') and all(is_int(x) for x in o.args):
                rm = {cval(x) % len(s) for x in o.args}
                return I.fresh(T('arr', T('list', *[x for j, x in enumerate(s) if j not in rm])))
        return I.fresh(T('call', 'numpy.delete', (('arr', t), ('axis', ax), ('obj', o))))

    def f_numpy_take(self, I, d):
        t, ix = I.read(d['a']), I.read(d['indices'])
        ax = I.read(d['axis']) if 'axis' in d else NONE
        if is_int(ax) and rank(t) is not None:
            p = cval(ax) % rank(t)
            return I.fresh(self.gi(t, T('tuple', *([FULL] * p + [ix])) if p else ix))
        if ax is NONE and rank(t) == 1:
            return I.fresh(self.gi(t, ix))
        return I.fresh(T('call', 'numpy.take', (('a', t), ('axis', ax), ('indices', ix))))

    def f_numpy_sort(self, I, d):
        t = self.arr_t(I.read(d['a']))
        if t.op == 'arr' and t.args[0].op in ('list', 'tuple') and all(is_num(x) for x in t.args[0].args):
            return I.fresh(T('arr', T('list', *sorted(t.args[0].args, key=cval))))
        ax = I.read(d['axis']) if 'axis' in d else const(-1)
        r = rank(t)
        if r is not None and is_int(ax):
            return I.fresh(colcall('numpy.sort', {'a': t, 'axis': const(cval(ax) % r)}))
        return I.fresh(T('call', 'numpy.sort', (('a', t), ('axis', ax))))

    def f_numpy_take_along_axis(self, I, d):
        t, ix, ax = I.read(d['arr']), I.read(d['indices']), I.read(d['axis'])
        r = rank(t)
        if r is not None and is_int(ax):
            ax = const(cval(ax) % r)
            return I.fresh(colcall('numpy.take_along_axis', {'arr': t, 'indices': ix, 'axis': ax}))
        return I.fresh(T('call', 'numpy.take_along_axis', (('arr', t), ('axis', ax), ('indices', ix))))

    def f_numpy_argsort(self, I, d):
        t = self.arr_t(I.read(d['a']))
        ax = I.read(d['axis']) if 'axis' in d else const(-1)
        r = rank(t)
        if r is not None and is_int(ax):
            return I.fresh(colcall('numpy.argsort', {'a': t, 'axis': const(cval(ax) % r)}))
        return I.fresh(T('call', 'numpy.argsort', (('a', t), ('axis', ax))))

    def f_numpy_unique(self, I, d):
        k = {a: I.read(v) for a, v in d.items()}
        return I.fresh(T('call', 'numpy.unique', tuple(sorted(k.items()))))

    def _quantile(self, I, d, q):
        k = {a: I.read(v) for a, v in d.items() if a != 'out'}
        a = self.arr_t(k.pop('a'))
        qq = k.pop('q')
        if 'percentile' in q:
            q = q.replace('percentile', 'quantile')
            h = lambda x: T(x.op, *[h(y) for y in x.args]) if x.op in ('list', 'tuple') else T('arr', h(x.args[0])) if x.op == 'arr' else lift_lay(mul(x, const(Fraction(1, 100))))
            qq = h(qq)
        if qq.op == 'arr':
            qq = qq.args[0]
        if qq.op == 'tuple':
            qq = T('list', *qq.args)
        k.pop('overwrite_input', None)
        if k.get('method') is const('linear') or k.get('interpolation') is const('linear'):
            k.pop('method', None), k.pop('interpolation', None)
        r = rank(a)
        ax = k.pop('axis', NONE)
        na = norm_axis(ax, r)
        if a.op == 'arr' and a.args[0].op == 'perm' and (na is None or na == (0,)):
            a = T('arr', a.args[0].args[0])
        if na != 'unk':
            ax = axis_term(na)

        def one(x):
            kk = dict(k, a=a, q=x, axis=ax)
            return T('call', q, tuple(sorted(kk.items())))
        if qq.op == 'list' and na is None:
            return I.fresh(T('arr', T('list', *[one(x) for x in qq.args])))
        return I.fresh(one(qq))

    def f_numpy_quantile(self, I, d):
        return self._quantile(I, d, 'numpy.quantile')

    def f_numpy_nanquantile(self, I, d):
        return self._quantile(I, d, 'numpy.nanquantile')

    def f_numpy_percentile(self, I, d):
        return self._quantile(I, d, 'numpy.percentile')

    def f_numpy_nanpercentile(self, I, d):
        return self._quantile(I, d, 'numpy.nanpercentile')

    def f_numpy_diff(self, I, d):
        t = self.arr_t(I.read(d['a']))
        ax = I.read(d['axis']) if 'axis' in d else const(-1)
        r = rank(t)
        if 'n' in d and I.read(d['n']) is not ONE or r is None or not is_int(ax):
            return I.fresh(T('call', 'numpy.diff', tuple(sorted((k, I.read(v)) for k, v in d.items()))))
        p = cval(ax) % r
        hi = self.gi(t, T('tuple', *([FULL] * p + [T('slice', ONE, NONE, NONE)])))
        lo = self.gi(t, T('tuple', *([FULL] * p + [T('slice', NONE, const(-1), NONE)])))
        return I.fresh(lift_lay(sub(hi, lo)))

    def f_numpy_trapezoid(self, I, d):
        y = self.arr_t(I.read(d['y']))
        ax = I.read(d['axis']) if 'axis' in d else const(-1)
        r = rank(y)
        x = I.read(d['x']) if 'x' in d else NONE
        if r is None or not is_int(ax) or x is NONE or rank(x) != 1:
            return I.fresh(T('call', 'numpy.trapezoid', tuple(sorted((k, I.read(v)) for k, v in d.items()))))
        p = cval(ax) % r
        dx = sub(self.gi(x, T('slice', ONE, NONE, NONE)), self.gi(x, T('slice', NONE, const(-1), NONE)))
        n = sub(dims(x)[0], ONE)
        dxr = self.reshape_t(I, dx, T('tuple', *[n if z == p else ONE for z in range(r)]))
        hi = self.gi(y, T('tuple', *([FULL] * p + [T('slice', ONE, NONE, NONE)])))
        lo = self.gi(y, T('tuple', *([FULL] * p + [T('slice', NONE, const(-1), NONE)])))
        return I.fresh(mul(const(Fraction(1, 2)), self.red_t('numpy.sum', mul(dxr, add(hi, lo)), const(p))))

    f_numpy_trapz = f_numpy_trapezoid

    def f_numpy_shape(self, I, d):
        return I.getattr(I.fresh(self.arr_t(I.read(d['a']))), 'shape')

    def f_numpy_ndim(self, I, d):
        r = rank(self.arr_t(I.read(d['a'])))
        return Val(const(r)) if r is not None else Val(T('attr', I.read(d['a']), 'ndim'))

    def f_numpy_size(self, I, d):
        dd = dims(self.arr_t(I.read(d['a'])))
        return Val(prod(dd)) if dd is not None else Val(T('attr', I.read(d['a']), 'size'))

    def f_numpy_isscalar(self, I, d):
        t = I.read(d['x'])
        k = kind(t)
        return Val(const(k in ('int', 'float', 'str', 'bool', 'num'))) if k != 'any' else Val(T('truth', T('call', 'numpy.isscalar', (('x', t),))))

    def f_numpy_atleast_1d(self, I, d):
        t = self.arr_t(I.read(d['a']))
        if dims(t) == ():
            return I.fresh(T('arr', T('list', t)))
        return d['a'] if kind(I.read(d['a'])) == 'ndarray' else I.fresh(t)

    def f_numpy_broadcast_to(self, I, d):
        return I.fresh(self.mkfull(I, I.read(d['shape']), I.read(d['array'])))

    def f_numpy_repeat(self, I, d):
        return I.fresh(T('call', 'numpy.repeat', tuple(sorted((k, I.read(v)) for k, v in d.items()))))

    def f_numpy_copyto(self, I, d):
        o = d['dst']
        t = I.read(d['src'])
        if 'where' in d:
            t = where(I.read(d['where']), t, I.read(o))
        elif dims(t) == () and dims(I.read(o)):
            t = self.mkfull(I, T('tuple', *dims(I.read(o))), t)
        I.write_cell(o.loc, t, 'copyto')
        return VNONE

    def f_numpy_put(self, I, d):
        o = d['a']
        I.write_cell(o.loc, T('store', I.read(o), I.read(d['ind']), I.read(d['v'])), 'put')
        return VNONE

    def f_numpy_nan_to_num(self, I, d):
        t = I.read(d['x'])
        if 'copy' in d and I.read(d['copy']) is FALSE and isinstance(d['x'], Ref):
            I.write_cell(d['x'].loc, T('call', 'numpy.nan_to_num', (('x', t),)), 'nan_to_num')
            return d['x']
        return I.fresh(T('call', 'numpy.nan_to_num', (('x', t),) + ((('nan', I.read(d['nan'])),) if 'nan' in d else ())))

    def f_numpy_meshgrid(self, I, d):
        raise Unsupported('meshgrid')

    def f_numpy_bool_(self, I, d):
        return Val(I.truth(d['x']))

    def f_numpy_int64(self, I, d):
        return Val(self.to_int(I, I.read(d['x'])))

    def apply_along(self, I, f, axis, a, extra, kw):
        t = self.arr_t(I.read(a))
        ax = I.read(axis)
        r = rank(t)
        if r is None or not is_int(ax):
            raise Unsupported('apply_along_axis of unknown rank')
        p = cval(ax) % r
        d = dims(t)
        rest = [d[z] for z in range(r) if z != p]
        mv = self.perm_t(t, [p] + [z for z in range(r) if z != p])
        K = prod(rest)
        flat = self.reshape_t(I, mv, T('tuple', d[p], K))
        src = I.fresh(flat)
        if isinstance(a, Ref):
            c = I.cell(src) if isinstance(src, Ref) else None
            if c is not None:
                I.S.heap[src.loc] = Cell('arr', c.data, alias=(a.loc,))
        if is_int(K) and cval(K) <= 1:
            res = I.new(Cell('list', (I.call(f, [I.fresh(self.gi(flat, T('tuple', FULL, ZERO)))] + list(extra), kw),)))
        else:
            res = self.lib.map_sym(I, K, lambda i: I.fresh(self.gi(flat, T('tuple', FULL, i))), False, lambda v: I.call(f, [v] + list(extra), kw))
        m = self.arr_t(I.read(res))
        rm = rank(m)
        if rm is None:
            return I.fresh(T('call', 'numpy.apply_along', (('a', m), ('axis', const(p)), ('rest', T('tuple', *rest)))))
        dm = dims(m)
        # m: (K, *res) -> rest split around p
        y = self.reshape_t(I, m, T('tuple', *(list(rest) + list(dm[1:]))))
        nr = len(dm) - 1
        k = len(rest)
        order = list(range(p)) + list(range(k, k + nr)) + list(range(p, k))
        if rank(y) is None:
            return I.fresh(T('call', 'numpy.apply_along', (('a', m), ('axis', const(p)), ('rest', T('tuple', *rest)))))
        return I.fresh(self.perm_t(y, order))

    def f_properscoring_crps_ensemble(self, I, d):
        k = {a: I.read(v) for a, v in d.items()}
        ax = k.pop('axis', const(-1))
        f = k['forecasts']
        I.event(('call', 'crps_ensemble'))
        if ax.op == 'ite':
            return I.branch(ax.args[0], lambda: self.f_properscoring_crps_ensemble(I, dict(d, axis=I.fresh(ax.args[1]))),
                            lambda: self.f_properscoring_crps_ensemble(I, dict(d, axis=I.fresh(ax.args[2]))))
        if rank(f) is not None and is_int(ax):
            k['forecasts'] = self.moveaxis_t(I, f, ax, const(-1))
            df, do = dims(k['forecasts']), dims(k['observations'])
            if do is not None and df[:-1] != do:
                if any(bool(is_int(x)) for x in df + do) is False:
                    I.raise_leaf('ValueError', 'crps_ensemble shapes')
        else:
            k['axis'] = ax
        for x in ('weights', 'issorted'):
            if k.get(x, NONE) in (NONE, FALSE):
                k.pop(x, None)
        return I.fresh(T('call', 'properscoring.crps_ensemble', tuple(sorted(k.items()))))

    def f_numpy_digitize(self, I, d):
        """bins are a parameter, not a broadcast operand"""
        x, b = self.arr_t(I.read(d['x'])), self.arr_t(I.read(d['bins']))
        k = [('bins', T('box', b)), ('x', x)]
        if 'right' in d and I.read(d['right']) is not FALSE:
            k.insert(1, ('right', I.read(d['right'])))
        return I.fresh(lift_lay(T('call', 'numpy.digitize', tuple(k))))

    def f_numpy_searchsorted(self, I, d):
        k = {a: I.read(v) for a, v in d.items()}
        if k.get('sorter', NONE) is NONE and k.get('side', const('left')).op == 'const' and rank(k['a']) == 1 and 'v' in k:
            r = [('right', TRUE)] if k.get('side', const('left')) is const('left') else []
            return I.fresh(lift_lay(T('call', 'numpy.digitize', tuple([('bins', T('box', self.arr_t(k['a'])))] + r + [('x', self.arr_t(k['v']))]))))
        return I.fresh(T('call', 'numpy.searchsorted', tuple(sorted(k.items()))))

    def f_tensorflow_math_igamma(self, I, d):
        """regularised lower incomplete gamma function = gamma distribution function (for x >= 0, as documented)"""
        return I.fresh(self.dist_t('gamma', 'cdf', I.read(d['x']), {'a': self.arr_t(I.read(d['a']))}))

    def f_tensorflow_stack(self, I, d):
        return I.fresh(T('tfstack', self.f_numpy_stack_t(I, d), I.read(d['axis']) if 'axis' in d else ZERO))

    def f_numpy_stack_t(self, I, d):
        xs = self.lib.iterate(I, d['values'])
        if not isinstance(xs, list):
            raise Unsupported('tensorflow.stack of an abstract sequence')
        return T('tuple', *[self.arr_t(I.read(x)) for x in xs])

    def f_tensorflow_math_lbeta(self, I, d):
        t = I.read(d['x'])
        if t.op != 'tfstack' or t.args[0].op != 'tuple' or not is_int(t.args[1]):
            raise Unsupported('tensorflow.math.lbeta')
        xs = t.args[0].args
        if cval(t.args[1]) not in (-1, max(rank(x) or 0 for x in xs)):
            raise Unsupported('tensorflow.math.lbeta not along the stacked axis')
        xs = self.defull(list(xs))
        g = lambda x: self.ew('scipy.special.gammaln', x)
        return I.fresh(sub(sum_terms([g(x) for x in xs]), g(sum_terms(xs))))

    def f_properscoring_crps_gaussian(self, I, d):
        k = {a: I.read(v) for a, v in d.items()}
        I.event(('call', 'crps_gaussian'))
        if k.get('grad', FALSE) is FALSE:
            k.pop('grad', None)
        return I.fresh(T('call', 'properscoring.crps_gaussian', tuple(sorted(k.items()))))

    def f_distutils_util_strtobool(self, I, d):
        return Val(self.strtobool(I, I.read(d['val'])))

    def strtobool(self, I, t):
        if t.op == 'ite':
            return ite(t.args[0], self.strtobool(I, t.args[1]), self.strtobool(I, t.args[2]))
        if is_strc(t):
            v = cval(t).lower()
            if v in ('y', 'yes', 't', 'true', 'on', '1'):
                return const(1)
            if v in ('n', 'no', 'f', 'false', 'off', '0'):
                return const(0)
            I.raise_leaf('ValueError', 'strtobool(%r)' % cval(t))
        if is_const(t):
            I.raise_leaf('AttributeError', 'strtobool of non-string')
        if t.op == 'tostr' and kind(t.args[0]) in ('bool', 'int'):
            return t.args[0]
        return T('call', 'strtobool', (('val', t),))

    # ---------------------------------------------------------- random
    def draw(self, I, fn, k):
        I.effect('draw', fn)
        return mkdraw(fn, tuple(sorted(k.items())), tuple(i for i, _ in I.loops), tm.Uid())

    def size_t(self, I, k):
        s = k.get('size', NONE)
        if s is NONE:
            k.pop('size', None)
            return
        sh = shape_arg(s)
        if sh is not None:
            k['size'] = T('tuple', *sh)

    def rand(self, I, q, args, kwargs, rng=None):
        n = q.split('.')[-1]
        if q in SIG:
            d = self.bindsig(I, q, args, kwargs)
        elif n in ('rand', 'randn'):
            d = {'size': Tup(args)} if args else {}
        else:
            d = dict([(str(j), a) for j, a in enumerate(args)] + list(kwargs.items()))
        k = {a: I.read(v) for a, v in d.items()}
        k.pop('dtype', None)
        if rng is not None and rng is not NONE:
            k['rng'] = rng
        self.size_t(I, k)
        if n == 'choice':
            a = k.pop('a')
            a = self.arr_t(a) if a.op in ('list', 'tuple', 'map') else a
            rep = k.pop('replace', TRUE)
            if a.op == 'call' and a.args[0] == 'numpy.arange' and dict(a.args[1]).get('start', ZERO) is ZERO and 'step' not in dict(a.args[1]):
                a = dict(a.args[1])['stop']
            if a.op == 'range':
                if a.args[0] is ZERO and a.args[2] is ONE:
                    a = a.args[1]
                else:
                    a = self.arr_t(a)
            if k.get('p', NONE) is NONE:
                k.pop('p', None)
            isint = kind(a) == 'int' or (dims(a) == ())
            hi = a if isint else self.lib.len_t(I, a)
            if rep is TRUE and 'p' not in k:
                t = self.draw(I, 'randint', dict(k, low=ZERO, high=hi))
            else:
                t = self.draw(I, 'choice', dict(k, low=ZERO, high=hi, replace=rep))
            return I.fresh(t if isint else self.gi(a, t))
        if n in ('randint', 'integers'):
            lo, hi = k.get('low', ZERO), k.get('high', NONE)
            if hi is NONE:
                lo, hi = ZERO, lo
            if k.pop('endpoint', FALSE) is TRUE:
                hi = add(hi, ONE)
            return I.fresh(self.draw(I, 'randint', dict(k, low=lo, high=hi)))
        if n in ('random', 'rand'):
            return I.fresh(self.draw(I, 'rvs:uniform', dict(k, loc=ZERO, scale=ONE)))
        if n == 'uniform':
            lo, hi = k.pop('low', ZERO), k.pop('high', ONE)
            return I.fresh(self.draw(I, 'rvs:uniform', dict(k, loc=lo, scale=sub(hi, lo))))
        if n in ('normal', 'standard_normal', 'randn'):
            return I.fresh(self.draw(I, 'rvs:norm', dict(k, loc=k.get('loc', ZERO), scale=k.get('scale', ONE))))
        if n == 'gamma':
            return I.fresh(self.draw(I, 'rvs:gamma', {kk: v for kk, v in dict(k, a=k['shape'], loc=ZERO, scale=k.get('scale', ONE)).items() if kk != 'shape'}))
        if n == 'permutation':
            x = k['x']
            return I.fresh(self.draw(I, 'permutation', k))
        return I.fresh(self.draw(I, n, k))

    def shuffle(self, I, v):
        t = I.read(v)
        I.write_cell(v.loc, T('draw', 'permutation', (('x', t),), tuple(i for i, _ in I.loops), tm.Uid()), 'shuffle')
        return VNONE

    # ---------------------------------------------------------- distributions
    def shapes_of(self, I, fam):
        if fam in FAM:
            return FAM[fam]
        return self.custom[fam]

    custom = {}

    def params(self, I, fam, args, kwargs):
        names = self.shapes_of(I, fam) + ['loc', 'scale']
        d = {}
        for n, a in zip(names, args):
            d[n] = I.read(a)
        for k, a in kwargs.items():
            d[k] = I.read(a)
        d.setdefault('loc', ZERO)
        d.setdefault('scale', ONE)
        return d

    def frozen(self, I, fam, args, kwargs):
        d = self.params(I, fam, args, kwargs)
        return Val(T('frozen', fam, tuple(sorted(d.items()))))

    def dist_t(self, fam, meth, x, d):
        d = dict(d)
        loc, sc = d.pop('loc', ZERO), d.pop('scale', ONE)
        if meth in ('cdf', 'sf', 'pdf', 'logpdf', 'logcdf', 'logsf'):
            x = self.arr_t(x)
            z = lift_lay(_arr.npoly(div(sub(x, loc), sc)))
            ks = list(d.items())
            vs = self.defull([z] + [v for _, v in ks])
            z = vs[0]
            ks = [(k, v) for (k, _), v in zip(ks, vs[1:])]

            def D(m, zz):
                return T('dist', fam, m, tuple(sorted([('z', zz)] + ks)))
            if meth in ('cdf', 'sf'):
                flip = False
                if fam in ('norm', 't') and z.op == 'poly' and z.args[0][0][1] < 0:
                    z = neg(z)
                    flip = True
                c = lift_lay(D('cdf', z))
                if (meth == 'sf') != flip:
                    return lift_lay(sub(ONE, c))
                return c
            if meth == 'pdf':
                if fam in ('norm', 't') and z.op == 'poly' and z.args[0][0][1] < 0:
                    z = neg(z)
                return lift_lay(div(D('pdf', z), sc))
            return D(meth, z) if sc is ONE else T('dist', fam, meth, tuple(sorted([('z', z), ('scale', sc)] + ks)))
        if meth in ('ppf', 'isf'):
            if meth == 'isf':
                x = sub(ONE, x)
            return lift_lay(add(loc, mul(sc, T('dist', fam, 'ppf', tuple(sorted([('z', x)] + list(d.items())))))))
        if fam == 'norm' and meth in ('mean', 'std', 'var', 'median'):
            return {'mean': loc, 'median': loc, 'std': sc, 'var': power(sc, 2)}[meth]
        if fam == 'gamma' and meth in ('mean', 'var', 'std'):
            v = mul(d['a'], power(sc, 2))
            return {'mean': add(loc, mul(d['a'], sc)), 'var': v, 'std': power(v, Fraction(1, 2))}[meth]
        return T('dist', fam, meth, tuple(sorted([('loc', loc), ('scale', sc)] + list(d.items()))))

    def dist_call(self, I, fam, meth, args, kwargs, pre=None):
        """method of a distribution: pre = frozen parameters"""
        args = list(args)
        kwargs = dict(kwargs)
        I.event(('dist', fam + '.' + meth))
        if meth in XM:
            nm = XM[meth]
            if nm in kwargs:
                x = I.read(kwargs.pop(nm))
            elif 'k' in kwargs and False:
                x = None
            elif args:
                x = I.read(args.pop(0))
            else:
                I.raise_leaf('TypeError', 'missing x')
            d = dict(pre) if pre is not None else self.params(I, fam, args, kwargs)
            return I.fresh(self.dist_t(fam, meth, x, d))
        if meth == 'rvs':
            if pre is not None:
                d = dict(pre)
                sz = args[0] if args else kwargs.get('size')
            else:
                names = self.shapes_of(I, fam) + ['loc', 'scale', 'size']
                d = {n: I.read(a) for n, a in zip(names, args)}
                d.update({k: I.read(a) for k, a in kwargs.items()})
                sz = None
                if 'size' in d:
                    sz = Val(d.pop('size'))
                d.setdefault('loc', ZERO)
                d.setdefault('scale', ONE)
            d.pop('random_state', None)
            if 'random_state' in kwargs and I.read(kwargs['random_state']) is not NONE:
                d['rng'] = I.read(kwargs['random_state'])
            if sz is not None and I.read(sz) is not NONE:
                s = I.read(sz)
                d['size'] = T('tuple', *shape_arg(s)) if shape_arg(s) is not None else s
            return I.fresh(self.draw(I, 'rvs:' + fam, d))
        d = dict(pre) if pre is not None else self.params(I, fam, args, kwargs)
        return I.fresh(self.dist_t(fam, meth, None, d))

    def inst_method(self, I, r, name, args, kwargs):
        info = I.cell(r).data[0]
        eb = info.ext_bases()
        if any(b.endswith('rv_continuous') for b in eb):
            fam = info.mod + '.' + info.name
            own, f = info.lookup('_cdf')
            if f is None:
                own, f = info.lookup('_pdf')
            if f is None:
                raise Unsupported('custom distribution without _cdf/_pdf')
            self.custom[fam] = [a.arg for a in f.node.args.args][2:]
            if name == '__call__' or name == 'freeze':
                return self.frozen(I, fam, args, kwargs)
            return self.dist_call(I, fam, name, args, kwargs)
        if name in ('__init__', '__enter__', '__exit__'):
            return VNONE
        raise Unsupported('method %s of %s' % (name, info.name))

    # ---------------------------------------------------------- methods of values
    ASFUNC = {'mean', 'sum', 'max', 'min', 'var', 'std', 'any', 'all', 'prod', 'argmax', 'argmin', 'ptp', 'argsort', 'cumsum', 'cumprod', 'clip', 'ravel',
              'squeeze', 'swapaxes', 'copy', 'nonzero', 'take', 'round', 'repeat', 'searchsorted', 'dot'}

    def method(self, I, r, t, name, args, kwargs):
        if t.op == 'ite' and kind(t) not in ('ndarray',):
            c, x, y = t.args
            return I.branch(c, lambda: I.call(I.getattr(I.fresh(x), name), args, kwargs), lambda: I.call(I.getattr(I.fresh(y), name), args, kwargs))
        if t.op == 'frozen':
            return self.dist_call(I, t.args[0], name, args, kwargs, pre=dict(t.args[1]))
        if name == 'numpy' and not args and dims(t) is not None:
            return r        # tensor to array
        if t.op == 'rng':
            return self.rand(I, 'numpy.random.' + name, args, kwargs, rng=t.args[0])
        s = self.lib.sys.method(I, r, t, name, args, kwargs)
        if s is not None:
            return s
        if t is NONE:
            I.raise_leaf('AttributeError', name)
        k = kind(t)
        if k in ('ndarray', 'num', 'int', 'float', 'bool') or dims(t) is not None:
            if name in self.ASFUNC:
                return self.ext_call(I, 'numpy.' + name, [r] + list(args), kwargs)
            if name == 'flatten':
                o = I.read(args[0]) if args else I.read(kwargs['order']) if 'order' in kwargs else NONE
                return I.fresh(self.ravel_t(I, t, o))
            if name == 'reshape':
                if len(args) == 1:
                    sh = args[0]
                else:
                    sh = Tup(args)
                kw = {kk: v for kk, v in kwargs.items()}
                if 'shape' in kw:
                    sh = kw.pop('shape')
                return self.ext_call(I, 'numpy.reshape', [r, sh], kw)
            if name == 'transpose':
                if not args:
                    return self.f_numpy_transpose(I, {'a': r})
                ax = args[0] if len(args) == 1 and not (isinstance(args[0], Val) and is_int(I.read(args[0]))) else Tup(args)
                return self.f_numpy_transpose(I, {'a': r, 'axes': ax})
            if name == 'astype':
                x = I.read(args[0] if args else kwargs['dtype'])
                return I.fresh(self.astype_t(t, x))
            if name == 'tolist':
                return I.fresh(T('tolist', t)) if k == 'ndarray' else Val(t)
            if name == 'item':
                return Val(t if dims(t) == () else T('call', 'item', (('a', t),)))
            if name == 'fill':
                I.write_cell(r.loc, self.mkfull(I, T('tuple', *dims(t)), I.read(args[0])), 'fill')
                return VNONE
            if name == 'sort':
                ax = I.read(args[0]) if args else I.read(kwargs['axis']) if 'axis' in kwargs else const(-1)
                rr = rank(t)
                if rr is not None and is_int(ax):
                    ax = const(cval(ax) % rr)
                I.write_cell(r.loc, T('call', 'numpy.sort', (('a', t), ('axis', ax))), 'sort')
                return VNONE
            if name in ('flush', 'close', 'setflags'):
                return VNONE
            if name == 'view':
                return r
            if name == 'is_integer':
                return Val(T('truth', T('mcall', t, name, (), ())))
        if name in ('fit', 'partial_fit') and isinstance(r, Ref):
            I.event(('fit', ''))
            I._set_content(r.loc, T('mcall', t, 'fit', tuple(I.read(a) for a in args), tuple(sorted((kk, I.read(a)) for kk, a in kwargs.items()))))
            return r
        I.event(('mcall', name))
        ks = tuple(sorted((kk, I.read(a)) for kk, a in kwargs.items()))
        res = T('mcall', t, name, tuple(I.read(a) for a in args), ks)
        return I.fresh(res)


def _re_call(q, kws):
    NP = _SINGLE[0]
    k = dict(kws)
    if q in RED and NP is not None and 'a' in k:
        a, ax = k.pop('a'), k.pop('axis', NONE)
        return NP.red_t(q, a, ax, tuple(sorted(k.items())))
    if NP is not None and q in EW_CALLS and len(kws) == 1:
        return NP.ew(q, kws[0][1])
    if q in _arr.COLWISE:
        return _arr.colcall(q, k)
    if q == 'numpy.full':
        s = shape_arg(k['shape'])
        if s == ():
            return k['fill_value']
    if q in ('numpy.sum', 'numpy.nansum', 'numpy.nanmean') and k['a'].op == 'poly' and k['a'].args[0][0][1] < 0:
        k['a'] = neg(k['a'])
        return neg(T('call', q, tuple((n, k[n]) for n, _v in kws)))
    if q == 'int':
        if is_int(k['x']) or kind(k['x']) == 'int':
            return k['x']
        if is_strc(k['x']):
            try:
                return const(int(cval(k['x'])))
            except ValueError:
                pass
    if q == 'float' and is_strc(k['x']):
        try:
            return const(float(cval(k['x'])))
        except ValueError:
            pass
    if q == 'strtobool' and is_strc(k['val']):
        v = cval(k['val']).lower()
        if v in ('y', 'yes', 't', 'true', 'on', '1'):
            return ONE
        if v in ('n', 'no', 'f', 'false', 'off', '0'):
            return ZERO
    return T('call', q, kws)


def _re_bigsum(n, body):
    """the sign (constant factor) of the summand moves out"""
    if body.op == 'poly' and len(body.args[0]) == 1 and body.args[0][0][1] != 1:
        c = body.args[0][0][1]
        return mul(const(c), T('bigsum', n, mul(const(1 / c), body)))
    return T('bigsum', n, body)


REBUILD['bigsum'] = _re_bigsum
_SINGLE = [None]
_arr.CONCAT.append(lambda els, ax: _SINGLE[0].concat(els, ax))
_arr.RANK_EQ.append(lambda a, b: _SINGLE[0].rank_eq(a, b))
ITEMWISE = ('randint', 'rvs:uniform', 'rvs:norm')


def expand_tail(w, r):
    for _ in range(r):
        w = expand_at(w, rank(w))
    return w


def mkdraw(fn, ks, loops, uid):
    """a random draw; a shifted (scaled) uniform draw is the shift plus (the scale times) a plain one"""
    loops = tuple(sorted(loops, key=lambda z: z.k))
    k = dict(ks)
    if fn == 'randint' and k.get('low', ZERO) is not ZERO or fn == 'rvs:uniform' and not (k.get('loc') is ZERO and k.get('scale') is ONE):
        d = dims(T('draw', fn, ks, loops, uid))
        if d is not None:
            k.pop('size', None)
            if d:
                k['size'] = T('tuple', *d)
            if fn == 'randint':
                lo = k['low']
                k['high'], k['low'] = sub(k['high'], lo), ZERO
                r = add(lo, T('draw', fn, tuple(sorted(k.items())), loops, uid))
            else:
                lo, sc = k.get('loc', ZERO), k.get('scale', ONE)
                k['loc'], k['scale'] = ZERO, ONE
                r = add(lo, mul(sc, T('draw', fn, tuple(sorted(k.items())), loops, uid)))
            if dims(r) == d:
                return r
            k = dict(ks)
    if fn in ITEMWISE and k.get('size', NONE) is NONE:
        d = dims(T('draw', fn, ks, loops, uid))
        if d:
            k['size'] = T('tuple', *d)
    if k.get('size', NONE) is NONE or shape_arg(k['size']) == ():
        k.pop('size', None)
    return T('draw', fn, tuple(sorted(k.items())), loops, uid)


REBUILD['call'] = _re_call


def _re_binv(t):
    return _SINGLE[0].binv(t)


REBUILD['binv'] = _re_binv
REBUILD['draw'] = mkdraw
REBUILD['pearson'] = lambda a, b: T('pearson', *sorted((a, b), key=lambda z: z.k))


def _re_bool(nm):
    def f(*args):
        o = args[0]
        for x in args[1:]:
            o = _SINGLE[0].boolop(nm, o, x)
        return o
    return f


def _re_cmp(op):
    return lambda a, b: _SINGLE[0].cmpn(op, a, b)


for _n in ('band', 'bor', 'bxor'):
    REBUILD[_n] = _re_bool(_n)
for _n in ('eq', 'ne', 'lt', 'le'):
    REBUILD[_n] = _re_cmp(_n)


def _re_dist(fam, meth, ks):
    if fam in ('norm', 't') and meth in ('cdf', 'pdf'):
        d = dict(ks)
        z = d['z']
        if z.op == 'poly' and z.args[0][0][1] < 0:
            d['z'] = neg(z)
            c = T('dist', fam, meth, tuple(sorted(d.items())))
            return c if meth == 'pdf' else sub(ONE, c)
    return T('dist', fam, meth, ks)


REBUILD['dist'] = _re_dist


REBUILD['getitem'] = lambda x, i: _SINGLE[0].gi(x, i) if _SINGLE[0] else getitem(x, i)


def _re_arr(t):
    if t.op in ('list', 'tuple', 'map', 'perm', 'cat', 'fmap', 'flatmap', 'append') and _SINGLE[0]:
        return _SINGLE[0].mkarr(t)
    return T('arr', t)


REBUILD['arr'] = _re_arr


def _re_map(n, body):
    if is_int(n) and 0 <= cval(n) <= 12:
        h = tm.height(T('map', n, body))
        return T('list', *[inst(body, h, (const(j),)) for j in range(cval(n))])
    return T('map', n, body)


REBUILD['map'] = _re_map
