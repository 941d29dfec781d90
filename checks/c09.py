"""C09: probabilities stay in [0, 1]"""
from fractions import Fraction
from checks.common import *
from vsa.arr import dims, norm_axis
from vsa import terms as tm

RULE = ('The term of cdf()/sharpness() of every family and estimation method is abstractly evaluated in the interval domain (clips, means of indicators, joins, '
        'affine combinations); the interval must lie in [0, 1] whatever the inputs and parameters.')
ASSUMPTIONS = ['NaN inputs give NaN, which is outside the claim']
INF = float('inf')


def iv(t, memo=None):
    memo = {} if memo is None else memo
    if t not in memo:
        memo[t] = (-INF, INF)
        memo[t] = _iv(t, memo)
    return memo[t]


def hull(xs):
    return min(x[0] for x in xs), max(x[1] for x in xs)


def mulc(c, x):
    a, b = (c * x[0] if x[0] not in (INF, -INF) else (x[0] if c > 0 else -x[0])), (c * x[1] if x[1] not in (INF, -INF) else (x[1] if c > 0 else -x[1]))
    return (a, b) if c > 0 else (b, a)


def _iv(t, memo):
    op = t.op
    if op == 'const':
        v = t.args[0]
        if isinstance(v, (bool, int, float, Fraction)):
            return (v, v)
        return (-INF, INF)
    if op in ('lt', 'le', 'eq', 'ne', 'band', 'bor', 'bxor', 'binv', 'not', 'and', 'or', 'truth', 'xor'):
        return (0, 1)
    if op == 'min2':
        a, b = iv(t.args[0], memo), iv(t.args[1], memo)
        return min(a[0], b[0]), min(a[1], b[1])
    if op == 'max2':
        a, b = iv(t.args[0], memo), iv(t.args[1], memo)
        return max(a[0], b[0]), max(a[1], b[1])
    if op in ('where', 'ite'):
        return hull([iv(t.args[1], memo), iv(t.args[2], memo)])
    if op in ('lay', 'arr', 'psum', 'opow'):
        return iv(t.args[0], memo)
    if op == 'getitem':
        return iv(t.args[0], memo)
    if op == 'map':
        return iv(t.args[1], memo)
    if op in ('list', 'tuple'):
        return hull([iv(a, memo) for a in t.args]) if t.args else (-INF, INF)
    if op == 'dist' and t.args[1] == 'cdf':
        return (0, 1) if '.' not in t.args[0] else (-INF, INF)
    if op == 'call' and t.args[0] in ('numpy.mean', 'numpy.max', 'numpy.min', 'numpy.full', 'numpy.reshape', 'numpy.concatenate'):
        k = dict(t.args[1])
        for n in ('a', 'fill_value', 'arrays'):
            if n in k:
                return iv(k[n], memo)
    if op == 'poly':
        lo = hi = 0
        for m, c in t.args[0]:
            x = mono(m, memo)
            x = mulc(c, x)
            lo, hi = lo + x[0], hi + x[1]
        return lo, hi
    return (-INF, INF)


def mono(m, memo):
    if not m:
        return (1, 1)
    # mean: sum(x, axis) / (extents of those axes)
    sums = [(a, e) for a, e in m if e == 1 and a.op == 'call' and a.args[0] in ('numpy.sum', 'numpy.count_nonzero')]
    rest = [(a, e) for a, e in m if not (e == 1 and a.op == 'call' and a.args[0] in ('numpy.sum', 'numpy.count_nonzero'))]
    if len(sums) == 1:
        k = dict(sums[0][0].args[1])
        d = dims(k['a'])
        if d is not None:
            ax = norm_axis(k.get('axis', NONE), len(d))
            if ax != 'unk':
                ext = {}
                for p in (range(len(d)) if ax is None else ax):
                    for mm, cc in tm._aspoly(d[p]).items():
                        if len(tm._aspoly(d[p])) == 1 and cc == 1:
                            for a, e in mm:
                                ext[a] = ext.get(a, 0) + e
                if {a: -e for a, e in rest} == ext:
                    x = iv(k['a'], memo)
                    return (min(x[0], 0) if x[0] == -INF else x[0], x[1])
    if len(m) == 1 and m[0][1] == 1:
        return iv(m[0][0], memo)
    return (-INF, INF)


def bounded(C, cls, meth, kw, want_metric, **obj):
    c = Case(C, cls, obj.pop('rank', 2), None, **obj)
    got = c.got(meth, **kw)
    lo, hi = iv(got)
    if lo >= 0 and hi <= 1:
        return 'values in [%s, %s]: %s' % (lo, hi, show(got, 5)[:200])
    require_equal(got, c.want(want_metric, **kw), '%s.%s can leave [0, 1]: derived interval [%s, %s]' % (cls, meth, lo, hi), where=anchor(C, cls, 'cdf'))
    raise Undecided('interval [%s, %s] not inside [0, 1]' % (lo, hi))


def array_threshold(C, cls, rank, **obj):
    c = Case(C, cls, rank, None, **obj)
    got = value(c.s.do(lambda s: s.I.call(s.I.getattr(s.obj, '_cdf'), [], {'below': s.o})), cls + '._cdf')
    lo, hi = iv(got)
    if lo >= 0 and hi <= 1:
        return 'values in [%s, %s]' % (lo, hi)
    require_equal(got, c.P(below=A('o', shape(rank))), '%s._cdf(array threshold) can leave [0, 1]' % cls, where=anchor(C, cls, 'cdf'))
    raise Undecided('interval [%s, %s] not inside [0, 1]' % (lo, hi))


def run(C):
    ranks = (1, 2) if C.tier == 'quick' else (1, 2, 3)
    for rank in ranks:
        for w in ('1', '4'):
            for kw in (dict(over=T0), dict(below=T0)):
                for cls, obj, tag in [('VerifyEnsemble', {}, ''), ('VerifyEnsemble', dict(ens=0), ' members first'),
                                      ('VerifyEnsemble', dict(env_=dict(ens_to_prob_method='kde')), ' kde'), ('VerifyProbGaussian', {}, ''),
                                      ('VerifyProbGaussian', dict(trunc=True), ' truncated'), ('VerifyProbGamma', {}, ''), ('VerifyProbGamma', dict(trunc=True), ' truncated'),
                                      ('VerifyProbGammaHurdle', {}, '')]:
                    e = dict(obj.get('env_', {}), tqdm_workers=w)
                    o2 = dict(obj, env_=e, rank=rank)
                    for m in ('cdf', 'sharpness'):
                        C.ob('%s%s.%s%s rank=%d workers=%s' % (cls, tag, m, sorted(kw), rank, w), bounded, C, cls, m, kw, m, **o2)
            for cls, obj in [('VerifyProbGaussian', {}), ('VerifyProbGaussian', dict(trunc=True)), ('VerifyProbGamma', {}), ('VerifyProbGamma', dict(trunc=True)), ('VerifyProbGammaHurdle', {})]:
                C.ob('%s%s threshold per location rank=%d workers=%s' % (cls, obj, rank, w), array_threshold, C, cls, rank, env_=dict(tqdm_workers=w), **obj)
