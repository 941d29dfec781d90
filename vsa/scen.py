"""Scenarios: abstract verifier objects on symbolic inputs of a given rank."""
from .check import *
from .interp import Val, Tup, Ref, Cell, Value, Fn, Ext
from .terms import T, const

DIMS = ['n', 'm', 'k', 'q']
KEYS = {'VerifyProbGamma': ['mu', 'sigma', 'shift', 'unshifted_mu'], 'VerifyProbGaussian': ['mu', 'sigma'],
        'VerifyProbGammaHurdle': ['pop', 'mu', 'sigma']}
CLASSES = ['VerifyDeterm', 'VerifyEnsemble', 'VerifyProbGaussian', 'VerifyProbGamma', 'VerifyProbGammaHurdle']
ENV0 = dict(ens_to_prob_method='moments', kde_bandwidth='0.01', kde_kernel='gaussian', kde_samples='1000', kde_multiply_spread='5',
            boot_confidence=None, boot_repeats=None, boot_samples=None, tqdm_disable='True', tqdm_leave='False', tqdm_workers='1',
            tqdm_map_axis='-1', tqdm_chunksize='1', use_tensorflow_math='False', skip_nan='False', split_crps_ensemble_along_0='False',
            integrate_range_multiplier='5', integrate_with_less_memory='False', integrate_wdir='')


def fsym(name):
    return tm.sym(name, 'float', ())


def isym(name):
    return tm.sym(name, 'int', (), positive=True)


def lift(I, x):
    if callable(x) and not isinstance(x, (Value, T)):
        return x(I)
    if isinstance(x, Value):
        return x
    if isinstance(x, T):
        return Val(x)
    if isinstance(x, tuple):
        return Tup([lift(I, y) for y in x])
    if isinstance(x, list):
        return I.new(Cell('list', tuple(lift(I, y) for y in x)))
    if isinstance(x, dict):
        return I.new(Cell('dict', tuple((const(k), lift(I, v)) for k, v in x.items())))
    return Val(const(x))


def shape(rank):
    return tuple(dim(d) for d in DIMS[:rank])


def env(I, **kw):
    e = dict(ENV0)
    e.update(kw)
    for k, v in e.items():
        if v is not None:
            I.S.osenv['pyanen_' + k] = v if isinstance(v, T) else const(str(v))


class Sc:
    def __init__(self, C, cls, rank=2, env_=None, ens_axis=-1, config=None, **ctor):
        self.C, self.cls, self.rank = C, cls, rank
        self.I = I = C.interp(**(config or {}))
        env(I, **(env_ or {}))
        self.shape = shape(rank)
        self.ens_axis = ens_axis
        self.user = {}
        if cls == 'VerifyEnsemble':
            r = rank + 1
            p = ens_axis % r
            fs = self.shape[:p] + (dim('E'),) + self.shape[p:]
            self.f = array(I, 'f', fs)
        elif cls == 'VerifyDeterm':
            self.f = array(I, 'f', self.shape)
        elif cls in KEYS:
            self.parts = {k: array(I, k, self.shape) for k in KEYS[cls]}
            self.f = lift(I, self.parts)
        self.o = array(I, 'o', self.shape)
        self.ctor = ctor
        self.obj = None

    def make(self):
        I = self.I
        cls = self.C.W.import_name(I, 'PyAnEn.' + self.cls, self.cls)
        self.obj = I.call(cls, [self.f, self.o], {k: lift(I, v) for k, v in self.ctor.items()})
        return self.obj

    def meth(self, name, *a, **k):
        I = self.I
        return I.call(I.getattr(self.obj, name), [lift(I, x) for x in a], {q: lift(I, v) for q, v in k.items()})

    def run(self, name, *a, **k):
        """constructs the object if needed, then calls the method"""
        def th():
            if self.obj is None:
                self.make()
            return self.meth(name, *a, **k)
        return run(self.I, th)

    def do(self, fn):
        def th():
            if self.obj is None:
                self.make()
            return fn(self)
        return run(self.I, th)


def fcall(C, mod, name, args, kw=None, env_=None, I=None, config=None):
    """call a module-level function of the package (or of spec.*)"""
    if I is None:
        I = C.interp(**(config or {}))
        env(I, **(env_ or {}))
    try:
        fn = C.W.import_name(I, mod, name)
    except Dead:
        raise Vanished('%s.%s' % (mod, name))
    a = [x(I) if callable(x) and not isinstance(x, (Value, T)) else lift(I, x) for x in args]
    kws = {k: (v(I) if callable(v) and not isinstance(v, (Value, T)) else lift(I, v)) for k, v in (kw or {}).items()}
    return run(I, lambda: I.call(fn, a, kws))


def spec(C, name, *args, env_=None, **kw):
    mod, fn = name.split('.')
    r = fcall(C, 'spec.' + mod, fn, args, kw, env_=env_)
    if not r.ok:
        raise Undecided('specification %s has no normal result (%s)' % (name, r.leaves[:2]))
    if r.leaves:
        pass
    return r.term


def A(name, sh):
    """argument builder: fresh symbolic array"""
    return lambda I: array(I, name, sh)


def where_of(I):
    f, l = I.site
    return '%s:%s' % (f, l)


ORDERED = {'perm', 'arrival', 'arr', 'getitem', 'scatter', 'poly', 'bigsum', 'lay', 'slice', 'ite', 'map', 'tuple', 'list', 'tolist', 'min2', 'max2', 'opow', 'lt', 'le', 'store', 'nonefill', 'rep'}


def in_order(actual, want):
    """the term depends on the completion order of parallel tasks and is right for the order of submission"""
    found = [False]
    memo = {}

    def has(t):
        """contains a permuted list"""
        if not isinstance(t, T):
            return isinstance(t, tuple) and any([has(x) for x in t])
        if t not in memo:
            memo[t] = t.op in ('perm', 'arrival') or any([has(x) for x in t.args])
        return memo[t]
    if not has(actual):
        return False
    for t in tm.walk(actual):
        if has(t) and t.op not in ORDERED:
            if not (t.op == 'call' and t.args[0] in ('numpy.sum', 'numpy.array', 'numpy.mean', 'numpy.abs', 'numpy.sqrt')):
                return False
    sub = {}
    for _ in range(8):
        x = next((t for t in tm.walk(actual) if t.op == 'perm' and not has(t.args[0]) or t.op == 'arrival'), None)
        if x is None:
            x = next((t for t in tm.walk(actual) if t.op == 'perm'), None)
        if x is None:
            break
        actual = tm.subst(actual, {x: x.args[0]})
    return classify(actual, want) is None


def require_equal(actual, want, what, where=None, accept=()):
    """discharge / violate / leave undecided: actual must be the specified value"""
    res = classify(actual, want)
    if res is None:
        return 'equal: ' + show(want, 6)[:400]
    for alt in accept:
        if classify(actual, alt) is None:
            return 'equal (alternative form)'
    v, d = res
    if v == 'undecided':
        if in_order(actual, want):
            raise Violated('%s\nit is the specified value only when parallel tasks complete in the order of submission' % what, where=where)
        raise Undecided(d)
    raise Violated('%s\n%s' % (what, describe(d)), where=where)


def value(r, what):
    """normal result of a run, which must exist"""
    if r.ok:
        return r.term
    exc = sorted({str(l.exc) for l in r.leaves})
    raise Violated('%s never returns normally; it raises %s' % (what, exc), where=str(r.leaves[0].site) if r.leaves else None)
