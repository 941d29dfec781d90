"""C13: settings have usable defaults, keep user values, and are read when used"""
import ast

from checks.common import *
from vsa.libsys import UNSET
from vsa.drive import run as drive

RULE = ('The package initialiser is interpreted abstractly in an empty environment and in environments where any one setting, or all of them, have an arbitrary user value: afterwards every setting that some function of the package reads is '
        'defined, user values are the same terms as before, and every metric has a normal result under the defaults. No module body, class body or default argument reads a setting. Every metric is interpreted on an object that '
        'was constructed (and on which the metric was computed) under other settings: result term, parallelism and buffer location must be those of an object created under the current settings.')
ASSUMPTIONS = ['os.environ is the only store of settings']


def keys(C):
    """settings that functions of the package read, by name"""
    out = {}
    for mod, tree in C.W.trees.items():
        if not mod.startswith('PyAnEn.'):
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.startswith('pyanen_') and n.value.isidentifier():
                out.setdefault(n.value, '%s:%d' % (C.W.paths[mod], n.lineno))
    if not out:
        raise Undecided('no setting is named in the package')
    return out


def names(C):
    s = set(keys(C))
    for n in ast.walk(C.W.trees['PyAnEn']):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.startswith('pyanen_') and n.value.isidentifier():
            s.add(n.value)
    return s


def initialise(C, user):
    """environment after importing the package; user: name -> term, others unset"""
    I = C.interp(env_defined=False)
    for k in names(C):
        I.S.osenv[k] = user.get(k, UNSET)

    def go():
        C.W.load(I, 'PyAnEn')
        return Val(NONE)
    r = drive(I, go)
    if not r.ok:
        raise Violated('importing the package fails: %s' % sorted({str(l.exc) for l in r.leaves}), where=str(r.leaves[0].site) if r.leaves else None)
    return r.S.osenv


def defined(C, k):
    e = initialise(C, {}).get(k, UNSET)
    if e is UNSET or occurs_unset(e):
        raise Violated('setting %s is read at %s but importing the package does not define it' % (k, keys(C)[k]), where=keys(C)[k])
    if not is_strc(e):
        raise Undecided('default of %s is not constant: %s' % (k, show(e)))
    v = cval(e)
    lit = literal(C, k)
    if lit is not None and type(lit) is float:
        v = str(lit)            # the analyser does not distinguish 1000.0 from 1000
    for how, at in parsers(C, k):
        try:
            if how == 'int':
                int(v)
            elif how == 'float':
                float(v)
            elif v.lower() not in ('y', 'yes', 't', 'true', 'on', '1', 'n', 'no', 'f', 'false', 'off', '0'):
                raise ValueError
        except ValueError:
            raise Violated('the default %r of %s cannot be parsed where it is read with %s at %s' % (v, k, how, at), where=C.W.paths['PyAnEn'])
    return '%s=%r' % (k, v)


def literal(C, k):
    for n in ast.walk(C.W.trees['PyAnEn']):
        if isinstance(n, ast.Dict):
            for a, b in zip(n.keys, n.values):
                if isinstance(a, ast.Constant) and a.value == k and isinstance(b, ast.Constant):
                    return b.value
    return None


def parsers(C, k):
    """conversions applied directly to reads of a setting"""
    for mod, tree in C.W.trees.items():
        for n in ast.walk(tree):
            if not (isinstance(n, ast.Call) and len(n.args) == 1):
                continue
            f = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', None)
            if f not in ('int', 'float', 'strtobool'):
                continue
            a = n.args[0]
            q = None
            if isinstance(a, ast.Subscript):
                q = a.slice
            elif isinstance(a, ast.Call) and a.args and isinstance(a.func, ast.Attribute) and a.func.attr in ('get', 'getenv'):
                q = a.args[0]
            if isinstance(q, ast.Constant) and q.value == k:
                yield f, '%s:%d' % (C.W.paths[mod], n.lineno)


def occurs_unset(t):
    return any(x is UNSET for x in tm.walk(t))


def kept(C, which):
    u = {k: tm.sym('user_' + k, 'str') for k in which}
    e = initialise(C, u)
    for k in which:
        if e.get(k) is not u[k]:
            raise Violated('importing the package changes the user\'s value of %s to %s' % (k, show(e.get(k), 6)), where=C.W.paths['PyAnEn'])
    return '%d user values kept' % len(which)


def default_env(C):
    return {k[len('pyanen_'):]: cval(v) for k, v in initialise(C, {}).items() if k.startswith('pyanen_') and v is not UNSET and is_strc(v)}


def usable(C, cls, rank, v, m, kw):
    env_ = dict(default_env(C), **v.get('env_', {}))
    c = Case(C, cls, rank, (0,), config=EMPTY, **dict(v, env_=env_))
    r = c.s.run(m, **kw)
    value(r, '%s.%s under the default settings' % (cls, mtag(m, kw)))
    bad = [l for l in r.leaves if l.exc in ('ValueError', 'KeyError', 'TypeError') and not l.pc]
    if bad:
        raise Violated('%s.%s under the default settings raises %s' % (cls, mtag(m, kw), bad[0].exc), where=str(bad[0].site))
    return 'normal result'


def at_import(C):
    I = C.interp()
    C.W.interp()
    log = [e for e in C.W.base.S.log if e.kind == 'env_read']
    if log:
        e = log[0]
        raise Violated('setting %s is read when the module is imported, not when it is used' % e.data[0], where='%s:%s' % e.site)
    return '%d modules read no setting when imported' % len(C.W.trees)


def signature(log):
    out = []
    for e in log:
        if e.kind in ('parallel', 'ray_init', 'memmap_create'):
            out.append((e.kind,) + tuple(e.data))
    return out


def current(C, cls, rank, v, m, kw, old, new, used):
    """object made (and used) under `old`, metric called under `new`"""
    where = anchor(C, cls, m)
    base = dict(v.get('env_', {}))
    fresh = Case(C, cls, rank, (0,), config=EMPTY, **dict(v, env_=dict(base, **new)))
    r0 = fresh.s.run(m, **kw)
    want = value(r0, '%s.%s' % (cls, mtag(m, kw)))
    sig0 = signature(r0.S.log)
    c = Case(C, cls, rank, (0,), config=EMPTY, **dict(v, env_=dict(base, **old)))

    def go(s):
        if used:
            s.meth(m, **kw)
        for k, x in new.items():
            s.I.S.osenv['pyanen_' + k] = const(str(x))
        s.mark = len(s.I.S.log)
        return s.meth(m, **kw)
    r = c.s.do(go)
    what = '%s.%s after changing %s' % (cls, mtag(m, kw), ', '.join('%s from %s to %s' % (k, old[k], new[k]) for k in new))
    got = value(r, what)
    res = require_equal(got, want, what + ' does not use the new value', where=where)
    if not any(k == 'skip_nan' for k in new):
        sig = signature(r.S.log[c.s.mark:])
        if [x[0] for x in sig] != [x[0] for x in sig0] or any(a is not b and a != b for x, y in zip(sig, sig0) for a, b in zip(x, y) if not isinstance(a, T) or x[0] == 'memmap_create'):
            raise Violated('%s still runs with the old value (%s instead of %s)' % (what, [x[0] for x in sig], [x[0] for x in sig0]), where=where)
    return res


CHANGES = [
    ('skip_nan', 'False', 'True'), ('skip_nan', 'True', 'False'), ('tqdm_workers', '1', '4'), ('tqdm_workers', '4', '1'), ('boot_confidence', '0.9', '0.5'), ('boot_repeats', '100', '200'),
    ('integrate_range_multiplier', '5', '7'), ('integrate_with_less_memory', 'False', 'True'), ('integrate_with_less_memory', 'True', 'False'), ('split_crps_ensemble_along_0', 'False', 'True'),
    ('split_crps_ensemble_along_0', 'True', 'False'), ('ens_to_prob_method', 'moments', 'kde'), ('ens_to_prob_method', 'kde', 'moments'), ('kde_bandwidth', '0.01', '0.5'), ('kde_kernel', 'gaussian', 'tophat'), ('kde_samples', '1000', '50'),
    ('kde_multiply_spread', '5', '2'), ('integrate_wdir', '', '/scratch/ib'), ('integrate_wdir', '/scratch/ib', ''), ('tqdm_map_axis', '-1', '-2'),
]


def concerned(cls, v, m, k):
    boot = 'boot' in v
    if k.startswith('boot_'):
        return boot and m not in ('f_determ', 'variance', 'cdf', 'sharpness', 'roc', 'rank_hist', 'pit', 'iou_determ', 'iou_prob', 'prob_to_ens')
    if k.startswith('integrate_'):
        return cls == 'VerifyProbGammaHurdle' and m in ('crps', 'f_determ', 'variance', 'error', 'sq_error', 'rmse', 'corr', 'binned_spread_skill')
    if k.startswith('kde_') or k == 'ens_to_prob_method':
        return cls == 'VerifyEnsemble' and m in ('cdf', 'sharpness', 'brier', 'roc', 'reliability', 'brier_decomp', 'iou_prob')
    if k == 'split_crps_ensemble_along_0':
        return cls == 'VerifyEnsemble' and m == 'crps'
    if k == 'tqdm_map_axis':
        return cls == 'VerifyEnsemble' and m == 'rank_hist'
    return True


def run(C):
    C.ob('no setting is read at import', at_import, C)
    for k in sorted(keys(C)):
        C.ob('%s is defined by importing the package' % k, defined, C, k)
    ns = sorted(names(C))
    for k in ns:
        C.ob('a user value of %s is kept' % k, kept, C, [k])
    C.ob('user values of all settings are kept', kept, C, ns)
    extra = [('VerifyEnsemble', dict(env_=dict(ens_to_prob_method='kde', tqdm_workers='4'))), ('VerifyEnsemble', dict(env_=dict(tqdm_workers='4'))), ('VerifyProbGammaHurdle', dict(env_=dict(tqdm_workers='4', integrate_with_less_memory='True')))]
    for cls, v in list(variants(C.tier)) + extra:
        for m, kw in catalog(cls, 'members' in v):
            if can(cls, v, m):
                C.ob('%s of %s works under the default settings' % (mtag(m, kw), vtag(cls, v)), usable, C, cls, 2, v, m, kw)
    for cls in CLASSES:
        for v in ({}, dict(boot=N), dict(members=KM), dict(members=KM, boot=N)):
            if 'members' in v and cls not in PROB[:2]:
                continue
            for m, kw in catalog(cls, 'members' in v):
                if not can(cls, v, m):
                    continue
                for k, a, b in CHANGES:
                    if not concerned(cls, v, m, k):
                        continue
                    o, n = {k: a}, {k: b}
                    vv = dict(v)
                    if k.startswith('kde_'):
                        vv['env_'] = dict(ens_to_prob_method='kde')
                    if k == 'integrate_wdir':
                        vv['env_'] = dict(integrate_with_less_memory='True')
                    if k == 'tqdm_map_axis':
                        vv['env_'] = dict(tqdm_workers='4')
                    for used in (False, True):
                        C.ob('%s of %s after %s %s -> %s%s' % (mtag(m, kw), vtag(cls, v), k, a, b, ' (used before)' if used else ''), current, C, cls, 2, vv, m, kw, o, n, used)

