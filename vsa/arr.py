"""Array algebra over terms: shapes, axis layouts, indexing, reductions.

All functions here are smart constructors: they build terms in a canonical
form so that two spellings of one computation get the same term.
"""
from fractions import Fraction
from .terms import *
from . import terms as _t

FULL = T('slice', NONE, NONE, NONE)
HOLE = sym('@hole')


def is_full(t):
    return t is FULL


# ------------------------------------------------------------------ dims
def dims(t):
    d = t._dims
    if d is None:
        d = _dims(t)
        if t.op != 'sym':
            t._dims = d if d is not None else False
    return None if d is False else d


def rank(t):
    d = dims(t)
    return None if d is None else len(d)


def bcast(ds):
    out = None
    for d in ds:
        if d is None:
            return None
        if out is None:
            out = tuple(d)
            continue
        n = max(len(out), len(d))
        a = (ONE,) * (n - len(out)) + tuple(out)
        b = (ONE,) * (n - len(d)) + tuple(d)
        r = []
        for x, y in zip(a, b):
            if x is y or y is ONE:
                r.append(x)
            elif x is ONE:
                r.append(y)
            else:
                return None
        out = tuple(r)
    return out if out is not None else ()


def prod(ts):
    r = ONE
    for x in ts:
        r = mul(r, x)
    return r


SCALAR_OPS = {'at', 'pos', 'digit', 'box', 'cut', 'len', 'isnone', 'and', 'or', 'truth', 'isinstance', 'hasattr', 'in', 'is', 'str', 'tostr', 'env'}
EW_OPS = {'lt', 'le', 'eq', 'ne', 'band', 'bor', 'bxor', 'binv', 'where', 'max2', 'min2', 'dist', 'not', 'xor'}
RED = {'numpy.mean', 'numpy.nanmean', 'numpy.sum', 'numpy.nansum', 'numpy.max', 'numpy.nanmax', 'numpy.min', 'numpy.nanmin',
       'numpy.var', 'numpy.nanvar', 'numpy.std', 'numpy.nanstd', 'numpy.median', 'numpy.nanmedian', 'numpy.any', 'numpy.all',
       'numpy.count_nonzero', 'numpy.prod', 'numpy.ptp', 'numpy.argmin', 'numpy.argmax'}
EW_CALLS = {'numpy.' + x for x in ('abs', 'sqrt', 'exp', 'log', 'isnan', 'square', 'sign', 'floor', 'ceil', 'isfinite',
                                   'log1p', 'expm1', 'sin', 'cos', 'tan', 'rint', 'round', 'astype', 'nan_to_num', 'arctanh',
                                   'power', 'log2', 'log10', 'tanh', 'copysign', 'fmax', 'fmin', 'mod', 'floor_divide', 'erf')} | \
    {'scipy.special.' + x for x in ('gamma', 'gammainc', 'gammaincinv', 'gammaincc', 'gammaln', 'xlogy', 'beta', 'betaln', 'erf',
                                    'ndtr', 'ndtri', 'loggamma', 'erfc')} | {'numpy.digitize'}


def kw(t):
    return dict(t.args[1])


def _dims(t):
    op = t.op
    if op == 'const':
        return () if not isinstance(t.args[0], str) else None
    if op == 'sym':
        i = syminfo(t)
        d = i.get('dims')
        if d is not None:
            return tuple(d)
        return () if i.get('kind') in ('int', 'float', 'bool') else None
    if op == 'poly':
        out = []
        for m, c in t.args[0]:
            for a, e in m:
                out.append(dims(a))
        return bcast(out)
    if op in ('psum', 'opow'):
        return dims(t.args[0])
    if op == 'bv':
        return ()
    if op in SCALAR_OPS:
        return ()
    if op == 'dist':
        return bcast([dims(v) for _, v in t.args[2]])
    if op in EW_OPS:
        return bcast([dims(a) for a in t.args])
    if op == 'lay':
        x, fact, groups = t.args
        return tuple(prod(fact[a][k] for a, k in g) for g in groups)
    if op == 'arr':
        return adims(t.args[0])
    if op == 'ite':
        a, b = dims(t.args[1]), dims(t.args[2])
        return a if a == b else None
    if op == 'store':
        return dims(t.args[0])
    if op == 'viewstore':
        return dims(t.args[1])
    if op == 'maybe':
        return dims(t.args[0])
    if op == 'bigsum':
        return dims(t.args[1])
    if op == 'chunk':
        d = dims(t.args[0])
        if d is None:
            return None
        ax = t.args[1]
        return d[:ax] + (ONE,) + d[ax + 1:]
    if op == 'draw':
        k = dict(t.args[1])
        s = k.get('size')
        if s is not None and s is not NONE:
            return shape_arg(s)
        base = [dims(v) for n, v in t.args[1] if n not in ('size', 'replace', 'p', 'random_state')]
        if t.args[0] in ('numpy.random.choice',):
            return ()
        return bcast(base)
    if op == 'getitem':
        return gi_dims(t.args[0], t.args[1])
    if op == 'fscatter' or op == 'scatter':
        return dims(t.args[0])
    if op in ('fold', 'last'):
        return dims(t.args[1])
    if op == 'unpackarr':
        return None
    if op == 'pearson':
        return ()
    if op == 'nz0':
        return (reduce_('numpy.sum', t.args[0], NONE),)
    if op == 'call':
        return call_dims(t)
    return None


def adims(lst):
    """dims of np.array(lst)"""
    if lst.op in ('list', 'tuple'):
        if not lst.args:
            return (ZERO,)
        d = None
        for x in lst.args:
            dx = adims(x) if x.op in ('list', 'tuple', 'map', 'perm', 'flatmap') else dims(x)
            if dx is None:
                return None
            if d is None:
                d = dx
            elif d != dx:
                return None
        return (const(len(lst.args)),) + d
    if lst.op == 'map':
        n, body = lst.args
        db = adims(body) if body.op in ('list', 'tuple', 'map', 'perm', 'flatmap') else dims(body)
        if db is None:
            return None
        return (n,) + db
    if lst.op == 'flatmap':
        d = adims(lst.args[1])
        if d is None or not d or contains(d[0], lambda z: z.op == 'bv'):
            return None
        return (mul(lst.args[0], d[0]),) + d[1:]
    if lst.op == 'perm':
        return adims(lst.args[0])
    if lst.op == 'ite':
        a, b = adims(lst.args[1]), adims(lst.args[2])
        return a if a == b else None
    if kind(lst) == 'list' or lst.op in ('fmap', 'cat'):
        return None
    return dims(lst)


def shape_arg(s):
    """shape argument term -> tuple of dims or None"""
    if s.op in ('tuple', 'list'):
        return tuple(s.args)
    if s.op == 'arr' and s.args[0].op in ('tuple', 'list'):
        return tuple(s.args[0].args)
    if kind(s) == 'int' or is_int(s):
        return (s,)
    if s.op == 'sym' and dims(s) == ():
        return (s,)
    if dims(s) == ():
        return (s,)
    return None


def norm_axis(axis, r):
    """axis term -> sorted tuple of non-negative python ints, None for all; 'unk' when not constant"""
    if axis is NONE:
        return None
    if axis.op in ('tuple', 'list'):
        ax = []
        for a in axis.args:
            if not is_int(a):
                return 'unk'
            ax.append(cval(a))
    elif is_int(axis):
        ax = [cval(axis)]
    else:
        return 'unk'
    if any(a < 0 for a in ax):
        if r is None:
            return 'unk'
        ax = [a % r if a >= -r else a for a in ax]
    ax = tuple(sorted(set(ax)))
    if r is not None and len(ax) == r:
        return None
    return ax


def axis_term(ax):
    if ax is None:
        return NONE
    return T('tuple', *[const(a) for a in ax])


def call_dims(t):
    q = t.args[0]
    k = kw(t)
    if q in RED:
        d = dims(k['a'])
        ax = k.get('axis', NONE)
        if ax is NONE:
            return ()
        if d is None:
            return None
        ax = norm_axis(ax, len(d))
        if ax == 'unk':
            return None
        if ax is None:
            return ()
        if k.get('keepdims') is TRUE:
            return tuple(ONE if i in ax else x for i, x in enumerate(d))
        return tuple(x for i, x in enumerate(d) if i not in ax)
    if q in EW_CALLS:
        return bcast([dims(v) for n, v in t.args[1] if n not in ('dtype',)])
    if q in ('numpy.full', 'numpy.empty', 'numpy.zeros', 'numpy.ones', 'numpy.broadcast_to', 'numpy.memmap', 'numpy.reshape'):
        s = shape_arg(k['shape']) if 'shape' in k else None
        if s and any(is_int(x) and cval(x) < 0 for x in s):
            return None
        return s
    if q == 'numpy.linspace':
        return (k['num'],)
    if q == 'numpy.arange':
        if 'stop' in k and k.get('start', ZERO) is ZERO and k.get('step', ONE) is ONE:
            return (k['stop'],)
        if 'stop' in k and k.get('step', ONE) is ONE:
            return (sub(k['stop'], k['start']),)
        return None
    if q in ('scipy.stats.rankdata', 'numpy.sort', 'numpy.argsort', 'numpy.cumsum'):
        return dims(k['a'])
    if q == 'numpy.take_along_axis':
        a, i = dims(k['arr']), dims(k['indices'])
        return i if a is not None and i is not None and len(a) == len(i) else None
    if q == 'numpy.searchsorted':
        return dims(k['v'])
    if q in ('numpy.quantile', 'numpy.nanquantile'):
        dq = adims(k['q']) if k['q'].op in ('list', 'tuple') else dims(k['q'])
        if k.get('axis', NONE) is NONE and dq is not None:
            return dq
        d = dims(k['a'])
        ax = norm_axis(k['axis'], len(d)) if d is not None else 'unk'
        if d is None or dq is None or ax == 'unk' or ax is None:
            return dq if ax is None else None
        return dq + tuple(x for i, x in enumerate(d) if i not in ax)
    if q == 'numpy.corrcoef':
        return (const(2), const(2))
    if q == 'numpy.concatenate':
        a = k['arrays']
        ax = k.get('axis', ZERO)
        if a.op in ('list', 'tuple') and is_int(ax):
            ds = [dims(x) for x in a.args]
            if any(d is None for d in ds) or not ds:
                return None
            r = len(ds[0])
            p = cval(ax)
            p = p % r if r else 0
            if any(len(d) != r for d in ds):
                return None
            for j in range(r):
                if j != p and len({d[j] for d in ds}) != 1:
                    return None
            return ds[0][:p] + (add(*[d[p] for d in ds]),) + ds[0][p + 1:]
        if a.op == 'map' and is_int(ax):
            d = dims(a.args[1])
            if d is None or not d:
                return None
            p = cval(ax) % len(d)
            if contains(d[p], lambda z: z.op == 'bv'):
                return None
            return d[:p] + (mul(a.args[0], d[p]),) + d[p + 1:]
        return None
    if q == 'numpy.delete':
        d = dims(k['arr'])
        return None
    if q in ('sklearn.metrics.auc', 'float', 'int', 'bool'):
        return ()
    if q == 'properscoring.crps_ensemble':
        return dims(k['observations'])
    if q in ('properscoring.crps_gaussian',):
        return bcast([dims(v) for _, v in t.args[1]])
    if q in ('numpy.bincount',) and 'minlength' in k:
        return None
    if q == 'numpy.bincount':
        return None
    if q == 'numpy.unique':
        return (T('len', t),) if set(a for a, v in k.items() if v is not NONE) == {'ar'} else None
    return None


# ------------------------------------------------------------------ layouts
def trivial_fact(d):
    return tuple(() if x is ONE else (x,) for x in d)


def mono_div(a, b):
    """a / b if it is a monomial with non-negative integer exponents, else None"""
    if a is b:
        return ONE
    if b is ONE:
        return a
    pa, pb = _t._aspoly(a), _t._aspoly(b)
    if len(pb) != 1:
        q = div(a, b)
        if len(_t._aspoly(q)) == len(pa) and all(e > 0 for m, c in _t._aspoly(q).items() for _, e in m):
            pass
        return None
    if len(pa) != 1:
        (mb, cb), = pb.items()
        q = div(a, b)
        if all(e > 0 for m, c in _t._aspoly(q).items() for _, e in m) and all(c.denominator == 1 for c in _t._aspoly(q).values()):
            return q
        return None
    q = div(a, b)
    pq = _t._aspoly(q)
    (m, c), = pq.items()
    if c.denominator != 1 or any(e < 0 or e.denominator != 1 for _, e in m):
        return None
    return q


def align(S, U):
    """Common refinement of two factorisations (lists of sizes).
    -> (parts_of_S, parts_of_U) lists of lists of sizes, or None."""
    S = [s for s in S]
    U = [u for u in U]
    ps = [[] for _ in S]
    pu = [[] for _ in U]
    i = j = 0
    rs = S[0] if S else None
    ru = U[0] if U else None
    while i < len(S) and j < len(U):
        if rs is ONE:
            i += 1
            rs = S[i] if i < len(S) else None
            continue
        if ru is ONE:
            j += 1
            ru = U[j] if j < len(U) else None
            continue
        if rs is ru:
            ps[i].append(rs)
            pu[j].append(rs)
            rs = ru = ONE
            continue
        q = mono_div(rs, ru)
        if q is not None:
            ps[i].append(ru)
            pu[j].append(ru)
            rs = q
            ru = ONE
            continue
        q = mono_div(ru, rs)
        if q is not None:
            ps[i].append(rs)
            pu[j].append(rs)
            ru = q
            rs = ONE
            continue
        return None
    while i < len(S):
        if rs is not ONE:
            return None
        i += 1
        rs = S[i] if i < len(S) else None
    while j < len(U):
        if ru is not ONE:
            return None
        j += 1
        ru = U[j] if j < len(U) else None
    return ps, pu


CONCAT = []


def concat_lay(x, fact, groups):
    """a rearranged concatenation, as a concatenation of rearranged pieces"""
    k = dict(x.args[1])
    if k['arrays'].op != 'list' or not is_int(k['axis']) or not CONCAT:
        return None
    p = cval(k['axis']) % len(fact)
    q = [j for j, g in enumerate(groups) if any(a == p for a, _ in g)]
    if len(fact[p]) != 1 or len(q) != 1 or groups[q[0]] != ((p, 0),):
        return None
    els = []
    for e in k['arrays'].args:
        d = dims(e)
        if d is None or len(d) != len(fact):
            return None
        els.append(mk_lay(e, fact[:p] + ((d[p],),) + fact[p + 1:], groups))
    return CONCAT[0](els, q[0])


def mk_lay(x, fact, groups):
    if groups == () and x.op == 'arr' and x.args[0].op in ('list', 'tuple') and len(x.args[0].args) == 1 and len(fact) == 1:
        y = x.args[0].args[0]
        if dims(y) == ():
            return y
    if x.op == 'call' and x.args[0] == 'numpy.full':
        f = full_fill(x)
        if f is not None:
            return mkfull(f, tuple(prod(fact[a][k] for a, k in g) for g in groups))
    if x.op == 'poly' or x.op in EW_OPS:
        x = lift_lay(x)
    if x.op == 'call' and x.args[0] == 'numpy.concatenate':
        w = concat_lay(x, fact, groups)
        if w is not None:
            return w
    if x.op == 'ite' and dims(x.args[1]) is not None and dims(x.args[1]) == dims(x.args[2]):
        return ite(x.args[0], mk_lay(x.args[1], fact, groups), mk_lay(x.args[2], fact, groups))
    if x.op == 'lay':
        y, f1, g1 = x.args
        # refine: for every axis p of x, atoms g1[p] with sizes; outer fact[p]
        newf = [list(map(lambda s: [s], fx)) for fx in f1]   # per axis, per atom -> list of sub sizes
        outer = {}                                             # (p, k) -> list of inner sub atoms (axis, atom, sub)
        ok = True
        for p, g in enumerate(g1):
            r = align([f1[a][k] for a, k in g], list(fact[p]))
            if r is None:
                ok = False
                break
            ps, pu = r
            seq = []
            for (a, k), subs in zip(g, ps):
                newf[a][k] = subs
                for s in range(len(subs)):
                    seq.append((a, k, s))
            pos = 0
            for kk, subs in enumerate(pu):
                outer[(p, kk)] = seq[pos:pos + len(subs)]
                pos += len(subs)
        if ok:
            # renumber
            ren = {}
            f2 = []
            for a, atoms in enumerate(newf):
                out = []
                for k, subs in enumerate(atoms):
                    for s, sz in enumerate(subs):
                        ren[(a, k, s)] = (a, len(out))
                        out.append(sz)
                f2.append(tuple(out))
            g2 = tuple(tuple(ren[z] for at in g for z in outer[at]) for g in groups)
            return mk_lay(y, tuple(f2), g2)
    # coalesce atoms of one axis that are always adjacent and in order
    fact = [list(f) for f in fact]
    groups = [list(g) for g in groups]
    changed = True
    while changed:
        changed = False
        for a in range(len(fact)):
            for k in range(len(fact[a]) - 1):
                for g in groups:
                    for q in range(len(g) - 1):
                        if g[q] == (a, k) and g[q + 1] == (a, k + 1):
                            fact[a][k] = mul(fact[a][k], fact[a][k + 1])
                            del fact[a][k + 1]
                            del g[q + 1]
                            for h in groups:
                                for r in range(len(h)):
                                    if h[r][0] == a and h[r][1] > k + 1:
                                        h[r] = (a, h[r][1] - 1)
                            changed = True
                            break
                    if changed:
                        break
                if changed:
                    break
            if changed:
                break
    fact = tuple(tuple(f) for f in fact)
    groups = tuple(tuple(g) for g in groups)
    if len(groups) == len(fact) and all(g == tuple((a, k) for k in range(len(fact[a]))) for a, g in enumerate(groups)):
        return x
    if x.op == 'getitem' and () in fact and () not in groups:
        # x[..., i:i+1] whose unit axis is dropped is x[..., i]
        ii = as_index(x.args[1])
        if all(is_basic(i) for i in ii):
            q = 0
            out = []
            drop = []
            for i in ii:
                if i.op != 'slice':
                    out.append(i)
                    continue
                a, b, c = i.args
                if fact[q] == () and c is NONE and a is not NONE and b is add(a, ONE) and not is_int(a):
                    out.append(a)
                    drop.append(q)
                else:
                    out.append(i)
                q += 1
            if drop:
                y = getitem(x.args[0], out[0] if len(out) == 1 else T('tuple', *out))
                ren = [z for z in range(len(fact)) if z not in drop]
                return mk_lay(y, tuple(fact[z] for z in ren), tuple(tuple((ren.index(z), k) for z, k in g) for g in groups))
    return T('lay', x, fact, groups)


def _re_lay(x, fact, groups):
    d = dims(x)
    if d is None or len(d) != len(fact):
        return T('lay', x, fact, groups)
    # sizes may have become 1
    if any(s is ONE for f in fact for s in f):
        ren = {}
        nf = []
        for a, f in enumerate(fact):
            o = []
            for k, s in enumerate(f):
                if s is ONE:
                    ren[(a, k)] = None
                else:
                    ren[(a, k)] = (a, len(o))
                    o.append(s)
            nf.append(tuple(o))
        fact = tuple(nf)
        groups = tuple(tuple(ren[z] for z in g if ren[z] is not None) for g in groups)
    return mk_lay(x, fact, groups)


REBUILD['lay'] = _re_lay


def transpose(x, perm):
    d = dims(x)
    f = trivial_fact(d)
    g = tuple(tuple((p, k) for k in range(len(f[p]))) for p in perm)
    return mk_lay(x, f, g)


def reshape(x, shape):
    """shape: tuple of terms; returns term or None"""
    d = dims(x)
    if d is None:
        return None
    shape = list(shape)
    neg = [i for i, s in enumerate(shape) if is_int(s) and cval(s) == -1]
    total = prod(d)
    if len(neg) > 1:
        return None
    if neg:
        q = mono_div(total, prod(s for i, s in enumerate(shape) if i != neg[0]))
        if q is None:
            rest = list(d)
            oth = []
            for i, s in enumerate(shape):
                if i != neg[0]:
                    if s in rest:
                        rest.remove(s)
                    else:
                        oth.append(s)
            q = mono_div(prod(rest), prod(oth))
        if q is None:
            return None
        shape[neg[0]] = q
    atoms = [(a, 0) for a in range(len(d)) if d[a] is not ONE]
    r = align([d[a] for a, _ in atoms], shape)
    if r is None:
        return None
    ps, pu = r
    fact = [()] * len(d)
    seq = []
    for (a, _), subs in zip(atoms, ps):
        fact[a] = tuple(subs)
        seq += [(a, k) for k in range(len(subs))]
    groups = []
    pos = 0
    for subs in pu:
        groups.append(tuple(seq[pos:pos + len(subs)]))
        pos += len(subs)
    return mk_lay(x, tuple(fact), tuple(groups))


def expand_at(x, pos):
    d = dims(x)
    f = trivial_fact(d)
    g = [tuple((p, k) for k in range(len(f[p]))) for p in range(len(d))]
    g.insert(pos, ())
    return mk_lay(x, f, tuple(g))


def squeeze_at(x, axes):
    d = dims(x)
    f = trivial_fact(d)
    g = [tuple((p, k) for k in range(len(f[p]))) for p in range(len(d)) if p not in axes]
    return mk_lay(x, f, tuple(g))


# elementwise over layouts ------------------------------------------------
def _lay_atoms(t, acc):
    """array-valued maximal non-elementwise sub-terms of t"""
    if t.op == 'poly':
        for m, c in t.args[0]:
            for a, e in m:
                _lay_atoms(a, acc)
    elif t.op in ('psum', 'opow'):
        _lay_atoms(t.args[0], acc)
    elif t.op in EW_OPS:
        for a in children(t):
            _lay_atoms(a, acc)
    elif t.op == 'call' and t.args[0] in EW_CALLS:
        for n, a in t.args[1]:
            _lay_atoms(a, acc)
    else:
        acc.append(t)


def lift_lay(t):
    """elementwise term whose array leaves share one layout -> layout of the elementwise term"""
    if t.op not in ('poly',) and t.op not in EW_OPS and not (t.op == 'call' and t.args[0] in EW_CALLS):
        return t
    acc = []
    _lay_atoms(t, acc)
    fg = None
    n = 0
    for a in acc:
        d = dims(a)
        if d is None:
            return t
        if d == ():
            continue
        if a.op != 'lay':
            return t
        if fg is None:
            fg = a.args[1:]
        elif fg != a.args[1:]:
            return t
        n += 1
    if not n:
        return t
    inner = subst(t, {a: a if dims(a) == () else a.args[0] for a in acc})
    if dims(inner) is None:
        return t
    return mk_lay(inner, fg[0], fg[1])


def lay_dist(x, ii):
    """item of a layout of an elementwise term -> elementwise term of the items of its leaves"""
    y, fact, groups = x.args
    if y.op != 'poly' and y.op not in EW_OPS and not (y.op == 'call' and y.args[0] in EW_CALLS):
        return None
    acc = []
    _lay_atoms(y, acc)
    d = dims(y)
    m = {}
    for a in acc:
        da = dims(a)
        if da == ():
            m[a] = a
            continue
        if da is None or da != d or a is y:
            return None
        m[a] = getitem(mk_lay(a, fact, groups), ii[0] if len(ii) == 1 else T('tuple', *ii))
    return subst(y, m) if m else None


# ------------------------------------------------------------------ reductions
def reduce_(q, a, axis, extra=()):
    """canonical reduction call"""
    r = rank(a)
    ax = norm_axis(axis, r) if axis is not NONE else None
    if ax == 'unk':
        return T('call', q, (('a', a), ('axis', axis)) + tuple(extra))
    kd = dict(extra).get('keepdims')
    if a.op == 'lay' and not extra:
        x, fact, groups = a.args
        if ax is None:
            if all(len({at for g in groups for at in g}) == sum(len(f) for f in fact) for _ in (0,)):
                return reduce_(q, x, NONE)
        else:
            red_at = {at for p in ax for at in groups[p]}
            axes = {z for z, _ in red_at}
            if all((z, k) in red_at for z in axes for k in range(len(fact[z]))):
                unit = [z for z in range(len(fact)) if not fact[z]]
                inner = reduce_(q, x, T('tuple', *[const(z) for z in sorted(axes)])) if axes else None
                if inner is not None:
                    keep = [z for z in range(len(fact)) if z not in axes]
                    f2 = tuple(fact[z] for z in keep)
                    g2 = tuple(tuple((keep.index(z), k) for z, k in g) for p, g in enumerate(groups) if p not in ax)
                    if inner.op == 'lay' or dims(inner) is not None:
                        return mk_lay(inner, f2, g2) if keep or any(g2) or g2 else inner
    if a.op == 'arr' and a.args[0].op in ('list', 'tuple') and not extra and (ax == (0,) or (ax is None and r == 1)):
        el = a.args[0].args
        if q == 'numpy.sum':
            return add(*el)
        if q == 'numpy.mean' and el:
            return mul(add(*el), const(Fraction(1, len(el))))
    t = T('call', q, (('a', a), ('axis', axis_term(ax))) + tuple(extra))
    return t


# ------------------------------------------------------------------ indexing
def as_index(idx):
    return list(idx.args) if idx.op == 'tuple' else [idx]


def is_scalar_index(i):
    if is_int(i):
        return True
    if i.op in ('slice', 'tuple', 'list', 'arr', 'map') or i is NONE:
        return False
    k = kind(i)
    if k == 'int':
        return True
    if k in ('ndarray', 'bool', 'str', 'list', 'none', 'tuple'):
        return False
    return dims(i) == ()


def is_boolish(i):
    return i.op in ('lt', 'le', 'eq', 'ne', 'band', 'bor', 'bxor', 'binv') or \
        (i.op == 'call' and i.args[0] in ('numpy.isnan', 'numpy.isfinite')) or \
        (i.op == 'lay' and is_boolish(i.args[0])) or (i.op == 'getitem' and is_boolish(i.args[0])) or \
        (i.op == 'ite' and is_boolish(i.args[1]) and is_boolish(i.args[2])) or \
        (i.op == 'call' and i.args[0] == 'numpy.full' and boolterm(dict(i.args[1])['fill_value'])) or \
        (i.op == 'sym' and syminfo(i).get('dtype') == 'bool') or i is TRUE or i is FALSE


def boolterm(t):
    return is_boolish(t) or t.op in ('not', 'and', 'or') or kind(t) == 'bool'


def slice_len(s, n):
    a, b, c = s.args
    if c is not NONE:
        return None
    if a is NONE:
        a = ZERO
    if b is NONE:
        b = n
    elif is_int(b) and cval(b) < 0:
        b = add(n, b)
    if is_int(a) and cval(a) < 0:
        a = add(n, a)
    return sub(b, a)


def gi_dims(x, idx):
    d = dims(x)
    if d is None:
        return None
    ii = as_index(idx)
    out = []
    p = 0
    fancy = None
    fpos = None
    for i in ii:
        if i is NONE:
            out.append(ONE)
            continue
        if p >= len(d):
            return None
        if i.op == 'slice':
            n = slice_len(i, d[p])
            if n is None:
                return None
            out.append(n)
            p += 1
        elif is_scalar_index(i):
            p += 1
        elif is_boolish(i):
            r = rank(i)
            if r is None:
                return None
            n = T('call', 'numpy.sum', (('a', i), ('axis', NONE)))
            if fancy is not None:
                return None
            fancy = (n,)
            fpos = len(out)
            p += r
        else:
            di = adims(i) if i.op in ('list', 'map') else dims(i)
            if di is None:
                return None
            if fancy is not None and fancy != di:
                return None
            if fancy is None:
                fancy = di
                fpos = len(out)
            p += 1
    if fancy is not None:
        out[fpos:fpos] = list(fancy)
    return tuple(out) + tuple(d[p:])


def norm_slice(s, n):
    """canonical slice w.r.t. axis length n (a term or None)"""
    a, b, c = s.args
    if c is ONE:
        c = NONE
    if a is ZERO:
        a = NONE
    if b is not NONE and n is not None and b is n:
        b = NONE
    if n is not None and b is not NONE and not is_int(b):
        q = sub(b, n)
        if is_int(q) and cval(q) < 0:
            b = q
        elif q is ZERO:
            b = NONE
    return T('slice', a, b, c)


def is_basic(i):
    return i.op == 'slice' or is_scalar_index(i)


def concat(els, ax):
    out = []
    for e in els:
        if e.op == 'call' and e.args[0] == 'numpy.concatenate' and dict(e.args[1])['axis'] is const(ax) and dict(e.args[1])['arrays'].op == 'list':
            out += list(dict(e.args[1])['arrays'].args)
        else:
            out.append(e)
    if len(out) == 1:
        return out[0]
    return T('call', 'numpy.concatenate', (('arrays', T('list', *out)), ('axis', const(ax))))


def _concat_getitem(x, ii, d):
    """basic index into a concatenation of known pieces"""
    k = dict(x.args[1])
    if k['arrays'].op != 'list' or not is_int(k['axis']) or d is None:
        return None
    ax = cval(k['axis'])
    els = list(k['arrays'].args)
    ds = [dims(e) for e in els]
    if any(e is None for e in ds):
        return None
    ii = list(ii) + [FULL] * (ax + 1 - len(ii))
    i = ii[ax]

    def rest(e, j):
        jj = list(ii)
        jj[ax] = j
        while jj and is_full(jj[-1]):
            jj.pop()
        return e if not jj else getitem(e, jj[0] if len(jj) == 1 else T('tuple', *jj))
    lens = [e[ax] for e in ds]
    if is_full(i):
        if all(is_full(j) for j in ii):
            return x
        return concat([rest(e, FULL) for e in els], ax - sum(1 for j in ii[:ax] if is_scalar_index(j)))
    if is_int(i):
        v = cval(i)
        if v >= 0:
            for e, n in zip(els, lens):
                if not is_int(n):
                    if v == 0 and n.op == 'sym':
                        return rest(e, ZERO)
                    return None
                if v < cval(n):
                    return rest(e, const(v))
                v -= cval(n)
        elif is_int(lens[-1]) and -v <= cval(lens[-1]):
            return rest(els[-1], i)
        return None
    if i.op == 'slice' and i.args[2] is NONE:
        a, b = i.args[0], i.args[1]
        a = ZERO if a is NONE else a
        if is_int(a) and cval(a) >= 0 and b is NONE:
            v, q = cval(a), 0
            while q < len(els) and v > 0 and is_int(lens[q]) and cval(lens[q]) <= v:
                v -= cval(lens[q])
                q += 1
            if v == 0 and 0 < q < len(els):
                return rest(concat(els[q:], ax), FULL)
        if a is ZERO and b is not NONE:
            acc = ZERO
            for q in range(1, len(els)):
                acc = add(acc, lens[q - 1])
                if acc is b or (is_int(b) and cval(b) < 0 and add(b, add(*lens)) is acc):
                    return rest(concat(els[:q], ax), FULL)
    return None


def getitem(x, idx):
    op = x.op
    if op in ('list', 'tuple'):
        if is_int(idx):
            n = len(x.args)
            v = cval(idx)
            if -n <= v < n:
                return x.args[v]
            return T('call', 'IndexError', ())
        if idx.op == 'slice' and all(a is NONE or is_int(a) for a in idx.args):
            s = slice(*[None if a is NONE else cval(a) for a in idx.args])
            return T(op, *x.args[s])
        if idx.op == 'tuple' and len(idx.args) == 1:
            return getitem(x, idx.args[0])
    if op == 'ite' and (x.args[1].op in ('list', 'tuple', 'ite', 'arr', 'dict') or x.args[2].op in ('list', 'tuple', 'ite', 'arr', 'dict')):
        return ite(x.args[0], getitem(x.args[1], idx), getitem(x.args[2], idx))
    if op == 'dict':
        for kk, vv in x.args[0]:
            if kk is idx:
                return vv
    if op == 'map' and is_scalar_index(idx):
        n, body = x.args
        i = idx
        if is_int(i) and cval(i) < 0:
            i = add(n, i)
        return inst(body, binder_h(x), (i,))
    if op == 'dictmap':
        n, kb, vb = x.args
        h = binder_h(x)
        if kb is T('bv', h, 0):
            return inst(vb, h, (idx,))
    if op == 'range':
        if is_scalar_index(idx) and not (is_int(idx) and cval(idx) < 0):
            return add(x.args[0], mul(idx, x.args[2]))
    if op == 'call' and x.args[0] in ('numpy.quantile', 'numpy.nanquantile'):
        k = dict(x.args[1])
        qq = k['q']
        if qq.op in ('list', 'tuple') and is_int(idx) and (k.get('axis', NONE) is NONE):
            k['q'] = getitem(qq, idx)
            return T('call', x.args[0], tuple(sorted(k.items())))
    ii = as_index(idx)
    if op == 'arr' and x.args[0].op in ('list', 'tuple', 'map') and is_scalar_index(ii[0]) and (not is_int(ii[0]) or x.args[0].op == 'map' or True):
        el = getitem(x.args[0], ii[0])
        if el.op in ('list', 'tuple') and len(ii) == 1:
            return T('arr', el)
        if not (el.op == 'getitem' and el.args[0] is x.args[0]) and not (el.op == 'call' and el.args[0] == 'IndexError'):
            if el.op in ('list', 'tuple', 'map'):
                el = T('arr', el)
            if len(ii) == 1:
                return el
            return getitem(el, ii[1] if len(ii) == 2 else T('tuple', *ii[1:]))
    if op == 'arr' and x.args[0].op in ('list', 'tuple') and ii[0].op == 'slice' and all(a is NONE or is_int(a) for a in ii[0].args):
        y = T('arr', T('list', *x.args[0].args[slice(*[None if a is NONE else cval(a) for a in ii[0].args])]))
        if len(ii) == 1:
            return y
        if not is_full(ii[0]):
            return getitem(y, T('tuple', FULL, *ii[1:]))
    d = dims(x)
    # Ellipsis
    ell = T('const', '...')
    if ell in ii:
        if d is None:
            if len(ii) == 1:
                return x
            return T('getitem', x, idx)
        p = ii.index(ell)
        n = sum(1 for i in ii if i is not NONE and i is not ell)
        ii = ii[:p] + [FULL] * (len(d) - n) + ii[p + 1:]
    # newaxis
    if any(i is NONE for i in ii):
        if d is None:
            return T('getitem', x, T('tuple', *ii))
        pos = []
        out = 0
        rest = []
        for i in ii:
            if i is NONE:
                pos.append(out)
                out += 1
            else:
                rest.append(i)
                if not is_scalar_index(i):
                    out += 1
        y = getitem(x, T('tuple', *rest)) if rest else x
        for p in pos:
            if dims(y) is None:
                return T('getitem', x, T('tuple', *ii))
            y = expand_at(y, p)
        return y
    # canonical slices
    if d is not None:
        jj = []
        p = 0
        for i in ii:
            if i.op == 'slice' and p < len(d):
                i = norm_slice(i, d[p])
            elif is_int(i) and p < len(d) and cval(i) < 0 and is_int(d[p]):
                i = const(cval(i) + cval(d[p]))
            p += (rank(i) or 1) if is_boolish(i) else 1
            jj.append(i)
        ii = jj
    else:
        ii = [norm_slice(i, None) if i.op == 'slice' else i for i in ii]
    while ii and is_full(ii[-1]):
        ii.pop()
    if not ii:
        return x
    # scalar index of a merged axis: indexed axes first
    if op == 'lay' and len(ii) <= len(x.args[2]) and any(is_scalar_index(i) for i in ii) and all(is_scalar_index(i) or is_full(i) for i in ii):
        first = [p for p in range(len(ii)) if is_scalar_index(ii[p])]
        if first != list(range(len(first))):
            g = x.args[2]
            y = mk_lay(x.args[0], x.args[1], tuple([g[p] for p in first] + [g[p] for p in range(len(g)) if p not in first]))
            jj = [ii[p] for p in first]
            return getitem(y, jj[0] if len(jj) == 1 else T('tuple', *jj))
    # one array index next to scalar ones: x[idx, 0, j] = x[:, 0, j][idx]
    if d is not None and len(ii) <= len(d) and sum(1 for i in ii if not is_basic(i)) == 1 and any(is_scalar_index(i) for i in ii):
        adv = [p for p, i in enumerate(ii) if i.op != 'slice']
        f = next(i for i in ii if not is_basic(i))
        if adv == list(range(adv[0], adv[-1] + 1)) and (not is_boolish(f) or rank(f) == 1) and (adims(f) if f.op in ('list', 'map') else dims(f)) is not None:
            y = getitem(x, T('tuple', *[i if is_scalar_index(i) else FULL for i in ii]))
            rest = [i for i in ii if not is_scalar_index(i)]
            return getitem(y, rest[0] if len(rest) == 1 else T('tuple', *rest))
    # an index of a merged axis that is written in mixed radix: index the parts
    if op == 'lay' and len(ii) <= len(x.args[2]):
        g2, jj = [], []
        for p, g in enumerate(x.args[2]):
            ds = None
            if p < len(ii) and len(g) > 1 and is_scalar_index(ii[p]):
                ds = radix_digits(ii[p], [x.args[1][a][k] for a, k in g])
            if ds is None:
                g2.append(g)
                jj.append(ii[p] if p < len(ii) else FULL)
            else:
                g2.extend((ak,) for ak in g)
                jj.extend(ds)
        if len(g2) != len(x.args[2]):
            return getitem(mk_lay(x.args[0], x.args[1], tuple(g2)), T('tuple', *jj))
    # a layout whose axes are split: index of an axis from the indices of its parts
    if op == 'lay' and len(ii) == len(x.args[2]) and all(is_scalar_index(i) for i in ii):
        w = lay_element(x, ii)
        if w is not None:
            return w
    # a layout: push a basic index inside
    if op == 'lay' and len(ii) <= len(x.args[2]):
        y, fact, groups = x.args
        ok = True
        inner = {}
        for p, i in enumerate(ii):
            if is_full(i):
                continue
            g = groups[p]
            if not is_basic(i) or len(g) != 1 or len(fact[g[0][0]]) != 1:
                if len(g) == 0 and is_scalar_index(i) and (not is_int(i) or cval(i) in (0, -1)):
                    inner[('u', p)] = i
                    continue
                ok = False
                break
            inner[g[0][0]] = i
        if ok:
            dy = dims(y)
            idxs = [inner.get(a, FULL) for a in range(len(dy))]
            z = getitem(y, T('tuple', *idxs))
            dz = dims(z)
            if dz is not None:
                # surviving axes of y
                surv = [a for a in range(len(dy)) if not (a in inner and is_scalar_index(inner[a]))]
                f2 = []
                for q, a in enumerate(surv):
                    if a in inner:
                        f2.append(() if dz[q] is ONE else (dz[q],))
                    else:
                        f2.append(fact[a])
                g2 = []
                for p, g in enumerate(groups):
                    if p < len(ii) and is_scalar_index(ii[p]):
                        continue
                    g2.append(tuple((surv.index(a), k) for a, k in g if k < len(f2[surv.index(a)])))
                return mk_lay(z, tuple(f2), tuple(g2))
    # ... or the part of it that can be pushed
    if op == 'lay' and len(ii) <= len(x.args[2]) and all(is_basic(i) for i in ii) and sum(1 for i in ii if not is_full(i)) > 1:
        y, fact, groups = x.args
        sl = [p for p, i in enumerate(ii) if i.op == 'slice' and not is_full(i) and len(groups[p]) == 1 and len(fact[groups[p][0][0]]) == 1]
        if sl:
            y = getitem(x, T('tuple', *[i if p in sl else FULL for p, i in enumerate(ii)]))
            if dims(y) is not None:
                return getitem(y, T('tuple', *[FULL if p in sl else i for p, i in enumerate(ii)]))
    if op == 'lay':
        w = lay_dist(x, ii)
        if w is not None:
            return w
    if op == 'call' and x.args[0] == 'numpy.concatenate' and all(is_basic(i) for i in ii):
        w = _concat_getitem(x, ii, d)
        if w is not None:
            return w
    # compose with an inner basic getitem
    if op == 'getitem' and all(is_basic(i) for i in ii):
        y, jdx = x.args
        jj = as_index(jdx)
        if all(is_basic(j) for j in jj):
            out = []
            q = 0
            ok = True
            for j in jj:
                if j.op != 'slice':
                    out.append(j)
                    continue
                if q < len(ii):
                    i = ii[q]
                    q += 1
                    if is_full(i):
                        out.append(j)
                    elif is_full(j):
                        out.append(i)
                    elif i.op != 'slice' and j.args[2] is NONE:
                        a = j.args[0]
                        if a is NONE:
                            a = ZERO
                        if is_int(i) and cval(i) < 0:
                            if j.args[1] is NONE:
                                out.append(i)
                            else:
                                ok = False
                        elif is_int(a) and cval(a) < 0:
                            ok = False
                        else:
                            out.append(add(a, i))
                    else:
                        ok = False
                else:
                    out.append(j)
            if ok:
                out += ii[q:]
                return getitem(y, T('tuple', *out) if len(out) != 1 else out[0])
    if op == 'getitem' and all(is_basic(i) for i in ii) and any(not is_full(i) for i in ii):
        # x[I][:, k] is x[:, k][I] for one index array I among full slices
        y, jdx = x.args
        jj = as_index(jdx)
        ps = [q for q, j in enumerate(jj) if j.op != 'slice']
        dy = dims(y)
        if len(ps) == 1 and all(is_full(j) for q, j in enumerate(jj) if q != ps[0]) and not is_scalar_index(jj[ps[0]]) and \
                dy is not None and len(ii) <= len(dy):
            p, I = ps[0], jj[ps[0]]
            di = dims(I)
            if di is not None and len(di) == 1 and I is not NONE and (p >= len(ii) or is_full(ii[p])):
                z = getitem(y, T('tuple', *(ii if len(ii) > 1 else (ii[0],))))
                q = sum(1 for i in ii[:p] if i.op == 'slice')
                if dims(z) is not None:
                    return getitem(z, T('tuple', *([FULL] * q), I) if q else I)
    if d is None and len(ii) == 1 and is_scalar_index(ii[0]):
        w = bincount_index(x, ii[0])
        if w is not None:
            return w
    if op == 'poly' or op in EW_OPS or op == 'call' and x.args[0] in EW_CALLS:
        w = dist_index(x, ii)
        if w is not None:
            return w
    if op == 'call' and x.args[0] in PUSHRED and d is not None and any(is_scalar_index(i) for i in ii) and all(is_basic(i) for i in ii):
        w = red_index(x, ii)
        if w is not None:
            return w
    if op == 'call' and x.args[0] in COLWISE:
        w = col_index(x, ii, d)
        if w is not None:
            return w
    if op == 'store' and x.args[1] is (ii[0] if len(ii) == 1 else T('tuple', *ii)) and dims(x.args[2]) is not None and \
            dims(x.args[2]) == gi_dims(x.args[0], x.args[1]):
        return x.args[2]
    if op == 'store':
        # distinct constant positions on one axis
        a = as_index(x.args[1])
        if a and ii and is_int(a[0]) and is_int(ii[0]) and cval(a[0]) != cval(ii[0]) and (cval(a[0]) >= 0) == (cval(ii[0]) >= 0):
            return getitem(x.args[0], ii[0] if len(ii) == 1 else T('tuple', *ii))
    ii = [T('arr', i) if i.op in ('list', 'map') else i for i in ii]
    if op == 'call' and x.args[0] == 'numpy.full' and full_fill(x) is not None:
        dd = gi_dims(x, ii[0] if len(ii) == 1 else T('tuple', *ii))
        if dd is not None:
            return mkfull(full_fill(x), dd)
    return T('getitem', x, ii[0] if len(ii) == 1 else T('tuple', *ii))


REBUILD['getitem'] = getitem


def where(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'binv':
        return where(c.args[0], b, a)
    f = full_fill(c)
    if f is not None and dims(c) is not None:
        if f is TRUE or f is FALSE:
            r = a if f is TRUE else b
            if dims(r) == dims(c):
                return r
        if bcast([dims(a), dims(b)]) == dims(c):
            return where(f, a, b)
    c, a, b = bfull([c, a, b])
    if dims(c) == () and dims(a) is not None and dims(a) == dims(b) and c.op not in ('lt', 'le'):
        return ite(c, a, b)
    if c.op in ('lt', 'le'):
        u, v = c.args
        if a is v and b is u:
            return max2(u, v)
        if a is u and b is v:
            return min2(u, v)
        if dims(c) == () and dims(a) is not None and dims(a) == dims(b):
            return ite(c, a, b)
        # where(x < 0, -x, x) = |x|
        w = sub(u, v)
        if b is neg(a) and (w is b or w is a):
            z = T('call', 'numpy.abs', (('x', neg(w) if w.op == 'poly' and w.args[0][0][1] < 0 else w),))
            return z if w is b else neg(z)
    # where(c, u, b) and where(c, a, u) with nested wheres on one condition
    if a.op == 'where' and a.args[0] is c:
        return where(c, a.args[1], b)
    if b.op == 'where' and b.args[0] is c:
        return where(c, a, b.args[2])
    # common addends move out: where(c, x + u, x + v) = x + where(c, u, v)
    if (a.op == 'poly' or b.op == 'poly') and dims(a) is not None and dims(a) == dims(b):
        pa, pb = _t._aspoly(a), _t._aspoly(b)
        com = {m: k for m, k in pa.items() if m != () and pb.get(m) == k}
        if com:
            cm = _t._mkpoly(com)
            ra, rb = sub(a, cm), sub(b, cm)
            if dims(cm) == dims(a):
                return add(cm, where(c, ra, rb))
    # where(k != 0, randint(0, k + 1), 0) = randint(0, k + 1)
    if c.op in ('ne', 'eq') and ZERO in c.args:
        cnt = c.args[0] if c.args[1] is ZERO else c.args[1]
        x, z = (a, b) if c.op == 'ne' else (b, a)
        y = sub(x, z) if x.op == 'poly' or z is ZERO else x
        if y.op == 'draw' and y.args[0] == 'randint' and dims(y) == dims(cnt):
            k = dict(y.args[1])
            if k.get('low', ZERO) is ZERO and k.get('high') is add(cnt, ONE):
                return x
    return T('where', c, a, b)


REBUILD['where'] = where


def max2(a, b):
    a, b = bfull([a, b])
    if a is b:
        return a
    if is_num(a) and is_num(b):
        return const(max(cval(a), cval(b)))
    if is_num(a):
        a, b = b, a
    if is_num(b):
        if a.op == 'max2' and is_num(a.args[1]):
            return max2(a.args[0], const(max(cval(b), cval(a.args[1]))))
        if a.op == 'min2' and is_num(a.args[1]) and cval(b) <= cval(a.args[1]):
            return min2(max2(a.args[0], b), a.args[1])
        return T('max2', a, b)
    return T('max2', *sorted((a, b), key=lambda x: x.k))


def min2(a, b):
    a, b = bfull([a, b])
    if a is b:
        return a
    if is_num(a) and is_num(b):
        return const(min(cval(a), cval(b)))
    if is_num(a):
        a, b = b, a
    if is_num(b):
        if a.op == 'min2' and is_num(a.args[1]):
            return min2(a.args[0], const(min(cval(b), cval(a.args[1]))))
        return T('min2', a, b)
    return T('min2', *sorted((a, b), key=lambda x: x.k))


REBUILD['max2'] = max2
REBUILD['min2'] = min2


def full_fill(t):
    if t.op == 'call' and t.args[0] == 'numpy.full':
        v = dict(t.args[1])['fill_value']
        if dims(v) == ():
            return v
    return None


def unit_scalar(t):
    """0-d value of an array whose extents are all one"""
    d = dims(t)
    if d and all(x is ONE for x in d) and t.op == 'lay':
        x = t.args[0]
        if dims(x) == ():
            return x
    return None


def bfull(ts):
    """operands that are constant arrays are replaced by their value where broadcasting makes that equal"""
    if not any(t.op in ('call', 'lay') for t in ts):
        return ts
    ds = [dims(t) for t in ts]
    if any(d is None for d in ds):
        return ts
    whole = bcast(ds)
    if whole is None:
        return ts
    out = list(ts)
    for j, t in enumerate(out):
        v = full_fill(t)
        if v is None:
            v = unit_scalar(t)
        if v is not None and bcast([dims(x) for i, x in enumerate(out) if i != j]) == whole:
            out[j] = v
    return out


def npoly(t):
    """the same for the factors of a sum of products"""
    if t.op != 'poly' or not any(x.op in ('call', 'lay') for m, c in t.args[0] for x, e in m):
        return t
    d = dims(t)
    if d is None or d == ():
        return t
    out = {}
    ch = False
    for m, c in t.args[0]:
        fs = list(m)
        for j, (x, e) in enumerate(fs):
            v = full_fill(x)
            if v is None:
                v = unit_scalar(x)
            if v is None:
                continue
            rest = bcast([dims(y) for i, (y, _) in enumerate(fs) if i != j])
            # the other factors, or (for a plain summand) another summand, keep the extents
            if rest == d or rest is not None and any(bcast([dims(y) for y, _ in m2]) == d for m2, _ in t.args[0] if m2 is not m and
                                                    not any(full_fill(y) is not None or unit_scalar(y) is not None for y, _ in m2)):
                fs[j] = (v, e)
                ch = True
        pr = const(c)
        for x, e in fs:
            pr = mul(pr, power(x, e))
        for mm, cc in _t._aspoly(pr).items():
            out[mm] = out.get(mm, 0) + cc
    if not ch:
        return t
    r = _t._mkpoly(out)
    return r if dims(r) == d else t


def dist_index(x, ii):
    """(a + b)[i] = a[i] + b[i] for basic indices; None if the extents do not allow it"""
    d = dims(x)
    if d is None or not all(is_basic(i) for i in ii):
        return None
    acc = []
    _lay_atoms(x, acc)
    m = {}
    for a in acc:
        da = dims(a)
        if da is None:
            return None
        if da == ():
            m[a] = a
            continue
        off = len(d) - len(da)
        idx = []
        for p in range(off, max(off, len(ii))):
            i = ii[p]
            if da[p - off] is ONE and d[p] is not ONE:
                i = ZERO if i.op != 'slice' else FULL
            idx.append(i)
        # unit axes that broadcast must not replace dropped leading axes
        m[a] = getitem(a, T('tuple', *idx)) if idx else a
    # a leaf of lower rank keeps its axes aligned to the end only if no trailing axis was dropped
    if any(dims(a) and len(dims(a)) < len(d) for a in acc):
        for a in acc:
            da = dims(a)
            if da and len(da) < len(d):
                off = len(d) - len(da)
                if any(i.op != 'slice' for i in ii[off:]):
                    return None
    r = subst(x, m)
    return npoly(r)


def lay_element(x, ii):
    y, fact, groups = x.args
    at = {}
    for i, g in zip(ii, groups):
        if len(g) == 0:
            continue
        if is_int(i) and cval(i) < 0:
            return None
        if len(g) == 1:
            at[g[0]] = i
        else:
            ds = radix_digits(i, [fact[a][k] for a, k in g])
            if ds is None:
                return None
            for ak, q in zip(g, ds):
                at[ak] = q
    out = []
    for a, f in enumerate(fact):
        n = ZERO
        for k, sz in enumerate(f):
            if (a, k) not in at:
                return None
            n = add(mul(n, sz), at[(a, k)])
        out.append(n)
    return getitem(y, T('tuple', *out) if len(out) != 1 else out[0])


def radix_digits(i, sizes):
    """digits of an index written as ((d0*s1 + d1)*s2 + d2).. with element symbols '#p' < s_p"""
    p = _t._aspoly(i)
    digs = []
    rest = dict(p)
    w = ONE
    for s in reversed(sizes):
        found = None
        for m, c in rest.items():
            if c != 1:
                continue
            core = [a for a, e in m if e == 1 and a.op == 'sym' and a.args[0].startswith('#')]
            if len(core) == 1:
                q = ONE
                for a, e in m:
                    if a is not core[0]:
                        q = mul(q, power(a, e))
                if q is w:
                    found = (m, core[0])
                    break
        if found is None:
            return None
        del rest[found[0]]
        digs.append(found[1])
        w = mul(w, s)
    if rest:
        return None
    return digs[::-1]


def bincount_index(x, i):
    """bincount(v, weights, minlength)[i] = sum of the weights where v == i, through elementwise operations"""
    if dims(x) == ():
        return x
    if x.op == 'call' and x.args[0] == 'numpy.bincount':
        k = dict(x.args[1])
        if 'minlength' not in k or set(k) - {'x', 'weights', 'minlength'} or dims(k['x']) is None:
            return None
        m = _t.rebuild('eq', (k['x'], i))
        if k.get('weights', NONE) is NONE:
            return reduce_('numpy.sum', m, NONE)
        return reduce_('numpy.sum', getitem(k['weights'], m), NONE)
    if x.op in EW_OPS and x.op != 'dist':
        xs = [bincount_index(a, i) for a in x.args]
        return None if any(a is None for a in xs) else _t.rebuild(x.op, tuple(xs))
    if x.op == 'poly':
        out = ZERO
        for mono, c in x.args[0]:
            pr = const(c)
            for a, e in mono:
                b = bincount_index(a, i)
                if b is None:
                    return None
                pr = mul(pr, power(b, e))
            out = add(out, pr)
        return out
    return None


COLWISE = ('numpy.take_along_axis', 'numpy.argsort', 'numpy.sort', 'numpy.cumsum', 'scipy.stats.rankdata')


def col_index(x, ii, d):
    """sort(a, axis=p)[.., j, ..] = sort(a[.., j, ..], axis=p') for basic indices off axis p"""
    q = x.args[0]
    k = dict(x.args[1])
    ax = k.get('axis', NONE)
    if d is None or not is_int(ax) or len(ii) > len(d):
        return None
    p = cval(ax) % len(d)
    off = [i if j != p else FULL for j, i in enumerate(ii)]
    if all(is_full(i) for i in off) or not all(is_basic(i) for i in off):
        return None
    on = ii[p] if p < len(ii) else FULL
    if not is_basic(on) and any(is_scalar_index(i) for i in off) and len(d) > 2:
        return None
    p2 = p - sum(1 for i in off[:p] if is_scalar_index(i))
    t = T('tuple', *off)
    names = ('arr', 'indices') if q == 'numpy.take_along_axis' else ('a',)
    for nm in names:
        if dims(k[nm]) is None or len(dims(k[nm])) != len(d):
            return None
        k[nm] = getitem(k[nm], t)
    k['axis'] = const(p2)
    y = colcall(q, k)
    if is_full(on):
        return y
    return getitem(y, on if not p2 else T('tuple', *([FULL] * p2 + [on])))


PUSHRED = ('numpy.sum', 'numpy.nansum', 'numpy.mean', 'numpy.nanmean', 'numpy.max', 'numpy.min', 'numpy.nanmax', 'numpy.nanmin', 'numpy.var', 'numpy.nanvar',
           'numpy.any', 'numpy.all', 'numpy.prod', 'numpy.median', 'numpy.nanmedian')


def red_index(x, ii):
    """sum(a, axis=p)[.., j, ..] = sum(a[.., j, ..], axis=p')"""
    k = dict(x.args[1])
    if set(k) != {'a', 'axis'}:
        return None
    da = dims(k['a'])
    ax = norm_axis(k['axis'], len(da)) if da is not None and k['axis'] is not NONE else None
    if not ax or ax == 'unk':
        return None
    out = []
    q = 0
    for p in range(len(da)):
        if p in ax:
            out.append(FULL)
        else:
            out.append(ii[q] if q < len(ii) else FULL)
            q += 1
    if q < len(ii):
        return None
    ax2 = [p - sum(1 for i in out[:p] if is_scalar_index(i)) for p in ax]
    y = getitem(k['a'], T('tuple', *out))
    if dims(y) is None:
        return None
    return _t.rebuild('call', (x.args[0], (('a', y), ('axis', T('tuple', *[const(p) for p in ax2])))))


def colcall(q, k):
    k = dict(k)
    names = ('arr', 'indices') if q == 'numpy.take_along_axis' else ('a',)
    if is_int(k.get('axis', NONE)):
        # unit axes in front of or behind the sorted one
        ds = [dims(k[n]) for n in names]
        if all(d is not None for d in ds) and len({len(d) for d in ds}) == 1 and len(ds[0]) > 1:
            p = cval(k['axis']) % len(ds[0])
            un = [j for j in range(len(ds[0])) if j != p and all(d[j] is ONE for d in ds)]
            if un:
                y = colcall(q, dict(k, axis=const(p - sum(1 for j in un if j < p)),
                                    **{n: getitem(k[n], T('tuple', *[ZERO if j in un else FULL for j in range(len(ds[0]))])) for n in names}))
                if dims(y) is not None:
                    for j in un:
                        y = expand_at(y, j)
                    return y
    if is_int(k.get('axis', NONE)) and all(n in k and k[n].op == 'lay' for n in names):
        x = k[names[0]]
        g = x.args[2]
        p = cval(k['axis']) % len(g)
        if all(k[n].args[1:] == x.args[1:] for n in names) and len(g[p]) == 1 and len(x.args[1][g[p][0][0]]) == 1:
            a = g[p][0][0]
            y = colcall(q, dict(k, axis=const(a), **{n: k[n].args[0] for n in names}))
            if dims(y) is not None:
                return mk_lay(y, x.args[1], g)
    if q == 'numpy.take_along_axis' and rank(k['arr']) == 1 and rank(k['indices']) == 1:
        return getitem(k['arr'], k['indices'])
    return T('call', q, tuple(sorted(k.items())))


CALL_REBUILD0 = {}
for _q in COLWISE:
    CALL_REBUILD0[_q] = (lambda q: lambda k: colcall(q, k))(_q)


def mkfull(v, d):
    return v if not d else T('call', 'numpy.full', (('fill_value', v), ('shape', T('tuple', *d))))


def strip_mask(v, mask):
    """elementwise term over the selected entries -> the same term over all entries, or None"""
    cnt = {reduce_('numpy.sum', mask, NONE)}
    memo = {}

    def go(t):
        if t in memo:
            return memo[t]
        r = _go(t)
        memo[t] = r
        return r

    def _go(t):
        if t.op == 'getitem' and t.args[1] is mask:
            return t.args[0]
        d = dims(t)
        if d == ():
            return t
        if d is not None and len(d) == 1 and d[0] in cnt:
            f = full_fill(t)
            if f is not None:
                return f
        if t.op == 'draw' and d is not None and len(d) == 1 and d[0] in cnt and dims(mask) is not None:
            ks = []
            for a, x in t.args[1]:
                g = T('tuple', *dims(mask)) if a == 'size' else go(x)
                if g is None:
                    return None
                ks.append((a, g))
            return _t.rebuild('draw', (t.args[0], tuple(ks), t.args[2], t.args[3]))
        if t.op == 'poly' or t.op in ('psum', 'opow') or t.op in EW_OPS or t.op == 'call' and t.args[0] in EW_CALLS:
            m = {}
            for c in children(t):
                g = go(c)
                if g is None:
                    return None
                m[c] = g
            return subst(t, m)
        return None
    return go(v)


def store(base, idx, val):
    if is_full(idx) or idx is T('const', '...'):
        if dims(val) == () and dims(base):
            return T('call', 'numpy.full', (('fill_value', val), ('shape', T('tuple', *dims(base)))))
        return val
    if is_boolish(idx) and kind(base) not in ('list', 'dict'):
        if dims(val) == ():
            if not contains(val, lambda z: z.op == 'getitem' and z.args[1] is idx):
                return where(idx, val, base)
        v = strip_mask(val, idx)
        if v is not None:
            dv = dims(v)
            db = dims(base)
            if dv is not None and db is not None and (dv == () or dv == db):
                return where(idx, v, base)
    if base.op in ('list',) and is_int(idx):
        l = list(base.args)
        if -len(l) <= cval(idx) < len(l):
            l[cval(idx)] = val
            return T('list', *l)
    if base.op == 'store' and base.args[1] is idx:
        return T('store', base.args[0], idx, val)
    return T('store', base, idx, val)


REBUILD['store'] = store


# ------------------------------------------------------------------ comparisons
def is_count(t):
    """a number of elements: an integer that is never negative"""
    if t.op == 'call':
        k = dict(t.args[1])
        if t.args[0] in ('numpy.sum', 'numpy.count_nonzero', 'numpy.nansum'):
            return is_boolish(k['a'])
        if t.args[0] == 'numpy.bincount':
            return k.get('weights', NONE) is NONE
    if t.op == 'getitem':
        return is_count(t.args[0])
    return t.op == 'len'


def count_cmp(op, a, b):
    """comparison of a count with 0 or 1 -> (op, count, 0) or None"""
    if is_int(b) and cval(b) in (0, 1) and is_count(a):
        if op == 'lt' and b is ONE or op == 'le' and b is ZERO:
            return 'eq', a
        if op == 'lt' and b is ZERO:
            return 'false', a
    if is_int(a) and cval(a) in (0, 1) and is_count(b):
        if op == 'lt' and a is ZERO or op == 'le' and a is ONE:
            return 'ne', b
        if op == 'le' and a is ZERO:
            return 'true', b
    return None


RANK_EQ = []


def cmp_(op, a, b):
    a, b = bfull([a, b])
    if op in ('eq', 'ne') and RANK_EQ:
        w = RANK_EQ[0](a, b)
        if w is not None:
            return w if op == 'eq' else REBUILD['binv'](w)
    if op in ('lt', 'le'):
        c = count_cmp(op, a, b)
        if c is not None:
            if c[0] in ('eq', 'ne'):
                return cmp_(c[0], c[1], ZERO)
            if dims(c[1]) == ():
                return const(c[0] == 'true')
    if is_const(a) and is_const(b):
        va, vb = cval(a), cval(b)
        try:
            if op == 'lt':
                return const(va < vb)
            if op == 'le':
                return const(va <= vb)
        except TypeError:
            return T(op, a, b)
        if op == 'eq':
            return const(va == vb and (isinstance(va, bool) == isinstance(vb, bool) or True))
        if op == 'ne':
            return const(va != vb)
    if op in ('eq', 'ne') and a is b and kind(a) == 'ndarray' and dims(a) and not is_boolish(a) and not is_count(a):
        # only missing values differ from themselves
        w = REBUILD['call']('numpy.isnan', (('x', a),))
        return w if op == 'ne' else REBUILD['binv'](w)
    if op in ('eq', 'ne'):
        r = eq_terms(a, b)
        if r is not None:
            return const(r if op == 'eq' else not r)
        a, b = sorted((a, b), key=lambda x: x.k)
    else:
        # integer difference known
        if kind(a) == 'int' and kind(b) == 'int':
            q = sub(a, b)
            if is_num(q):
                return const(cval(q) < 0 if op == 'lt' else cval(q) <= 0)
            # dims are positive
            p = _t._aspoly(q)
            if posdim(q):
                return FALSE
            if posdim(neg(q)):
                return TRUE
    t = T(op, a, b)
    if a.op == 'lay' or b.op == 'lay':
        return lift_lay(t)
    return t


def posdim(q):
    """q is a sum of positive monomials in positive symbols (array extents) -> q > 0"""
    p = _t._aspoly(q)
    if not p:
        return False
    some = False
    for m, c in p.items():
        if c < 0:
            return False
        for a, e in m:
            if not (a.op == 'sym' and syminfo(a).get('positive')) or e < 0:
                return False
        some = True
    return some


def eq_terms(a, b):
    """True/False/None"""
    if a is b:
        return True
    if is_const(a) and is_const(b):
        return cval(a) == cval(b)
    if a.op in ('list', 'tuple') and b.op in ('list', 'tuple'):
        if a.op != b.op or len(a.args) != len(b.args):
            return False
        rs = [eq_terms(x, y) for x, y in zip(a.args, b.args)]
        if any(r is False for r in rs):
            return False
        return None if any(r is None for r in rs) else True
    ka, kb = kind(a), kind(b)
    if (a is NONE or b is NONE):
        o = b if a is NONE else a
        if kind(o) not in ('any', 'none') or o.op in ('list', 'tuple', 'map'):
            return False
        return None
    for x, y in ((a, b), (b, a)):
        if x.op == 'str' and is_const(y) and isinstance(cval(y), str) and any(is_const(q) and isinstance(cval(q), str) and cval(q) not in cval(y) for q in x.args):
            return False
    if ka in ('str',) and kb in ('int', 'float', 'bool', 'list', 'tuple') or kb == 'str' and ka in ('int', 'float', 'bool', 'list', 'tuple'):
        return False
    # distinct extents are generic (unequal)
    if ka == 'int' and kb == 'int':
        q = sub(a, b)
        if is_num(q):
            return cval(q) == 0
        if all(x.op == 'sym' and syminfo(x).get('extent') for m, c in _t._aspoly(q).items() for x, e in m):
            return False
    if a.op == 'ite' and is_const(b) and is_const(a.args[1]) and is_const(a.args[2]):
        return None
    return None


for _o in ('lt', 'le', 'eq', 'ne'):
    REBUILD[_o] = (lambda o: lambda a, b: cmp_(o, a, b))(_o)


def _re_call(q, kws):
    if q in RED:
        k = dict(kws)
        a, ax = k.pop('a'), k.pop('axis', NONE)
        return reduce_(q, a, ax, tuple(sorted(k.items())))
    f = CALL_REBUILD.get(q)
    if f:
        return f(dict(kws))
    return T('call', q, kws)


CALL_REBUILD = dict(CALL_REBUILD0)
REBUILD['call'] = _re_call


# ------------------------------------------------------------------ binders
def bigsum(n, body_fn_or_body, idx):
    """sum_{idx in range(n)} body, linear in the monomials of body"""
    body = body_fn_or_body
    if is_int(n) and 0 <= cval(n) <= 12:
        r = ZERO
        for j in range(cval(n)):
            r = add(r, subst(body, {idx: const(j)}))
        return r
    if body.op == 'poly' or True:
        parts = _t._aspoly(body)
        r = ZERO
        for m, c in parts.items():
            inv = [(a, e) for a, e in m if not occurs(idx, a)]
            dep = [(a, e) for a, e in m if occurs(idx, a)]
            cf = const(c)
            for a, e in inv:
                cf = mul(cf, power(a, e))
            if not dep:
                r = add(r, mul(cf, n))
                continue
            if len(dep) == 1 and dep[0][1] == 1:
                core = dep[0][0]
            else:
                core = ONE
                for a, e in dep:
                    core = mul(core, power(a, e))
            r = add(r, mul(cf, bind('bigsum', (n,), idx, (core,))))
        return r


def lam_map(n, idx, body):
    """list [body(idx) for idx in range(n)]"""
    if is_int(n) and 0 <= cval(n) <= 12:
        return T('list', *[subst(body, {idx: const(j)}) for j in range(cval(n))])
    if n.op == 'len' and body.op == 'getitem' and body.args[1] is idx and body.args[0] is n.args[0] and kind(n.args[0]) == 'list':
        return n.args[0]        # [x[i] for i in range(len(x))]
    return bind('map', (n,), idx, (body,))


def _re_map(n, body):
    return T('map', n, body)


def kind_hook(t):
    op = t.op
    if op in ('lay', 'chunk', 'max2', 'min2', 'where', 'dist', 'bigsum', 'psum', 'opow', 'getitem', 'store', 'viewstore',
              'maybe', 'draw', 'scatter', 'fold', 'last'):
        if op in ('fold', 'last') and len(t.args) > 2:
            pass
        d = dims(t)
        if d is None:
            if op in ('lay', 'chunk'):
                return 'ndarray'
            if op in ('where', 'max2', 'min2', 'dist', 'psum', 'opow', 'bigsum'):
                ks = [kind(c) for c in children(t)]
                return 'ndarray' if 'ndarray' in ks else 'num'
            if op == 'getitem':
                kx = kind(t.args[0])
                if kx == 'ndarray':
                    if any(i.op == 'slice' or is_boolish(i) or kind(i) == 'ndarray' for i in as_index(t.args[1])):
                        return 'ndarray'
                    return 'num'
                if kx == 'str':
                    return 'str'
                if kx in ('list', 'tuple') and t.args[1].op == 'slice':
                    return kx
            if op in ('store', 'viewstore', 'maybe'):
                return kind(t.args[0])
            return None
        if d == ():
            if op == 'getitem' and (t.args[0].op in ('range',) or (t.args[0].op == 'call' and t.args[0].args[0] in (
                    'numpy.argsort', 'numpy.bincount', 'numpy.digitize'))):
                return 'int'
            if op == 'getitem' and kind(t.args[0]) != 'ndarray':
                return None
            return 'num'
        return 'ndarray'
    if op == 'bv':
        return 'int'
    if op in ('range', 'perm', 'cat', 'split'):
        return 'list'
    if op == 'dictmap':
        return 'dict'
    if op == 'load':
        return 'loaded'
    if op == 'slice':
        return 'slice'
    if op in ('obj',):
        return 'obj'
    if op in ('fn', 'ext', 'cls'):
        return 'fn'
    if op == 'call':
        q = t.args[0]
        if q in RED or q in EW_CALLS:
            d = dims(t)
            if d is None:
                return 'ndarray' if q in EW_CALLS and any(kind(v) == 'ndarray' for _, v in t.args[1]) else 'num'
            if q == 'numpy.count_nonzero' and d == ():
                return 'int'
            return 'ndarray' if d else 'num'
        if q in ('int', 'round') or q in ('os.getpid', 'hash', 'id', 'builtins.len'):
            return 'int'
        if q == 'float':
            return 'float'
        if q in ('strtobool', 'bool'):
            return 'bool'
        if q.startswith('os.path.') and q.split('.')[-1] in ('join', 'expanduser', 'basename', 'dirname', 'abspath', 'realpath', 'normpath'):
            return 'str'
        if q in ('glob.glob', 'os.listdir'):
            return 'list'
        if q in ('numpy.full', 'numpy.empty', 'numpy.zeros', 'numpy.ones', 'numpy.linspace', 'numpy.arange', 'numpy.concatenate',
                 'numpy.reshape', 'numpy.digitize', 'numpy.argsort', 'numpy.sort', 'numpy.bincount', 'numpy.unique', 'numpy.corrcoef',
                 'numpy.memmap', 'scipy.stats.rankdata', 'numpy.broadcast_to', 'numpy.delete', 'numpy.nonzero1', 'numpy.cumsum'):
            return 'ndarray'
        if q in ('numpy.quantile', 'numpy.nanquantile'):
            d = dims(t)
            return 'num' if d == () else 'ndarray'
        return None
    return None


KIND_HOOK[0] = kind_hook
