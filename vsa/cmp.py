"""Term comparison: equality up to draw identity, localisation of a difference
and the decision whether a difference may be reported as a violation."""
from . import terms as tm
from .terms import T, Uid, show, walk, children, not_, const


def _ren(x, m):
    if isinstance(x, Uid):
        if x not in m:
            m[x] = Uid(-1 - len(m))
        return m[x]
    return x


def canon(t):
    """renumber draw identities in order of first occurrence (DFS)"""
    m = {}
    seen = set()
    order = []

    def collect(x):
        stack = [x]
        while stack:
            y = stack.pop()
            if y in seen:
                continue
            seen.add(y)
            for a in y.args:
                if isinstance(a, Uid):
                    _ren(a, m)
            stack.extend(reversed(children(y)))
    collect(t)
    if not m:
        return t
    memo = {}

    def mp(tp):
        return tuple(go(a) if isinstance(a, T) else mp(a) if isinstance(a, tuple) else m.get(a, a) if isinstance(a, Uid) else a for a in tp)

    def go(x):
        r = memo.get(x)
        if r is None:
            r = x
            na = mp(x.args)
            if na != x.args:
                if x.op == 'poly':
                    r = T('poly', tuple(sorted(na[0], key=lambda mc: tm._mkey(mc[0]))))
                else:
                    r = T(x.op, *na)
            memo[x] = r
        return r
    return go(t)


def same(a, b):
    if a is b:
        return True
    if a.k != b.k:
        return False
    return canon(a) is canon(b) or a.k == b.k and not _conflict(a, b)


def under(t, c):
    """t where c holds (the compared quantity is known where c equates it with a number)"""
    t = tm.under_fact(t, c)
    if c.op == 'eq' and tm.is_num(c.args[0]) != tm.is_num(c.args[1]):
        x, v = c.args if tm.is_num(c.args[1]) else c.args[::-1]
        t = tm.subst(t, {x: v})
    return t


def equal(a, b, depth=3):
    """same value: identical normal forms, or identical elements at symbolic positions; draws shared between parts of one value must be
    shared in the same way in the other"""
    if same(a, b):
        return True
    if a.op == 'ite' and depth > 0 and not (b.op == 'ite' and same(a.args[0], b.args[0])):
        c = a.args[0]
        return equal(under(a.args[1], c), under(b, c), depth - 1) and equal(under(a.args[2], not_(c)), under(b, not_(c)), depth - 1)
    ps = []
    if not _pairs(a, b, depth, ps):
        return split_equal(a, b, depth)
    return same(T('tuple', *[p for p, _ in ps]), T('tuple', *[q for _, q in ps]))


def split_equal(a, b, depth):
    """cases on a condition inside either value"""
    if depth <= 0:
        return False
    for t in (a, b):
        for x in walk(t):
            if x.op == 'ite' and x.args[0].op != 'const' and not tm.contains(x.args[0], lambda z: z.op == 'bv'):
                c = x.args[0]
                n = not_(c)
                for f in (c, n):
                    if not equal(under(a, f), under(b, f), depth - 1):
                        return False
                return True
    return False


def _pairs(a, b, depth, out):
    if same(a, b):
        out.append((a, b))
        return True
    if depth <= 0:
        return False
    if a.op == 'ite' and b.op == 'ite' and same(a.args[0], b.args[0]):
        return _pairs(a.args[1], b.args[1], depth, out) and _pairs(a.args[2], b.args[2], depth, out)
    if a.op in ('tuple', 'list') and a.op == b.op and len(a.args) == len(b.args):
        return all(_pairs(x, y, depth - 1, out) for x, y in zip(a.args, b.args))
    ea = elements(a)
    if ea is None or len(ea[0]) == 0:
        return False
    eb = elements(b)
    if eb is None or ea[0] != eb[0]:
        return False
    if not same(ea[1], eb[1]):
        return False
    out.append((ea[1], eb[1]))
    return True


def elements(t):
    """(dims, element at a symbolic position) of an array term"""
    from .arr import dims, getitem
    d = dims(t)
    if d is None or t.op in ('tuple', 'list'):
        return None
    ix = [tm.sym('#%d' % p, 'int', ()) for p in range(len(d))]
    if not d:
        return d, t
    return d, getitem(t, T('tuple', *ix) if len(ix) > 1 else ix[0])


def _conflict(a, b):
    """the digest ignores draw identity: check the two identity patterns are isomorphic"""
    fw, bw = {}, {}
    seen = set()
    bad = []

    def go(x, y):
        if (x, y) in seen:
            return
        seen.add((x, y))
        if x.op != y.op:
            bad.append((x, y))
            return
        tup(x.args, y.args)

    def tup(p, q):
        if len(p) != len(q):
            bad.append((p, q))
            return
        for u, v in zip(p, q):
            if isinstance(u, T) and isinstance(v, T):
                go(u, v)
            elif isinstance(u, tuple) and isinstance(v, tuple):
                tup(u, v)
            elif isinstance(u, Uid) and isinstance(v, Uid):
                if fw.setdefault(u, v) != v or bw.setdefault(v, u) != u:
                    bad.append((u, v))
    go(a, b)
    return bool(bad)


# ------------------------------------------------------------------ localise
def diffs(a, b, limit=12):
    """smallest differing subterm pairs (structural descent)"""
    out = []
    seen = set()

    def go(x, y):
        if x is y or (x, y) in seen or len(out) >= limit:
            return
        seen.add((x, y))
        if x.op != y.op or x.op in ('const', 'sym', 'bv', 'env'):
            out.append((x, y))
            return
        if x.op == 'poly':
            px, py = dict(x.args[0]), dict(y.args[0])
            ox = [m for m in px if m not in py or px[m] != py[m]]
            oy = [m for m in py if m not in px or px[m] != py[m]]
            if len(ox) == len(oy) == 1 and px[ox[0]] == py[oy[0]]:
                ax = [p for p in ox[0] if p not in oy[0]]
                ay = [p for p in oy[0] if p not in ox[0]]
                if len(ax) == len(ay) == 1 and ax[0][1] == ay[0][1]:
                    go(ax[0][0], ay[0][0])
                    return
            out.append((tm._mkpoly({m: px[m] for m in ox}), tm._mkpoly({m: py[m] for m in oy})))
            return
        if not tup(x.args, y.args, x, y):
            out.append((x, y))

    def shape(p, q):
        if len(p) != len(q):
            return False
        for u, v in zip(p, q):
            if isinstance(u, T) != isinstance(v, T) or isinstance(u, tuple) != isinstance(v, tuple):
                return False
            if isinstance(u, tuple):
                if not shape(u, v):
                    return False
            elif not isinstance(u, T) and not isinstance(u, Uid) and u != v:
                return False
        return True

    def tup(p, q, x=None, y=None):
        if not shape(p, q):
            return False
        for u, v in zip(p, q):
            if isinstance(u, T):
                go(u, v)
            elif isinstance(u, tuple):
                tup(u, v)
        return True
    go(a, b)
    return out


# ------------------------------------------------------------------ decide
INTERP = {'const', 'sym', 'bv', 'env', 'envset', 'envunset', 'poly', 'psum', 'opow', 'call', 'draw', 'dist', 'getitem', 'tuple', 'list', 'dict', 'arr',
          'ite', 'map', 'bigsum', 'slice', 'lay', 'lt', 'le', 'eq', 'ne', 'max2', 'min2', 'append', 'truth', 'not', 'and', 'or', 'xor',
          'band', 'bor', 'bxor', 'binv', 'pearson', 'where', 'len', 'shape', 'isnone', 'isinstance', 'str', 'tostr', 'store', 'cat'}

CORE = {'numpy.' + n for n in (
    'sum', 'nansum', 'mean', 'nanmean', 'max', 'nanmax', 'min', 'nanmin', 'abs', 'quantile', 'nanquantile', 'isnan', 'var', 'nanvar', 'std',
    'nanstd', 'full', 'any', 'all', 'median', 'nanmedian', 'exp', 'log', 'sqrt', 'maximum', 'minimum', 'clip', 'count_nonzero', 'bincount',
    'linspace', 'digitize', 'argsort', 'sort', 'stack', 'array_split', 'concatenate', 'take_along_axis', 'sign', 'squeeze', 'nextafter', 'spacing')} | {'int', 'float', 'str', 'properscoring.crps_gaussian', 'properscoring.crps_ensemble', 'scipy.special.gamma'}


def lossy(x):
    """rounding: the result is another value unless the operand happens to be on the grid"""
    if x.op != 'call':
        return False
    k = dict(x.args[1]) if len(x.args) > 1 and isinstance(x.args[1], tuple) and all(isinstance(e, tuple) and len(e) == 2 for e in x.args[1]) else {}
    if x.args[0] == 'numpy.astype':
        return k.get('dtype') is const('float32')
    if x.args[0] in ('numpy.round', 'numpy.around', 'numpy.rint'):
        return True
    return False


def names(t):
    out = set()
    for x in walk(t):
        if x.op in ('call', 'draw', 'dist') and not lossy(x):
            out.add(str(x.args[0]))
        elif x.op == 'mcall':
            out.add('.' + str(x.args[1]))
    return out


CLOSED = {'norm', 'truncnorm', 'gamma', 'PyAnEn.dist_truncgamma.truncgamma_gen'}
CLOSED |= {'rvs:' + n for n in CLOSED}


def known_pair(a, s):
    """one member of a family of different distributions stands where another is required"""
    if a.op == s.op and a.op in ('dist', 'draw') and a.args[0] in CLOSED and s.args[0] in CLOSED and a.args[0] != s.args[0]:
        return {str(a.args[0])}
    return set()


def odd(t, spec):
    """what in t keeps a difference from being a verdict"""
    ok_ops = INTERP | {x.op for x in walk(spec)}
    ok_calls = CORE | names(spec)
    if 'randint' in ok_calls:
        # drawing without replacement or with weights (the other case is spelled randint)
        ok_calls.add('choice')
    bad = {x.op for x in walk(t)} - ok_ops
    bad |= names(t) - ok_calls
    if bad & {'numpy.mod'}:
        # only the number of samples split into groups: samples are left out
        cuts = {x: T('cut', tm.ONE, tm.ONE, tm.ONE) for x in walk(t) if x.op == 'cut'}
        totals = {x.args[0] for x in cuts}
        cuts.update({x: T('slice', tm.NONE, tm.NONE, tm.NONE) for x in walk(t) if x.op == 'slice' and x.args[1] in totals})
        if not names(tm.subst(t, cuts)) & {'numpy.mod'}:
            bad -= {'numpy.mod'}
    return bad


def classify(actual, spec):
    """None if equal; ('violation', pairs) or ('undecided', reason)"""
    if equal(actual, spec):
        return None
    ds = diffs(canon(actual), canon(spec)) or [(actual, spec)]
    bad = set()
    for a, s in ds or [(actual, spec)]:
        # vocabulary of the whole specification is available to the code
        bad |= odd(a, spec) - known_pair(a, s)
    if any(x.op == 'misordered' for a, s in ds for x in walk(a)):
        return ('violation', ds)
    if bad:
        return ('undecided', 'difference involves operations the specification does not use: %s' % sorted(bad)[:8])
    return ('violation', ds)


def describe(ds, depth=7):
    out = []
    for a, s in ds[:4]:
        out.append('code:     ' + show(a, depth)[:500])
        out.append('required: ' + show(s, depth)[:500])
    return '\n'.join(out)
