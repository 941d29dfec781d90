"""Hash-consed value-graph terms with an algebraic normal form.

A term is the abstract value the analyser assigns to an expression of the
analysed source.  Two expressions with the same term have the same value on
every input (modulo the stated float-associativity abstraction).  Nothing here
executes code of the analysed repository.
"""
import hashlib
from fractions import Fraction

_INTERN = {}


class Uid:
    """Identity of one random draw: part of term identity, not of its digest."""
    __slots__ = ('n',)
    _c = 0

    def __init__(self, n=None):
        if n is None:
            Uid._c += 1
            n = Uid._c
        self.n = n

    def __hash__(self):
        return hash(('uid', self.n))

    def __eq__(self, o):
        return isinstance(o, Uid) and o.n == self.n


def _dig(x, h):
    if isinstance(x, T):
        h.update(b'T')
        h.update(x.k)
    elif isinstance(x, tuple):
        h.update(b'(%d' % len(x))
        for y in x:
            _dig(y, h)
        h.update(b')')
    elif isinstance(x, Uid):
        h.update(b'U')
    else:
        h.update(type(x).__name__.encode())
        h.update(repr(x).encode())


class T:
    __slots__ = ('op', 'args', 'k', '_kind', '_dims', '_hts', '__weakref__')

    def __new__(cls, op, *args):
        key = (op, tuple((type(a), a) if not isinstance(a, (T, tuple)) else a for a in args))
        t = _INTERN.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.args = args
            h = hashlib.blake2b(digest_size=16)
            h.update(op.encode())
            for a in args:
                _dig(a, h)
            t.k = h.digest()
            t._kind = None
            t._dims = None
            t._hts = None
            _INTERN[key] = t
        return t

    def __repr__(self):
        return show(self)


# ---------------------------------------------------------------- symbols
SYM = {}   # name -> dict(kind=, dims=, notnone=, role=)


def sym(name, kind='any', dims=None, notnone=None, **kw):
    if notnone is None:
        notnone = kind != 'any'
    SYM[name] = dict(kind=kind, dims=dims, notnone=notnone, **kw)
    t = T('sym', name)
    t._kind = None
    t._dims = None
    return t


def syminfo(t):
    return SYM.get(t.args[0], {})


_tmp = [0]


def tmpsym(prefix, kind='any', dims=None, notnone=None):
    _tmp[0] += 1
    return sym('@%s%d' % (prefix, _tmp[0]), kind, dims, notnone)


# ---------------------------------------------------------------- constants
def const(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
        return T('const', v)
    if isinstance(v, (int, Fraction)):
        v = Fraction(v)
        return T('const', int(v) if v.denominator == 1 else v)
    if isinstance(v, float):
        if v != v:
            return T('sym', 'numpy.nan')
        if v in (float('inf'), float('-inf')):
            return T('sym', 'numpy.inf') if v > 0 else neg(T('sym', 'numpy.inf'))
        return const(Fraction(repr(v)))
    if v is Ellipsis:
        return T('const', '...')
    if isinstance(v, complex):
        return T('sym', repr(v))
    raise TypeError(repr(v))


NONE = T('const', None)
TRUE = T('const', True)
FALSE = T('const', False)
ZERO = const(0)
ONE = const(1)
for _n in ('numpy.nan', 'numpy.inf', 'numpy.pi', 'numpy.e'):
    SYM[_n] = dict(kind='float', dims=(), notnone=True)


def is_const(t):
    return t.op == 'const'


def is_num(t):
    return t.op == 'const' and isinstance(t.args[0], (int, Fraction)) and not isinstance(t.args[0], bool)


def cval(t):
    return t.args[0]


def is_int(t):
    return t.op == 'const' and type(t.args[0]) is int


def is_strc(t):
    return t.op == 'const' and isinstance(t.args[0], str)


# ---------------------------------------------------------------- kinds
LISTY = ('list', 'tuple', 'str', 'dict', 'set')
BOOL_OPS = {'lt', 'le', 'eq', 'ne', 'isnone', 'not', 'and', 'or', 'xor', 'in', 'is', 'truth', 'isinstance',
            'hasattr', 'bor', 'band', 'bxor', 'binv', 'exists'}
NUM_CALLS = set()


def kind(t):
    if t._kind is None:
        t._kind = _kind(t)
    return t._kind


KIND_HOOK = [None]
DIMS_HOOK = [None]


def _kind(t):
    op = t.op
    if op == 'const':
        v = t.args[0]
        if v is None:
            return 'none'
        if isinstance(v, bool):
            return 'bool'
        if isinstance(v, str):
            return 'str'
        if isinstance(v, bytes):
            return 'bytes'
        return 'int' if isinstance(v, int) else 'float'
    if op == 'sym':
        return syminfo(t).get('kind', 'any')
    if op in ('list', 'tuple', 'dict', 'str', 'set'):
        return op
    if op in ('map', 'fmap', 'append', 'cat', 'flatmap', 'sorted'):
        return 'list'
    if op == 'tostr':
        return 'str'
    if op == 'env':
        return 'str'
    if op == 'poly':
        ks = set()
        for mono, _ in t.args[0]:
            for a, _e in mono:
                ks.add(kind(a))
        if 'ndarray' in ks:
            return 'ndarray'
        if ks <= {'int', 'float', 'bool'} or not ks:
            return 'int' if ks <= {'int', 'bool'} and all(c.denominator == 1 for _, c in t.args[0]) else 'float'
        return 'num'
    if op == 'ite':
        a, b = kind(t.args[1]), kind(t.args[2])
        return a if a == b else 'any'
    if op in ('store', 'viewstore'):
        return kind(t.args[0])
    if op in ('and', 'or', 'not', 'isnone', 'truth', 'isinstance', 'hasattr', 'in', 'is', 'xor', 'exists'):
        return 'bool'
    if op in ('lt', 'le', 'eq', 'ne', 'band', 'bor', 'bxor', 'binv'):
        ks = [kind(a) for a in t.args if isinstance(a, T)]
        return 'ndarray' if 'ndarray' in ks else 'bool'
    if op == 'len':
        return 'int'
    if op == 'shape':
        return 'tuple'
    if op == 'arr':
        return 'ndarray'
    if KIND_HOOK[0]:
        r = KIND_HOOK[0](t)
        if r:
            return r
    return 'any'


def numeric_kind(k):
    return k in ('int', 'float', 'num', 'ndarray', 'any', 'bool', 'none')


# ---------------------------------------------------------------- polynomials
def _aspoly(t):
    """-> dict mono -> coef"""
    if t.op == 'poly':
        return dict(t.args[0])
    if is_num(t):
        return {(): Fraction(t.args[0])} if t.args[0] != 0 else {}
    return {((t, Fraction(1)),): Fraction(1)}


def _mkpoly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return const(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: _mkey(mc[0])))
    return T('poly', items)


def _mkey(m):
    return (len(m), [(a.k, e) for a, e in m])


def _mono(pairs):
    d = {}
    for a, e in pairs:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda ae: (ae[0].k, ae[1])))


def add(*ts):
    d = {}
    for t in ts:
        for m, c in _aspoly(t).items():
            d[m] = d.get(m, 0) + c
    return _mkpoly(d)


def scale(t, c):
    return _mkpoly({m: k * Fraction(c) for m, k in _aspoly(t).items()})


def neg(t):
    return scale(t, -1)


def sub(a, b):
    return add(a, neg(b))


MAXTERMS = 200


def mul(a, b):
    pa, pb = _aspoly(a), _aspoly(b)
    if len(pa) * len(pb) > MAXTERMS:
        if len(pa) > 1:
            pa = {((a, Fraction(1)),): Fraction(1)}
        if len(pb) > 1:
            pb = {((b, Fraction(1)),): Fraction(1)}
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mono(m1 + m2)
            d[m] = d.get(m, 0) + c1 * c2
    return _mkpoly(d)


def power(a, n):
    """a ** n for a Fraction n"""
    n = Fraction(n)
    if n == 0:
        return ONE
    if n == 1:
        return a
    pa = _aspoly(a)
    if is_num(a):
        if n.denominator == 1 and (a.args[0] != 0 or n > 0):
            return const(Fraction(a.args[0]) ** int(n))
        return T('poly', ((((a, n),), Fraction(1)),))
    if len(pa) == 1:
        (m, c), = pa.items()
        if n.denominator == 1:
            return _mkpoly({_mono(tuple((x, e * n) for x, e in m)): c ** int(n)})
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return _mkpoly({_mono(((m[0][0], n),)): Fraction(1)})
        # (x^2)^(1/2) = |x| : keep opaque
        return _mkpoly({((T('opow', a), n),): Fraction(1)})
    if n.denominator == 1 and 0 < n <= 4 and len(pa) ** int(n) <= MAXTERMS:
        r = a
        for _ in range(int(n) - 1):
            r = mul(r, a)
        return r
    if n.denominator == 1:
        # normalise sign / content of a sum used as an atom
        return _mkpoly({((T('psum', a), n),): Fraction(1)})
    return _mkpoly({((T('psum', a), n),): Fraction(1)})


def div(a, b):
    return mul(a, power(b, -1))


# 'psum'/'opow' wrap a non-atomic polynomial used as a factor; unwrap when exponent is 1
def _fix_wrapped(t):
    return t


# ---------------------------------------------------------------- traversal
def children(t):
    out = []
    for a in t.args:
        if isinstance(a, T):
            out.append(a)
        elif isinstance(a, tuple):
            _coll(a, out)
    return out


def _coll(tp, out):
    for x in tp:
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            _coll(x, out)


def walk(t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def occurs(needle, t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x is needle:
            return True
        if x in seen:
            continue
        seen.add(x)
        stack.extend(children(x))
    return False


def _maptuple(tp, f):
    return tuple(f(x) if isinstance(x, T) else _maptuple(x, f) if isinstance(x, tuple) else x for x in tp)


REBUILD = {}    # op -> smart constructor taking the args


def rebuild(op, args):
    f = REBUILD.get(op)
    if f:
        return f(*args)
    return T(op, *args)


def subst(t, m, memo=None):
    """Replace terms by m (dict T->T), renormalising on the way up."""
    if memo is None:
        memo = {}
    if not m:
        return t

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x in m:
            r = m[x]
        elif x.op in ('const', 'sym', 'bv', 'env'):
            r = x
        elif x.op == 'poly':
            acc = {}
            changed = False
            for mono, c in x.args[0]:
                for a, _e in mono:
                    if go(a) is not a:
                        changed = True
            if not changed:
                r = x
            else:
                r = ZERO
                for mono, c in x.args[0]:
                    p = const(c)
                    for a, e in mono:
                        p = mul(p, power(go(a), e))
                    r = add(r, p)
        else:
            na = _maptuple(x.args, go)
            r = x if na == x.args else rebuild(x.op, na)
        memo[x] = r
        return r
    return go(t)


def _psum(a):
    if a.op == 'poly' and len(a.args[0]) > 1:
        return T('psum', a)
    return a


REBUILD['psum'] = _psum


def _opow(a):
    if a.op == 'poly':
        return T('opow', a)
    return a


REBUILD['opow'] = _opow

# ---------------------------------------------------------------- binders
# map(n, body): body mentions T('bv', h) where h is the binder height.


def height(t):
    if t._hts is None:
        h = 0
        for c in children(t):
            h = max(h, height(c))
        if t.op in BINDERS:
            h += 1
        t._hts = h
    return t._hts


BINDERS = {'map', 'fmap', 'bigsum', 'fold', 'last', 'lam', 'flatmap', 'perm_by', 'while', 'bigmax'}


def bind(op, pre, idx, bodies):
    """Build a binder term op(*pre, *bodies) abstracting the symbol(s) idx."""
    if isinstance(idx, T):
        idx = (idx,)
    h = 1 + max([height(b) for b in bodies] + [0])
    m = {s: T('bv', h, j) for j, s in enumerate(idx)}
    nb = tuple(subst(b, m) for b in bodies)
    h2 = 1 + max([height(b) for b in nb] + [0])
    if h2 != h:
        m2 = {T('bv', h, j): T('bv', h2, j) for j in range(len(idx))}
        nb = tuple(subst(b, m2) for b in nb)
    return rebuild(op, tuple(pre) + nb)


def inst(body, h, vals):
    return subst(body, {T('bv', h, j): v for j, v in enumerate(vals)})


def binder_h(t):
    return height(t)


# ---------------------------------------------------------------- booleans
def not_(c):
    if is_const(c):
        return const(not cval(c))
    if c.op == 'not':
        return c.args[0]
    if c.op == 'ite' and kind(c) == 'bool':
        return ite(c.args[0], not_(c.args[1]), not_(c.args[2]))
    return T('not', c)


def and_(*cs):
    out = []
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        if c.op == 'and':
            out.extend(c.args)
        else:
            out.append(c)
    u = []
    for c in out:
        if c not in u:
            u.append(c)
    for c in u:
        if not_(c) in u:
            return FALSE
    if not u:
        return TRUE
    if len(u) == 1:
        return u[0]
    return T('and', *sorted(u, key=lambda x: x.k))


def or_(*cs):
    out = []
    for c in cs:
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        if c.op == 'or':
            out.extend(c.args)
        else:
            out.append(c)
    u = []
    for c in out:
        if c not in u:
            u.append(c)
    for c in u:
        if not_(c) in u:
            return TRUE
    if not u:
        return FALSE
    if len(u) == 1:
        return u[0]
    return T('or', *sorted(u, key=lambda x: x.k))


def xor_(a, b):
    if is_const(a) and is_const(b):
        return const(bool(cval(a)) != bool(cval(b)))
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is TRUE:
        return not_(b)
    if b is TRUE:
        return not_(a)
    if a is b:
        return FALSE
    return T('xor', *sorted((a, b), key=lambda x: x.k))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if c.op == 'le' and kind(c) == 'bool':
        return ite(T('lt', c.args[1], c.args[0]), b, a)
    if c.op == 'ne' and kind(c) == 'bool':
        return ite(T('eq', *c.args), b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    a = assume(a, c, True)
    b = assume(b, c, False)
    if a is b:
        return a
    return T('ite', c, a, b)


def under_fact(t, c):
    """t where c holds"""
    m = {}
    for g in (c.args if c.op == 'and' else (c,)):
        if g.op == 'const':
            continue
        if g.op == 'not':
            m[g.args[0]] = FALSE
        else:
            m[g] = TRUE
    return subst(t, m) if m else t


def assume(t, c, val):
    """Simplify ite(c, ..) nested at the top spine of t under c == val."""
    if t.op == 'ite' and t.args[0] is c:
        return t.args[1] if val else t.args[2]
    return t


REBUILD['not'] = not_
REBUILD['and'] = and_
REBUILD['or'] = or_
REBUILD['xor'] = xor_
REBUILD['ite'] = ite


# ---------------------------------------------------------------- printing
def show(t, depth=12):
    if depth <= 0:
        return '…'
    d = depth - 1
    op = t.op
    if op == 'const':
        return repr(t.args[0]) if not isinstance(t.args[0], Fraction) else str(t.args[0])
    if op == 'sym':
        return t.args[0]
    if op == 'bv':
        return 'i%d%s' % (t.args[0], '' if len(t.args) < 2 or t.args[1] == 0 else '_%d' % t.args[1])
    if op == 'env':
        return 'env[%s]' % t.args[0]
    if op == 'poly':
        parts = []
        for m, c in t.args[0]:
            s = '*'.join(show(a, d) + ('' if e == 1 else '^%s' % e) for a, e in m)
            if c != 1 or not s:
                s = ('%s*%s' % (c, s)) if s else str(c)
            parts.append(s)
        return '(' + ' + '.join(parts) + ')'
    if op == 'call':
        kw = ', '.join('%s=%s' % (k, show(v, d)) for k, v in t.args[1])
        return '%s(%s)' % (t.args[0].replace('numpy.', 'np.'), kw)
    if op == 'draw':
        kw = ', '.join('%s=%s' % (k, show(v, d)) for k, v in t.args[1])
        return '~%s#%d(%s)' % (t.args[0], t.args[3].n, kw)
    if op == 'getitem':
        return '%s[%s]' % (show(t.args[0], d), show(t.args[1], d))
    if op in ('list', 'tuple'):
        return ('[%s]' if op == 'list' else '(%s)') % ', '.join(show(a, d) for a in t.args)
    if op in ('lt', 'le', 'eq', 'ne'):
        return '(%s %s %s)' % (show(t.args[0], d), {'lt': '<', 'le': '<=', 'eq': '==', 'ne': '!='}[op], show(t.args[1], d))
    if op == 'ite':
        return 'if(%s ? %s : %s)' % tuple(show(a, d) for a in t.args)

    def sh(a):
        if isinstance(a, T):
            return show(a, d)
        if isinstance(a, tuple):
            return '(' + ', '.join(sh(x) for x in a) + ')'
        return repr(a) if not isinstance(a, Uid) else '#%d' % a.n
    return '%s(%s)' % (op, ', '.join(sh(a) for a in t.args))
