"""Which elements of the inputs an element of a result depends on.

access(t, idx) walks the term of a result downwards from one element (idx: one index term per axis) and returns the elements
of the input arrays that this element is computed from.  Reduced axes get a new index symbol.  In pairing mode the elements
read inside a reduction are judged there (they have to sit at one location) and not passed on.
"""
from vsa import terms as tm
from vsa.terms import T, ONE, ZERO, NONE, is_int, cval, add, mul, children, syminfo, inst, binder_h, contains
from vsa.arr import dims, EW_OPS, EW_CALLS, RED, SCALAR_OPS, as_index, is_scalar_index, is_boolish, radix_digits, norm_axis, adims
from vsa.check import Undecided


COUNT = [0]


def fresh(p='#r'):
    COUNT[0] += 1
    return tm.sym('%s%d' % (p, COUNT[0]), 'int')


def number(t, val):
    """value of an index for given extents and index symbols; None if it depends on anything else"""
    if is_int(t):
        return cval(t)
    if t.op == 'sym':
        return val.get(t)
    if t.op == 'poly':
        r = 0
        for m, c in t.args[0]:
            q = c
            for a, e in m:
                v = number(a, val)
                if v is None or e < 0:
                    return None
                q = q * v ** e
            r += q
        return r
    if t.op == 'digit':
        i = number(t.args[0], val)
        ss = [number(x, val) for x in t.args[1]]
        if i is None or None in ss:
            return None
        for j in range(len(ss) - 1, -1, -1):
            i, d = divmod(i, ss[j])
            if j == t.args[2]:
                return d
    return None


def same_location(a, b, extents):
    """True, False or None: whether two index tuples denote the same location for all values of the index symbols"""
    if a == b:
        return True
    syms = sorted({z for i in a + b for z in tm.walk(i) if z.op == 'sym' and z.args[0].startswith('#')}, key=str)
    if len(syms) > 6 or len(a) != len(b):
        return None
    opaque = [z for i in a + b for z in tm.walk(i) if z.op in ('at', 'pos')]
    if opaque:
        for x, y in ((a, b), (b, a)):
            # gathered by a sort order or a random draw on one side only
            if not any(z.op in ('at', 'pos') for i in y for z in tm.walk(i)):
                os = [z for i in x for z in tm.walk(i) if z.op in ('at', 'pos')]
                if all(z.op == 'at' and (z.args[0].op == 'draw' or z.args[0].op == 'call' and z.args[0].args[0] == 'numpy.argsort') and
                       not any(w.op in ('at', 'pos', 'getitem') for w in tm.walk(z.args[0].args[1] if False else T('tuple', *z.args[1:]))) for z in os):
                    return False
        return None
    names = sorted({z for x in extents for z in tm.walk(x) if z.op == 'sym'}, key=str)
    val = {z: (2, 3, 5, 4)[j % 4] for j, z in enumerate(names)}
    own = {}
    for t in (a, b):
        for i, x in zip(t, extents):
            if i.op == 'sym':
                own.setdefault(i, number(x, val))
    if any(z not in own for z in syms):
        for z in syms:
            own.setdefault(z, min(v for v in val.values()))
    import itertools
    for c in itertools.product(*[range(own[z]) for z in syms]):
        val.update(zip(syms, c))
        x = [number(i, val) for i in a]
        y = [number(i, val) for i in b]
        if None in x or None in y:
            return None
        if x != y:
            return False
    return True


def has_arrays(t, names):
    return contains(t, lambda z: z.op == 'sym' and z.args[0] in names)


class Dep:
    def __init__(self, arrays, pairing=False):
        self.arrays = {}                # symbol name -> axis of the members, or None
        for s, p in arrays:
            self.arrays[s.args[0]] = (s, p)
        self.names = set(self.arrays)
        self.pairing = pairing
        self.bodies = []                # (term, accesses) of each reduction body
        self.memo = {}
        self.n = 0

    def unk(self, t, why=''):
        raise Undecided('dependence through %s%s' % (t.op if t.op not in ('call', 'draw', 'mcall') else '%s %s' % (t.op, t.args[0] if isinstance(t.args[0], str) else '') + (str(t.args[1]) if t.op == 'mcall' else ''), why))

    def any(self, t):
        """an element of t that is not further determined"""
        d = dims(t)
        if d is None:
            if not has_arrays(t, self.names):
                return frozenset()
            return self.flood(t)
        return self.body(t, tuple(fresh() for _ in d))

    def flood(self, t):
        """every element of t, for terms of unknown shape"""
        if not has_arrays(t, self.names):
            return frozenset()
        if dims(t) is not None:
            return self.any(t)
        if t.op == 'call' and t.args[0] in ('numpy.bincount', 'sklearn.metrics.roc_curve', 'numpy.corrcoef'):
            return frozenset(self.call(t, ()))
        if t.op in tm.BINDERS:
            j = fresh('#s')
            cs = [inst(c, binder_h(t), [j]) for c in children(t)]
        else:
            cs = children(t)
        return frozenset().union(*[self.flood(c) for c in cs])

    def body(self, t, idx):
        s = self.access(t, idx)
        if self.pairing:
            self.bodies.append((t, s))
            return frozenset()
        return s

    def bodies_together(self, ts, idxs):
        s = frozenset().union(*[self.access(t, i) for t, i in zip(ts, idxs)])
        if self.pairing:
            self.bodies.append((ts[0], s))
            return frozenset()
        return s

    def access(self, t, idx):
        k = (t, idx)
        if k not in self.memo:
            self.n += 1
            if not has_arrays(t, self.names):
                self.memo[k] = frozenset()
            else:
                self.memo[k] = frozenset(self._access(t, idx))
        return self.memo[k]

    def elementwise(self, ts, idx):
        out = set()
        for a in ts:
            if not has_arrays(a, self.names):
                continue
            d = dims(a)
            if d is None:
                out |= self.flood(a)
                continue
            if len(d) > len(idx):
                self.unk(a, ' of larger rank')
            sub = idx[len(idx) - len(d):]
            sub = tuple(ZERO if n is ONE else i for n, i in zip(d, sub))
            out |= self.access(a, sub)
        return out

    def _access(self, t, idx):
        op = t.op
        if op in ('at', 'pos', 'digit'):
            return set()            # accounted for where the index was formed
        if op == 'sym':
            s, p = self.arrays[t.args[0]]
            if len(idx) != len(syminfo(t)['dims']):
                self.unk(t, ' with another number of indices')
            loc = idx if p is None else idx[:p] + idx[p + 1:]
            return {(t.args[0], loc)}
        if op == 'poly':
            return self.elementwise([a for m, c in t.args[0] for a, e in m], idx)
        if op in ('psum', 'opow', 'box'):
            return self.elementwise([t.args[0]], idx) if op != 'box' else self.any(t.args[0])
        if op == 'dist':
            return self.elementwise([v for _, v in t.args[2]], idx)
        if op in EW_OPS or op == 'ite' or op in ('and', 'or', 'truth'):
            if op == 'ite':
                return self.elementwise([t.args[0]], ()) | self.elementwise(t.args[1:], idx) if dims(t.args[0]) == () else self.elementwise(t.args, idx)
            return self.elementwise(t.args, idx)
        if op == 'lay':
            return self.access(t.args[0], self.lay(t, idx))
        if op == 'arr':
            return self.array(t.args[0], idx)
        if op == 'bigsum':
            j = fresh('#s')
            b = inst(t.args[1], binder_h(t), [j])
            return self.body(b, idx) | self.elementwise([t.args[0]], ())
        if op == 'getitem':
            return self.getitem(t, idx)
        if op == 'pearson':
            return self.paired(t.args, idx, t)
        if op == 'draw':
            k = dict(t.args[1])
            if 'choice' in t.args[0] or 'permutation' in t.args[0] or 'shuffle' in t.args[0]:
                out = set()
                for n, v in t.args[1]:
                    out |= self.any(v)
                return out
            return self.elementwise([v for n, v in t.args[1] if n not in ('size', 'random_state')], idx)
        if op == 'mcall':
            out = set()
            for c in children(t):
                if has_arrays(c, self.names):
                    out |= self.access(c, ()) if c.op in ('mcall', 'call') and dims(c) is None else self.any(c)
            return out
        if op in ('tuple', 'list', 'map') and idx == ():
            out = set()
            for c in children(t) if op != 'map' else [inst(t.args[1], binder_h(t), [fresh('#s')])]:
                out |= self.any(c)
            return out
        if op == 'call':
            return self.call(t, idx)
        self.unk(t)

    def paired(self, ts, idx, t):
        """vectors whose elements are put side by side"""
        ds = [dims(a) for a in ts]
        if any(d is None for d in ds) or len({len(d) for d in ds}) != 1:
            self.unk(t, ' of unknown shape')
        i = tuple(fresh() for _ in ds[0])
        return self.bodies_together(list(ts), [i] * len(ts))

    def call(self, t, idx):
        q = t.args[0]
        k = dict(t.args[1])
        if q in RED:
            a = k['a']
            d = dims(a)
            ax = k.get('axis', NONE)
            if d is None:
                return self.flood(a)
            if ax.op == 'tuple' and not ax.args:
                return self.access(a, idx)
            ax = norm_axis(ax, len(d)) if ax is not NONE else None
            if ax == 'unk':
                self.unk(t, ' along an unknown axis')
            if ax is None:
                ax = tuple(range(len(d)))
            kd = k.get('keepdims') is tm.TRUE
            it = iter(idx)
            full = []
            for p in range(len(d)):
                if p in ax:
                    if kd:
                        next(it)
                    full.append(fresh())
                else:
                    full.append(next(it))
            if 'where' in k:
                return self.bodies_together([a, k['where']], [tuple(full), tuple(full)[len(full) - len(dims(k['where'])):]])
            return self.body(a, tuple(full))
        if q == 'numpy.digitize':
            return self.elementwise([k['x']], idx) | self.any(k['bins'])
        if q in EW_CALLS or q == 'properscoring.crps_gaussian':
            return self.elementwise([v for n, v in t.args[1] if n != 'dtype'], idx)
        if q == 'properscoring.crps_ensemble':
            f, o = k['forecasts'], k['observations']
            d, do = dims(f), dims(o)
            if d is None or do is None or len(d) != len(do) + 1:
                self.unk(t, ' of unknown shape')
            return self.access(f, idx + (fresh(),)) | self.access(o, idx)
        if q == 'numpy.linspace':
            return self.elementwise([k['start'], k['stop']], ())
        if q in ('numpy.full', 'numpy.broadcast_to'):
            return self.elementwise([k.get('fill_value', k.get('array'))], idx)
        if q == 'numpy.bincount':
            ts = [k['x']] + ([k['weights']] if k.get('weights', NONE) is not NONE else [])
            return self.paired(ts, idx, t)
        if q == 'sklearn.metrics.roc_curve':
            return self.paired([k['y_true'], k['y_score']], idx, t)
        if q == 'numpy.corrcoef':
            return self.paired([k['x'], k['y']], idx, t) if 'y' in k else self.any(k['x'])
        if q in ('sklearn.metrics.auc',) or q.startswith('pandas.') or q in ('numpy.unique',):
            out = set()
            for n, v in t.args[1]:
                if has_arrays(v, self.names):
                    out |= self.access(v, ()) if dims(v) is None else self.any(v)
            return out
        if q in ('numpy.argsort', 'numpy.sort', 'scipy.stats.rankdata', 'numpy.cumsum'):
            ax = k.get('axis', NONE)
            d = dims(k['a'])
            if d is None or not is_int(ax):
                self.unk(t, ' along an unknown axis')
            p = cval(ax) % len(d)
            return self.body(k['a'], idx[:p] + (fresh(),) + idx[p + 1:])
        if q == 'numpy.take_along_axis':
            d = dims(k['arr'])
            di = dims(k['indices'])
            if d is None or di is None or not is_int(k.get('axis', NONE)) or len(d) != len(di):
                self.unk(t)
            p = cval(k['axis']) % len(d)
            at = T('at', k['indices'], *idx)
            return self.access(k['arr'], idx[:p] + (at,) + idx[p + 1:]) | (self.access(k['indices'], idx) if not self.pairing else self.closed(k['indices'], idx))
        if q == 'numpy.concatenate' and k['arrays'].op in ('list', 'tuple'):
            return self.pieces(k['arrays'].args, k.get('axis', ZERO), idx, t)
        if q == 'numpy.reshape':
            return self.any(k['a'])
        if q in ('float', 'int', 'bool') or q == 'numpy.interp':
            out = set()
            for n, v in t.args[1]:
                out |= self.any(v)
            return out
        self.unk(t)

    def closed(self, t, idx):
        s = self.access(t, idx)
        self.bodies.append((t, s))
        return frozenset()

    def pieces(self, els, ax, idx, t):
        """an element of a concatenation is read from the piece it falls into; which one follows from the extents"""
        if not is_int(ax):
            self.unk(t)
        p = cval(ax) % len(idx)
        off = ZERO
        out = set()
        for e in els:
            d = dims(e)
            if d is None:
                self.unk(t)
            out |= self.access(e, idx[:p] + (add(idx[p], mul(tm.const(-1), off)),) + idx[p + 1:])
            off = add(off, d[p])
        return out

    def array(self, lst, idx):
        if lst.op in ('list', 'tuple'):
            if idx and is_int(idx[0]) and 0 <= cval(idx[0]) < len(lst.args):
                return self.item(lst.args[cval(idx[0])], idx[1:])
            out = set()
            for e in lst.args:
                out |= self.item(e, idx[1:])
            return out
        if lst.op == 'map':
            return self.item(inst(lst.args[1], binder_h(lst), [idx[0]]), idx[1:])
        if lst.op == 'perm':
            raise Undecided('dependence through results in order of arrival')
        if lst.op == 'ite':
            return self.elementwise([lst.args[0]], ()) | self.array(lst.args[1], idx) | self.array(lst.args[2], idx)
        d = dims(lst)
        if d is None:
            self.unk(lst, ' of unknown shape')
        return self.access(lst, idx)

    def item(self, e, idx):
        if e.op in ('list', 'tuple', 'map', 'perm'):
            return self.array(e, idx)
        if dims(e) is not None and len(dims(e)) != len(idx):
            self.unk(e)
        return self.access(e, idx)

    def lay(self, t, idx):
        x, fact, groups = t.args
        at = {}
        for i, g in zip(idx, groups):
            if not g:
                continue
            sizes = [fact[a][k] for a, k in g]
            ds = [i] if len(g) == 1 else radix_digits(i, sizes)
            if ds is None:
                ds = [T('digit', i, tuple(sizes), j) for j in range(len(sizes))]
            for ak, q in zip(g, ds):
                at[ak] = q
        out = []
        for a, f in enumerate(fact):
            q = self.whole([at[(a, k)] for k in range(len(f)) if (a, k) in at], f)
            if q is None:
                if any((a, k) not in at for k in range(len(f))):
                    self.unk(t)
                q = ZERO
                for k, sz in enumerate(f):
                    q = add(mul(q, sz), at[(a, k)])
            out.append(q)
        return tuple(out)

    def whole(self, qs, sizes):
        """digits put back together"""
        if len(qs) == len(sizes) and len(qs) > 1 and all(q.op == 'digit' for q in qs) and len({q.args[0] for q in qs}) == 1:
            if all(q.args[1] == tuple(sizes) and q.args[2] == j for j, q in enumerate(qs)):
                return qs[0].args[0]
        return None

    def getitem(self, t, idx):
        x, ix = t.args
        d = dims(x)
        if x.op in ('call', 'mcall') and d is None:
            return self.access(x, ())
        if x.op in ('map', 'list', 'tuple') and d is None:
            return self.array(x, tuple(as_index(ix)) + idx) if is_scalar_index(ix) else self.unk(t)
        if d is None:
            return self.flood(x) | self.flood(ix)
        it = list(idx)
        src = []
        out = set()
        for i in as_index(ix):
            if i is NONE:
                it.pop(0)
                continue
            if is_scalar_index(i):
                src.append(i)
                out |= self.elementwise([i], ()) if not self.pairing else self.closed(i, ())
                continue
            if i.op == 'slice':
                a, b, c = i.args
                if c is not NONE and c is not ONE:
                    self.unk(t, ' with a step')
                q = it.pop(0)
                if a is not NONE:
                    a = add(a, d[len(src)]) if is_int(a) and cval(a) < 0 else a
                    q = add(q, a)
                src.append(q)
                continue
            if is_boolish(i):
                di = dims(i)
                if di is None:
                    self.unk(t)
                q = it.pop(0)
                pos = tuple(T('pos', i, q, j) for j in range(len(di)))
                src.extend(pos)
                out |= self.access(i, pos)
                continue
            di = dims(i)
            if di is None or len(di) != 1:
                self.unk(t, ' by an array')
            q = it.pop(0)
            src.append(T('at', i, q))
            out |= self.access(i, (q,)) if not self.pairing else self.closed(i, (q,))
        src.extend(it)
        if len(src) != len(d):
            self.unk(t, ' with another number of indices')
        return out | self.access(x, tuple(src))
