"""Interprocedural abstract interpreter (gated value numbering) over Python ASTs.

The analysed source is only parsed, never imported or executed.  Every
expression gets a term (see terms.py); branches are joined with gated `ite`
terms, loops are summarised into map/sum/scatter/fold binders; calls into the
analysed package are resolved and inlined; calls into libraries are modelled in
lib.py.  Side effects (environment, file system, mutation of caller arrays,
raises, assertions) go to an effect log with their guards.
"""
import ast
import os
from .arr import *
from . import terms as tm


class Unsupported(Exception):
    pass


class Dead(Exception):
    """The current abstract path ended in an exception (recorded as a leaf)."""


class Budget(Exception):
    pass


# ------------------------------------------------------------------ values
class Value:
    __slots__ = ()


class Val(Value):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class Ref(Value):
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc


class Tup(Value):
    __slots__ = ('elts', 'names')

    def __init__(self, elts, names=None):
        self.elts = tuple(elts)
        self.names = names


class Fn(Value):
    __slots__ = ('node', 'mod', 'fid', 'name', 'cls', 'defaults', 'kwdefaults', 'kind', 'decos')

    def __init__(self, node, mod, fid, name, cls=None, defaults=(), kwdefaults=None, kind='func', decos=()):
        self.node, self.mod, self.fid, self.name, self.cls = node, mod, fid, name, cls
        self.defaults, self.kwdefaults, self.kind, self.decos = defaults, kwdefaults or {}, kind, decos

    @property
    def qual(self):
        return self.mod + '.' + ((self.cls + '.') if self.cls else '') + self.name


class Ext(Value):
    __slots__ = ('q',)

    def __init__(self, q):
        self.q = q


class Mod(Value):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class Bound(Value):
    __slots__ = ('recv', 'fn')

    def __init__(self, recv, fn):
        self.recv, self.fn = recv, fn


class Meth(Value):
    """method of a non-repository object"""
    __slots__ = ('recv', 'name')

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class Part(Value):
    __slots__ = ('fn', 'args', 'kwargs')

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class ClsV(Value):
    __slots__ = ('info',)

    def __init__(self, info):
        self.info = info


class Sup(Value):
    __slots__ = ('cls', 'recv')

    def __init__(self, cls, recv):
        self.cls, self.recv = cls, recv


class Choice(Value):
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Remote(Value):
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


class GenCtx(Value):
    """un-entered @contextmanager call"""
    __slots__ = ('fn', 'args', 'kwargs')

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class Null(Value):
    """library context manager / progress bar whose use has no effect on values"""
    __slots__ = ('inner', 'tag')

    def __init__(self, inner=None, tag=''):
        self.inner = inner
        self.tag = tag


class Unbound(Value):
    __slots__ = ()


UNBOUND = Unbound()
VNONE = Val(NONE)


class ClassInfo:
    def __init__(self, name, mod, bases, attrs, node):
        self.name, self.mod, self.bases, self.attrs, self.node = name, mod, bases, attrs, node

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClsV):
                for c in b.info.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, name, after=None):
        m = self.mro()
        if after is not None:
            m = m[m.index(after) + 1:]
        for c in m:
            if name in c.attrs:
                return c, c.attrs[name]
        return None, None

    def ext_bases(self):
        out = []
        for c in self.mro():
            for b in c.bases:
                if isinstance(b, Ext):
                    out.append(b.q)
        return out


class Cell:
    __slots__ = ('kind', 'data', 'base', 'path', 'user', 'may', 'alias')

    def __init__(self, kind, data, base=None, path=None, user=None, may=False, alias=()):
        self.kind, self.data, self.base, self.path, self.user, self.may, self.alias = kind, data, base, path, user, may, alias

    def with_data(self, data, kind=None):
        return Cell(kind or self.kind, data, self.base, self.path, self.user, self.may, self.alias)


class Effect:
    __slots__ = ('kind', 'data', 'pc', 'loops', 'site', 'stack', 'handlers')

    def __init__(self, kind, data, pc, loops, site, stack, handlers=()):
        self.kind, self.data, self.pc, self.loops, self.site, self.stack, self.handlers = kind, data, pc, loops, site, stack, handlers

    def __repr__(self):
        return '%s%r pc=%r @%s' % (self.kind, self.data, [(show(c, 4), b) for c, b in self.pc], self.site)


class State:
    __slots__ = ('frames', 'heap', 'osenv', 'facts', 'pc', 'log', 'res')

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.osenv = {}
        self.facts = {}
        self.pc = ()
        self.log = []
        self.res = {}

    def clone(self):
        s = State()
        s.frames = dict(self.frames)
        s.heap = dict(self.heap)
        s.osenv = dict(self.osenv)
        s.facts = dict(self.facts)
        s.pc = self.pc
        s.log = list(self.log)
        s.res = dict(self.res)
        return s


class Leaf:
    __slots__ = ('exc', 'msg', 'state', 'site', 'pc', 'val')

    def __init__(self, exc, msg, state, site):
        self.exc, self.msg, self.state, self.site = exc, msg, state, site
        self.pc = state.pc

    def __repr__(self):
        return 'raise %s @%s' % (self.exc, self.site)


class Flow:
    """outcome of a block: normal state is self.S of the interpreter when alive"""
    __slots__ = ('rets', 'breaks', 'conts')

    def __init__(self):
        self.rets, self.breaks, self.conts = [], [], []


class Ret(Exception):
    def __init__(self):
        pass


MAXDEPTH = 60
_INTERNAL = {'__name__', '__file__'}


class Interp:
    def __init__(self, world, lib, config=None):
        self.world = world
        self.lib = lib
        self.S = State()
        self.nloc = 0
        self.nfid = 0
        self.stack = []        # call stack of (qualname, Fn)
        self.site = ('?', 0)
        self.loops = ()        # enclosing symbolic loops (idx, n)
        self.collectors = [[]]  # exception leaves
        self.steps = 0
        self.maxsteps = 400000
        self.fault_at = None   # event number to fault
        self.fault_exc = 'Fault'
        self.events = []       # potential raise points
        self.handlers = ()     # enclosing try kinds
        self.unsup = []        # unmodelled constructs encountered
        self.config = config or {}
        self.mods = {}
        self.yields = []
        self.consulted = set()
        self.probing = 0
        self.lock_ctx = []

    # -------------------------------------------------- utilities
    def note(self, what):
        self.unsup.append((what, self.site))

    def effect(self, kind, *data):
        if self.probing:
            return
        self.S.log.append(Effect(kind, data, self.S.pc, self.loops, self.site, tuple(q for q, _ in self.stack), self.handlers))

    def new(self, cell):
        self.nloc += 1
        self.S.heap[self.nloc] = cell
        return Ref(self.nloc)

    def fresh(self, t, **k):
        """value for a term: scalars stay immutable, containers get a heap cell"""
        kd = kind(t)
        if kd in ('int', 'float', 'str', 'bool', 'none', 'bytes', 'slice') or t.op in ('const', 'bv', 'shape'):
            return Val(t)
        if t.op == 'tuple':
            return Tup([self.fresh(x) for x in t.args])
        if kd == 'num' or (kd != 'ndarray' and dims(t) == ()):
            return Val(t)
        if t.op == 'list':
            return self.new(Cell('list', tuple(self.fresh(x) for x in t.args)))
        return self.new(Cell('arr', t, **k))

    def cell(self, v):
        return self.S.heap[v.loc]

    def view(self, v, path):
        """a view of ref v through path (term over HOLE)"""
        if isinstance(v, Ref):
            return self.new(Cell('view', None, base=v.loc, path=path))
        return Val(subst(path, {HOLE: self.read(v)}))

    def content(self, loc):
        c = self.S.heap[loc]
        if c.kind == 'view':
            b = self.content(c.base)
            if b.op == 'viewstore' and b.args[0] is c.path:
                return b.args[2]
            if b.op == 'maybe' and b.args[1].op == 'viewstore' and b.args[1].args[0] is c.path:
                return b.args[1].args[2]
            return self.apply_path(c.path, b)
        if c.kind == 'arr':
            return c.data
        if c.kind == 'list':
            return T('list', *[self.read(x) for x in c.data])
        if c.kind == 'dict':
            return T('dict', tuple((k, self.read(x)) for k, x in c.data))
        if c.kind == 'set':
            return T('set', *[self.read(x) for x in c.data])
        if c.kind == 'inst':
            return T('obj', c.data[0].name, loc)
        raise Unsupported('content ' + c.kind)

    def apply_path(self, path, b):
        # the hole must have the dims of b for rank-dependent rewriting
        return subst(path, {HOLE: b})

    def read(self, v):
        if isinstance(v, Val):
            return v.t
        if isinstance(v, Ref):
            return self.content(v.loc)
        if isinstance(v, Tup):
            return T('tuple', *[self.read(x) for x in v.elts])
        if isinstance(v, Fn):
            return T('fn', v.qual, v.node.lineno if v.name == '<lambda>' else 0)
        if isinstance(v, Ext):
            if v.q in ('numpy.nan', 'numpy.inf', 'numpy.pi', 'numpy.e'):
                return T('sym', v.q)
            return T('ext', v.q)
        if isinstance(v, ClsV):
            return T('cls', v.info.mod + '.' + v.info.name)
        if isinstance(v, Choice):
            return ite(v.c, self.read(v.a), self.read(v.b))
        if isinstance(v, Part):
            return T('partial', self.read(v.fn), tuple(self.read(a) for a in v.args), tuple(sorted((k, self.read(a)) for k, a in v.kwargs.items())))
        if isinstance(v, Bound):
            return T('bound', self.read(v.recv), self.read(v.fn))
        if isinstance(v, Meth):
            return T('meth', self.read(v.recv), v.name)
        if isinstance(v, Null):
            return self.read(v.inner) if v.inner is not None else T('null', v.tag)
        if isinstance(v, Mod):
            return T('ext', v.name)
        if isinstance(v, Remote):
            return T('remote', self.read(v.fn))
        if v is UNBOUND:
            return T('unbound')
        return T('opaque', type(v).__name__)

    def roots(self, loc, acc=None):
        """all locations an update of loc may write through"""
        acc = set() if acc is None else acc
        if loc in acc:
            return acc
        acc.add(loc)
        c = self.S.heap[loc]
        if c.base is not None:
            self.roots(c.base, acc)
        for a in c.alias:
            self.roots(a, acc)
        return acc

    def users_of(self, v):
        """names of caller-owned objects v may alias"""
        out = set()
        if isinstance(v, Ref):
            for l in self.roots(v.loc):
                u = self.S.heap[l].user
                if u:
                    out.add(u)
        elif isinstance(v, Choice):
            out |= self.users_of(v.a) | self.users_of(v.b)
        return out

    def deep_users(self, v, seen=None):
        seen = set() if seen is None else seen
        out = set(self.users_of(v))
        if isinstance(v, Tup):
            for e in v.elts:
                out |= self.deep_users(e, seen)
        if isinstance(v, Ref) and v.loc not in seen:
            seen.add(v.loc)
            c = self.cell(v)
            if c.kind == 'list':
                for e in c.data:
                    out |= self.deep_users(e, seen)
            elif c.kind == 'dict':
                for _, e in c.data:
                    out |= self.deep_users(e, seen)
        return out

    def write_cell(self, loc, term, what):
        """replace the content of loc (in-place mutation)"""
        c = self.S.heap[loc]
        us = set()
        for l in self.roots(loc):
            u = self.S.heap[l].user
            if u:
                us.add(u)
        for u in sorted(us):
            self.effect('mutate', u, what)
        if c.kind == 'view':
            b = self.content(c.base)
            nb = T('viewstore', c.path, b.args[1] if b.op == 'viewstore' and b.args[0] is c.path else b, term)
            if c.may:
                nb = T('maybe', b, nb)
                # the view itself now has the new content for sure
                self._set_content(c.base, nb)
                return
            self._set_content(c.base, nb)
            return
        self.S.heap[loc] = c.with_data(term, 'arr')
        for a in c.alias:
            b = self.content(a)
            self._set_content(a, T('maybe', b, term))

    def _set_content(self, loc, term):
        c = self.S.heap[loc]
        if c.kind == 'view':
            b = self.content(c.base)
            self._set_content(c.base, T('viewstore', c.path, b, term))
        else:
            self.S.heap[loc] = c.with_data(term, 'arr')

    def user_write(self, v, what):
        for u in sorted(self.users_of(v)):
            self.effect('mutate', u, what)

    # -------------------------------------------------- merging
    def merge_value(self, c, a, b, SA, SB, out):
        if a is b:
            return a
        if isinstance(a, Val) and isinstance(b, Val):
            if a.t is b.t:
                return a
            return Val(ite(c, a.t, b.t))
        if isinstance(a, Ref) and isinstance(b, Ref) and a.loc == b.loc:
            return a
        if isinstance(a, Ext) and isinstance(b, Ext) and a.q == b.q:
            return a
        if isinstance(a, Fn) and isinstance(b, Fn) and a.node is b.node and a.fid == b.fid:
            return a
        if isinstance(a, ClsV) and isinstance(b, ClsV) and a.info is b.info:
            return a
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.elts) == len(b.elts):
            return Tup([self.merge_value(c, x, y, SA, SB, out) for x, y in zip(a.elts, b.elts)])
        if a is UNBOUND or b is UNBOUND:
            # defined on one path only
            return Choice(c, a, b)
        data = (Val, Ref, Tup)
        if isinstance(a, data) and isinstance(b, data):
            ca = SA.heap.get(a.loc) if isinstance(a, Ref) else None
            cb = SB.heap.get(b.loc) if isinstance(b, Ref) else None
            if ca is not None and ca.kind == 'inst' or cb is not None and cb.kind == 'inst':
                return Choice(c, a, b)
            if ca is not None and cb is not None and ca.kind == cb.kind == 'list' and len(ca.data) == len(cb.data):
                al = tuple(x for x in (a.loc, b.loc))
                nv = Cell('list', tuple(self.merge_value(c, x, y, SA, SB, out) for x, y in zip(ca.data, cb.data)), alias=al)
                self.nloc += 1
                out.heap[self.nloc] = nv
                out.heap.setdefault(a.loc, ca)
                out.heap.setdefault(b.loc, cb)
                return Ref(self.nloc)
            if ca is not None and cb is not None and ca.kind == cb.kind == 'dict':
                return Choice(c, a, b)
            sv = self.S
            self.S = SA
            ta = self.read(a)
            self.S = SB
            tb = self.read(b)
            self.S = sv
            t = ite(c, ta, tb)
            al = []
            for v, SS in ((a, SA), (b, SB)):
                if isinstance(v, Ref):
                    al.append(v.loc)
                    # make sure the cells (and bases) exist in the merged heap
                    for l in self._chain(SS, v.loc):
                        out.heap.setdefault(l, SS.heap[l])
            if kind(t) in ('int', 'float', 'str', 'bool', 'none') or dims(t) == ():
                return Val(t)
            self.nloc += 1
            out.heap[self.nloc] = Cell('arr', t, alias=tuple(al))
            return Ref(self.nloc)
        return Choice(c, a, b)

    def _chain(self, SS, loc, acc=None):
        acc = [] if acc is None else acc
        if loc in acc or loc not in SS.heap:
            return acc
        acc.append(loc)
        c = SS.heap[loc]
        if c.base is not None:
            self._chain(SS, c.base, acc)
        for a in c.alias:
            self._chain(SS, a, acc)
        return acc

    def merge(self, c, SA, SB, base):
        """join of two states that split from `base` on condition c"""
        out = State()
        out.pc = base.pc
        # facts common to both
        out.facts = {k: v for k, v in SA.facts.items() if SB.facts.get(k) == v}
        n = len(base.log)
        out.log = SA.log + SB.log[n:]
        # heap
        for loc in set(SA.heap) | set(SB.heap):
            ca, cb = SA.heap.get(loc), SB.heap.get(loc)
            if ca is cb or cb is None:
                out.heap[loc] = ca
            elif ca is None:
                out.heap[loc] = cb
        for loc in set(SA.heap) & set(SB.heap):
            ca, cb = SA.heap[loc], SB.heap[loc]
            if ca is cb:
                continue
            if ca.kind == cb.kind == 'inst':
                da, db = ca.data[1], cb.data[1]
                dd = {}
                for k in list(da) + [k for k in db if k not in da]:
                    dd[k] = self.merge_value(c, da.get(k, UNBOUND), db.get(k, UNBOUND), SA, SB, out)
                out.heap[loc] = ca.with_data((ca.data[0], dd))
            elif ca.kind == cb.kind == 'list' and len(ca.data) == len(cb.data):
                out.heap[loc] = ca.with_data(tuple(self.merge_value(c, x, y, SA, SB, out) for x, y in zip(ca.data, cb.data)))
            elif ca.kind == cb.kind == 'dict':
                ka = dict(ca.data)
                kb = dict(cb.data)
                keys = [k for k, _ in ca.data] + [k for k, _ in cb.data if k not in ka]
                out.heap[loc] = ca.with_data(tuple((k, self.merge_value(c, ka.get(k, UNBOUND), kb.get(k, UNBOUND), SA, SB, out)) for k in keys))
            else:
                sv = self.S
                self.S = SA
                ta = self.content(loc)
                self.S = SB
                tb = self.content(loc)
                self.S = sv
                ccell = ca if ca.kind != 'view' else cb
                out.heap[loc] = Cell('arr', ite(c, ta, tb), None, None, ccell.user, ccell.may, ccell.alias)
        # frames
        for fid in SA.frames:
            if fid not in SB.frames:
                out.frames[fid] = SA.frames[fid]
                continue
            fa, fb = SA.frames[fid], SB.frames[fid]
            if fa is fb:
                out.frames[fid] = fa
                continue
            d = {}
            for k in list(fa) + [k for k in fb if k not in fa]:
                d[k] = self.merge_value(c, fa.get(k, UNBOUND), fb.get(k, UNBOUND), SA, SB, out)
            out.frames[fid] = d
        for fid in SB.frames:
            out.frames.setdefault(fid, SB.frames[fid])
        for k in set(SA.osenv) | set(SB.osenv):
            a, b = SA.osenv.get(k), SB.osenv.get(k)
            if a is b:
                out.osenv[k] = a
            else:
                ea = a if a is not None else T('env', k)
                eb = b if b is not None else T('env', k)
                out.osenv[k] = ite(c, ea, eb)
        for k in set(SA.res) | set(SB.res):
            a, b = SA.res.get(k), SB.res.get(k)
            out.res[k] = a if a == b else ('cond', c, a, b)
        return out

    # -------------------------------------------------- conditions
    def decide(self, c):
        """-> True/False/None"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        f = self.S.facts
        if c in f:
            return f[c]
        n = not_(c)
        if n in f:
            return not f[n]
        if is_const(c):
            return bool(cval(c))
        if c.op == 'and':
            rs = [self.decide(x) for x in c.args]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
        if c.op == 'or':
            rs = [self.decide(x) for x in c.args]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
        if c.op == 'not':
            r = self.decide(c.args[0])
            return None if r is None else not r
        if c.op == 'eq' and all(x.op in ('list', 'tuple') for x in c.args) and len(c.args[0].args) == len(c.args[1].args):
            rs = [self.decide(cmp_('eq', x, y)) for x, y in zip(c.args[0].args, c.args[1].args)]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
        if c.op == 'ite':
            r = self.decide(c.args[0])
            if r is not None:
                return self.decide(c.args[1] if r else c.args[2])
        return None

    def assume_fact(self, c, val):
        if c.op == 'not':
            return self.assume_fact(c.args[0], not val)
        self.S.facts[c] = val
        if c.op == 'and' and val:
            for x in c.args:
                self.assume_fact(x, True)
        if c.op == 'or' and not val:
            for x in c.args:
                self.assume_fact(x, False)

    def truth(self, v):
        """truthiness of a value as a boolean term"""
        if isinstance(v, Val):
            return self.truth_t(v.t)
        if isinstance(v, Tup):
            return const(bool(v.elts))
        if isinstance(v, Ref):
            c = self.cell(v)
            if c.kind in ('list', 'dict', 'set'):
                return const(bool(c.data))
            if c.kind == 'inst':
                return TRUE
            return self.truth_t(self.read(v))
        if isinstance(v, Choice):
            return ite(v.c, self.truth(v.a), self.truth(v.b))
        if isinstance(v, Null):
            return TRUE
        return TRUE

    def truth_t(self, t):
        if is_const(t):
            v = cval(t)
            return const(bool(v))
        k = kind(t)
        if k == 'bool':
            return t
        if t.op == 'ite':
            return ite(t.args[0], self.truth_t(t.args[1]), self.truth_t(t.args[2]))
        if k in ('int', 'float', 'num') and dims(t) == ():
            return cmp_('ne', t, ZERO)
        if t.op in ('list', 'tuple'):
            return const(bool(t.args))
        if k == 'list':
            return cmp_('ne', self.lib.len_t(self, t), ZERO)
        if t.op == 'str':
            if any(is_strc(p) and cval(p) for p in t.args):
                return TRUE
        if t.op == 'sym' and syminfo(t).get('truthy'):
            return TRUE
        if t.op == 'expand':
            return self.truth_t(t.args[0])
        if t.op in ('fn', 'ext', 'cls', 'obj'):
            return TRUE
        return T('truth', t)

    def isnone(self, v):
        if isinstance(v, Val):
            return self.isnone_t(v.t)
        if isinstance(v, Choice):
            return ite(v.c, self.isnone(v.a), self.isnone(v.b))
        if isinstance(v, Ref):
            c = self.cell(v)
            if c.kind in ('arr', 'view'):
                return self.isnone_t(self.read(v))
        return FALSE

    def isnone_t(self, t):
        if t is NONE:
            return TRUE
        if is_const(t):
            return FALSE
        if t.op == 'ite':
            return ite(t.args[0], self.isnone_t(t.args[1]), self.isnone_t(t.args[2]))
        if t.op == 'sym':
            if syminfo(t).get('notnone'):
                return FALSE
            return T('isnone', t)
        if t.op == 'load':
            return FALSE
        if t.op in ('expand', 'tostr', 'strrep', 'abspath', 'tmpname', 'path'):
            return FALSE
        if kind(t) not in ('any', 'none'):
            return FALSE
        if t.op in ('list', 'tuple', 'dict', 'poly', 'call', 'draw', 'obj', 'fn', 'ext', 'cls', 'lay', 'getitem', 'str', 'meth', 'mcall', 'store'):
            return FALSE
        return T('isnone', t)

    # -------------------------------------------------- frames
    def getvar(self, fid, name):
        f = self.S.frames.get(fid)
        if f is not None and name in f:
            return f[name]
        return None

    def setvar(self, fid, name, v):
        d = dict(self.S.frames[fid])
        d[name] = v
        self.S.frames[fid] = d

    def raise_leaf(self, exc, msg=None, val=None):
        lf = Leaf(exc, msg, self.S.clone(), self.site)
        lf.val = val
        self.collectors[-1].append(lf)
        raise Dead()

    def event(self, what):
        """a program point that can raise"""
        if self.probing:
            return
        n = len(self.events)
        self.events.append((what, self.site, tuple(q for q, _ in self.stack)))
        if self.fault_at is not None and n == self.fault_at:
            self.raise_leaf(self.fault_exc, what)

    # -------------------------------------------------- branching helper
    def branch(self, c, fa, fb):
        """evaluate fa / fb under condition c, join states; returns merged Value"""
        d = self.decide(c)
        if d is True:
            return fa()
        if d is False:
            return fb()
        base = self.S
        ra = rb = None
        SA = SB = None
        da = db = False
        self.S = base.clone()
        self.S.pc = base.pc + ((c, True),)
        self.assume_fact(c, True)
        try:
            ra = fa()
            SA = self.S
        except Dead:
            da = True
        self.S = base.clone()
        self.S.pc = base.pc + ((c, False),)
        self.assume_fact(c, False)
        try:
            rb = fb()
            SB = self.S
        except Dead:
            db = True
        if da and db:
            self.S = base
            raise Dead()
        if da:
            self.S = SB
            self.S.pc = base.pc
            self.S.facts[c] = False
            return rb
        if db:
            self.S = SA
            self.S.pc = base.pc
            self.S.facts[c] = True
            return ra
        self.S = self.merge(c, SA, SB, base)
        return self.merge_value(c, ra, rb, SA, SB, self.S)

    # -------------------------------------------------- statements
    def exec_block(self, stmts, fl, fid):
        """returns True if a normal continuation exists"""
        for st in stmts:
            if not self.exec_stmt(st, fl, fid):
                return False
        return True

    def exec_stmt(self, st, fl, fid):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Budget('step budget exceeded')
        self.site = (self.curfile(), st.lineno)
        m = getattr(self, 'st_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement ' + type(st).__name__)
        return m(st, fl, fid)

    def curfile(self):
        return self.stack[-1][1].mod if self.stack else self.curmod if hasattr(self, 'curmod') else '?'

    def st_Pass(self, st, fl, fid):
        return True

    def st_Expr(self, st, fl, fid):
        self.ev(st.value, fid)
        return True

    def st_Import(self, st, fl, fid):
        for a in st.names:
            v = self.world.import_module(self, a.name if a.asname else a.name.split('.')[0])
            self.setvar(fid, a.asname or a.name.split('.')[0], v)
        return True

    def st_ImportFrom(self, st, fl, fid):
        mod = self.stack[-1][1].mod if self.stack else self.curmod
        base = self.world.resolve_from(mod, st)
        for a in st.names:
            if a.name == '*':
                self.world.import_star(self, base, fid)
                continue
            self.setvar(fid, a.asname or a.name, self.world.import_name(self, base, a.name))
        return True

    def st_Return(self, st, fl, fid):
        v = self.ev(st.value, fid) if st.value is not None else VNONE
        fl.rets.append((v, self.S))
        return False

    def st_Delete(self, st, fl, fid):
        for t in st.targets:
            if isinstance(t, ast.Name):
                d = dict(self.S.frames[fid])
                d.pop(t.id, None)
                self.S.frames[fid] = d
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fid)
                if isinstance(o, Ref) and self.cell(o).kind == 'inst':
                    c = self.cell(o)
                    dd = dict(c.data[1])
                    dd.pop(t.attr, None)
                    self.S.heap[o.loc] = c.with_data((c.data[0], dd))
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fid)
                k = self.ev(t.slice, fid)
                self.lib.delitem(self, o, k)
        return True

    def st_Global(self, st, fl, fid):
        d = dict(self.S.frames[fid])
        d['%global'] = set(d.get('%global', ())) | set(st.names)
        self.S.frames[fid] = d
        return True

    def st_Nonlocal(self, st, fl, fid):
        d = dict(self.S.frames[fid])
        d['%nonlocal'] = set(d.get('%nonlocal', ())) | set(st.names)
        self.S.frames[fid] = d
        return True

    def st_Assign(self, st, fl, fid):
        v = self.ev(st.value, fid)
        for t in st.targets:
            self.assign(t, v, fid)
        return True

    def st_AnnAssign(self, st, fl, fid):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fid), fid)
        return True

    def st_AugAssign(self, st, fl, fid):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fid)
            r = self.ev(st.value, fid)
            nv = self.lib.augop(self, st.op, cur, r)
            self.assign(t, nv, fid)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fid)
            cur = self.getattr(o, t.attr)
            r = self.ev(st.value, fid)
            nv = self.lib.augop(self, st.op, cur, r)
            self.setattr(o, t.attr, nv)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fid)
            k = self.ev_slice(t.slice, fid)
            cur = self.lib.getitem(self, o, k)
            r = self.ev(st.value, fid)
            tv = self.lib.binop(self, st.op, cur, r)
            self.lib.setitem(self, o, k, tv)
        return True

    def st_FunctionDef(self, st, fl, fid):
        v = self.make_fn(st, fid)
        self.setvar(fid, st.name, v)
        return True

    def make_fn(self, st, fid, cls=None):
        mod = self.stack[-1][1].mod if self.stack else self.curmod
        defaults = tuple(self.ev(d, fid) for d in st.args.defaults)
        kwd = {a.arg: self.ev(d, fid) for a, d in zip(st.args.kwonlyargs, st.args.kw_defaults) if d is not None}
        kindv = 'func'
        decos = []
        v = None
        for d in reversed(getattr(st, 'decorator_list', [])):
            n = d.func if isinstance(d, ast.Call) else d
            nm = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else ''
            if nm == 'staticmethod':
                kindv = 'static'
            elif nm == 'classmethod':
                kindv = 'class'
            elif nm == 'property' or nm == 'cached_property':
                kindv = 'property'
            elif nm == 'setter':
                kindv = 'setter'
            elif nm == 'contextmanager':
                decos.append('contextmanager')
            elif nm in ('wraps', 'lru_cache', 'cache', 'abstractmethod', 'no_type_check', 'override'):
                if nm in ('lru_cache', 'cache'):
                    decos.append('cache')
            else:
                dv = self.ev(d, fid)
                fnv = v or Fn(st, mod, fid, st.name, cls, defaults, kwd, kindv, tuple(decos))
                v = self.call(dv, [fnv], {})
        return v or Fn(st, mod, fid, st.name, cls, defaults, kwd, kindv, tuple(decos))

    def st_ClassDef(self, st, fl, fid):
        mod = self.stack[-1][1].mod if self.stack else self.curmod
        bases = [self.ev(b, fid) for b in st.bases]
        cf = self.newframe({})
        self.setvar(cf, '%parent', Val(T('fid', fid)))
        f2 = Flow()
        self.S.frames[cf] = {'%parentfid': fid}
        for s in st.body:
            if isinstance(s, ast.FunctionDef):
                fv = self.make_fn(s, cf, cls=st.name)
                if isinstance(fv, Fn) and fv.kind == 'setter':
                    self.setvar(cf, s.name + '%setter', fv)
                else:
                    self.setvar(cf, s.name, fv)
            else:
                self.exec_stmt(s, f2, cf)
        attrs = {k: v for k, v in self.S.frames[cf].items() if not k.startswith('%') or k.endswith('%setter')}
        self.setvar(fid, st.name, ClsV(ClassInfo(st.name, mod, bases, attrs, st)))
        return True

    def newframe(self, d):
        self.nfid += 1
        self.S.frames[self.nfid] = d
        return self.nfid

    def st_If(self, st, fl, fid):
        c = self.truth(self.ev(st.test, fid))
        return self.do_if(c, lambda: self.exec_block(st.body, fl, fid), lambda: self.exec_block(st.orelse, fl, fid), fl, st)

    def do_if(self, c, fa, fb, fl, st=None):
        d = self.decide(c)
        if d is True:
            return fa()
        if d is False:
            return fb()
        if c.op in ('and', 'or') and d is None:
            # drop the conjuncts/disjuncts that are already decided
            keep = [x for x in c.args if self.decide(x) is None]
            c = (and_ if c.op == 'and' else or_)(*keep)
        base = self.S
        n0 = len(fl.rets), len(fl.breaks), len(fl.conts)
        self.S = base.clone()
        self.S.pc = base.pc + ((c, True),)
        self.assume_fact(c, True)
        try:
            na = fa()
        except Dead:
            na = False
        SA = self.S
        self.S = base.clone()
        self.S.pc = base.pc + ((c, False),)
        self.assume_fact(c, False)
        try:
            nb = fb()
        except Dead:
            nb = False
        SB = self.S
        if na and nb:
            jumped = (len(fl.rets), len(fl.breaks), len(fl.conts)) != n0
            if SA.pc != base.pc + ((c, True),) or SB.pc != base.pc + ((c, False),):
                # some inner path left: the continuing condition is no longer just c
                pa = self.pcterm(SA.pc[len(base.pc):])
                pb = self.pcterm(SB.pc[len(base.pc):])
                self.S = self.merge(c, SA, SB, base)
                rem = or_(pa, pb)
                if rem is not TRUE:
                    if rem.op == 'not':
                        self.S.pc = base.pc + ((rem.args[0], False),)
                    else:
                        self.S.pc = base.pc + ((rem, True),)
                return True
            self.S = self.merge(c, SA, SB, base)
            return True
        if na:
            self.S = SA
            return True
        if nb:
            self.S = SB
            return True
        if (len(fl.rets), len(fl.breaks), len(fl.conts)) == n0:
            self.S = base
            raise Dead()
        return False

    def pcterm(self, pc):
        return and_(*[c if b else not_(c) for c, b in pc])

    def st_Assert(self, st, fl, fid):
        c = self.truth(self.ev(st.test, fid))
        d = self.decide(c)
        if d is True:
            return True
        if d is False:
            self.raise_leaf('AssertionError')
        self.event(('assert', show(c, 5)))
        self.effect('require', c)
        self.assume_fact(c, True)
        return True

    def st_Raise(self, st, fl, fid):
        nm = 'Exception'
        v = None
        if st.exc is not None:
            e = st.exc
            f = e.func if isinstance(e, ast.Call) else e
            nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', 'Exception')
            if isinstance(e, ast.Name):
                v = self.lookup(e.id, fid)
                if isinstance(v, Ext):
                    nm = v.q.split('.')[-1]
                elif isinstance(v, ClsV):
                    nm = v.info.name
                elif isinstance(v, Val) and v.t.op == 'exc':
                    nm = v.t.args[0]
        else:
            h = self.getvar(fid, '%exc')
            if h is not None:
                nm = h.t.args[0]
        self.raise_leaf(nm)

    def st_Break(self, st, fl, fid):
        fl.breaks.append(self.S)
        return False

    def st_Continue(self, st, fl, fid):
        fl.conts.append(self.S)
        return False

    # ---- with
    def st_With(self, st, fl, fid):
        return self.with_items(list(st.items), st.body, fl, fid)

    def with_items(self, items, body, fl, fid):
        if not items:
            return self.exec_block(body, fl, fid)
        it = items[0]
        v = self.ev(it.context_expr, fid)
        rest = items[1:]

        def inner(val):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, val, fid)
            return self.with_items(rest, body, fl, fid)
        return self.enter_with(v, inner, fl, fid)

    def enter_with(self, v, inner, fl, fid):
        if isinstance(v, GenCtx):
            return self.run_genctx(v, inner, fl, fid)
        if isinstance(v, Ref) and self.cell(v).kind == 'inst':
            en = self.getattr(v, '__enter__')
            val = self.call(en, [], {})
            return self.try_finally(lambda f: inner(val), lambda f, exc: self.with_exit(v, exc), fl, fid)
        val, exitf = self.lib.enter(self, v)
        if exitf is None:
            return inner(val)
        return self.try_finally(lambda f: inner(val), lambda f, exc: (exitf(), True)[1], fl, fid)

    def with_exit(self, v, exc):
        ex = self.getattr(v, '__exit__')
        a = [VNONE] * 3 if exc is None else [Val(tm.tmpsym('exc', 'exc')) for _ in range(3)]
        self.call(ex, a, {})
        return True

    def run_genctx(self, g, inner, fl, fid):
        """inline the with-body at the yield of a @contextmanager generator"""
        state = {'normal': False, 'ran': False, 'rets': []}

        def hook(val):
            state['ran'] = True
            f2 = Flow()
            ok = inner2(val, f2)
            state['breaks'] = f2.breaks
            state['conts'] = f2.conts
            if f2.rets:
                if ok or len(f2.rets) > 1 or f2.breaks or f2.conts:
                    if ok:
                        raise Unsupported('mixed return in with body')
                    v, S = self.join_rets(f2.rets, self.S, None)
                    self.S = S
                else:
                    v, self.S = f2.rets[0]
                state['ret'] = v
            elif not ok:
                if f2.breaks or f2.conts:
                    raise Unsupported('break in with body')
                raise Dead()
            return VNONE

        def inner2(val, f2):
            # body runs in the caller's frame
            sv = self.stack
            self.stack = outer
            try:
                old = (fl.rets, fl.breaks, fl.conts)
                fl.rets, fl.breaks, fl.conts = f2.rets, f2.breaks, f2.conts
                r = inner(val)
                return r
            finally:
                fl.rets, fl.breaks, fl.conts = old
                self.stack = sv
        outer = list(self.stack)
        self.yields.append(hook)
        try:
            self.call_fn(g.fn, g.args, g.kwargs, asgen=True)
        finally:
            self.yields.pop()
        if 'ret' in state:
            fl.rets.append((state['ret'], self.S))
            return False
        return True

    # ---- try
    def try_finally(self, body, fin, fl, fid):
        f2 = Flow()
        sv = (fl.rets, fl.breaks, fl.conts)
        fl.rets, fl.breaks, fl.conts = f2.rets, f2.breaks, f2.conts
        self.collectors.append([])
        h = self.handlers
        self.handlers = h + ('finally',)
        try:
            ok = body(f2)
        except Dead:
            ok = False
        finally:
            fl.rets, fl.breaks, fl.conts = sv
            leaves = self.collectors.pop()
            self.handlers = h
        SN = self.S

        def outf(S, kindv, exc=None):
            self.S = S
            try:
                r = fin(fl, exc)
            except Dead:
                return None
            return self.S if r else None
        alive = None
        for v, S in f2.rets:
            S2 = outf(S, 'ret')
            if S2 is not None:
                fl.rets.append((v, S2))
        for S in f2.breaks:
            S2 = outf(S, 'brk')
            if S2 is not None:
                fl.breaks.append(S2)
        for S in f2.conts:
            S2 = outf(S, 'cnt')
            if S2 is not None:
                fl.conts.append(S2)
        for lf in leaves:
            S2 = outf(lf.state, 'exc', lf)
            if S2 is not None:
                lf.state = S2
                self.collectors[-1].append(lf)
        if ok:
            S2 = outf(SN, 'norm')
            if S2 is None:
                if fl.rets or fl.breaks or fl.conts:
                    return False
                raise Dead()
            self.S = S2
            return True
        if f2.rets or f2.breaks or f2.conts:
            return False
        raise Dead()

    def st_Try(self, st, fl, fid):
        if st.finalbody:
            inner = ast.Try(body=st.body, handlers=st.handlers, orelse=st.orelse, finalbody=[])
            ast.copy_location(inner, st)
            if st.handlers or st.orelse:
                body = lambda f: self.exec_stmt(inner, fl, fid)
            else:
                body = lambda f: self.exec_block(st.body, fl, fid)
            return self.try_finally(body, lambda f, exc: self.exec_block(st.finalbody, fl, fid), fl, fid)
        base = self.S
        self.collectors.append([])
        h = self.handlers
        self.handlers = h + ('except',)
        n0 = len(fl.rets)
        try:
            ok = self.exec_block(st.body, fl, fid)
            dead = False
        except Dead:
            ok = False
            dead = True
        finally:
            leaves = self.collectors.pop()
            self.handlers = h
        SN = self.S
        if ok and st.orelse:
            try:
                ok = self.exec_block(st.orelse, fl, fid)
            except Dead:
                ok = False
            SN = self.S
        alive = [SN] if ok else []
        for lf in leaves:
            handled = False
            for hd in st.handlers:
                if self.matches(hd, lf, fid):
                    handled = True
                    self.S = lf.state
                    self.setvar(fid, '%exc', Val(T('exc', lf.exc)))
                    if hd.name:
                        self.setvar(fid, hd.name, Val(T('exc', lf.exc)))
                    try:
                        if self.exec_block(hd.body, fl, fid):
                            alive.append(self.S)
                    except Dead:
                        pass
                    break
            if not handled:
                self.collectors[-1].append(lf)
        if not alive:
            if len(fl.rets) > n0 or fl.breaks or fl.conts:
                return False
            raise Dead()
        S = alive[0]
        for o in alive[1:]:
            c = tm.tmpsym('exc', 'bool')
            # the handled path is gated by its own path condition when it has one
            extra = o.pc[len(base.pc):]
            cc = self.pcterm(extra) if extra else c
            nb = base.clone()
            nb.pc = base.pc
            S = self.merge(not_(cc) if extra else c, S, o, nb)
        self.S = S
        return True

    def matches(self, hd, lf, fid):
        if hd.type is None:
            return True
        ts = hd.type.elts if isinstance(hd.type, ast.Tuple) else [hd.type]
        names = [t.attr if isinstance(t, ast.Attribute) else getattr(t, 'id', '') for t in ts]
        import builtins
        for n in names:
            a, b = getattr(builtins, str(lf.exc), None), getattr(builtins, n, None)
            if isinstance(a, type) and isinstance(b, type) and issubclass(a, BaseException) and issubclass(b, BaseException):
                if issubclass(a, b):
                    return True
                continue
            if n in ('Exception', 'BaseException'):
                return True
            if n == lf.exc:
                return True
            if n == 'RuntimeError' and lf.exc == 'NotImplementedError':
                return True
            if n == 'LookupError' and lf.exc in ('KeyError', 'IndexError'):
                return True
        return False

    # ---- loops
    def st_For(self, st, fl, fid):
        it = self.ev(st.iter, fid)
        return self.do_for(it, st.target, lambda f: self.exec_block(st.body, f, fid), fl, fid,
                           (lambda: self.exec_block(st.orelse, fl, fid)) if st.orelse else None)

    def do_for(self, it, target, body, fl, fid, orelse=None):
        seq = self.lib.iterate(self, it)
        if isinstance(seq, list):
            return self.unrolled(seq, target, body, fl, fid, orelse)
        if isinstance(seq, tuple) and seq and seq[0] == 'choice':
            c, a, b = seq[1:]
            return self.do_if(c, lambda: self.do_for(a, target, body, fl, fid, orelse),
                              lambda: self.do_for(b, target, body, fl, fid, orelse), fl)
        n, elem, unordered = seq
        return self.symloop(n, elem, unordered, target, body, fl, fid, orelse)

    def unrolled(self, seq, target, body, fl, fid, orelse):
        exits = []          # states that left by break
        for x in seq:
            if target is not None:
                self.assign(target, x, fid)
            f2 = Flow()
            f2.rets = fl.rets
            n0 = len(fl.rets)
            base = self.S
            try:
                ok = body(f2)
            except Dead:
                ok = False
                if not f2.breaks and not f2.conts and len(fl.rets) == n0 and not exits:
                    raise
            conts = list(f2.conts) + ([self.S] if ok else [])
            exits += [(S, base) for S in f2.breaks]
            if not conts:
                # no continuing path
                if exits:
                    self.S = self.join_states([e[0] for e in exits])
                    return True
                return False
            self.S = self.join_states(conts)
        if orelse is not None:
            ok = orelse()
            if not ok and not exits:
                return False
            if not ok:
                self.S = self.join_states([e[0] for e in exits])
                return True
        if exits:
            self.S = self.join_states([e[0] for e in exits] + [self.S])
        return True

    def join_states(self, states):
        """join states carrying their own path conditions"""
        if len(states) == 1:
            return states[0]
        common = states[0].pc
        for s in states[1:]:
            k = 0
            while k < len(common) and k < len(s.pc) and common[k] == s.pc[k]:
                k += 1
            common = common[:k]
        base = State()
        base.pc = common
        base.log = []
        # common log prefix
        n = min(len(s.log) for s in states)
        k = 0
        while k < n and all(s.log[k] is states[0].log[k] for s in states):
            k += 1
        base.log = states[0].log[:k]
        r = states[-1]
        for s in reversed(states[:-1]):
            c = self.pcterm(s.pc[len(common):])
            rest = r.pc[len(common):]
            # drop what is implied
            r = self.merge(c, s, r, base)
            r.pc = common
        return r

    def join_rets(self, rets, base, fid):
        """rets: list of (Value, State) -> (Value, State)"""
        if len(rets) == 1:
            v, S = rets[0]
            return v, S
        common = rets[0][1].pc
        for _, s in rets[1:]:
            k = 0
            while k < len(common) and k < len(s.pc) and common[k] == s.pc[k]:
                k += 1
            common = common[:k]
        items = [(v, s, s.pc[len(common):]) for v, s in rets]
        n = min(len(s.log) for _, s in rets)
        k = 0
        l0 = rets[0][1].log
        while k < n and all(s.log[k] is l0[k] for _, s in rets):
            k += 1
        b = State()
        b.pc = common
        b.log = l0[:k]
        v, S = self._join_tree(items, b)
        S.pc = common
        return v, S

    def _join_tree(self, items, b):
        if len(items) == 1:
            return items[0][0], items[0][1]
        first = items[0][2]
        if first:
            c = first[0][0]
            if all(it[2] and it[2][0][0] is c for it in items):
                ta = [(v, s, p[1:]) for v, s, p in items if p[0][1]]
                fa = [(v, s, p[1:]) for v, s, p in items if not p[0][1]]
                if ta and fa:
                    va, SA = self._join_tree(ta, b)
                    vb, SB = self._join_tree(fa, b)
                    M = self.merge(c, SA, SB, b)
                    return self.merge_value(c, va, vb, SA, SB, M), M
                return self._join_tree(ta or fa, b)
        # chain: first leaf vs the rest
        c = self.pcterm(first)
        rest = []
        for v, s, p in items[1:]:
            p2 = tuple(x for x in p if not (x[0] is c and x[1] is False) and not (c.op == 'and' and x[0] is c))
            if c.op == 'not' and p2 and p2[0] == (c.args[0], True):
                p2 = p2[1:]
            p2 = tuple(x for x in p2 if not (len(first) == 1 and x == (first[0][0], not first[0][1])))
            rest.append((v, s, p2))
        va, SA = items[0][0], items[0][1]
        vb, SB = self._join_tree(rest, b)
        if c is TRUE:
            return va, SA
        M = self.merge(c, SA, SB, b)
        return self.merge_value(c, va, vb, SA, SB, M), M

    # ---- symbolic loops
    def loop_items(self, S, S0):
        """keys of state components that differ between S and S0"""
        out = []
        for fid, f in S.frames.items():
            f0 = S0.frames.get(fid)
            if f0 is None or f is f0:
                continue
            for k, v in f.items():
                if k in f0 and f0[k] is not v and not k.startswith('%'):
                    a, b = f0[k], v
                    if isinstance(a, Val) and isinstance(b, Val) and a.t is b.t:
                        continue
                    if isinstance(a, Ref) and isinstance(b, Ref) and a.loc == b.loc:
                        continue
                    out.append(('var', fid, k))
        for loc, c in S.heap.items():
            c0 = S0.heap.get(loc)
            if c0 is None or c0 is c:
                continue
            if c.kind == 'inst' and c0.kind == 'inst':
                for k, v in c.data[1].items():
                    v0 = c0.data[1].get(k)
                    if v0 is not None and v0 is not v:
                        out.append(('attr', loc, k))
                continue
            out.append(('cell', loc))
        for k, v in S.osenv.items():
            if S0.osenv.get(k) is not v:
                out.append(('env', k))
        return out

    def place(self, item, idx):
        """replace a loop-carried component by a placeholder; returns (sym, initial term)"""
        if item[0] == 'var':
            _, fid, k = item
            v = self.S.frames[fid][k]
            t0 = self.read(v)
            p = tm.tmpsym('carry_' + k, self.pkind(t0), dims(t0) if dims(t0) is not None else None)
            if isinstance(v, (Ref,)) and self.cell(v).kind != 'inst':
                nv = self.new(Cell('arr', p))
            else:
                nv = Val(p)
            self.setvar(fid, k, nv)
            return p, t0
        if item[0] == 'attr':
            _, loc, k = item
            c = self.S.heap[loc]
            v = c.data[1][k]
            t0 = self.read(v)
            p = tm.tmpsym('carry_' + k, self.pkind(t0), dims(t0))
            d = dict(c.data[1])
            d[k] = self.new(Cell('arr', p)) if isinstance(v, Ref) else Val(p)
            self.S.heap[loc] = c.with_data((c.data[0], d))
            return p, t0
        if item[0] == 'cell':
            loc = item[1]
            t0 = self.content(loc)
            c = self.S.heap[loc]
            p = tm.tmpsym('carry', self.pkind(t0), dims(t0) if kind(t0) == 'ndarray' else None)
            self.S.heap[loc] = Cell('arr', p, None, None, c.user, c.may, c.alias)
            return p, t0
        if item[0] == 'env':
            t0 = self.S.osenv.get(item[1], T('env', item[1]))
            p = tm.tmpsym('carry_env', 'str')
            self.S.osenv[item[1]] = p
            return p, t0

    def pkind(self, t):
        k = kind(t)
        if k in ('int',):
            return 'num' if False else 'num'
        if k in ('float', 'num', 'bool', 'none'):
            return 'num' if k != 'none' else 'any'
        if t.op in ('list', 'map', 'cat', 'append'):
            return 'list'
        return k

    def after(self, item):
        if item[0] == 'var':
            return self.read(self.S.frames[item[1]][item[2]])
        if item[0] == 'attr':
            return self.read(self.S.heap[item[1]].data[1][item[2]])
        if item[0] == 'cell':
            return self.content(item[1])
        return self.S.osenv[item[1]]

    def setitem_state(self, item, t):
        if item[0] == 'var':
            self.setvar(item[1], item[2], self.fresh(t))
        elif item[0] == 'attr':
            c = self.S.heap[item[1]]
            d = dict(c.data[1])
            d[item[2]] = self.fresh(t)
            self.S.heap[item[1]] = c.with_data((c.data[0], d))
        elif item[0] == 'cell':
            c = self.S.heap[item[1]]
            if t.op == 'list':
                self.S.heap[item[1]] = Cell('list', tuple(self.fresh(x) for x in t.args), None, None, c.user, c.may, c.alias)
            else:
                self.S.heap[item[1]] = Cell('arr', t, None, None, c.user, c.may, c.alias)
        else:
            self.S.osenv[item[1]] = t

    def symloop(self, n, elem, unordered, target, body, fl, fid, orelse=None):
        idx = tm.tmpsym('i', 'int', ())
        tm.SYM[idx.args[0]]['loopidx'] = True
        tm.SYM[idx.args[0]]['positive'] = False
        S0 = self.S
        carried = []
        loops0 = self.loops
        for attempt in range(6):
            self.S = S0.clone()
            ph = [(it,) + self.place(it, idx) for it in carried]
            self.loops = loops0 + ((idx, n),)
            Sstart = self.S.clone()
            ev0 = len(self.events)
            log0 = len(self.S.log)
            if attempt == 0:
                self.probing += 1
            coll = None
            if self.probing:
                self.collectors.append([])
            f2 = Flow()
            dead = False
            try:
                if callable(target):
                    target(elem(idx))
                elif target is not None:
                    self.assign(target, elem(idx), fid)
                try:
                    ok = body(f2)
                except Dead:
                    ok = False
                    dead = True
            finally:
                self.loops = loops0
                if self.probing:
                    self.collectors.pop()
                if attempt == 0:
                    self.probing -= 1
            conts = list(f2.conts) + ([self.S] if ok else [])
            if not conts and not f2.breaks and not f2.rets:
                # the body always raises: the loop only completes when empty
                self.S = S0
                self.effect('loopdead', n)
                raise Dead()
            Send = self.join_states(conts) if conts else None
            if Send is None:
                self.note('loop body always leaves')
                raise Unsupported('loop without continuation')
            items = self.loop_items(Send, Sstart)
            # variables introduced only inside the loop are not carried, placeholders compare to Sstart
            names = {x for x in carried}
            new = [x for x in items if x not in names]
            if attempt == 0 or new:
                if new:
                    carried = carried + new
                    continue
                if attempt == 0:
                    continue
            break
        else:
            raise Unsupported('loop carried set does not stabilise')
        self.S = Send
        self.S.pc = S0.pc
        exits = bool(f2.breaks or f2.rets)
        afters = {}
        for it, p, t0 in ph:
            afters[it] = (p, t0, self.after(it))
        # introduced variables (assigned in body, unbound before) keep their last value
        intro = []
        for f_id, f in Send.frames.items():
            f0 = S0.frames.get(f_id)
            if f0 is None or f is f0:
                continue
            for k, v in f.items():
                if k not in f0 and not k.startswith('%'):
                    intro.append((f_id, k, v))
        if exits:
            res = {it: self.opaque_fold(n, idx, t0, p, a) for it, (p, t0, a) in afters.items()}
        else:
            res = self.solve(n, idx, afters, unordered)
        # substitute carried placeholders in effects is not needed: they stay symbolic
        fin = {}
        for it, t in res.items():
            fin[it] = t
        introt = []
        phs = [p for (p, t0, a) in afters.values()]
        for f_id, k, v in intro:
            try:
                t = self.read(v)
            except Unsupported:
                continue
            if isinstance(v, (Fn, ClsV, Ext, Bound, Part, Mod)):
                introt.append((f_id, k, v))
                continue
            if any(occurs(p, t) for p in phs):
                for it, (p, t0, a) in afters.items():
                    if occurs(p, t):
                        t = subst(t, {p: T('atlast', res[it])})
            introt.append((f_id, k, self.fresh(bind('last', (n, NONE), idx, (t,)) if occurs(idx, t) else t)))
        # drop loop-local heap cells content depending on idx: they are unreachable except through intro vars
        self.S.facts = dict(S0.facts)
        for it, t in fin.items():
            self.setitem_state(it, t)
        for f_id, k, v in introt:
            self.setvar(f_id, k, v)
        if exits:
            # an early exit out of a symbolic loop: join with fresh gates
            for S in f2.breaks:
                pass
            for v, S in f2.rets:
                g = tm.tmpsym('early', 'bool')
                S.pc = S0.pc + ((g, True),)
                S.facts = dict(S.facts)
                fl.rets.append((self.havoc(v, S, idx, phs), S))
                self.S.pc = self.S.pc + ((g, False),)
            self.note('early exit from symbolic loop')
        if orelse is not None:
            return orelse()
        return True

    def havoc(self, v, S, idx, phs):
        sv = self.S
        self.S = S
        try:
            t = self.read(v)
            r = self.fresh(bind('anyof', (), idx, (t,))) if 'anyof' in tm.BINDERS else self.fresh(T('early', t))
        finally:
            self.S = sv
        return r

    def opaque_fold(self, n, idx, t0, p, a):
        return bind('fold', (n, t0), (idx, p), (a,))

    def solve(self, n, idx, afters, unordered):
        """closed forms of loop-carried components"""
        res = {}
        at_i = {}       # placeholder -> value at iteration idx
        todo = dict(afters)
        allp = {p for p, _, _ in afters.values()}
        progress = True
        while todo and progress:
            progress = False
            for it, (p, t0, a) in list(todo.items()):
                a = subst(a, at_i)
                others = [q for q in allp if q is not p and q not in at_i and occurs(q, a)]
                r = self.closed(n, idx, p, t0, a, unordered, others)
                if r is not None:
                    final, ati = r
                    if any(occurs(q, final) for q in others):
                        continue
                    res[it] = final
                    if ati is not None:
                        at_i[p] = ati
                    del todo[it]
                    progress = True
        for it, (p, t0, a) in todo.items():
            a = subst(a, at_i)
            others = [q for q in allp if q is not p and occurs(q, a)]
            if others:
                # mutually recursive: opaque joint fold
                names = sorted(todo, key=str)
                ps = [afters[x][0] for x in names]
                bodies = [subst(afters[x][2], at_i) for x in names]
                inits = [afters[x][1] for x in names]
                res[it] = T('proj', names.index(it), bind('fold', (n, T('tuple', *inits)), tuple([idx] + ps), tuple(bodies)))
            else:
                res[it] = self.opaque_fold(n, idx, t0, p, a)
        return res

    def closed(self, n, idx, p, t0, a, unordered, others):
        """-> (final value, value at iteration idx or None) or None"""
        if a is p:
            return t0, t0
        if not occurs(p, a) and not others:
            # assigned every iteration
            if occurs(idx, a):
                return bind('last', (n, t0), idx, (a,)), None
            return ite(cmp_('lt', ZERO, n), a, t0) if not self.nonempty(n) else a, None
        # writes through one view of the carried array
        if a.op == 'viewstore' and a.args[1] is p and not others:
            path, _b, v = a.args
            part = self.apply_path(path, p)
            d = dims(part)
            if d is not None and part is not p:
                q = self.like(part, d)
                v2 = subst(v, {part: q})
                if not occurs(p, v2):
                    part0 = self.apply_path(path, t0)
                    r = self.closed(n, idx, q, part0, v2, unordered, others)
                    f = r[0] if r is not None else self.opaque_fold(n, idx, part0, q, v2)
                    return T('viewstore', path, t0, f), None
        # masked updates, one distinct value of a key at a time
        if not others:
            w = a
            if a.op == 'poly':
                r = sub(a, p)
                if r.op == 'where' and not occurs(p, r) and (r.args[1] is ZERO or r.args[2] is ZERO):
                    w = T('where', r.args[0], add(p, r.args[1]), add(p, r.args[2]))
            if w.op == 'where':
                r = self.by_key(n, idx, p, t0, w)
                if r is not None:
                    return r, None
        # list append
        r = self.appended(p, a)
        if r is not None and not others:
            parts = r
            if not any(occurs(p, x) or occurs(p, g) for g, xs in parts for x in xs):
                if all(g is TRUE for g, _ in parts):
                    els = [x for _, xs in parts for x in xs]
                    if len(els) == 1:
                        m = lam_map(n, idx, els[0])
                    else:
                        m = bind('flatmap', (n,), idx, (T('list', *els),))
                    if unordered:
                        m = T('perm', m)
                    return self.cat(t0, m), None
                if len(parts) == 1 and len(parts[0][1]) == 1:
                    m = bind('fmap', (n,), idx, (parts[0][0], tm.under_fact(parts[0][1][0], parts[0][0])))
                    if unordered:
                        m = T('perm', m)
                    return self.cat(t0, m), None
                body = T('list')
                for g, xs in parts:
                    body = T('cat', body, ite(g, T('list', *xs), T('list')))
                return self.cat(t0, bind('flatmap', (n,), idx, (body,))), None
        if a.op == 'cat' and a.args[0] is p and not occurs(p, a.args[1]) and not others:
            m = bind('flatmap', (n,), idx, (a.args[1],))
            return self.cat(t0, T('perm', m) if unordered else m), None
        # accumulation
        d = self.delta(p, a)
        if d is not None and not others:
            if not occurs(idx, d):
                ati = add(t0, mul(d, idx))
                return add(t0, mul(d, n)), ati
            return add(t0, bigsum(n, d, idx)), None
        # dict / array element stores
        st = self.stores(p, a)
        if st is not None:
            stl = st
            if len(stl) == 1:
                g, key, val = stl[0]
                # reads of the element about to be written see the initial content
                m = {}
                for x in list(walk(val)) + list(walk(key)) + list(walk(g)):
                    if x.op == 'getitem' and x.args[0] is p and self.same_slot(x.args[1], key, idx):
                        m[x] = getitem(t0, x.args[1])
                if m:
                    val, key, g = subst(val, m), subst(key, m), subst(g, m)
                if not occurs(p, val) and not occurs(p, key) and not occurs(p, g) and not others:
                    return self.scatter(n, idx, t0, g, key, val, unordered), None
        return None

    def like(self, t, d):
        return tm.tmpsym('v', 'ndarray', d)

    def by_key(self, n, idx, p, t0, a):
        """for u in the distinct values of key (that satisfy a condition): p = where(key == u, E(p, u), p) with E elementwise
        -> where(condition(key), E(p, key), p)"""
        m, e, rest = a.args
        if rest is not p or m.op != 'eq':
            return None
        for key, u in (m.args, m.args[::-1]):
            if u.op != 'getitem' or u.args[1] is not idx or occurs(idx, key) or occurs(p, key):
                continue
            us = u.args[0]
            if not (n.op == 'len' and n.args[0] is us or dims(us) == (n,)):
                continue
            cond, base = TRUE, us
            if us.op == 'getitem':
                base, cond = us.args
            if base.op != 'call' or base.args[0] != 'numpy.unique' or set(k for k, v in base.args[1] if v is not NONE) != {'ar'}:
                continue
            k0 = dict(base.args[1])['ar']
            if not (k0 is key or self.ravel_of(k0, key)):
                continue
            dk = dims(key)
            if dk is None or dk != dims(t0):
                continue
            if cond is not TRUE:
                if not self.pointwise(cond, {base}, (idx, p)):
                    continue
                cond = subst(cond, {base: key})
            if not self.pointwise(e, {p, key, u}, (idx,)):
                continue
            e2 = self.noloop(subst(e, {p: t0, u: key}), idx)
            if occurs(idx, e2) or occurs(p, e2):
                continue
            return where(cond, e2, t0)
        return None

    def ravel_of(self, k0, key):
        d = dims(key)
        return d is not None and k0.op == "call" and self.lib.np.ravel_t(self, key) is k0

    def pointwise(self, t, leaves, banned):
        """t combines the leaves elementwise (and nothing else depends on them)"""
        if t in leaves:
            return True
        if not any(occurs(x, t) for x in leaves) and not any(occurs(x, t) for x in banned):
            return True
        if t.op == 'draw':
            return all(self.pointwise(v, leaves, banned) for k, v in t.args[1] if k != 'size')
        if t.op == 'poly' or t.op in ('psum', 'opow') or t.op in EW_OPS or t.op == 'call' and t.args[0] in EW_CALLS:
            return all(self.pointwise(x, leaves, banned) for x in children(t))
        return False

    def noloop(self, t, idx):
        """draws of t no longer belong to the loop over idx"""
        m = {}
        for x in walk(t):
            if x.op == 'draw' and idx in x.args[2]:
                m[x] = tm.rebuild('draw', (x.args[0], x.args[1], tuple(i for i in x.args[2] if i is not idx), x.args[3]))
        return subst(t, m) if m else t

    def nonempty(self, n):
        if is_int(n):
            return cval(n) > 0
        return True

    def same_slot(self, k1, k2, idx):
        """two index terms address the loop's own slot (share the loop index in one position)"""
        a, b = as_index(k1), as_index(k2)
        if len(a) != len(b):
            return k1 is k2
        return any(x is y and occurs(idx, x) and self.injective(x, idx) for x, y in zip(a, b)) or k1 is k2

    def injective(self, t, idx):
        q = sub(t, idx)
        return not occurs(idx, q)

    def cat(self, a, b):
        if a.op == 'list' and not a.args:
            return b
        if a.op == 'list' and b.op == 'list':
            return T('list', *(a.args + b.args))
        return T('cat', a, b)

    def appended(self, p, a):
        """a == p with appends -> list of (guard, [elts])"""
        if a is p:
            return []
        if a.op == 'append':
            r = self.appended(p, a.args[0])
            if r is None:
                return None
            return r + [(TRUE, [a.args[1]])]
        if a.op == 'cat':
            r = self.appended(p, a.args[0])
            if r is None or a.args[1].op != 'list':
                return None
            return r + [(TRUE, list(a.args[1].args))]
        if a.op == 'ite':
            x, y = self.appended(p, a.args[1]), self.appended(p, a.args[2])
            if x is None or y is None:
                return None
            if len(x) == len(y) == 1 and x[0][0] is TRUE and y[0][0] is TRUE and len(x[0][1]) == len(y[0][1]):
                return [(TRUE, [ite(a.args[0], u, v) for u, v in zip(x[0][1], y[0][1])])]
            c = a.args[0]
            return [(and_(c, g), e) for g, e in x] + [(and_(not_(c), g), e) for g, e in y]
        return None

    def delta(self, p, a):
        if kind(a) not in ('num', 'int', 'float', 'ndarray', 'any', 'bool'):
            return None
        if a.op == 'ite':
            x, y = self.delta(p, a.args[1]), self.delta(p, a.args[2])
            if x is None or y is None or occurs(p, a.args[0]):
                return None
            return ite(a.args[0], x, y)
        if a is p:
            return ZERO
        d = sub(a, p)
        if occurs(p, d):
            return None
        return d

    def stores(self, p, a):
        if a is p:
            return []
        if a.op == 'store':
            r = self.stores(p, a.args[0])
            if r is None:
                return None
            return r + [(TRUE, a.args[1], a.args[2])]
        if a.op == 'ite':
            x, y = self.stores(p, a.args[1]), self.stores(p, a.args[2])
            if x is None or y is None:
                return None
            c = a.args[0]
            return [(and_(c, g), k, v) for g, k, v in x] + [(and_(not_(c), g), k, v) for g, k, v in y]
        if a.op == 'where' and a.args[2] is p:
            return [(TRUE, a.args[0], a.args[1])]
        return None

    def scatter(self, n, idx, t0, g, key, val, unordered):
        if g is TRUE and key.op == 'arrival' and key.args[0] is idx:
            # filling positions 0..n-1 in the order of completion
            ln = self.lib.len_t(self, t0)
            if ln is n or (dims(t0) and dims(t0)[0] is n):
                m = T('perm', lam_map(n, idx, val))
                return T('arr', m) if kind(t0) == 'ndarray' else m
        if g is TRUE and key is idx:
            # filling positions 0..n-1
            ln = self.lib.len_t(self, t0)
            if ln is n or (dims(t0) and dims(t0)[0] is n):
                m = lam_map(n, idx, val)
                return T('arr', m) if kind(t0) == 'ndarray' else m
            if kind(t0) == 'dict' and t0.op == 'dict' and not t0.args[0]:
                return bind('dictmap', (n,), idx, (key, val))
        if g is TRUE and t0.op == 'dict' and not t0.args[0]:
            return bind('dictmap', (n,), idx, (key, val))
        inj = any(occurs(idx, x) and self.injective(x, idx) for x in as_index(key))
        t = bind('scatter', (t0, n), idx, (g, key, val))
        if unordered and not inj:
            t = T('perm', t)
        return t

    def st_While(self, st, fl, fid):
        # constant-bounded unrolling
        S00 = self.S.clone()
        nret = len(fl.rets)
        c = self.truth(self.ev(st.test, fid))
        k = 0
        while True:
            d = self.decide(c)
            if d is False:
                return True
            if d is None:
                break
            k += 1
            if k > 64:
                break
            f2 = Flow()
            f2.rets = fl.rets
            ok = self.exec_block(st.body, f2, fid)
            conts = list(f2.conts) + ([self.S] if ok else [])
            if f2.breaks:
                if not conts:
                    self.S = self.join_states(f2.breaks)
                    return True
                raise Unsupported('while/break mix')
            if not conts:
                return False
            self.S = self.join_states(conts)
            c = self.truth(self.ev(st.test, fid))
        if k and len(fl.rets) == nret:
            # the test is only known for the first iterations: solve the loop as a whole
            S1 = self.S
            self.S = S00.clone()
            try:
                return self.symwhile(st, fl, fid)
            except Unsupported:
                self.S = S1
        return self.symwhile(st, fl, fid)

    def symwhile(self, st, fl, fid):
        """while loops of counter form, or completion loops over a shrinking list"""
        S0 = self.S
        # probe the body to find carried state
        idx = tm.tmpsym('i', 'int', ())
        carried = []
        for attempt in range(6):
            self.S = S0.clone()
            ph = [(it,) + self.place(it, idx) for it in carried]
            Sstart = self.S.clone()
            if attempt == 0:
                self.probing += 1
            self.collectors.append([])
            f2 = Flow()
            sl = self.loops
            self.loops = sl + ((idx, NONE),)
            try:
                test = self.truth(self.ev(st.test, fid))
                self.S.facts[test] = True
                try:
                    ok = self.exec_block(st.body, f2, fid)
                except Dead:
                    ok = False
            finally:
                self.loops = sl
                left = self.collectors.pop()
                if attempt == 0:
                    self.probing -= 1
                else:
                    self.collectors[-1].extend(left)
            conts = list(f2.conts) + ([self.S] if ok else [])
            if not conts:
                if self.fault_at is not None and left and attempt:
                    raise Dead()
                raise Unsupported('while body never continues')
            Send = self.join_states(conts)
            new = [x for x in self.loop_items(Send, Sstart) if x not in carried]
            if new:
                carried += new
                continue
            if attempt == 0 and not carried:
                break
            if attempt > 0:
                break
        if f2.rets or f2.breaks:
            raise Unsupported('early exit from while')
        self.S = Send
        afters = {it: (p, t0, self.after(it)) for it, p, t0 in ph}
        # completion loop: L := rest of ray.wait(L), elements emitted = done of ray.wait(L)
        for it, (p, t0, a) in afters.items():
            if a.op == 'rayrest' and a.args[0] is p:
                n = self.lib.len_t(self, t0)
                out = {}
                j = tm.tmpsym('i', 'int', ())
                ok = True
                for it2, (p2, t2, a2) in afters.items():
                    if it2 == it:
                        out[it2] = T('list')
                        continue
                    r = self.appended(p2, a2)
                    if r is None or len(r) != 1 or len(r[0][1]) != 1 or r[0][0] is not TRUE:
                        ok = False
                        break
                    e = r[0][1][0]
                    done0 = T('raydone', p)
                    el = T('getitem', done0, ZERO)
                    body = subst(e, {el: getitem(t0, j)})
                    if occurs(p, body):
                        ok = False
                        break
                    out[it2] = self.cat(t2, T('perm', lam_map(n, j, body)))
                if ok:
                    self.S.facts = dict(S0.facts)
                    self.S.pc = S0.pc
                    for it2, t in out.items():
                        self.setitem_state(it2, t)
                    return True
        # counter loop
        self.S = S0
        for it, (p, t0, a) in afters.items():
            d = sub(a, p)
            if it[0] == 'var' and is_int(d) and test.op in ('lt', 'le', 'ne'):
                lo, hi = test.args
                step = cval(d)
                if test.op == 'ne' and hi is p:
                    lo, hi = hi, lo
                if step == 1 and lo is p and not any(occurs(q, hi) for _, (q, _, _) in afters.items() if True):
                    n = sub(hi, t0) if test.op != 'le' else add(sub(hi, t0), ONE)
                    tgt = it[2]

                    def body(f):
                        r = self.exec_block(st.body, f, fid)
                        return r
                    # run as a for loop; the counter is a carried variable with a closed form
                    return self.symloop(n, None, False, None, body, fl, fid,
                                        (lambda: self.exec_block(st.orelse, fl, fid)) if st.orelse else None)
        raise Unsupported('while loop')

    # -------------------------------------------------- assignment
    def assign(self, t, v, fid):
        if isinstance(t, ast.Name):
            f = self.S.frames[fid]
            if t.id in f.get('%global', ()):
                mod = self.stack[-1][1].mod
                self.setvar('mod:' + mod, t.id, v)
                return
            if t.id in f.get('%nonlocal', ()):
                pf = f.get('%parentfid')
                while pf is not None:
                    if t.id in self.S.frames[pf]:
                        self.setvar(pf, t.id, v)
                        return
                    pf = self.S.frames[pf].get('%parentfid')
            self.setvar(fid, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                vs = self.lib.unpack_star(self, v, len(t.elts), star[0])
                for e, x in zip(t.elts, vs):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, fid)
                return
            vs = self.lib.unpack(self, v, len(t.elts))
            for e, x in zip(t.elts, vs):
                self.assign(e, x, fid)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fid)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fid)
            k = self.ev_slice(t.slice, fid)
            self.lib.setitem(self, o, k, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fid)
        else:
            raise Unsupported('assign target')

    def setattr(self, o, name, v):
        if isinstance(o, Choice):
            d = self.decide(o.c)
            if d is not None:
                return self.setattr(o.a if d else o.b, name, v)
        if isinstance(o, Ref) and self.cell(o).kind == 'inst':
            c = self.cell(o)
            own, s = c.data[0].lookup(name + '%setter')
            if s is not None:
                self.call_fn(s, [o, v], {})
                return
            d = dict(c.data[1])
            d[name] = v
            self.S.heap[o.loc] = c.with_data((c.data[0], d))
            return
        self.lib.setattr(self, o, name, v)

    def getattr(self, o, name):
        if isinstance(o, Choice):
            return self.branch(o.c, lambda: self.getattr(o.a, name), lambda: self.getattr(o.b, name))
        if isinstance(o, Ref):
            c = self.cell(o)
            if c.kind == 'inst':
                d = c.data[1]
                if name in d:
                    v = d[name]
                    if isinstance(v, Choice) and (v.a is UNBOUND or v.b is UNBOUND):
                        return self.force(v, 'AttributeError')
                    return v
                if name == '__class__':
                    return ClsV(c.data[0])
                if name == '__dict__':
                    return self.new(Cell('dict', tuple((const(k), v) for k, v in d.items())))
                own, a = c.data[0].lookup(name)
                if a is not None:
                    return self.bind_attr(o, own, a, c.data[0])
                eb = c.data[0].ext_bases()
                if eb:
                    return Meth(o, name)
                self.raise_leaf('AttributeError', name)
        if isinstance(o, ClsV):
            if name == '__name__':
                return Val(const(o.info.name))
            own, a = o.info.lookup(name)
            if a is not None:
                if isinstance(a, Fn) and a.kind == 'class':
                    return Bound(o, a)
                return a
            if name == '__mro__':
                return Tup([ClsV(c) for c in o.info.mro()])
            self.raise_leaf('AttributeError', name)
        if isinstance(o, Sup):
            own, a = o.recv_cls.lookup(name, after=o.cls) if hasattr(o, 'recv_cls') else self.sup_lookup(o, name)
            if a is None:
                return Meth(o, name)
            return self.bind_attr(o.recv, own, a, None)
        if isinstance(o, Mod):
            v = self.getvar('mod:' + o.name, name)
            if v is not None:
                return v
            return self.world.import_name(self, o.name, name)
        if isinstance(o, Fn):
            if name == '__name__':
                return Val(const(o.name))
        return self.lib.getattr(self, o, name)

    def sup_lookup(self, o, name):
        c = self.S.heap[o.recv.loc].data[0] if isinstance(o.recv, Ref) else o.recv.info
        return c.lookup(name, after=o.cls)

    def bind_attr(self, o, own, a, cls):
        if isinstance(a, Fn):
            if a.kind == 'static':
                return a
            if a.kind == 'class':
                return Bound(ClsV(self.cell(o).data[0]), a)
            if a.kind == 'property':
                return self.call_fn(a, [o], {})
            return Bound(o, a)
        return a

    def force(self, v, exc='NameError'):
        """value that may be unbound on one path"""
        while isinstance(v, Choice) and (v.a is UNBOUND or v.b is UNBOUND):
            c, good, cond = (v.c, v.b, False) if v.a is UNBOUND else (v.c, v.a, True)
            d = self.decide(c)
            if d is not None:
                v = v.a if d else v.b
                if v is UNBOUND:
                    self.raise_leaf('UnboundLocalError')
                continue
            self.effect('maybe_unbound', c, cond)
            self.assume_fact(c, cond)
            v = good
        if v is UNBOUND:
            self.raise_leaf('UnboundLocalError')
        return v

    # -------------------------------------------------- names
    def lookup(self, name, fid):
        f = self.S.frames.get(fid)
        while f is not None:
            if name in f and not (name in f.get('%global', ())):
                v = f[name]
                if isinstance(v, Choice):
                    v2 = self.force(v, 'UnboundLocalError')
                    return v2
                if v is UNBOUND:
                    self.raise_leaf('UnboundLocalError', name)
                return v
            p = f.get('%parentfid')
            if p is None:
                break
            f = self.S.frames.get(p)
        mod = self.stack[-1][1].mod if self.stack else self.curmod
        # closures may belong to another module than the running frame
        m = None
        f = self.S.frames.get(fid)
        while f is not None:
            if '%mod' in f:
                m = f['%mod']
                break
            p = f.get('%parentfid')
            f = self.S.frames.get(p) if p is not None else None
        v = self.getvar('mod:' + (m or mod), name)
        if v is not None:
            if isinstance(v, Choice):
                return self.force(v)
            return v
        return self.lib.builtin(self, name)

    # -------------------------------------------------- expressions
    def ev(self, e, fid):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Budget('step budget exceeded')
        if hasattr(e, 'lineno'):
            self.site = (self.curfile(), e.lineno)
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(e).__name__)
        return m(e, fid)

    def ex_Constant(self, e, fid):
        if e.value is Ellipsis:
            return Val(T('const', '...'))
        return Val(const(e.value))

    def ex_Name(self, e, fid):
        return self.lookup(e.id, fid)

    def ex_Tuple(self, e, fid):
        return Tup(self.ev_elts(e.elts, fid))

    def ev_elts(self, elts, fid):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fid)
                s = self.lib.iterate(self, v)
                if isinstance(s, list):
                    out.extend(s)
                else:
                    raise Unsupported('star of symbolic sequence')
            else:
                out.append(self.ev(x, fid))
        return out

    def ex_List(self, e, fid):
        return self.new(Cell('list', tuple(self.ev_elts(e.elts, fid))))

    def ex_Set(self, e, fid):
        return self.new(Cell('set', tuple(self.ev_elts(e.elts, fid))))

    def ex_Dict(self, e, fid):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.ev(v, fid)
                if isinstance(d, Ref) and self.cell(d).kind == 'dict':
                    for kk, vv in self.cell(d).data:
                        items = [x for x in items if x[0] is not kk] + [(kk, vv)]
                    continue
                raise Unsupported('dict unpack')
            kt = self.read(self.ev(k, fid))
            vv = self.ev(v, fid)
            items = [x for x in items if x[0] is not kt] + [(kt, vv)]
        return self.new(Cell('dict', tuple(items)))

    def ex_JoinedStr(self, e, fid):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(const(p.value))
            else:
                v = self.ev(p.value, fid)
                spec = None
                if p.format_spec is not None:
                    spec = self.read(self.ev(p.format_spec, fid))
                parts.append(self.lib.fmt(self, v, p.conversion, spec))
        return Val(self.lib.strcat(parts))

    def ex_FormattedValue(self, e, fid):
        return Val(self.lib.fmt(self, self.ev(e.value, fid), e.conversion, None))

    def ex_Attribute(self, e, fid):
        o = self.ev(e.value, fid)
        return self.getattr(o, e.attr)

    def ev_slice(self, s, fid):
        if isinstance(s, ast.Slice):
            a = self.read(self.ev(s.lower, fid)) if s.lower else NONE
            b = self.read(self.ev(s.upper, fid)) if s.upper else NONE
            c = self.read(self.ev(s.step, fid)) if s.step else NONE
            return Val(T('slice', a, b, c))
        if isinstance(s, ast.Tuple):
            return Tup([self.ev_slice(x, fid) for x in s.elts])
        return self.ev(s, fid)

    def ex_Slice(self, e, fid):
        return self.ev_slice(e, fid)

    def ex_Subscript(self, e, fid):
        o = self.ev(e.value, fid)
        k = self.ev_slice(e.slice, fid)
        return self.lib.getitem(self, o, k)

    def ex_BinOp(self, e, fid):
        return self.lib.binop(self, e.op, self.ev(e.left, fid), self.ev(e.right, fid))

    def ex_UnaryOp(self, e, fid):
        v = self.ev(e.operand, fid)
        if isinstance(e.op, ast.Not):
            return Val(not_(self.truth(v)))
        return self.lib.unop(self, e.op, v)

    def ex_BoolOp(self, e, fid):
        isand = isinstance(e.op, ast.And)

        def go(k):
            v = self.ev(e.values[k], fid)
            if k == len(e.values) - 1:
                return v
            c = self.truth(v)
            if isand:
                return self.branch(c, lambda: go(k + 1), lambda: Val(FALSE) if kind(self.read(v)) == 'bool' else v)
            return self.branch(c, lambda: Val(TRUE) if kind(self.read(v)) == 'bool' else v, lambda: go(k + 1))
        r = go(0)
        if isinstance(r, Val) and r.t.op == 'ite' and kind(r.t) == 'bool':
            return Val(boolify(r.t))
        return r

    def ex_Compare(self, e, fid):
        l = self.ev(e.left, fid)
        out = []
        for op, r in zip(e.ops, e.comparators):
            rv = self.ev(r, fid)
            out.append(self.lib.compare(self, op, l, rv))
            l = rv
        if len(out) == 1:
            return Val(out[0])
        return Val(and_(*[self.truth_t(x) for x in out]))

    def ex_IfExp(self, e, fid):
        c = self.truth(self.ev(e.test, fid))
        return self.branch(c, lambda: self.ev(e.body, fid), lambda: self.ev(e.orelse, fid))

    def ex_Lambda(self, e, fid):
        mod = self.stack[-1][1].mod if self.stack else self.curmod
        defaults = tuple(self.ev(d, fid) for d in e.args.defaults)
        return Fn(e, mod, fid, '<lambda>', None, defaults, {}, 'func')

    def ex_NamedExpr(self, e, fid):
        v = self.ev(e.value, fid)
        self.assign(e.target, v, fid)
        return v

    def ex_Starred(self, e, fid):
        raise Unsupported('starred')

    def ex_Await(self, e, fid):
        raise Unsupported('await')

    def ex_Yield(self, e, fid):
        v = self.ev(e.value, fid) if e.value is not None else VNONE
        f = self.S.frames[fid]
        if '%yield' in f:
            ref = f['%yield']
            self.lib.list_append(self, ref, v)
            return VNONE
        if self.yields:
            return self.yields[-1](v)
        raise Unsupported('yield')

    def ex_YieldFrom(self, e, fid):
        v = self.ev(e.value, fid)
        f = self.S.frames[fid]
        if '%yield' in f:
            self.lib.list_extend(self, f['%yield'], v)
            return VNONE
        raise Unsupported('yield from')

    # comprehensions
    def comp(self, e, fid, emit):
        cf = self.newframe({'%parentfid': fid, '%comp': True})

        def gen(k):
            if k == len(e.generators):
                emit(cf)
                return True
            g = e.generators[k]
            it = self.ev(g.iter, cf if k else fid)
            fl = Flow()

            def body(f):
                def conds(j):
                    if j == len(g.ifs):
                        return gen(k + 1)
                    c = self.truth(self.ev(g.ifs[j], cf))
                    return self.do_if(c, lambda: conds(j + 1), lambda: True, f)
                return conds(0)
            return self.do_for(it, g.target, body, fl, cf)
        gen(0)

    def ex_ListComp(self, e, fid):
        ref = self.new(Cell('list', ()))
        self.comp(e, fid, lambda cf: self.lib.list_append(self, ref, self.ev(e.elt, cf)))
        return ref

    def ex_GeneratorExp(self, e, fid):
        return self.ex_ListComp(e, fid)

    def ex_SetComp(self, e, fid):
        r = self.ex_ListComp(e, fid)
        c = self.cell(r)
        if c.kind == 'list':
            self.S.heap[r.loc] = Cell('set', self.lib.dedup(self, c.data))
            return r
        return self.fresh(T('setof', self.read(r)))

    def ex_DictComp(self, e, fid):
        ref = self.new(Cell('dict', ()))

        def emit(cf):
            k = self.ev(e.key, cf)
            v = self.ev(e.value, cf)
            self.lib.setitem(self, ref, k, v)
        self.comp(e, fid, emit)
        return ref

    # -------------------------------------------------- calls
    def ex_Call(self, e, fid):
        # super() without arguments
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            fn = self.stack[-1][1]
            selfname = fn.node.args.args[0].arg
            f = self.S.frames[fid]
            ff = fid
            while selfname not in self.S.frames[ff]:
                ff = self.S.frames[ff].get('%parentfid')
            recv = self.S.frames[ff][selfname]
            ci = self.cell(recv).data[0] if isinstance(recv, Ref) else recv.info
            own = next(c for c in ci.mro() if c.name == fn.cls and c.mod == fn.mod)
            return Sup(own, recv)
        if isinstance(e.func, ast.Name) and e.func.id in ('locals', 'globals', 'eval', 'exec', 'vars') and e.func.id not in self.S.frames.get(fid, {}):
            if e.func.id == 'vars' and e.args:
                o = self.ev(e.args[0], fid)
                return self.getattr(o, '__dict__')
            if e.func.id == 'locals':
                return self.new(Cell('dict', tuple((const(k), v) for k, v in self.S.frames[fid].items() if not k.startswith('%'))))
            raise Unsupported(e.func.id)
        f = self.ev(e.func, fid)
        args = []
        kwargs = {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fid)
                s = self.lib.iterate(self, v)
                if not isinstance(s, list):
                    t = self.read(v)
                    if kind(t) == 'loaded' or t.op in ('load', 'ite'):
                        # *saved_intermediate : arity from the callee
                        n = self.lib.arity(self, f, e)
                        s = [self.fresh(getitem(t, const(j))) for j in range(n)]
                    else:
                        s = self.lib.unzipped(self, t) if isinstance(f, Ext) and f.q == 'builtins.zip' and len(e.args) == 1 and not e.keywords else None
                        if s is not None:
                            return self.new(Cell('list', s))
                        raise Unsupported('*args of symbolic sequence')
                args.extend(s)
            else:
                args.append(self.ev(a, fid))
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, fid)
                if isinstance(d, Ref) and self.cell(d).kind == 'dict':
                    for kk, vv in self.cell(d).data:
                        kwargs[cval(kk)] = vv
                    continue
                raise Unsupported('**kwargs of symbolic dict')
            kwargs[k.arg] = self.ev(k.value, fid)
        self.site = (self.curfile(), e.lineno)
        return self.call(f, args, kwargs)

    def call(self, f, args, kwargs):
        if isinstance(f, Fn):
            return self.call_fn(f, args, kwargs)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.recv] + list(args), kwargs)
        if isinstance(f, Part):
            k = dict(f.kwargs)
            k.update(kwargs)
            return self.call(f.fn, list(f.args) + list(args), k)
        if isinstance(f, ClsV):
            return self.instantiate(f.info, args, kwargs)
        if isinstance(f, Choice):
            if f.a is UNBOUND or f.b is UNBOUND:
                return self.call(self.force(f), args, kwargs)
            return self.branch(f.c, lambda: self.call(f.a, args, kwargs), lambda: self.call(f.b, args, kwargs))
        if isinstance(f, Ref) and self.cell(f).kind == 'inst':
            own, a = self.cell(f).data[0].lookup('__call__')
            if a is not None:
                return self.call_fn(a, [f] + list(args), kwargs)
            return self.lib.np.inst_method(self, f, '__call__', args, kwargs)
        if isinstance(f, Val) and f.t.op == 'ite':
            pass
        return self.lib.call(self, f, args, kwargs)

    def instantiate(self, info, args, kwargs):
        o = self.new(Cell('inst', (info, {})))
        own, init = info.lookup('__init__')
        if init is not None:
            self.call_fn(init, [o] + list(args), kwargs)
        elif info.ext_bases() and info.ext_bases() != ['object']:
            return self.lib.ext_instance(self, o, info, args, kwargs)
        elif any('dataclass' in ast.dump(d) for d in info.node.decorator_list):
            fields = [s.target.id for s in info.node.body if isinstance(s, ast.AnnAssign)]
            d = dict(zip(fields, args))
            d.update(kwargs)
            for k in fields:
                if k not in d and k in info.attrs:
                    d[k] = info.attrs[k]
            self.S.heap[o.loc] = Cell('inst', (info, d))
        elif args or kwargs:
            self.raise_leaf('TypeError')
        return o

    def bind_args(self, fn, args, kwargs):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        d = {}
        args = list(args)
        kwargs = dict(kwargs)
        for i, n in enumerate(names):
            if i < len(args):
                d[n] = args[i]
                if n in kwargs:
                    self.raise_leaf('TypeError', 'duplicate argument ' + n)
            elif n in kwargs:
                d[n] = kwargs.pop(n)
            else:
                k = i - (len(names) - len(fn.defaults))
                if k >= 0:
                    d[n] = fn.defaults[k]
                else:
                    self.raise_leaf('TypeError', 'missing argument ' + n)
        rest = args[len(names):]
        if a.vararg:
            d[a.vararg.arg] = Tup(rest)
        elif rest:
            self.raise_leaf('TypeError', 'too many arguments')
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                d[x.arg] = kwargs.pop(x.arg)
            elif x.arg in fn.kwdefaults:
                d[x.arg] = fn.kwdefaults[x.arg]
            else:
                self.raise_leaf('TypeError', 'missing argument ' + x.arg)
        if a.kwarg:
            d[a.kwarg.arg] = self.new(Cell('dict', tuple((const(k), v) for k, v in kwargs.items())))
        elif kwargs:
            self.raise_leaf('TypeError', 'unexpected argument ' + ','.join(sorted(kwargs)))
        return d

    def call_fn(self, fn, args, kwargs, asgen=False):
        if 'contextmanager' in fn.decos and not asgen:
            return GenCtx(fn, args, kwargs)
        if len(self.stack) > MAXDEPTH:
            raise Unsupported('call depth')
        if sum(1 for q, f in self.stack if f.node is fn.node) > 4:
            raise Unsupported('recursion of ' + fn.name)
        self.consulted.add(fn.mod)
        fs = self.config.get('funcs')
        if fs is not None and not fn.mod.startswith('spec.'):
            fs.add(fn.qual)
        site = self.site
        d = self.bind_args(fn, args, kwargs)
        d['%mod'] = fn.mod
        if fn.fid is not None and not str(fn.fid).startswith('mod:'):
            pf = self.S.frames.get(fn.fid)
            # class bodies are not enclosing scopes for functions
            if pf is not None and fn.cls is not None and '%parentfid' in pf and '%mod' not in pf:
                d['%parentfid'] = pf['%parentfid']
            else:
                d['%parentfid'] = fn.fid
        fid = self.newframe(d)
        isgen = is_generator(fn.node)
        if isgen and not asgen:
            self.S.frames[fid]['%yield'] = self.new(Cell('list', ()))
        self.stack.append((fn.qual, fn))
        base = self.S
        pc0 = base.pc
        fl = Flow()
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.ev(fn.node.body, fid)
            ok = self.exec_block(fn.node.body, fl, fid)
            if ok:
                fl.rets.append((VNONE, self.S))
            if isgen and not asgen:
                fl.rets = [(s.frames[fid]['%yield'], s) for _, s in fl.rets]
            if not fl.rets:
                raise Dead()
            v, S = self.join_rets(fl.rets, base, fid)
            S.pc = pc0 if len(fl.rets) > 1 or True else S.pc
            self.S = S
            return v
        finally:
            self.stack.pop()
            self.site = site


def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    st = list(node.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


def boolify(t):
    """boolean ite -> and/or normal form where possible"""
    if t.op != 'ite':
        return t
    c, a, b = t.args
    a, b = boolify(a), boolify(b)
    if b is FALSE:
        return and_(c, a)
    if a is TRUE:
        return or_(c, b)
    if a is FALSE:
        return and_(not_(c), b)
    if b is TRUE:
        return or_(not_(c), a)
    return ite(c, a, b)
