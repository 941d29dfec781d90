"""Models of Python built-ins, containers, strings and operators."""
import ast
from fractions import Fraction
from .arr import *
from . import terms as tm
from .interp import *

BUILTINS = {'len', 'range', 'enumerate', 'zip', 'list', 'tuple', 'dict', 'set', 'frozenset', 'str', 'int', 'float', 'bool', 'isinstance',
            'hasattr', 'getattr', 'setattr', 'callable', 'type', 'print', 'min', 'max', 'sum', 'abs', 'any', 'all', 'sorted',
            'reversed', 'map', 'filter', 'round', 'open', 'super', 'property', 'staticmethod', 'classmethod', 'object', 'iter',
            'next', 'id', 'repr', 'pow', 'divmod', 'issubclass', 'hash', 'vars', 'format', 'slice', 'bytes', 'complex', 'delattr',
            'Exception', 'RuntimeError', 'ValueError', 'TypeError', 'KeyError', 'NotImplementedError', 'AssertionError',
            'IndexError', 'AttributeError', 'OSError', 'FileNotFoundError', 'FileExistsError', 'ImportError', 'BaseException',
            'StopIteration', 'Warning', 'UserWarning', 'NotImplemented', 'LookupError', 'ZeroDivisionError', 'DeprecationWarning',
            'RuntimeWarning', 'ArithmeticError', 'PermissionError', 'NameError', 'ModuleNotFoundError', 'KeyboardInterrupt', 'IOError'}
EXC = {b for b in BUILTINS if b[0].isupper() and b not in ('NotImplemented',)}

CHUNK = 'achunk'


def strcat(parts):
    out = []
    for p in parts:
        ps = p.args if p.op == 'str' else (p,)
        for q in ps:
            if is_strc(q):
                if cval(q) == '':
                    continue
                if out and is_strc(out[-1]):
                    out[-1] = const(cval(out[-1]) + cval(q))
                    continue
            out.append(q)
    if not out:
        return const('')
    if len(out) == 1 and (is_strc(out[0]) or kind(out[0]) == 'str'):
        return out[0]
    return T('str', *out)


REBUILD['str'] = lambda *a: strcat(a)


def tostr(t):
    if is_strc(t):
        return t
    if is_const(t):
        v = cval(t)
        if isinstance(v, Fraction):
            return const(repr(float(v)))
        return const(str(v))
    if kind(t) == 'str' or t.op in ('str', 'tostr', 'strrep', 'repr', 'strjoin'):
        return t
    if t.op == 'ite':
        return ite(t.args[0], tostr(t.args[1]), tostr(t.args[2]))
    return T('tostr', t)


REBUILD['tostr'] = tostr


def strrep(t, a, b):
    if t.op == 'str':
        return strcat([strrep(p, a, b) for p in t.args])
    if is_strc(t):
        return const(cval(t).replace(a, b))
    if t.op == 'ite':
        return ite(t.args[0], strrep(t.args[1], a, b), strrep(t.args[2], a, b))
    if t.op == 'tostr' and kind(t.args[0]) in ('int', 'float', 'bool', 'none') and a == ' ':
        return t
    return T('strrep', t, const(a), const(b))


def parse_format(s):
    import string
    return list(string.Formatter().parse(s))


def seqcat(a, b):
    if a.op == 'list' and not a.args:
        return b
    if b.op == 'list' and not b.args:
        return a
    if a.op == 'list' and b.op == 'list':
        return T('list', *(a.args + b.args))
    return T('cat', a, b)


def flatten_len(t):
    pass


class Lib:
    def __init__(self):
        self.np = None

    # ------------------------------------------------------------ lengths
    def len_t(self, I, t):
        if t.op in ('list', 'tuple', 'set'):
            return const(len(t.args))
        if t.op in ('map', 'flatmap_') or t.op == 'dictmap':
            return t.args[0]
        if t.op == 'flatmap':
            m = self.len_t(I, t.args[1])
            if m.op != 'len' and not tm.contains(m, lambda z: z.op == 'bv'):
                return mul(t.args[0], m)
        if t.op == 'perm' or t.op == 'sorted' or t.op == 'tolist' or t.op == 'reversed':
            return self.len_t(I, t.args[0])
        if t.op == 'range':
            a, b, c = t.args
            if c is ONE:
                return sub(b, a)
        if t.op == 'cat':
            return add(self.len_t(I, t.args[0]), self.len_t(I, t.args[1]))
        if t.op == 'append':
            return add(self.len_t(I, t.args[0]), ONE)
        if is_strc(t):
            return const(len(cval(t)))
        if t.op == 'dict':
            return const(len(t.args[0]))
        if t.op == 'scatter':
            return self.len_t(I, t.args[0])
        if t.op == 'store':
            return self.len_t(I, t.args[0])
        if t.op == 'rep':
            return mul(self.len_t(I, t.args[0]), t.args[1])
        d = dims(t)
        if d:
            return d[0]
        if t.op == 'ite':
            return ite(t.args[0], self.len_t(I, t.args[1]), self.len_t(I, t.args[2]))
        return T('len', t)

    def length(self, I, v):
        if isinstance(v, Tup):
            return const(len(v.elts))
        if isinstance(v, Ref):
            c = I.cell(v)
            if c.kind in ('list', 'dict', 'set'):
                return const(len(c.data))
            if c.kind == 'inst':
                own, a = c.data[0].lookup('__len__')
                if a is not None:
                    return I.read(I.call_fn(a, [v], {}))
        t = I.read(v)
        if kind(t) in ('int', 'float', 'none', 'bool') or (dims(t) == () and kind(t) != 'str' and t.op not in ('env',)):
            I.raise_leaf('TypeError', 'len of scalar')
        return self.len_t(I, t)

    # ------------------------------------------------------------ names
    def builtin(self, I, name):
        if name in BUILTINS:
            return Ext('builtins.' + name)
        if name == '__name__':
            return Val(const(I.curfile()))
        if name == '__file__':
            return Val(T('sym', '__file__'))
        I.raise_leaf('NameError', name)

    # ------------------------------------------------------------ iteration
    def iterate(self, I, v):
        if isinstance(v, Tup):
            return list(v.elts)
        if isinstance(v, Null):
            if v.inner is None:
                raise Unsupported('iterate ' + v.tag)
            return self.iterate(I, v.inner)
        if isinstance(v, Choice):
            d = I.decide(v.c)
            if d is not None:
                return self.iterate(I, v.a if d else v.b)
            return ('choice', v.c, v.a, v.b)
        if isinstance(v, Ref):
            c = I.cell(v)
            if c.kind in ('list', 'set'):
                return list(c.data)
            if c.kind == 'dict':
                return [Val(k) for k, _ in c.data]
            if c.kind == 'inst':
                own, a = c.data[0].lookup('__iter__')
                if a is not None:
                    return self.iterate(I, I.call_fn(a, [v], {}))
                raise Unsupported('iterate instance')
        if isinstance(v, Ext):
            if v.q == 'os.environ':
                raise Unsupported('iterate environ')
            raise Unsupported('iterate ' + v.q)
        t = I.read(v)
        return self.iter_t(I, t, v)

    def iter_t(self, I, t, v=None):
        if t.op in ('list', 'tuple', 'set'):
            return [I.fresh(x) for x in t.args]
        if t.op == 'dict':
            return [Val(k) for k, _ in t.args[0]]
        if is_strc(t):
            return [Val(const(ch)) for ch in cval(t)]
        if t.op == 'range':
            a, b, c = t.args
            if is_int(a) and is_int(b) and is_int(c):
                r = range(cval(a), cval(b), cval(c))
                if len(r) <= 12:
                    return [Val(const(j)) for j in r]
            if c is ONE:
                n = sub(b, a)
                return (n, lambda i: Val(add(a, i)), False)
            if is_int(c) and cval(c) == -1:
                n = sub(a, b)
                return (n, lambda i: Val(sub(a, i)), False)
            raise Unsupported('range step')
        if t.op == 'perm':
            inner = self.iter_t(I, t.args[0])
            if isinstance(inner, list):
                return inner
            return (inner[0], inner[1], True)
        if t.op == 'map':
            h = tm.binder_h(t)
            return (t.args[0], lambda i: I.fresh(inst(t.args[1], h, (i,))), False)
        if t.op == 'sorted' or t.op == 'reversed':
            n = self.len_t(I, t)
            return (n, lambda i: I.fresh(getitem(t, i)), False)
        if t.op == 'ite':
            return ('choice', t.args[0], I.fresh(t.args[1]), I.fresh(t.args[2]))
        if t.op == 'arr' and t.args[0].op in ('list', 'tuple'):
            return [I.fresh(T('arr', x) if x.op in ('list', 'tuple', 'map') else x) for x in t.args[0].args]
        d = dims(t)
        if d == () and kind(t) in ('int', 'float', 'bool', 'num'):
            I.raise_leaf('TypeError', 'not iterable')
        if d:
            n = d[0]
            if is_int(n) and cval(n) <= 12:
                return [self.np.index(I, v, const(j)) if v is not None else I.fresh(getitem(t, const(j))) for j in range(cval(n))]
            return (n, (lambda i: self.np.index(I, v, i)) if isinstance(v, Ref) else (lambda i: I.fresh(getitem(t, i))), False)
        n = self.len_t(I, t)
        return (n, lambda i: I.fresh(getitem(t, i)), False)

    def as_map(self, I, v):
        """iterable -> ('list', [Values]) or ('map', n, elem, unordered)"""
        s = self.iterate(I, v)
        if isinstance(s, list):
            return ('list', s)
        if s[0] == 'choice':
            raise Unsupported('iterate choice')
        return ('map',) + s

    def map_sym(self, I, n, elem, unordered, fn):
        """[fn(elem(i)) for i in range(n)] with full loop semantics"""
        ref = I.new(Cell('list', ()))
        slot = {}

        def bind_(val):
            slot['v'] = val

        def body(f):
            self.list_append(I, ref, fn(slot['v']))
            return True
        fid = I.newframe({})
        I.symloop(n, elem, unordered, bind_, body, Flow(), fid)
        return ref

    def map_values(self, I, fn, its, star=True):
        """apply fn over zipped iterables -> list ref"""
        seqs = [self.as_map(I, x) for x in its]
        if all(s[0] == 'list' for s in seqs):
            n = min(len(s[1]) for s in seqs)
            return I.new(Cell('list', tuple(fn(*[s[1][j] for s in seqs]) for j in range(n))))
        n, elem, unord = self.zip_sym(I, seqs)
        return self.map_sym(I, n, elem, unord, lambda v: fn(*v.elts))

    def zip_sym(self, I, seqs):
        ns = [s[1] if s[0] == 'map' else const(len(s[1])) for s in seqs]
        unord = any(s[0] == 'map' and s[3] for s in seqs)
        if unord and len(seqs) > 1 and sum(1 for s in seqs if s[0] == 'map') > 1:
            I.note('zip of unordered sequence')
            raise Unsupported('zip of unordered sequence')
        n = ns[0]
        if any(m is not n for m in ns):
            I.note('zip of different lengths')
            n = T('minlen', *ns)

        def elem(i):
            out = []
            for s in seqs:
                if s[0] == 'map':
                    out.append(s[2](i))
                else:
                    out.append(I.fresh(getitem(T('list', *[I.read(x) for x in s[1]]), i)))
            return Tup(out)
        return n, elem, unord

    # ------------------------------------------------------------ unpack
    def unpack(self, I, v, n):
        if isinstance(v, Choice):
            d = I.decide(v.c)
            if d is not None:
                return self.unpack(I, v.a if d else v.b, n)
            a, b = self.unpack(I, v.a, n), self.unpack(I, v.b, n)
            return [I.merge_value(v.c, x, y, I.S, I.S, I.S) for x, y in zip(a, b)]
        try:
            s = self.iterate(I, v)
        except Unsupported:
            s = None
        if isinstance(s, list):
            if len(s) != n:
                I.raise_leaf('ValueError', 'unpack')
            return s
        t = I.read(v)
        if t.op == 'ite' and all(x.op in ('tuple', 'list') for x in t.args[1:]):
            if len(t.args[1].args) != n:
                I.raise_leaf('ValueError', 'unpack')
        if t.op == 'raywait':
            return [I.fresh(T('raydone', t.args[0])), I.fresh(T('rayrest', t.args[0]))]
        return [I.fresh(getitem(t, const(j))) for j in range(n)]

    def unpack_star(self, I, v, n, star):
        s = self.iterate(I, v)
        if not isinstance(s, list):
            t = I.read(v)
            if star == n - 1:
                return [I.fresh(getitem(t, const(j))) for j in range(n - 1)] + [I.fresh(getitem(t, T('slice', const(n - 1), NONE, NONE)))]
            raise Unsupported('starred unpack')
        k = len(s) - (n - 1)
        if k < 0:
            I.raise_leaf('ValueError', 'unpack')
        return s[:star] + [I.new(Cell('list', tuple(s[star:star + k])))] + s[star + k:]

    # ------------------------------------------------------------ lists
    def list_append(self, I, ref, v):
        if isinstance(ref, Choice):
            d = I.decide(ref.c)
            if d is not None:
                return self.list_append(I, ref.a if d else ref.b, v)
        c = I.cell(ref)
        I.user_write(ref, 'append')
        if c.kind == 'list':
            I.S.heap[ref.loc] = c.with_data(c.data + (v,))
            return
        t = I.content(ref.loc)
        I._set_content(ref.loc, T('append', t, I.read(v)))

    def list_extend(self, I, ref, v):
        c = I.cell(ref)
        I.user_write(ref, 'extend')
        s = self.iterate(I, v)
        if c.kind == 'list' and isinstance(s, list):
            I.S.heap[ref.loc] = c.with_data(c.data + tuple(s))
            return
        t = I.content(ref.loc)
        I._set_content(ref.loc, seqcat(t, self.listterm(I, v)))

    def listterm(self, I, v):
        """term of list(v)"""
        s = self.iterate(I, v)
        if isinstance(s, list):
            return T('list', *[I.read(x) for x in s])
        t = I.read(v)
        if t.op in ('map', 'cat', 'range', 'perm', 'append', 'list', 'fmap', 'flatmap', 'sorted', 'scatter', 'store'):
            return t
        if s[0] == 'choice':
            return ite(s[1], self.listterm(I, s[2]), self.listterm(I, s[3]))
        n, elem, un = s
        i = tm.tmpsym('i', 'int', ())
        m = lam_map(n, i, I.read(elem(i)))
        return T('perm', m) if un else m

    def dedup(self, I, vals):
        out = []
        for v in vals:
            t = I.read(v)
            if all(I.read(x) is not t for x in out):
                out.append(v)
        return tuple(out)

    # ------------------------------------------------------------ strings
    def fmt(self, I, v, conv=-1, spec=None):
        t = I.read(v)
        if spec is not None and not (is_strc(spec) and cval(spec) == ''):
            if is_strc(spec) and is_const(t) and not isinstance(cval(t), Fraction):
                try:
                    return const(format(cval(t), cval(spec)))
                except Exception:
                    pass
            return T('tostr', t, spec)
        if conv == ord('r') or conv == 'r':
            if kind(t) in ('int', 'bool', 'none', 'float'):
                return tostr(t)
            if is_strc(t):
                return const(repr(cval(t)))
            return T('repr', t)
        return tostr(t)

    def strcat(self, parts):
        return strcat(parts)

    def str_format(self, I, s, args, kwargs):
        parts = []
        auto = 0
        for lit, field, spec, conv in parse_format(s):
            if lit:
                parts.append(const(lit))
            if field is None:
                continue
            if field == '':
                v = args[auto]
                auto += 1
            elif field.isdigit():
                v = args[int(field)]
            elif field in kwargs:
                v = kwargs[field]
            else:
                raise Unsupported('format field ' + field)
            parts.append(self.fmt(I, v, conv or -1, const(spec) if spec else None))
        return Val(strcat(parts))

    def str_method(self, I, v, name, args, kwargs):
        t = I.read(v)
        ts = [I.read(a) for a in args]
        if name == 'format':
            if is_strc(t):
                return self.str_format(I, cval(t), args, kwargs)
            raise Unsupported('format of symbolic template')
        if name == 'join':
            s = self.iterate(I, args[0])
            if isinstance(s, list):
                parts = []
                for j, x in enumerate(s):
                    if j:
                        parts.append(t)
                    parts.append(I.read(x))
                return Val(strcat(parts))
            return Val(T('strjoin', t, I.read(args[0])))
        if name == 'replace' and len(ts) == 2 and all(is_strc(x) for x in ts):
            return Val(strrep(t, cval(ts[0]), cval(ts[1])))
        if is_strc(t) and all(is_const(x) and not isinstance(cval(x), Fraction) for x in ts) and not kwargs and hasattr(str, name):
            try:
                r = getattr(cval(t), name)(*[cval(x) for x in ts])
            except Exception:
                I.raise_leaf('ValueError')
            if isinstance(r, (list, tuple)):
                vs = [Val(const(x)) for x in r]
                return I.new(Cell('list', tuple(vs))) if isinstance(r, list) else Tup(vs)
            return Val(const(r))
        if name == 'startswith' and t.op == 'str' and is_strc(t.args[0]) and ts and is_strc(ts[0]):
            a, b = cval(t.args[0]), cval(ts[0])
            if len(a) >= len(b):
                return Val(const(a.startswith(b)))
            if not b.startswith(a):
                return Val(FALSE)
        if name in ('startswith', 'endswith', 'isdigit', 'isnumeric'):
            return Val(T('truth', T('mcall', t, name, tuple(ts), ())))
        if name in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'title', 'replace', 'zfill', 'rjust', 'ljust'):
            return Val(T('strmeth', t, name, tuple(ts)))
        if name == 'split' and t.op == 'str':
            return I.fresh(T('mcall', t, name, tuple(ts), ()))
        return I.fresh(T('mcall', t, name, tuple(ts), tuple(sorted((k, I.read(x)) for k, x in kwargs.items()))))

    # ------------------------------------------------------------ operators
    def isnum(self, t):
        return kind(t) in ('int', 'float', 'num', 'bool', 'ndarray', 'any', 'loaded', 'fn_') or dims(t) is not None

    def binop(self, I, op, a, b):
        o = type(op).__name__
        for x, y, sw in ((a, b, False), (b, a, True)):
            if isinstance(x, Choice):
                d = I.decide(x.c)
                if d is not None:
                    nx = x.a if d else x.b
                    return self.binop(I, op, nx, y) if not sw else self.binop(I, op, y, nx)
        # instances with operator methods
        for x, y, pre in ((a, b, '__'), (b, a, '__r')):
            if isinstance(x, Ref) and I.cell(x).kind == 'inst':
                nm = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv'}.get(o)
                own, f = I.cell(x).data[0].lookup(pre + str(nm) + '__')
                if f is not None:
                    return I.call_fn(f, [x, y], {})
        # containers
        ka, kb = self.ckind(I, a), self.ckind(I, b)
        if o == 'Add' and ka == 'tuple' and kb == 'tuple':
            sa, sb = self.iterate(I, a), self.iterate(I, b)
            if isinstance(sa, list) and isinstance(sb, list):
                return Tup(sa + sb)
        if o == 'Add' and ka == 'list' and kb == 'list':
            sa, sb = self.iterate(I, a), self.iterate(I, b)
            if isinstance(sa, list) and isinstance(sb, list):
                return I.new(Cell('list', tuple(sa) + tuple(sb)))
            return I.fresh(seqcat(self.listterm(I, a), self.listterm(I, b)))
        if o == 'Mult' and (ka in ('list', 'tuple') or kb in ('list', 'tuple')) and not (self.isarr(I, a) or self.isarr(I, b)):
            l, n = (a, b) if ka in ('list', 'tuple') else (b, a)
            k = ka if ka in ('list', 'tuple') else kb
            nt = I.read(n)
            s = self.iterate(I, l)
            if is_int(nt) and isinstance(s, list):
                r = list(s) * max(cval(nt), 0)
                return Tup(r) if k == 'tuple' else I.new(Cell('list', tuple(r)))
            if isinstance(s, list) and len(s) == 1:
                i = tm.tmpsym('i', 'int', ())
                return I.fresh(lam_map(nt, i, I.read(s[0])))
            return I.fresh(T('rep', self.listterm(I, l), nt))
        if ka == 'set' and kb == 'set' and o in ('Sub', 'BitOr', 'BitAnd', 'BitXor'):
            sa, sb = self.iterate(I, a), self.iterate(I, b)
            if isinstance(sa, list) and isinstance(sb, list):
                ta, tb = [I.read(x) for x in sa], [I.read(x) for x in sb]
                if all(is_const(x) for x in ta + tb):
                    if o == 'Sub':
                        r = [x for x in sa if I.read(x) not in tb]
                    elif o == 'BitAnd':
                        r = [x for x in sa if I.read(x) in tb]
                    elif o == 'BitOr':
                        r = list(self.dedup(I, sa + sb))
                    else:
                        r = [x for x in sa if I.read(x) not in tb] + [x for x in sb if I.read(x) not in ta]
                    return I.new(Cell('set', tuple(r)))
            return I.fresh(T('setop', o, I.read(a), I.read(b)))
        ta, tb = I.read(a), I.read(b)
        if ka == 'dict' and kb == 'dict' and o == 'BitOr':
            da, db = dict(I.cell(a).data), dict(I.cell(b).data)
            da.update(db)
            return I.new(Cell('dict', tuple(da.items())))
        if o == 'Mod' and kind(ta) == 'str':
            return self.percent(I, ta, b)
        if o == 'Add' and (kind(ta) == 'str' or kind(tb) == 'str'):
            if kind(ta) in ('int', 'float', 'none') or kind(tb) in ('int', 'float', 'none'):
                I.raise_leaf('TypeError', 'str + num')
            return Val(strcat([ta, tb]))
        if o == 'Mult' and (kind(ta) == 'str' or kind(tb) == 'str'):
            if is_const(ta) and is_const(tb):
                return Val(const(cval(ta) * cval(tb)))
        if o == 'Div' and (ta.op == 'path' or tb.op == 'path'):
            return Val(T('call', 'os.path.join', (('a', ta), ('p', tb))))
        if ta is NONE or tb is NONE:
            I.raise_leaf('TypeError', 'None operand')
        if ta.op in ('list', 'tuple', 'map') and kind(tb) == 'ndarray':
            ta = T('arr', ta)
        if tb.op in ('list', 'tuple', 'map') and kind(ta) == 'ndarray':
            tb = T('arr', tb)
        return I.fresh(self.arith(I, o, ta, tb))

    def percent(self, I, t, b):
        if not is_strc(t):
            return Val(T('percent', t, I.read(b)))
        import re
        args = list(b.elts) if isinstance(b, Tup) else [b]
        parts = []
        pos = 0
        for m in re.finditer(r'%([-#0 +]*)(\d*)(\.\d+)?([sdrifgeGx%])', cval(t)):
            parts.append(const(cval(t)[pos:m.start()]))
            pos = m.end()
            if m.group(4) == '%':
                parts.append(const('%'))
                continue
            v = args.pop(0)
            f = m.group(0)
            if f in ('%s', '%d', '%i'):
                tv = I.read(v)
                if f != '%s' and kind(tv) not in ('int', 'bool'):
                    parts.append(T('tostr', tv, const(f)))
                else:
                    parts.append(tostr(tv))
            elif f == '%r':
                parts.append(self.fmt(I, v, 'r'))
            else:
                parts.append(T('tostr', I.read(v), const(f)))
        parts.append(const(cval(t)[pos:]))
        return Val(strcat(parts))

    def arith(self, I, o, a, b):
        a, b = self.np.defull2(a, b)
        if a.op == 'ite' and (a.args[1].op == 'const' or a.args[2].op == 'const') and kind(a) != 'bool' and o in ('Add', 'Sub', 'Mult', 'Div', 'Mod'):
            return ite(a.args[0], self.arith(I, o, a.args[1], b), self.arith(I, o, a.args[2], b))
        if b.op == 'ite' and (b.args[1].op == 'const' or b.args[2].op == 'const') and kind(b) != 'bool' and o in ('Add', 'Sub', 'Mult', 'Div', 'Mod'):
            return ite(b.args[0], self.arith(I, o, a, b.args[1]), self.arith(I, o, a, b.args[2]))
        if a in (TRUE, FALSE):
            a = const(int(cval(a))) if o in ('Add', 'Sub', 'Mult', 'Div') else a
        if b in (TRUE, FALSE):
            b = const(int(cval(b))) if o in ('Add', 'Sub', 'Mult', 'Div') else b
        if o == 'Add':
            r = add(a, b)
        elif o == 'Sub':
            r = sub(a, b)
        elif o == 'Mult':
            r = mul(a, b)
        elif o == 'Div':
            if b is ZERO and is_num(a):
                I.raise_leaf('ZeroDivisionError')
            if b is ZERO:
                return T('call', 'numpy.divide0', (('a', a),))
            r = div(a, b)
        elif o == 'Pow':
            if is_num(b) and abs(cval(b)) <= 64:
                if is_num(a) and cval(a) == 0 and cval(b) < 0:
                    I.raise_leaf('ZeroDivisionError')
                r = power(a, Fraction(cval(b)))
            else:
                r = T('call', 'numpy.power', (('x1', a), ('x2', b)))
        elif o == 'Mod':
            if is_num(a) and is_num(b) and cval(b) != 0:
                r = const(cval(a) % cval(b))
            else:
                r = T('call', 'numpy.mod', (('x1', a), ('x2', b)))
        elif o == 'FloorDiv':
            if is_num(a) and is_num(b) and cval(b) != 0:
                r = const(cval(a) // cval(b))
            else:
                q = mono_div(a, b) if kind(a) == 'int' and kind(b) == 'int' else None
                r = q if q is not None else T('call', 'numpy.floor_divide', (('x1', a), ('x2', b)))
        elif o in ('BitAnd', 'BitOr', 'BitXor'):
            if kind(a) == 'bool' and kind(b) == 'bool':
                return {'BitAnd': and_, 'BitOr': or_, 'BitXor': xor_}[o](a, b)
            nm = {'BitAnd': 'band', 'BitOr': 'bor', 'BitXor': 'bxor'}[o]
            return lift_lay(self.np.boolop(nm, a, b))
        elif o == 'MatMult':
            return T('call', 'numpy.matmul', (('x1', a), ('x2', b)))
        elif o in ('LShift', 'RShift'):
            raise Unsupported(o)
        else:
            raise Unsupported('binop ' + o)
        return lift_lay(npoly(r))

    def unop(self, I, op, v):
        o = type(op).__name__
        if isinstance(v, Choice):
            return I.branch(v.c, lambda: self.unop(I, op, v.a), lambda: self.unop(I, op, v.b))
        t = I.read(v)
        if o == 'USub':
            return I.fresh(lift_lay(neg(t)))
        if o == 'UAdd':
            return v
        if o == 'Invert':
            if kind(t) == 'bool' and is_const(t):
                return Val(const(~int(cval(t))))
            return I.fresh(self.np.binv(t))
        raise Unsupported(o)

    def augop(self, I, op, cur, r):
        o = type(op).__name__
        if isinstance(cur, Choice):
            d = I.decide(cur.c)
            if d is not None:
                cur = cur.a if d else cur.b
        if isinstance(cur, Ref):
            c = I.cell(cur)
            if c.kind == 'list' and o == 'Add':
                self.list_extend(I, cur, r)
                return cur
            if c.kind in ('arr', 'view'):
                t = I.read(cur)
                if kind(t) == 'list' and o == 'Add':
                    self.list_extend(I, cur, r)
                    return cur
                if kind(t) == 'ndarray' or (kind(t) not in ('str', 'int', 'float') and dims(t)):
                    nv = self.binop(I, op, cur, r)
                    I.write_cell(cur.loc, I.read(nv), 'augmented assignment')
                    return cur
        return self.binop(I, op, cur, r)

    def ckind(self, I, v):
        if isinstance(v, Tup):
            return 'tuple'
        if isinstance(v, Ref):
            c = I.cell(v)
            if c.kind in ('list', 'dict', 'set'):
                return c.kind
            if c.kind == 'inst':
                return 'inst'
        if isinstance(v, (Fn, Ext, ClsV, Bound, Part, Choice)):
            return 'other'
        t = I.read(v)
        if t.op in ('map', 'cat', 'append', 'fmap', 'flatmap', 'perm', 'range', 'rep', 'tolist'):
            return 'list'
        if t.op in ('setop', 'setof'):
            return 'set'
        k = kind(t)
        return k if k in ('list', 'tuple', 'dict', 'set') else 'val'

    def isarr(self, I, v):
        if isinstance(v, (Val, Ref)):
            return kind(I.read(v)) == 'ndarray'
        return False

    def compare(self, I, op, a, b):
        o = type(op).__name__
        if o in ('Is', 'IsNot'):
            r = self.is_(I, a, b)
            return r if o == 'Is' else not_(r)
        if o in ('In', 'NotIn'):
            r = self.in_(I, a, b)
            return r if o == 'In' else not_(r)
        if isinstance(a, Choice) or isinstance(b, Choice):
            x = a if isinstance(a, Choice) else b
            d = I.decide(x.c)
            if d is not None:
                nx = x.a if d else x.b
                return self.compare(I, op, nx if x is a else a, nx if x is b else b)
            l = self.compare(I, op, x.a if x is a else a, x.a if x is b else b)
            r = self.compare(I, op, x.b if x is a else a, x.b if x is b else b)
            return ite(x.c, l, r)
        if o in ('Eq', 'NotEq'):
            r = self.eq(I, a, b)
            if o != 'Eq' and r.op == 'eq' and all(kind(x) in ('tuple', 'list') or x.op in ('tuple', 'list') for x in r.args):
                return not_(r)
            return r if o == 'Eq' else self.np.binv(r) if kind(r) == 'ndarray' and not is_const(r) and r.op != 'eq' else (
                cmp_('ne', *r.args) if r.op == 'eq' else not_(r))
        ta, tb = I.read(a), I.read(b)
        for x, y in ((ta, tb), (tb, ta)):
            if x is NONE or (kind(x) == 'str' and kind(y) in ('int', 'float')):
                I.raise_leaf('TypeError', 'ordering comparison')
        return self.np.cmpn({'Lt': 'lt', 'LtE': 'le', 'Gt': 'gt', 'GtE': 'ge'}[o], ta, tb)

    def eq(self, I, a, b):
        if isinstance(a, (Fn, ClsV, Ext, Bound)) or isinstance(b, (Fn, ClsV, Ext, Bound)):
            ta, tb = I.read(a), I.read(b)
            d, e = (ta, tb) if ta.op == 'dtype' else (tb, ta)
            if d.op == 'dtype' and e.op == 'ext' and e.args[0].split('.')[-1] not in ('bool', 'bool_') and not is_boolish(d.args[0]):
                # the element type of an array is not known
                return cmp_('eq', d, e)
            return const(ta is tb)
        ka, kb = self.ckind(I, a), self.ckind(I, b)
        if ka in ('list', 'tuple') and kb in ('list', 'tuple'):
            if ka != kb:
                return FALSE
            ta, tb = I.read(a), I.read(b)
            r = eq_terms(ta, tb)
            if r is not None:
                return const(r)
            return T('eq', *sorted((ta, tb), key=lambda x: x.k))
        if ka == 'set' and kb == 'set':
            sa = {I.read(x) for x in self.iterate(I, a)}
            sb = {I.read(x) for x in self.iterate(I, b)}
            return const(sa == sb)
        ta, tb = I.read(a), I.read(b)
        if ta.op == 'ite' and is_const(tb) and kind(ta) != 'ndarray':
            return ite(ta.args[0], self.eq(I, Val(ta.args[1]), b), self.eq(I, Val(ta.args[2]), b))
        if tb.op == 'ite' and is_const(ta) and kind(tb) != 'ndarray':
            return ite(tb.args[0], self.eq(I, a, Val(tb.args[1])), self.eq(I, a, Val(tb.args[2])))
        return lift_lay(cmp_('eq', ta, tb))

    def is_(self, I, a, b):
        if isinstance(b, Val) and b.t is NONE:
            return I.isnone(a)
        if isinstance(a, Val) and a.t is NONE:
            return I.isnone(b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return const(a.loc == b.loc)
        ta, tb = I.read(a), I.read(b)
        if is_const(ta) and is_const(tb):
            return const(ta is tb)
        if tb in (TRUE, FALSE) and kind(ta) == 'bool':
            return ta if tb is TRUE else not_(ta)
        if tb in (TRUE, FALSE) and kind(ta) in ('int', 'float', 'str', 'ndarray', 'list', 'num'):
            return FALSE
        if ta.op in ('fn', 'ext', 'cls') and tb.op in ('fn', 'ext', 'cls'):
            return const(ta is tb)
        return T('is', ta, tb)

    def in_(self, I, a, b):
        ta = I.read(a)
        if isinstance(b, Ext) and b.q == 'os.environ':
            return self.sys.env_has(I, ta)
        if isinstance(b, Ref) and I.cell(b).kind == 'dict':
            ks = [k for k, _ in I.cell(b).data]
            for k, v in I.cell(b).data:
                if k is ta:
                    if isinstance(v, Choice) and (v.a is UNBOUND or v.b is UNBOUND):
                        return v.c if v.b is UNBOUND else not_(v.c)
                    return TRUE
            if is_const(ta) and all(is_const(k) for k in ks):
                return FALSE
            return T('in', ta, T('list', *ks))
        if isinstance(b, Choice):
            return ite(b.c, self.in_(I, a, b.a), self.in_(I, a, b.b))
        if isinstance(b, Ref) and I.cell(b).kind == 'inst':
            own, m = I.cell(b).data[0].lookup('__contains__')
            if m is not None:
                return I.truth(I.call_fn(m, [b, a], {}))
        tb = I.read(b)
        if is_strc(ta) and is_strc(tb):
            return const(cval(ta) in cval(tb))
        if kind(tb) == 'str':
            return T('in', ta, tb)
        try:
            s = self.iterate(I, b)
        except Unsupported:
            s = None
        if isinstance(s, list):
            return or_(*[I.truth_t(self.eq(I, a, x)) for x in s]) if s else FALSE
        return T('in', ta, tb)

    # ------------------------------------------------------------ items
    def getitem(self, I, o, k):
        if isinstance(o, Choice):
            d = I.decide(o.c)
            if d is not None:
                return self.getitem(I, o.a if d else o.b, k)
            return I.branch(o.c, lambda: self.getitem(I, o.a, k), lambda: self.getitem(I, o.b, k))
        if isinstance(o, Ext) and o.q == 'os.environ':
            return self.sys.env_get(I, I.read(k))
        if isinstance(o, Ext) and o.q in ('numpy.s_', 'numpy.index_exp'):
            return k
        kt = I.read(k)
        if isinstance(k, Choice):
            d = I.decide(k.c)
            if d is not None:
                return self.getitem(I, o, k.a if d else k.b)
        if isinstance(o, Tup):
            return self.pick(I, list(o.elts), kt, True, o)
        if isinstance(o, Ref):
            c = I.cell(o)
            if c.kind == 'list':
                return self.pick(I, list(c.data), kt, False, o)
            if c.kind == 'dict':
                for kk, vv in c.data:
                    if kk is kt:
                        return I.force(vv, 'KeyError') if isinstance(vv, Choice) else vv
                if is_const(kt) and all(is_const(kk) for kk, _ in c.data):
                    I.raise_leaf('KeyError', kt)
                if c.data and is_const(c.data[0][0]) and not is_const(kt):
                    # finite case split over the keys
                    r = I.read(c.data[-1][1])
                    for kk, vv in reversed(c.data[:-1]):
                        r = ite(cmp_('eq', kt, kk), I.read(vv), r)
                    return I.fresh(r)
                return I.fresh(T('getitem', I.read(o), kt))
            if c.kind == 'inst':
                own, a = c.data[0].lookup('__getitem__')
                if a is not None:
                    return I.call_fn(a, [o, k], {})
            if c.kind in ('arr', 'view'):
                return self.np.index(I, o, kt)
        if isinstance(o, (ClsV, Fn)):
            return o
        if isinstance(o, Null) and o.inner is not None:
            return self.getitem(I, o.inner, k)
        t = I.read(o)
        if is_strc(t) and (is_int(kt) or (kt.op == 'slice' and all(x is NONE or is_int(x) for x in kt.args))):
            try:
                return Val(const(cval(t)[slice(*[None if x is NONE else cval(x) for x in kt.args])] if kt.op == 'slice' else cval(t)[cval(kt)]))
            except IndexError:
                I.raise_leaf('IndexError')
        if t.op == 'str' and kt.op == 'slice' and is_strc(t.args[0]) and kt.args[0] in (NONE, ZERO) and kt.args[2] is NONE and \
                is_int(kt.args[1]) and 0 <= cval(kt.args[1]) <= len(cval(t.args[0])):
            return Val(const(cval(t.args[0])[:cval(kt.args[1])]))
        if t is NONE:
            I.raise_leaf('TypeError', 'None subscript')
        if t.op == 'raydone':
            return I.fresh(T('getitem', t, kt))
        if t.op == 'attr' or t.op == 'meth' or kind(t) in ('any', 'obj') and t.op not in ('sym', 'getitem', 'load', 'ite'):
            I.event(('getitem', show(t, 3)))
        return I.fresh(getitem(t, kt))

    def pick(self, I, els, kt, tup, o):
        if is_int(kt):
            n = len(els)
            if -n <= cval(kt) < n:
                return els[cval(kt)]
            I.raise_leaf('IndexError')
        if kt.op == 'slice' and all(x is NONE or is_int(x) for x in kt.args):
            r = els[slice(*[None if x is NONE else cval(x) for x in kt.args])]
            return Tup(r) if tup else I.new(Cell('list', tuple(r)))
        if kt in (TRUE, FALSE):
            return els[int(cval(kt))]
        if kt.op == 'ite':
            return I.branch(kt.args[0], lambda: self.pick(I, els, kt.args[1], tup, o), lambda: self.pick(I, els, kt.args[2], tup, o))
        if kind(kt) == 'bool' and len(els) == 2:
            return I.branch(kt, lambda: els[1], lambda: els[0])
        return I.fresh(getitem(T('tuple' if tup else 'list', *[I.read(x) for x in els]), kt))

    def setitem(self, I, o, k, v):
        if isinstance(o, Choice):
            d = I.decide(o.c)
            if d is not None:
                return self.setitem(I, o.a if d else o.b, k, v)
            I.branch(o.c, lambda: (self.setitem(I, o.a, k, v), VNONE)[1], lambda: (self.setitem(I, o.b, k, v), VNONE)[1])
            return
        if isinstance(o, Ext) and o.q == 'os.environ':
            return self.sys.env_set(I, I.read(k), I.read(v))
        kt = I.read(k)
        if isinstance(o, Ref):
            c = I.cell(o)
            if c.kind == 'list' and is_int(kt):
                n = len(c.data)
                if -n <= cval(kt) < n:
                    d = list(c.data)
                    d[cval(kt)] = v
                    I.user_write(o, 'item assignment')
                    I.S.heap[o.loc] = c.with_data(tuple(d))
                    return
                I.raise_leaf('IndexError')
            if c.kind == 'dict':
                I.user_write(o, 'item assignment')
                if is_const(kt) or not c.data or any(kk is kt for kk, _ in c.data):
                    if is_const(kt) or any(kk is kt for kk, _ in c.data) or I.loops == ():
                        d = [(kk, vv if kk is not kt else v) for kk, vv in c.data]
                        if all(kk is not kt for kk, _ in d):
                            d.append((kt, v))
                        I.S.heap[o.loc] = c.with_data(tuple(d))
                        return
                t = I.content(o.loc)
                I._set_content(o.loc, T('store', t, kt, I.read(v)))
                return
            if c.kind == 'inst':
                own, a = c.data[0].lookup('__setitem__')
                if a is not None:
                    I.call_fn(a, [o, k, v], {})
                    return
            if c.kind in ('arr', 'view', 'list'):
                t = I.read(o)
                if kind(t) == 'list' or c.kind == 'list':
                    I.user_write(o, 'item assignment')
                    I._set_content(o.loc, store(t, kt, I.read(v)))
                    return
                self.np.setindex(I, o, kt, v)
                return
        if isinstance(o, (Val, Meth)):
            t = I.read(o)
            I.effect('extstore', t, kt, I.read(v))
            if isinstance(o, Val) and t.op == 'obj':
                return
            return
        if isinstance(o, Tup):
            I.raise_leaf('TypeError', 'tuple assignment')
        raise Unsupported('setitem')

    def delitem(self, I, o, k):
        kt = I.read(k)
        if isinstance(o, Ext) and o.q == 'os.environ':
            self.sys.env_del(I, kt)
            return
        if isinstance(o, Ref):
            c = I.cell(o)
            I.user_write(o, 'del item')
            if c.kind == 'dict':
                I.S.heap[o.loc] = c.with_data(tuple((kk, vv) for kk, vv in c.data if kk is not kt))
                return
            if c.kind == 'list' and is_int(kt):
                l = list(c.data)
                try:
                    del l[cval(kt)]
                except IndexError:
                    I.raise_leaf('IndexError')
                I.S.heap[o.loc] = c.with_data(tuple(l))
                return
            t = I.content(o.loc)
            if t.op == 'dict':
                I._set_content(o.loc, T('dict', tuple((a, b) for a, b in t.args[0] if a is not kt)))
                return
        raise Unsupported('del item')

    # ------------------------------------------------------------ attributes
    def getattr(self, I, o, name):
        if isinstance(o, Ext):
            return self.np.ext_attr(I, o, name)
        if isinstance(o, Null):
            if o.inner is not None and o.tag != 'pbar':
                return I.getattr(o.inner, name)
            return Meth(o, name)
        if isinstance(o, (Tup, Fn, Bound, Part, Remote)):
            if isinstance(o, Tup) and o.names and name in o.names:
                return o.elts[o.names.index(name)]
            if isinstance(o, Tup) and not o.names and not hasattr(tuple, name):
                I.raise_leaf('AttributeError', name)
            if name == '__name__':
                if isinstance(o, Bound):
                    return I.getattr(o.fn, name)
                I.raise_leaf('AttributeError', name) if isinstance(o, Part) else None
            return Meth(o, name)
        if isinstance(o, Ref):
            c = I.cell(o)
            if c.kind in ('list', 'dict', 'set'):
                if not hasattr({'list': list, 'dict': dict, 'set': set}[c.kind], name):
                    I.raise_leaf('AttributeError', name)
                return Meth(o, name)
        t = I.read(o)
        if t is NONE:
            I.raise_leaf('AttributeError', name)
        r = self.np.attr(I, o, t, name)
        if r is not None:
            return r
        return Meth(o, name)

    def setattr(self, I, o, name, v):
        t = I.read(o)
        I.effect('extsetattr', t, name, I.read(v))
        if isinstance(o, Ext):
            return
        if isinstance(o, Ref) and I.cell(o).kind in ('arr', 'view') and name == 'shape':
            r = self.np.reshape_t(I, t, I.read(v))
            I.write_cell(o.loc, r, 'shape assignment')

    # ------------------------------------------------------------ with
    def enter(self, I, v):
        return self.sys.enter(I, v)

    def ext_instance(self, I, o, info, args, kwargs):
        return o

    def arity(self, I, f, e):
        fn = f
        off = 0
        if isinstance(fn, Bound):
            off = 1
            fn = fn.fn
        if isinstance(fn, Fn):
            given = {k.arg for k in e.keywords}
            a = fn.node.args
            names = [x.arg for x in a.posonlyargs + a.args][off:]
            req = names[:len(names) - len(fn.defaults)]
            return len([n for n in req if n not in given]) - (len(e.args) - 1)
        raise Unsupported('arity of *args')

    # ------------------------------------------------------------ calls
    def call(self, I, f, args, kwargs):
        if isinstance(f, Ext):
            m = I.config.get('models', {}).get(f.q)
            if m is not None:
                # an external operation replaced by its specified model
                I.event(('model', f.q))
                mod, name = m.rsplit('.', 1)
                return I.call(I.world.import_name(I, mod, name), args, kwargs)
            if f.q.startswith('builtins.'):
                m = getattr(self, 'b_' + f.q[9:], None)
                if m is not None:
                    return m(I, args, kwargs)
                if f.q[9:] in EXC:
                    return Val(T('exc', f.q[9:]))
                raise Unsupported('builtin ' + f.q)
            return self.np.ext_call(I, f.q, args, kwargs)
        if isinstance(f, Meth):
            return self.method(I, f.recv, f.name, args, kwargs)
        if isinstance(f, Val) and f.t.op == 'ite':
            return I.branch(f.t.args[0], lambda: I.call(Val(f.t.args[1]), args, kwargs), lambda: I.call(Val(f.t.args[2]), args, kwargs))
        if isinstance(f, Val) and f.t.op == 'ext':
            return self.call(I, Ext(f.t.args[0]), args, kwargs)
        if isinstance(f, (Val, Ref)):
            t = I.read(f)
            if t is NONE:
                I.raise_leaf('TypeError', 'None not callable')
            if t.op == 'frozen_gen':
                return self.np.frozen(I, t.args[0], args, kwargs)
            if t.op == 'sym' and syminfo(t).get('fnmodel'):
                return syminfo(t)['fnmodel'](I, args, kwargs)
            I.event(('call', show(t, 3)))
            return I.fresh(T('ucall', t, tuple(I.read(a) for a in args), tuple(sorted((k, I.read(a)) for k, a in kwargs.items()))))
        if isinstance(f, Remote):
            raise Unsupported('remote call')
        if isinstance(f, Mod):
            raise Unsupported('call module')
        raise Unsupported('call ' + type(f).__name__)

    def method(self, I, r, name, args, kwargs):
        if isinstance(r, Choice):
            return I.branch(r.c, lambda: I.call(I.getattr(r.a, name), args, kwargs), lambda: I.call(I.getattr(r.b, name), args, kwargs))
        if isinstance(r, Sup):
            return VNONE
        if isinstance(r, Null):
            I.sys_pbar = True
            return VNONE if name not in ('__enter__',) else r
        if isinstance(r, Tup):
            return self.list_method(I, r, name, args, kwargs)
        if isinstance(r, Remote):
            if name == 'remote':
                return self.sys.remote_call(I, r, args, kwargs)
            if name == 'options':
                return r
        if isinstance(r, Meth):
            r = Val(I.read(r))
        if isinstance(r, Ref):
            c = I.cell(r)
            if c.kind == 'list':
                return self.list_method(I, r, name, args, kwargs)
            if c.kind == 'dict':
                return self.dict_method(I, r, name, args, kwargs)
            if c.kind == 'set':
                return self.set_method(I, r, name, args, kwargs)
            if c.kind == 'inst':
                return self.np.inst_method(I, r, name, args, kwargs)
        t = I.read(r)
        if kind(t) == 'str' and t.op != 'tostr_':
            return self.str_method(I, r, name, args, kwargs)
        if t.op in ('map', 'cat', 'append', 'perm', 'range', 'fmap', 'flatmap', 'list', 'tuple') or (t.op == 'sym' and kind(t) == 'list'):
            return self.list_method(I, r, name, args, kwargs)
        if t.op in ('dict', 'dictmap') or kind(t) == 'dict':
            return self.dict_method(I, r, name, args, kwargs)
        if t.op in ('setof', 'setop', 'set'):
            return self.set_method(I, r, name, args, kwargs)
        return self.np.method(I, r, t, name, args, kwargs)

    def list_method(self, I, r, name, args, kwargs):
        if name == 'append':
            self.list_append(I, r, args[0])
            return VNONE
        if name == 'extend':
            self.list_extend(I, r, args[0])
            return VNONE
        if name == 'copy':
            s = self.iterate(I, r)
            return I.new(Cell('list', tuple(s))) if isinstance(s, list) else I.fresh(I.read(r))
        if name in ('index', 'count'):
            s = self.iterate(I, r)
            t = I.read(args[0])
            if isinstance(s, list) and is_const(t) and all(is_const(I.read(x)) for x in s):
                l = [cval(I.read(x)) for x in s]
                if name == 'count':
                    return Val(const(l.count(cval(t))))
                if cval(t) in l:
                    return Val(const(l.index(cval(t))))
                I.raise_leaf('ValueError')
            return Val(T('call', 'list.' + name, (('a', I.read(r)), ('x', t))))
        if isinstance(r, Tup):
            raise Unsupported('tuple method ' + name)
        c = I.cell(r) if isinstance(r, Ref) else None
        I.user_write(r, name)
        if c is not None and c.kind == 'list':
            l = list(c.data)
            if name == 'pop':
                k = I.read(args[0]) if args else const(-1)
                if not is_int(k):
                    raise Unsupported('pop index')
                if not -len(l) <= cval(k) < len(l):
                    I.raise_leaf('IndexError')
                x = l.pop(cval(k))
                I.S.heap[r.loc] = c.with_data(tuple(l))
                return x
            if name == 'insert':
                k = I.read(args[0])
                if not is_int(k):
                    raise Unsupported('insert index')
                l.insert(cval(k), args[1])
                I.S.heap[r.loc] = c.with_data(tuple(l))
                return VNONE
            if name == 'reverse':
                I.S.heap[r.loc] = c.with_data(tuple(l[::-1]))
                return VNONE
            if name == 'clear':
                I.S.heap[r.loc] = c.with_data(())
                return VNONE
            if name == 'remove':
                t = I.read(args[0])
                for j, x in enumerate(l):
                    if I.read(x) is t:
                        del l[j]
                        I.S.heap[r.loc] = c.with_data(tuple(l))
                        return VNONE
                if all(is_const(I.read(x)) for x in l) and is_const(t):
                    I.raise_leaf('ValueError')
                raise Unsupported('list.remove')
            if name == 'sort':
                s = self.sort_vals(I, r, kwargs)
                if isinstance(s, list):
                    I.S.heap[r.loc] = c.with_data(tuple(s))
                else:
                    I._set_content(r.loc, s)
                return VNONE
        else:
            t = I.read(r)
            if name == 'sort':
                I._set_content(r.loc, self.sorted_t(t, kwargs, I))
                return VNONE
            if name == 'pop' and not args:
                n = self.len_t(I, t)
                v = I.fresh(getitem(t, sub(n, ONE)))
                I._set_content(r.loc, T('popped', t))
                return v
            if name == 'reverse':
                I._set_content(r.loc, T('reversed', t))
                return VNONE
        raise Unsupported('list method ' + name)

    def sorted_t(self, t, kwargs, I):
        if t.op == 'ite':
            return ite(t.args[0], self.sorted_t(t.args[1], kwargs, I), self.sorted_t(t.args[2], kwargs, I))
        if t.op == 'list' and len(t.args) <= 1:
            return t
        # sorting forgets the order of an unordered sequence
        key = kwargs.get('key')
        kt = I.read(key) if key is not None else NONE
        rv = I.read(kwargs['reverse']) if 'reverse' in kwargs else FALSE
        if t.op == 'map' or t.op == 'perm' and t.args[0].op == 'map':
            m = t if t.op == 'map' else t.args[0]
            h = tm.binder_h(m)
            el = m.args[1]
            bv0 = T('bv', h, 0)
            kv = None
            if key is None and el.op in ('tuple', 'list') and el.args and el.args[0] is bv0:
                kv = bv0
            elif key is not None:
                ask = lambda p: I.read(I.call(key, [I.fresh(inst(el, h, (p,)))], {}))
                probe = tm.tmpsym('i', 'int', ())
                try:
                    kv = bv0 if ask(probe) is probe else None
                    if kv is None and rv is FALSE:
                        # the key evaluated for the first positions: does it keep their order?
                        ks = [ask(const(i)) for i in range(24)]
                        if all(is_const(k) for k in ks) and sorted(range(24), key=lambda i: cval(ks[i])) != list(range(24)):
                            return T('misordered', m)
                except Exception:
                    kv = None
            if kv is bv0 and rv is FALSE:
                return m
        if t.op == 'perm':
            t = T('perm', t.args[0])
        if t.op == 'sorted' and kt is NONE and rv is FALSE:
            return t
        return T('sorted', t, kt, rv)

    def sort_vals(self, I, v, kwargs):
        s = self.iterate(I, v)
        if isinstance(s, list):
            ts = [I.read(x) for x in s]
            if len(s) <= 1:
                return s
            if all(is_const(x) for x in ts) and 'key' not in kwargs:
                try:
                    r = sorted(s, key=lambda x: cval(I.read(x)))
                except TypeError:
                    I.raise_leaf('TypeError')
                if 'reverse' in kwargs and I.read(kwargs['reverse']) is TRUE:
                    r = r[::-1]
                return r
            if 'key' in kwargs:
                ks = [I.read(I.call(kwargs['key'], [x], {})) for x in s]
                if all(is_const(k) for k in ks):
                    r = [x for _, x in sorted(zip([cval(k) for k in ks], s), key=lambda z: z[0])]
                    if 'reverse' in kwargs and I.read(kwargs['reverse']) is TRUE:
                        r = r[::-1]
                    return r
            return T('sorted', T('list', *ts), NONE, FALSE)
        return self.sorted_t(self.listterm(I, v), kwargs, I)

    def dict_method(self, I, r, name, args, kwargs):
        c = I.cell(r) if isinstance(r, Ref) else None
        if c is not None and c.kind == 'dict':
            data = c.data
            if name == 'keys':
                return I.new(Cell('list', tuple(Val(k) for k, _ in data)))
            if name == 'values':
                return I.new(Cell('list', tuple(v for _, v in data)))
            if name == 'items':
                return I.new(Cell('list', tuple(Tup([Val(k), v]) for k, v in data)))
            if name == 'get':
                kt = I.read(args[0])
                for k, v in data:
                    if k is kt:
                        return v
                if is_const(kt) and all(is_const(k) for k, _ in data):
                    return args[1] if len(args) > 1 else kwargs.get('default', VNONE)
                if not is_const(kt):
                    r2 = I.read(args[1] if len(args) > 1 else VNONE)
                    for kk, vv in reversed(data):
                        r2 = ite(cmp_('eq', kt, kk), I.read(vv), r2)
                    return I.fresh(r2)
            if name == 'copy':
                return I.new(Cell('dict', data))
            I.user_write(r, name)
            if name == 'update':
                d = dict(data)
                if args:
                    o = args[0]
                    if isinstance(o, Ref) and I.cell(o).kind == 'dict':
                        d.update(dict(I.cell(o).data))
                    else:
                        s = self.iterate(I, o)
                        if not isinstance(s, list):
                            raise Unsupported('dict.update')
                        for p in s:
                            k, v = self.unpack(I, p, 2)
                            d[I.read(k)] = v
                for k, v in kwargs.items():
                    d[const(k)] = v
                I.S.heap[r.loc] = c.with_data(tuple(d.items()))
                return VNONE
            if name == 'pop':
                kt = I.read(args[0])
                d = dict(data)
                if kt in d:
                    v = d.pop(kt)
                    I.S.heap[r.loc] = c.with_data(tuple(d.items()))
                    return v
                if len(args) > 1:
                    return args[1]
                I.raise_leaf('KeyError')
            if name == 'setdefault':
                kt = I.read(args[0])
                for k, v in data:
                    if k is kt:
                        return v
                v = args[1] if len(args) > 1 else VNONE
                I.S.heap[r.loc] = c.with_data(data + ((kt, v),))
                return v
            if name == 'clear':
                I.S.heap[r.loc] = c.with_data(())
                return VNONE
        t = I.read(r)
        if t.op == 'dictmap':
            n, kb, vb = t.args
            h = tm.binder_h(t)
            i = tm.tmpsym('i', 'int', ())
            ks, vs = inst(kb, h, (i,)), inst(vb, h, (i,))
            if name == 'keys':
                return I.fresh(lam_map(n, i, ks))
            if name == 'values':
                return I.fresh(lam_map(n, i, vs))
            if name == 'items':
                return I.fresh(lam_map(n, i, T('tuple', ks, vs)))
        if name in ('keys', 'items', 'values'):
            return I.fresh(T('mcall', t, name, (), ()))
        if name == 'get' and t.op != 'dict':
            return I.fresh(T('mcall', t, name, tuple(I.read(a) for a in args), ()))
        raise Unsupported('dict method ' + name)

    def set_method(self, I, r, name, args, kwargs):
        s = self.iterate(I, r)
        c = I.cell(r) if isinstance(r, Ref) else None
        opn = {'difference': ast.Sub(), 'union': ast.BitOr(), 'intersection': ast.BitAnd(), 'symmetric_difference': ast.BitXor()}
        if name in opn:
            o = args[0]
            if self.ckind(I, o) != 'set':
                o = self.b_set(I, [o], {})
            return self.binop(I, opn[name], r, o)
        if c is not None and c.kind == 'set':
            if name == 'add':
                if all(I.read(x) is not I.read(args[0]) for x in c.data):
                    I.S.heap[r.loc] = c.with_data(c.data + (args[0],))
                return VNONE
            if name in ('discard', 'remove'):
                I.S.heap[r.loc] = c.with_data(tuple(x for x in c.data if I.read(x) is not I.read(args[0])))
                return VNONE
            if name == 'update':
                I.S.heap[r.loc] = c.with_data(self.dedup(I, list(c.data) + self.iterate(I, args[0])))
                return VNONE
            if name == 'copy':
                return I.new(Cell('set', c.data))
            if name == 'issubset':
                o = [I.read(x) for x in self.iterate(I, args[0])]
                return Val(const(all(I.read(x) in o for x in c.data)))
            if name == 'issuperset':
                o = [I.read(x) for x in c.data]
                return Val(const(all(I.read(x) in o for x in self.iterate(I, args[0]))))
        raise Unsupported('set method ' + name)

    # ------------------------------------------------------------ builtins
    def b_len(self, I, a, k):
        return Val(self.length(I, a[0]))

    def b_range(self, I, a, k):
        ts = [self.np.asint(I.read(x)) for x in a]
        if any(kind(t) == 'float' for t in ts):
            I.raise_leaf('TypeError', 'range float')
        if len(ts) == 1:
            ts = [ZERO, ts[0], ONE]
        elif len(ts) == 2:
            ts = ts + [ONE]
        return Val(T('range', *ts))

    def b_enumerate(self, I, a, k):
        st = I.read(a[1]) if len(a) > 1 else I.read(k['start']) if 'start' in k else ZERO
        s = self.as_map(I, a[0])
        if s[0] == 'list':
            return I.new(Cell('list', tuple(Tup([Val(add(st, const(j))), x]) for j, x in enumerate(s[1]))))
        n, elem, un = s[1:]
        i = tm.tmpsym('i', 'int', ())
        if un:
            # positions are assigned in completion order: not the element's own index
            return I.fresh(T('perm', lam_map(n, i, T('tuple', T('arrival', i), I.read(elem(i))))))
        return I.fresh(lam_map(n, i, T('tuple', add(st, i), I.read(elem(i)))))

    def b_zip(self, I, a, k):
        seqs = [self.as_map(I, x) for x in a]
        if all(s[0] == 'list' for s in seqs):
            if not seqs:
                return I.new(Cell('list', ()))
            n = min(len(s[1]) for s in seqs)
            return I.new(Cell('list', tuple(Tup([s[1][j] for s in seqs]) for j in range(n))))
        n, elem, un = self.zip_sym(I, seqs)
        i = tm.tmpsym('i', 'int', ())
        m = lam_map(n, i, I.read(elem(i)))
        return I.fresh(T('perm', m) if un else m)

    def unzipped(self, I, t):
        """zip(*rows): the columns of a non-empty sequence of rows of one fixed length"""
        while t.op in ('totuple', 'tolist', 'arr') and t.args[0].op in ('map', 'totuple', 'tolist', 'arr'):
            t = t.args[0]
        if t.op != 'map':
            return None
        n, el = t.args
        h = tm.binder_h(t)
        if el.op not in ('list', 'tuple'):
            return None
        i = tm.tmpsym('i', 'int', ())
        row = inst(el, h, (i,))
        if row.op not in ('list', 'tuple'):
            return None
        return tuple(I.fresh(T('totuple', lam_map(n, i, x))) for x in row.args)

    def b_list(self, I, a, k):
        if not a:
            return I.new(Cell('list', ()))
        s = self.iterate(I, a[0])
        if isinstance(s, list):
            return I.new(Cell('list', tuple(s)))
        return I.fresh(self.listterm(I, a[0]))

    def b_tuple(self, I, a, k):
        if not a:
            return Tup([])
        s = self.iterate(I, a[0])
        if isinstance(s, list):
            return Tup(s)
        return I.fresh(T('totuple', self.listterm(I, a[0])))

    def b_set(self, I, a, k):
        if not a:
            return I.new(Cell('set', ()))
        s = self.iterate(I, a[0])
        if isinstance(s, list):
            return I.new(Cell('set', self.dedup(I, s)))
        return I.fresh(T('setof', self.listterm(I, a[0])))

    b_frozenset = b_set

    def b_dict(self, I, a, k):
        d = []
        if a:
            if isinstance(a[0], Ref) and I.cell(a[0]).kind == 'dict':
                d = list(I.cell(a[0]).data)
            elif isinstance(a[0], Ext) and a[0].q == 'os.environ':
                return self.sys.env_snapshot(I)
            else:
                s = self.iterate(I, a[0])
                if not isinstance(s, list):
                    m = self.listterm(I, a[0])
                    if m.op == 'map' and m.args[1].op == 'tuple':
                        h = tm.binder_h(m)
                        i = tm.tmpsym('i', 'int', ())
                        e = inst(m.args[1], h, (i,))
                        return I.fresh(tm.bind('dictmap', (m.args[0],), i, (e.args[0], e.args[1])))
                    if m.op == 'perm' and m.args[0].op == 'map' and m.args[0].args[1].op == 'tuple':
                        m = m.args[0]
                        h = tm.binder_h(m)
                        i = tm.tmpsym('i', 'int', ())
                        e = inst(m.args[1], h, (i,))
                        return I.fresh(tm.bind('dictmap', (m.args[0],), i, (e.args[0], e.args[1])))
                    raise Unsupported('dict of symbolic')
                for p in s:
                    kk, vv = self.unpack(I, p, 2)
                    kt = I.read(kk)
                    d = [x for x in d if x[0] is not kt] + [(kt, vv)]
        for kk, vv in k.items():
            d = [x for x in d if x[0] is not const(kk)] + [(const(kk), vv)]
        return I.new(Cell('dict', tuple(d)))

    def b_str(self, I, a, k):
        if not a:
            return Val(const(''))
        if isinstance(a[0], Ref) and I.cell(a[0]).kind == 'inst':
            own, f = I.cell(a[0]).data[0].lookup('__str__')
            own, f = (own, f) if f is not None else I.cell(a[0]).data[0].lookup('__repr__')
            if f is not None:
                return I.call_fn(f, [a[0]], {})
        return Val(self.fmt(I, a[0]))

    def b_repr(self, I, a, k):
        return Val(self.fmt(I, a[0], 'r'))

    def b_int(self, I, a, k):
        t = I.read(a[0]) if a else ZERO
        return Val(self.np.to_int(I, t))

    def b_float(self, I, a, k):
        t = I.read(a[0]) if a else ZERO
        return Val(self.np.to_float(I, t))

    def b_bool(self, I, a, k):
        return Val(I.truth(a[0])) if a else Val(FALSE)

    def b_abs(self, I, a, k):
        return self.np.ext_call(I, 'numpy.abs', a, k)

    def b_pow(self, I, a, k):
        return self.binop(I, ast.Pow(), a[0], a[1])

    def b_round(self, I, a, k):
        t = I.read(a[0])
        if is_num(t) and len(a) == 1:
            return Val(const(round(cval(t))))
        return I.fresh(T('call', 'numpy.round', tuple([('a', t)] + ([('decimals', I.read(a[1]))] if len(a) > 1 else []))))

    def b_callable(self, I, a, k):
        v = a[0]
        if isinstance(v, (Fn, Ext, ClsV, Bound, Meth, Part)):
            return Val(TRUE)
        if isinstance(v, Choice):
            return Val(ite(v.c, I.read(self.b_callable(I, [v.a], {})), I.read(self.b_callable(I, [v.b], {}))))
        t = I.read(v)
        if t.op == 'sym':
            if syminfo(t).get('kind') == 'fn' or syminfo(t).get('callable'):
                return Val(TRUE)
            if syminfo(t).get('kind') in ('any', None) and not syminfo(t).get('notnone'):
                return Val(T('truth', T('ucallable', t)))
        if t.op in ('fn', 'ext', 'cls'):
            return Val(TRUE)
        return Val(FALSE)

    def b_type(self, I, a, k):
        v = a[0]
        if isinstance(v, Ref) and I.cell(v).kind == 'inst':
            return ClsV(I.cell(v).data[0])
        n = self.pytype(I, v)
        if n:
            return Ext({'ndarray': 'numpy.ndarray'}.get(n, 'builtins.' + n))
        return I.fresh(T('typeof', I.read(v)))

    def pytype(self, I, v):
        ck = self.ckind(I, v)
        if ck in ('list', 'tuple', 'dict', 'set'):
            return ck
        if isinstance(v, (Fn, Bound)):
            return 'function'
        if isinstance(v, (Val, Ref)):
            t = I.read(v)
            k = kind(t)
            if t.op == 'env':
                return 'str'
            if k in ('str', 'int', 'float', 'bool', 'ndarray', 'bytes'):
                return k
            if k == 'none':
                return 'NoneType'
        return None

    def b_isinstance(self, I, a, k):
        v, c = a
        if isinstance(c, Tup):
            return Val(or_(*[I.read(self.b_isinstance(I, [v, x], {})) for x in c.elts]))
        if isinstance(v, Choice):
            return Val(ite(v.c, I.read(self.b_isinstance(I, [v.a, c], k)), I.read(self.b_isinstance(I, [v.b, c], k))))
        if isinstance(c, ClsV):
            if isinstance(v, Ref) and I.cell(v).kind == 'inst':
                return Val(const(c.info in I.cell(v).data[0].mro()))
            t = I.read(v)
            if t.op == 'sym' and kind(t) == 'any':
                return Val(T('isinstance', t, c.info.name))
            return Val(FALSE)
        cq = c.q if isinstance(c, Ext) else None
        if cq is None:
            tc = I.read(c)
            return Val(T('isinstance', I.read(v), show(tc, 4)))
        return Val(self.isinst(I, v, cq))

    def isinst(self, I, v, cq):
        name = cq.split('.')[-1]
        p = self.pytype(I, v)
        if isinstance(v, (Val, Ref)):
            t = I.read(v)
            if t.op == 'ite':
                return ite(t.args[0], self.isinst(I, Val(t.args[1]), cq), self.isinst(I, Val(t.args[2]), cq))
            if t.op == 'sym' and 'types' in syminfo(t):
                return const(name in syminfo(t)['types'])
        if p is not None:
            ok = {'str': {'str', 'Hashable', 'Sequence', 'Iterable', 'Sized', 'Collection'}, 'int': {'int', 'Integral', 'Number', 'Real'},
                  'float': {'float', 'Number', 'Real'}, 'bool': {'bool', 'int', 'Integral', 'Number', 'Real', 'bool_'}, 'ndarray': {'ndarray', 'Iterable', 'Sized', 'Collection'},
                  'list': {'list', 'Sequence', 'Iterable', 'Sized', 'Collection', 'MutableSequence'}, 'tuple': {'tuple', 'Sequence', 'Iterable', 'Sized', 'Collection'},
                  'dict': {'dict', 'Mapping', 'Iterable', 'MutableMapping', 'Sized', 'Collection'}, 'set': {'set', 'Set', 'Iterable'}, 'bytes': {'bytes'},
                  'function': {'Callable', 'FunctionType'}, 'NoneType': {'NoneType'}}[p]
            return const(name in ok or name == 'object')
        if isinstance(v, (Fn, Ext, ClsV, Bound, Part)):
            return const(name in ('Callable', 'object'))
        if isinstance(v, Ref) and I.cell(v).kind == 'inst':
            return const(cq in I.cell(v).data[0].ext_bases() or name == 'object')
        t = I.read(v)
        if kind(t) == 'num':
            # a numpy scalar: float64 is a float, integers are not ints
            if name in ('ndarray', 'str', 'list', 'tuple', 'dict'):
                return FALSE
            if name in ('Number', 'generic', 'floating', 'float', 'float64', 'Real', 'number'):
                return TRUE
            if name in ('int',):
                return FALSE
        return T('isinstance', t, name)

    def b_issubclass(self, I, a, k):
        return Val(tm.tmpsym('issub', 'bool'))

    def b_hasattr(self, I, a, k):
        v = a[0]
        n = I.read(a[1])
        if isinstance(v, Choice):
            return Val(ite(v.c, I.read(self.b_hasattr(I, [v.a, a[1]], k)), I.read(self.b_hasattr(I, [v.b, a[1]], k))))
        if not is_strc(n):
            return Val(T('hasattr', I.read(v), n))
        return Val(self.has(I, v, cval(n)))

    def has(self, I, v, n):
        if isinstance(v, Ref) and I.cell(v).kind == 'inst':
            c = I.cell(v)
            x = c.data[1].get(n)
            if isinstance(x, Choice) and (x.a is UNBOUND or x.b is UNBOUND):
                return x.c if x.b is UNBOUND else not_(x.c)
            return const(n in c.data[1] or c.data[0].lookup(n)[1] is not None)
        p = self.pytype(I, v)
        if isinstance(v, (Val, Ref)):
            t = I.read(v)
            if t.op == 'ite':
                return ite(t.args[0], self.has(I, Val(t.args[1]), n), self.has(I, Val(t.args[2]), n))
            if kind(t) == 'num' and dims(t) == ():
                import builtins
                return const(n in ('shape', 'dtype', 'ndim', 'size', 'mean', 'item', 'astype'))
        if p is not None:
            if p == 'ndarray':
                return const(n not in ('keys', 'values', 'items', 'append', 'get', 'pop'))
            if p == 'NoneType':
                return const(hasattr(None, n))
            if p == 'function':
                return const(n in ('__name__', '__call__', '__doc__'))
            import builtins
            return const(hasattr(getattr(builtins, p), n))
        if isinstance(v, (Fn, Ext, ClsV)):
            return const(n in ('__name__', '__call__', '__doc__'))
        return T('hasattr', I.read(v), n)

    def b_getattr(self, I, a, k):
        n = I.read(a[1])
        if not is_strc(n):
            # finite choice over constants
            if n.op == 'ite':
                return I.branch(n.args[0], lambda: self.b_getattr(I, [a[0], Val(n.args[1])] + list(a[2:]), k),
                                lambda: self.b_getattr(I, [a[0], Val(n.args[2])] + list(a[2:]), k))
            raise Unsupported('getattr symbolic')
        if len(a) > 2:
            h = self.has(I, a[0], cval(n))
            if isinstance(a[0], Ext):
                h = TRUE
            return I.branch(h, lambda: I.getattr(a[0], cval(n)), lambda: a[2])
        return I.getattr(a[0], cval(n))

    def b_setattr(self, I, a, k):
        n = I.read(a[1])
        if not is_strc(n):
            raise Unsupported('setattr symbolic')
        I.setattr(a[0], cval(n), a[2])
        return VNONE

    def b_delattr(self, I, a, k):
        n = cval(I.read(a[1]))
        c = I.cell(a[0])
        d = dict(c.data[1])
        d.pop(n, None)
        I.S.heap[a[0].loc] = c.with_data((c.data[0], d))
        return VNONE

    def b_print(self, I, a, k):
        return VNONE

    def b_sorted(self, I, a, k):
        s = self.sort_vals(I, a[0], k)
        if isinstance(s, list):
            return I.new(Cell('list', tuple(s)))
        return I.fresh(s)

    def b_reversed(self, I, a, k):
        s = self.iterate(I, a[0])
        if isinstance(s, list):
            return I.new(Cell('list', tuple(s[::-1])))
        n, elem, un = s
        i = tm.tmpsym('i', 'int', ())
        return I.fresh(lam_map(n, i, I.read(elem(sub(sub(n, ONE), i)))))

    def b_map(self, I, a, k):
        return self.map_values(I, lambda *xs: I.call(a[0], list(xs), {}), a[1:])

    def b_filter(self, I, a, k):
        s = self.as_map(I, a[1])

        def test(x):
            if isinstance(a[0], Val) and a[0].t is NONE:
                return I.truth(x)
            return I.truth(I.call(a[0], [x], {}))
        ref = I.new(Cell('list', ()))
        if s[0] == 'list':
            for x in s[1]:
                c = test(x)
                I.do_if(c, lambda x=x: (self.list_append(I, ref, x), True)[1], lambda: True, Flow())
            return ref
        slot = {}

        def body(f):
            x = slot['v']
            return I.do_if(test(x), lambda: (self.list_append(I, ref, x), True)[1], lambda: True, f)
        I.symloop(s[1], s[2], s[3], lambda v: slot.__setitem__('v', v), body, Flow(), I.newframe({}))
        return ref

    def b_iter(self, I, a, k):
        return a[0]

    def b_next(self, I, a, k):
        s = self.iterate(I, a[0])
        if isinstance(s, list):
            if s:
                return s[0]
            if len(a) > 1:
                return a[1]
            I.raise_leaf('StopIteration')
        if s[0] == 'choice':
            raise Unsupported('next of choice')
        t = I.read(a[0])
        if t.op == 'fmap' or t.op == 'cat':
            return I.fresh(T('firstof', t, I.read(a[1]) if len(a) > 1 else NONE))
        return s[1](ZERO)

    def b_sum(self, I, a, k):
        s = self.as_map(I, a[0])
        start = I.read(a[1]) if len(a) > 1 else I.read(k['start']) if 'start' in k else ZERO
        if s[0] == 'list':
            r = start
            for x in s[1]:
                t = I.read(x)
                r = self.arith(I, 'Add', r, t) if kind(t) != 'bool' else add(r, t)
            return I.fresh(r)
        n, elem, un = s[1:]
        i = tm.tmpsym('i', 'int', ())
        t = I.read(a[0])
        if t.op in ('fmap', 'flatmap'):
            return I.fresh(add(start, self.np.sum_fmap(t)))
        return I.fresh(add(start, bigsum(n, I.read(elem(i)), i)))

    def _quant(self, I, a, isany):
        s = self.as_map(I, a[0])
        if s[0] == 'list':
            return Val((or_ if isany else and_)(*[I.truth(x) for x in s[1]]))
        n, elem, un = s[1:]
        i = tm.tmpsym('i', 'int', ())
        b = I.truth(elem(i))
        if is_const(b):
            return Val(b)
        m = lam_map(n, i, b)
        if m.op == 'list':
            return Val((or_ if isany else and_)(*m.args))
        return Val(T('truth', T('anyall', 'any' if isany else 'all', m)))

    def b_any(self, I, a, k):
        return self._quant(I, a, True)

    def b_all(self, I, a, k):
        return self._quant(I, a, False)

    def _minmax(self, I, a, k, ismax):
        if len(a) == 1:
            t = I.read(a[0])
            if kind(t) == 'ndarray':
                return I.fresh(reduce_('numpy.max' if ismax else 'numpy.min', t, NONE))
            s = self.as_map(I, a[0])
            vs = s[1] if s[0] == 'list' else None
            if vs is None:
                return I.fresh(T('call', 'max' if ismax else 'min', (('a', I.read(a[0])),)))
        else:
            vs = a
        if 'key' in k:
            raise Unsupported('min key')
        if not vs:
            if 'default' in k:
                return k['default']
            I.raise_leaf('ValueError')
        r = I.read(vs[0])
        for x in vs[1:]:
            r = (max2 if ismax else min2)(r, I.read(x))
        return I.fresh(r)

    def b_min(self, I, a, k):
        return self._minmax(I, a, k, False)

    def b_max(self, I, a, k):
        return self._minmax(I, a, k, True)

    def b_open(self, I, a, k):
        return self.sys.open(I, a, k)

    def b_id(self, I, a, k):
        return Val(T('call', 'id', (('a', I.read(a[0])),)))

    def b_hash(self, I, a, k):
        return Val(T('call', 'hash', (('a', I.read(a[0])),)))

    def b_slice(self, I, a, k):
        ts = [I.read(x) for x in a]
        if len(ts) == 1:
            ts = [NONE, ts[0], NONE]
        while len(ts) < 3:
            ts.append(NONE)
        return Val(T('slice', *ts))

    def b_object(self, I, a, k):
        return Val(tm.tmpsym('object', 'obj'))

    def b_format(self, I, a, k):
        return Val(self.fmt(I, a[0], -1, I.read(a[1]) if len(a) > 1 else None))

    def b_divmod(self, I, a, k):
        return Tup([self.binop(I, ast.FloorDiv(), a[0], a[1]), self.binop(I, ast.Mod(), a[0], a[1])])

    def b_super(self, I, a, k):
        if len(a) == 2 and isinstance(a[0], ClsV):
            return Sup(a[0].info, a[1])
        raise Unsupported('super')
