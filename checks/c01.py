"""C01: saved results are keyed by everything they depend on"""
import re
from checks.common import *

RULE = ('Every metric is interpreted abstractly with saving enabled; for each file it saves, the name term must spell out, exactly and decodably, every argument the saved value depends on; files of the same name saved by different '
        'calls must hold the same value; a metric evaluated after all metrics were saved with other arguments must have its unsaved value. Array arguments that a name cannot spell out exactly must not be saved.')
ASSUMPTIONS = ['numbers print as their shortest exact decimal form (Python numbers)', 'default save names; names given by the user are his own responsibility']
T1, PT1, NB1 = fsym('t1'), fsym('pt1'), isym('b1')
OTHER = {T0: T1, PT: PT1, NB: NB1}
PARAMS = set(OTHER) | set(OTHER.values())
THR = tm.sym('thr', 'ndarray')
NUM = set('0123456789abcdefghijklmnopqrstuvwxyz.+-')
LOSSY = {'trunc', 'floor', 'round', 'ceil', 'abs', 'mod', 'sign', 'int', 'len', 'hash', 'type', 'bool', 'truth', 'isinstance', 'size', 'cmp', 'eq', 'lt', 'le', 'ne'}


class Opaque(Exception):
    pass


def pieces(p):
    """name as a list of literal strings and exact spellings ('num', x); raises Violated for an inexact spelling of a parameter"""
    if is_strc(p):
        return [cval(p)]
    if p.op == 'str':
        return sum((pieces(x) for x in p.args), [])
    if p.op in ('tostr', 'repr'):
        x = p.args[0]
        if len(p.args) > 1 and not exact_spec(p.args[1], x):
            if params(x):
                raise Violated('a file name rounds %s (format %s)' % (show(x, 4), show(p.args[1])))
            raise Opaque(show(p, 4))
        return spell(x)
    if p.op == 'strrep':
        a, b = cval(p.args[1]), cval(p.args[2])
        out = []
        for q in pieces(p.args[0]):
            if isinstance(q, str):
                out.append(q.replace(a, b))
            elif q[0] == 'num' and not any(c in NUM for c in a):
                out.append(q)
            elif q[0] == 'arr' and a == ' ':
                out.append(q)
            elif q[0] == 'free':
                out.append(q)
            else:
                if params(p):
                    raise Violated('a file name replaces %r inside the spelling of %s' % (a, show(q[1], 4)))
                raise Opaque(show(p, 4))
        return out
    if p.op == 'expand':
        return pieces(p.args[0])
    if not params(p):
        return [('free', p)]
    if p.op == 'sym':
        return [('free', p)]
    raise Opaque(show(p, 4))


def exact_spec(s, x):
    s = cval(s) if is_strc(s) else '?'
    if kind(x) == 'int' and s in ('d', '%d', '', '%i'):
        return True
    m = re.fullmatch(r'%?\.(\d+)[gGeE]', s)
    return bool(m) and int(m.group(1)) >= 17 or s in ('', 'r', 's')


def spell(x):
    if x.op == 'sym' and kind(x) in ('int', 'float'):
        return [('num', x)]
    if x.op == 'const':
        return [str(x.args[-1])] if not is_strc(x) else [repr(cval(x))]
    if x.op in ('tuple', 'list'):
        o, c = '()' if x.op == 'tuple' else '[]'
        out = [o]
        for j, y in enumerate(x.args):
            out += ([', '] if j else []) + spell(y)
        if x.op == 'tuple' and len(x.args) == 1:
            out.append(',')
        return out + [c]
    if x.op in ('mcall', 'call') and x.args[0] in ('.tolist', 'tolist', 'ndarray.tolist') or x.op == 'tolist':
        return [('arr', x)]
    if not params(x):
        return [('num' if kind(x) in ('int', 'float', 'num') or dims(x) == () else 'free', x)]
    if kind(x) == 'ndarray':
        raise Violated('a file name abbreviates the array %s' % show(x, 4))
    ops = {y.op for y in tm.walk(x)}
    names = {str(y.args[0]) for y in tm.walk(x) if y.op == 'call'}
    if ops & LOSSY or any(n.split('.')[-1] in LOSSY | {'rint', 'fix', 'around'} for n in names):
        raise Violated('a file name spells out %s, which does not determine the argument' % show(x, 5))
    raise Opaque(show(x, 5))


def params(t):
    return {x for x in tm.walk(t) if x.op == 'sym' and (x in PARAMS or x is THR or str(x.args[0]).startswith('thr'))}


def norm(ps):
    out = []
    for q in ps:
        if isinstance(q, str):
            if not q:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += q
                continue
        out.append(q)
    return out


def under_ite(p):
    """the possible names"""
    for x in tm.walk(p):
        if x.op == 'ite':
            return under_ite(tm.subst(p, {x: x.args[1]})) + under_ite(tm.subst(p, {x: x.args[2]}))
    return [p]


def keyed(p, t, what, where):
    """name p determines every parameter of the saved value t"""
    for q in under_ite(p):
        try:
            ps = norm(pieces(q))
        except Opaque as e:
            raise Undecided('spelling %s' % e)
        except Violated as e:
            raise Violated('%s: %s: %s' % (what, show(p, 8), e.msg), where=where)
        have = set()
        for j, x in enumerate(ps):
            if not isinstance(x, str):
                have |= params(x[1])
                if params(x[1]) and j and not isinstance(ps[j - 1], str) and params(ps[j - 1][1]):
                    raise Violated('%s is saved as %s, where %s and %s run into each other' % (what, show(p, 8), show(ps[j - 1][1], 3), show(x[1], 3)), where=where)
        need = params(t)
        if need - have:
            raise Violated('%s is saved as %s although it depends on %s' % (what, show(p, 8), ', '.join(sorted(show(x) for x in need - have))), where=where)
    return True


def regex(ps):
    """[(characters or None for any, repeated)]"""
    out = []
    for q in ps:
        if isinstance(q, str):
            out += [({c}, False) for c in q]
        elif q[0] == 'num':
            out += [(NUM, False), (NUM, True)]
        else:
            out += [(None, True)]
    return out


def may_meet(a, b):
    """may the two patterns denote the same string"""
    todo, seen = [(0, 0)], set()
    while todo:
        i, j = todo.pop()
        if (i, j) in seen:
            continue
        seen.add((i, j))
        if i == len(a) and j == len(b):
            return True
        if i < len(a) and a[i][1]:
            todo.append((i + 1, j))
        if j < len(b) and b[j][1]:
            todo.append((i, j + 1))
        if i < len(a) and j < len(b) and (a[i][0] is None or b[j][0] is None or a[i][0] & b[j][0]):
            todo.append((i if a[i][1] else i + 1, j if b[j][1] else j + 1))
    return False


def rename(x):
    if isinstance(x, tuple):
        return tuple(rename(y) for y in x)
    return OTHER.get(x, x)


def start(C, cls, rank, v):
    return Case(C, cls, rank, (0,), config=EMPTY, **dict(v, working_directory=WD))


MEMO = {}


def files_of(C, cls, rank, v, m, kw):
    k = (cls, rank, vtag(cls, v), m, tuple(sorted(kw.items())))
    if k not in MEMO:
        MEMO[k] = files_now(C, cls, rank, v, m, kw)
    return MEMO[k]


def files_now(C, cls, rank, v, m, kw):
    r = start(C, cls, rank, v).s.run(m, **kw)
    value(r, '%s.%s' % (cls, mtag(m, kw)))
    return saved(r.S)


def names(C, cls, rank, v, m, kw):
    what = '%s.%s' % (cls, mtag(m, kw))
    fs = files_of(C, cls, rank, v, m, kw)
    for p, t in fs.items():
        keyed(p, t, what, anchor(C, cls, m))
    return 'saved as %s' % ', '.join(sorted(show(p, 8) for p in fs))


def shared(C, cls, rank, v, m, kw, cat):
    """files this call saves against those of every other call"""
    mine = files_of(C, cls, rank, v, m, kw)
    n = 0
    for m2, kw2 in cat:
        theirs = files_of(C, cls, rank, v, m2, kw2)
        for p, t in mine.items():
            for q, u in theirs.items():
                n += 1
                if p is q:
                    if classify(t, u) is not None:
                        if classify(t, u)[0] == 'undecided':
                            raise Undecided('values saved as %s' % show(p, 8))
                        raise Violated('%s and %s save different values under the same name %s' % (mtag(m, kw), mtag(m2, kw2), show(p, 8)), where=anchor(C, cls, m))
                    continue
                for a in under_ite(p):
                    for b in under_ite(q):
                        try:
                            x, y = norm(pieces(a)), norm(pieces(b))
                        except (Opaque, Violated):
                            raise Undecided('spelling of %s' % show(p, 8))
                        if len(x) == len(y) and all((s == z if isinstance(s, str) or isinstance(z, str) else s[0] == z[0]) for s, z in zip(x, y)):
                            # the same pattern with other arguments: decodable, so equal names mean equal arguments
                            r, r2 = {}, {}
                            for s, z in zip(x, y):
                                if not isinstance(s, str) and s[1] is not z[1]:
                                    if z[1].op == 'sym':
                                        r[z[1]] = s[1]
                                    else:
                                        r2[s[1]] = z[1]
                            if all(k.op == 'sym' for k in r2) and classify(tm.subst(t, r2), tm.subst(u, r)) is not None:
                                raise Undecided('%s and %s save other values under the name %s' % (mtag(m, kw), mtag(m2, kw2), show(p, 8)))
                            continue
                        free = [z for z in x + y if not isinstance(z, str) and z[0] == 'free']
                        k = 0
                        while k < min(len(x), len(y)) and x[k] == y[k]:
                            k += 1
                        if may_meet(regex(x[k:]), regex(y[k:])):
                            raise Undecided('names %s and %s' % (show(p, 8), show(q, 8)))
    return '%d pairs of files' % n


def separate(C, cls, rank, v, m, kw, cat, what):
    """evaluated after every metric was saved with other arguments"""
    plain = value(Case(C, cls, rank, (0,), **v).s.run(m, **kw), '%s.%s' % (cls, mtag(m, kw)))
    c = start(C, cls, rank, v)

    def go(s):
        for m2, kw2 in cat:
            s.meth(m2, **kw2)
        return s.meth(m, **kw)
    return require_equal(value(c.s.do(go), m), plain, '%s.%s reads a file saved by another call (%s)' % (cls, mtag(m, kw), what), where=anchor(C, cls, m))


def arrays(C, cls, v, m, key, form, big):
    sh = shape(2)
    thr = {'array': A('thr', sh), 'list': [tm.sym('thr%d' % j, 'float', ()) for j in range(6 if big else 3)], 'nested': (A('thr', sh),), 'row': A('thr', (dim('m'),))}[form]
    c = start(C, cls, 2, v)
    if big and form in ('array', 'row'):
        from vsa.arr import cmp_
        size = tm.mul(sh[0], sh[1]) if form == 'array' else sh[1]
        for k in (3, 5, 6):
            c.s.I.S.facts[cmp_('gt', size, const(k))] = True
    kw = {key: thr}
    if m == 'reliability':
        kw['nbins'] = NB
    what = '%s.%s(%s=%s threshold)' % (cls, m, key, form)
    r = c.s.run(m, **kw)
    n = 0
    files = set(saved(r.S).items()) if r.ok else set()
    for l in r.leaves:
        files |= set(saved(l.state).items())
    for p, t in files:
        if params(t):
            n += 1
            if form == 'nested' or big and form in ('array', 'row'):
                if not any(x[0] == 'arr' for x in safe(p)):
                    raise Violated('%s is saved as %s' % (what, show(p, 8)), where=anchor(C, cls, m))
            keyed(p, t, what, anchor(C, cls, m))
    return '%d files depend on the threshold, all spelled out' % n


def safe(p):
    try:
        return [x for q in under_ite(p) for x in pieces(q) if not isinstance(x, str)]
    except Opaque as e:
        raise Undecided(str(e))


def run(C):
    ranks = (2,) if C.tier == 'quick' else (1, 2, 3)
    for cls, v in variants(C.tier):
        cat = [x for x in catalog(cls, 'members' in v) if can(cls, v, x[0])]
        other = [(m, {k: rename(x) for k, x in kw.items()}) for m, kw in cat]
        for rank in ranks:
            for m, kw in cat:
                tag = '%s of %s rank=%d' % (mtag(m, kw), vtag(cls, v), rank)
                C.ob('name of %s' % tag, names, C, cls, rank, v, m, kw)
                C.ob('files of %s' % tag, shared, C, cls, rank, v, m, kw, cat + [x for x in other if x not in cat])
                C.ob('value of %s' % tag, separate, C, cls, rank, v, m, kw, other + [x for x in cat if x != (m, kw)], 'all metrics with other arguments')
        if v == {} and cls != 'VerifyDeterm':
            for m in ('cdf', 'sharpness', 'brier', 'roc', 'reliability', 'brier_decomp'):
                for key in ('over', 'below'):
                    for form in ('array', 'row', 'nested', 'list'):
                        for big in (True, False):
                            if cls == 'VerifyEnsemble' and form == 'row' or form in ('list', 'nested') and cls != 'VerifyProbGaussian':
                                continue
                            C.ob('%s threshold of %s(%s) of %s%s' % (form, m, key, cls, ' large' if big else ''), arrays, C, cls, v, m, key, form, big)
