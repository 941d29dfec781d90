"""C06: inputs are never modified, results are independent of them"""
from checks.common import *

RULE = ('Alias and mutation analysis on the abstract heap: every in-place write is traced through views to the buffers it can reach. Constructors, setters and metrics may not write to a buffer given by the caller or stored in the verifier, '
        'nor change the entries of a container given by the caller; a returned array may not share a buffer with anything that existed before the call or that the verifier can still reach.')
ASSUMPTIONS = ['views follow NumPy: basic indexing, transposition, reshape, ravel, broadcast and asarray share the buffer, arithmetic and fancy indexing do not', 'user-given collapse functions do not modify their argument']


def reach(I, v, acc):
    """locations reachable from a value, with the buffers they are views of"""
    st = [v]
    while st:
        v = st.pop()
        if isinstance(v, Tup):
            st.extend(v.elts)
        elif isinstance(v, Choice):
            st.extend((v.a, v.b))
        elif isinstance(v, Part):
            st.extend(v.args)
            st.extend(v.kwargs.values())
        elif isinstance(v, Bound):
            st.extend((v.recv, v.fn))
        elif isinstance(v, Meth):
            st.append(v.recv)
        elif isinstance(v, Null) and v.inner is not None:
            st.append(v.inner)
        elif isinstance(v, Ref) and v.loc not in acc:
            for l in I.roots(v.loc):
                acc.setdefault(l, v.loc)
            acc[v.loc] = v.loc
            c = I.S.heap[v.loc]
            if c.kind in ('list', 'set'):
                st.extend(c.data)
            elif c.kind == 'dict':
                st.extend(x for _, x in c.data)
            elif c.kind == 'inst':
                st.extend(c.data[1].values() if isinstance(c.data[1], dict) else [x for _, x in c.data[1]])
    return acc


def attrs(I, obj):
    d = I.S.heap[obj.loc].data[1]
    return d if isinstance(d, dict) else dict(d)


def arrays(I, v):
    return {l: I.content(l) for l in reach(I, v, {}) if I.S.heap[l].kind in ('arr', 'view')}


def name_of(I, s, loc):
    for l in I.roots(loc):
        if I.S.heap[l].user:
            return 'the caller\'s array %s' % I.S.heap[l].user
    for k, v in attrs(I, s.obj).items():
        if loc in reach(I, v, {}):
            return 'attribute %s of the verifier' % k
    return 'an array that existed before the call'


def unmodified(C, s, r, what, where):
    """no caller-owned buffer or container is written, on any exit"""
    for log in ([r.S.log] if r.ok else []) + [l.state.log for l in r.leaves]:
        for e in log:
            if e.kind == 'mutate':
                raise Violated('%s modifies the caller\'s array %s in place (%s)' % (what, e.data[0], e.data[1]), where='%s:%s' % e.site)
    states = ([r.S] if r.ok else []) + [l.state for l in r.leaves]
    if not states:
        raise Undecided('no exit')
    for S in states:
        for v in (s.f, s.o):
            c0, c1 = s.before.heap[v.loc], S.heap[v.loc]
            if c0.kind == 'dict' and (len(c0.data) != len(c1.data) or any(a[0] is not b[0] or a[1] is not b[1] and getattr(a[1], 'loc', 0) != getattr(b[1], 'loc', 1) for a, b in zip(c0.data, c1.data))):
                raise Violated('%s changes the entries of the caller\'s parameter dictionary' % what, where=where)
            if c0.kind == 'arr' and c0.data is not c1.data:
                raise Violated('%s modifies the caller\'s array %s in place' % (what, c0.user), where=where)


def obj(C, cls, rank, v, axis, **kw):
    c = Case(C, cls, rank, axis, **dict(v, **kw))
    c.s.before = c.s.I.S.clone()
    return c


def metric(C, cls, rank, v, axis, m, kw, extra):
    where = anchor(C, cls, m)
    what = '%s.%s' % (cls, mtag(m, kw))
    c = obj(C, cls, rank, v, axis, **extra)
    s, I = c.s, c.s.I
    n = {}

    def go(s):
        n['top'] = I.nloc
        n['arr'] = arrays(I, s.obj)
        n['att'] = {k: x for k, x in attrs(I, s.obj).items()}
        n['locs'] = set(I.S.heap)
        return s.meth(m, **kw)
    r = s.do(go)
    unmodified(C, s, r, what, where)
    value(r, what)
    I = r.I
    for l, t in n['arr'].items():
        now = I.content(l)
        if now is not t and classify(now, t) is not None:
            raise Violated('%s modifies %s in place' % (what, name_of(I, s, l)), where=where)
    after = attrs(I, s.obj)
    for k, x in n['att'].items():
        if k in after and isinstance(x, Ref) and I.S.heap[x.loc].kind in ('arr', 'view') and after[k] is not x:
            y = after[k]
            if not isinstance(y, Ref) or y.loc != x.loc:
                if classify(I.read(y), n['arr'][x.loc]) is not None:
                    raise Violated('%s replaces the array stored as %s by another one' % (what, k), where=where)
    out = reach(I, r.value, {})
    held = reach(I, s.obj, {})
    for v_ in (s.f, s.o):
        reach(I, v_, held)
    for l in out:
        k = I.S.heap[l].kind
        if k in ('arr', 'view') and (l in held or l in n['locs']):
            raise Violated('the result of %s shares its buffer with %s' % (what, name_of(I, s, l)), where=where)
        if k in ('list', 'dict', 'set') and l in held:
            raise Violated('the result of %s is a container that the verifier keeps (%s)' % (what, name_of(I, s, l)), where=where)
    return '%d buffers returned, %d kept' % (len(out), len(held))


def setter(C, cls, rank, v, name, a):
    where = anchor(C, cls, name or '__init__')
    c = obj(C, cls, rank, v, (0,))
    s = c.s
    if name is None:
        r = s.do(lambda s: Val(NONE))
        unmodified(C, s, r, 'the constructor of ' + cls, anchor(C, cls, '__init__'))
        return 'constructor'

    def go(s):
        s.meth(name, *a)
        return Val(NONE)
    r = s.do(go)
    unmodified(C, s, r, '%s.%s' % (cls, name), where)
    return 'setter'


def run(C):
    from checks.c04 import setters
    quick = C.tier == 'quick'
    ranks = ((1, None), (2, (0,)), (2, None)) if quick else ((1, None), (1, ()), (2, (0,)), (2, None), (2, (0, 1)), (3, (0, 2)), (3, None))
    view = lambda I: C.W.import_name(I, 'spec.metrics', 'first_member')
    more = [('VerifyEnsemble', dict(ensemble_collapse_func=view)), ('VerifyEnsemble', dict(ens=0, ensemble_collapse_func=view)), ('VerifyEnsemble', dict(env_=dict(use_tensorflow_math='True')))]
    for cls, v in list(variants(C.tier)) + more:
        for rank, axis in ranks:
            for m, kw in catalog(cls, 'members' in v):
                if not can(cls, v, m):
                    continue
                for extra in ({}, dict(working_directory=WD, config=EMPTY)):
                    if extra and quick and (v or rank == 1):
                        continue
                    C.ob('%s of %s rank=%d axis=%s%s' % (mtag(m, kw), vtag(cls, v), rank, axis, ' saving' if extra else ''), metric, C, cls, rank, v, axis, m, kw, extra)
            C.ob('constructor of %s rank=%d axis=%s' % (vtag(cls, v), rank, axis), setter, C, cls, rank, v, None, [])
    for cls in CLASSES:
        for rank in (1, 2):
            for name, a in list(setters(cls)) + [('enable_saving', [WD])]:
                C.ob('%s.%s rank=%d' % (cls, name, rank), setter, C, cls, rank, {}, name, a)
