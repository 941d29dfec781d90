"""C14: forecasts and observations are paired at the same location"""
from checks.common import *
from vsa.drive import arrsym
from vsa.dep import Dep, fresh, same_location

RULE = ('Every metric is interpreted abstractly without averaging and one element of its result term, at a symbolic location, is traced back to the elements of the inputs it is computed from: all have to sit at that '
        'location, whatever the shape (also when all extents are equal), member axis, worker and splitting settings. Of the aggregating metrics, the elements combined inside every reduction have to sit at one common location.')
ASSUMPTIONS = ['library calls on whole arrays are elementwise, reducing or pairing as documented']
LOCAL = ('error', 'sq_error', 'ab_error', 'spread', 'crps', 'brier', 'cdf', 'sharpness', 'variance', 'f_determ', 'prob_to_ens', 'rank_hist', 'pit')
R = (fsym('lo'), fsym('hi'))


def forms(tier):
    for cls, v in list(variants(tier)) + [('VerifyEnsemble', dict(env_=dict(tqdm_workers='4'))), ('VerifyEnsemble', dict(env_=dict(tqdm_workers='4', ens_to_prob_method='kde'))),
                                          ('VerifyEnsemble', dict(ens=0, env_=dict(tqdm_workers='4', ens_to_prob_method='kde')))]:
        if 'boot' in v:
            continue
        if cls == 'VerifyProbGammaHurdle' and 'integration_range' not in v:
            v = dict(v, integration_range=R)
        yield cls, v


def case(C, cls, v, rank, axis, square):
    c = Case(C, cls, rank, axis, **v)
    s = c.s
    sh = (dim('n'),) * rank if square else shape(rank)
    ins = []
    if square:
        I = s.I
        if cls == 'VerifyEnsemble':
            p = c.ens % (rank + 1)
            fs = sh[:p] + (dim('E'),) + sh[p:]
            s.f = array(I, 'f', fs)
        elif cls == 'VerifyDeterm':
            s.f = array(I, 'f', sh)
        else:
            s.parts = {k: array(I, k, sh) for k in KEYS[cls]}
            s.f = lift(I, s.parts)
        s.o = array(I, 'o', sh)
    if cls == 'VerifyEnsemble':
        p = c.ens % (rank + 1)
        ins.append((arrsym('f', sh[:p] + (dim('E'),) + sh[p:]), p))
    elif cls == 'VerifyDeterm':
        ins.append((arrsym('f', sh), None))
    else:
        ins += [(arrsym(k, sh), None) for k in KEYS[cls]]
    ins.append((arrsym('o', sh), None))
    return c, ins, sh


def name(n):
    return n.split('/')[0]


def loc(i):
    return '[%s]' % ', '.join(show(x, 4) for x in i)


def local(C, cls, v, rank, square, m, kw):
    where = anchor(C, cls, m)
    what = '%s.%s' % (vtag(cls, v), mtag(m, kw))
    c, ins, sh = case(C, cls, v, rank, (), square)
    r = c.s.run(m, **kw)
    t = value(r, what)
    d = dims(t)
    extra = None
    if m == 'prob_to_ens':
        extra = c.ens % (rank + 1)
    if d is None:
        raise Undecided('shape of the result of %s' % what)
    if len(d) != rank + (extra is not None):
        raise Undecided('result of %s has rank %d' % (what, len(d)))
    own = tuple(fresh('#i') for _ in range(rank))
    idx = own if extra is None else own[:extra] + (fresh(),) + own[extra:]
    D = Dep(ins)
    got = D.access(t, idx)
    bad = []
    for n, l in got:
        w = same_location(l, own, sh)
        if w is None:
            raise Undecided('whether %s is the location %s' % (loc(l), loc(own)))
        if not w:
            bad.append((name(n), loc(l)))
    bad.sort()
    if bad:
        raise Violated('%s at location %s is computed from %s%s' % (what, loc(own), ' and '.join('%s%s' % b for b in bad[:3]), ' (all extents equal)' if square else ''), where=where,
                       sig='%s %s %s' % (cls, m, bad[0][0]))
    return '%d input elements, all at the location of the result' % len(got)


def pairing(C, cls, v, rank, axis, square, m, kw):
    where = anchor(C, cls, m)
    what = '%s.%s' % (vtag(cls, v), mtag(m, kw))
    c, ins, sh = case(C, cls, v, rank, axis, square)
    r = c.s.run(m, **kw)
    t = value(r, what)
    D = Dep(ins, pairing=True)
    ts = []

    def parts(t):
        if t.op in ('tuple', 'list'):
            for x in t.args:
                parts(x)
        else:
            ts.append(t)
    parts(t)
    for x in ts:
        if dims(x) is None:
            D.flood(x)
        else:
            D.body(x, tuple(fresh('#i') for _ in dims(x)))
    for b, s in D.bodies:
        ls = sorted({l for _, l in s}, key=str)
        ws = [same_location(ls[0], l, sh) for l in ls[1:]]
        if False not in ws and None in ws:
            raise Undecided('whether %s are the same location' % ' and '.join(map(loc, ls)))
        if False in ws:
            raise Violated('%s combines %s in %s%s' % (what, ' with '.join('%s%s' % (name(n), loc(l)) for n, l in sorted(s, key=str)[:4]), show(b, 4)[:120], ' (all extents equal)' if square else ''), where=where,
                           sig='%s %s pair' % (cls, m))
    axis_of = {}
    for b, s in D.bodies:
        for n, l in s:
            for p, i in enumerate(l):
                if i.op in ('sym', 'digit') and axis_of.setdefault(i, (p, n, l))[0] != p:
                    q, n2, l2 = axis_of[i]
                    raise Violated('%s combines %s%s with %s%s%s' % (what, name(n2), loc(l2), name(n), loc(l), ' (all extents equal)' if square else ''), where=where, sig='%s %s row' % (cls, m))
    return '%d combinations, each of one location' % len(D.bodies)


def run(C):
    for cls, v in forms(C.tier):
        cat = list(catalog(cls, 'members' in v))
        for rank in (1, 2, 3):
            for square in (False, True):
                if square and rank == 1:
                    continue
                for m, kw in cat:
                    if not can(cls, v, m):
                        continue
                    tag = '%s %s rank=%d%s' % (vtag(cls, v), mtag(m, kw), rank, ' square' if square else '')
                    if m in LOCAL:
                        C.ob(tag, local, C, cls, v, rank, square, m, kw)
                    elif square or C.tier != 'quick':
                        for ax in {1: ((0,), None), 2: ((0,), (1,), None), 3: ((2,), (1, 2), (0, 2)) if C.tier == 'quick' else ((0,), (1,), (2,), (0, 1), (1, 2), (0, 2), None)}[rank]:
                            C.ob('%s avg=%s' % (tag, ax), pairing, C, cls, v, rank, ax, square, m, kw)
