"""C02: saving never changes a result"""
import re
from checks.common import *

RULE = ('Every metric is interpreted abstractly with and without a working directory: on first use (nothing saved), again on the same object (loaded), after other metrics, and on a new object that keeps the saved files '
        '(start_from_scratch=False). All result terms must be equal, and what is saved for an averaged metric must be its per-location value.')
ASSUMPTIONS = ['pickle restores what was saved', 'the working directory is used by one process']
ELEM = ('error', 'sq_error', 'ab_error', 'spread', 'brier', 'crps')


def same_result(got, want, what, where):
    return require_equal(got, want, what, where=where)


def make(C, cls, rank, ax, v, config=None, **ctor):
    return Case(C, cls, rank, ax, config=config, **dict(v, **ctor))


def seq(C, c, calls, which):
    """result of the last of a sequence of calls"""
    def go(s):
        for m, kw in calls:
            r = s.meth(m, **kw)
        return r
    return c.s.do(go)


def first(C, cls, rank, ax, v, m, kw):
    w = anchor(C, cls, m)
    plain = value(seq(C, make(C, cls, rank, ax, v), [(m, kw)], 0), '%s.%s' % (cls, mtag(m, kw)))
    c = make(C, cls, rank, ax, v, EMPTY, working_directory=WD)
    r = seq(C, c, [(m, kw)], 0)
    t = value(r, '%s.%s with saving' % (cls, mtag(m, kw)))
    a = same_result(t, plain, '%s.%s differs between saving and not saving (first call)' % (cls, mtag(m, kw)), w)
    return a


def again(C, cls, rank, ax, v, m, kw, prior):
    w = anchor(C, cls, m)
    plain = value(seq(C, make(C, cls, rank, ax, v), [(m, kw)], 0), '%s.%s' % (cls, mtag(m, kw)))
    c = make(C, cls, rank, ax, v, EMPTY, working_directory=WD)
    t = value(seq(C, c, prior + [(m, kw)], 0), '%s.%s with saving' % (cls, mtag(m, kw)))
    return same_result(t, plain, '%s.%s with saving, after %s, differs from the result without saving' % (cls, mtag(m, kw), ', '.join(mtag(*b) for b in prior)), w)


def resumed(C, cls, rank, ax, v, m, kw, prior):
    w = anchor(C, cls, m)
    plain = value(seq(C, make(C, cls, rank, ax, v), [(m, kw)], 0), '%s.%s' % (cls, mtag(m, kw)))
    c = make(C, cls, rank, ax, v, EMPTY, working_directory=WD)
    r = seq(C, c, prior + [(m, kw)], 0)
    value(r, '%s.%s with saving' % (cls, mtag(m, kw)))
    files = saved(r.S)
    known = set(files)

    def is_dir(p):
        return not any(x.op == 'const' and str(x.args[-1]).endswith('.pkl') for x in tm.walk(p))
    c2 = make(C, cls, rank, ax, v, dict(exists=lambda I, p: TRUE if p in known or is_dir(p) else FALSE, load=lambda I, p: files.get(p)), working_directory=WD, start_from_scratch=False)
    t = value(seq(C, c2, [(m, kw)], 0), '%s.%s resumed from saved files' % (cls, mtag(m, kw)))
    return same_result(t, plain, '%s.%s resumed from saved files differs from the result without saving' % (cls, mtag(m, kw)), w)


def content(C, cls, rank, ax, v, m, kw):
    c = make(C, cls, rank, ax, v, EMPTY, working_directory=WD)
    r = seq(C, c, [(m, kw)], 0)
    value(r, '%s.%s with saving' % (cls, mtag(m, kw)))
    want = c.element(m, **kw)
    files = saved(r.S)
    if not files:
        raise Undecided('%s saves nothing' % mtag(m, kw))
    agg = c.agg(want)
    for p, t in files.items():
        if classify(t, want) is None:
            return 'per-location value saved as %s' % show(p, 6)
    for p, t in files.items():
        if classify(t, agg) is None:
            raise Violated('%s.%s saves the value after averaging as %s' % (cls, mtag(m, kw), show(p, 6)), where=anchor(C, cls, m))
    raise Undecided('none of the saved files has the per-location value')


def before(C, cls, rank, ax, v, m, kw):
    """what is saved does not depend on the bootstrap setting"""
    def files(boot):
        c = make(C, cls, rank, ax, dict(v, boot=boot), EMPTY, working_directory=WD)
        r = seq(C, c, [(m, kw)], 0)
        value(r, '%s.%s with saving' % (cls, mtag(m, kw)))
        return saved(r.S)
    a, b = files(None), files(N)
    w = anchor(C, cls, m)

    def label(p):
        return re.sub('@i[0-9]+', '@i', show(p, 12))
    if {label(p) for p in a} != {label(p) for p in b}:
        raise Violated('%s.%s saves other files with bootstrap enabled (%s) than without (%s)' % (cls, mtag(m, kw), ', '.join(sorted(show(p, 6) for p in b)) or 'none', ', '.join(sorted(show(p, 6) for p in a)) or 'none'), where=w)
    for p in set(a) & set(b):
        drawn = {x.args[0] for x in tm.walk(b[p]) if x.op == 'draw'} - {x.args[0] for x in tm.walk(a[p]) if x.op == 'draw'}
        if 'randint' in drawn:
            raise Violated('%s.%s saves a value that is already resampled as %s' % (cls, mtag(m, kw), show(p, 6)), where=w)
        require_equal(b[p], a[p], '%s.%s saves a value that depends on the bootstrap setting as %s' % (cls, mtag(m, kw), show(p, 6)), where=w)
    return '%d saved values' % len(a)


def run(C):
    ranks = ((2, (0,)),) if C.tier == 'quick' else ((1, None), (2, (0,)), (2, None), (3, (0, 2)))
    for cls, v in variants(C.tier):
        cat = [x for x in catalog(cls, 'members' in v) if can(cls, v, x[0])]
        for rank, ax in ranks:
            tag = '%s rank=%d axis=%s' % (vtag(cls, v), rank, ax)
            for m, kw in cat:
                C.ob('%s first %s' % (mtag(m, kw), tag), first, C, cls, rank, ax, v, m, kw)
                C.ob('%s repeated %s' % (mtag(m, kw), tag), again, C, cls, rank, ax, v, m, kw, [(m, kw)])
                C.ob('%s resumed %s' % (mtag(m, kw), tag), resumed, C, cls, rank, ax, v, m, kw, [])
                C.ob('%s after all others %s' % (mtag(m, kw), tag), again, C, cls, rank, ax, v, m, kw, [x for x in cat if x != (m, kw)])
                if v.get('boot') is None:
                    C.ob('%s saved before bootstrap %s' % (mtag(m, kw), tag), before, C, cls, rank, ax, v, m, kw)
                if m in ELEM and v.get('boot') is None and 'clip_member_to_zero' not in v and 'integrate_with_less_memory' not in v.get('env_', {}):
                    C.ob('%s saved content %s' % (mtag(m, kw), tag), content, C, cls, rank, ax, v, m, kw)
            if C.tier != 'quick':
                for m, kw in cat:
                    for m2, kw2 in cat:
                        C.ob('%s after %s %s' % (mtag(m, kw), mtag(m2, kw2), tag), again, C, cls, rank, ax, v, m, kw, [(m2, kw2)])
