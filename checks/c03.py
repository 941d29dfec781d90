"""C03: a changed configuration never returns a stale saved result"""
from checks.common import *

RULE = ('With saving enabled, every metric is interpreted abstractly after other metrics were saved under another configuration and the configuration was changed by each public setter (also twice, also with saving disabled and '
        'enabled in between); the result term must equal that of a new verifier built with the new configuration.')
ASSUMPTIONS = ['start_from_scratch is left on']
NB2 = isym('bins2')
MEDIAN = Ext('numpy.median')

# (setter, arguments, the constructor settings it stands for, constructor settings to start from)
SETTERS = {
    'Verify': [('set_avg_axis', [(1,)], dict(avg_axis=(1,)), dict(avg_axis=(0,))), ('set_avg_axis', [0], dict(avg_axis=(0,)), {}), ('set_avg_axis', [None], dict(avg_axis=None), dict(avg_axis=(0,))),
               ('set_boot_samples', [N], dict(boot_samples=N), {}), ('set_boot_samples', [isym('N2')], dict(boot_samples=isym('N2')), dict(boot_samples=N)), ('disable_boot', [], dict(boot_samples=None), dict(boot_samples=N))],
    'VerifyEnsemble': [('set_ensemble_axis', [0], dict(ensemble_axis=0), dict(ensemble_axis=-1)), ('set_ensemble_axis', [-1], dict(ensemble_axis=-1), dict(ensemble_axis=0)),
                       ('set_collapse_func', [MEDIAN], dict(ensemble_collapse_func=MEDIAN), {})],
    'VerifyProb': [('set_move_sampled_ens_axis', [0], dict(move_sampled_ens_axis=0), {}), ('set_ensemble_members', [KM], dict(n_sample_members=KM), {}),
                   ('set_ensemble_members', [isym('K2')], dict(n_sample_members=isym('K2')), dict(n_sample_members=KM)), ('set_member_clip', [fsym('clip')], dict(clip_member_to_zero=fsym('clip')), {}),
                   ('set_member_clip', [None], dict(clip_member_to_zero=None), dict(clip_member_to_zero=fsym('clip'))),
                   ('set_truncation', [True], dict(truncated=True), {}), ('set_truncation', [False], dict(truncated=False), dict(truncated=True))],
    'VerifyProbGammaHurdle': [('set_bins', [NB2], dict(n_approx_bins=NB2), {}), ('set_integration_range', [fsym('lo'), fsym('hi')], dict(integration_range=(fsym('lo'), fsym('hi'))), {}),
                              ('set_integration_range', [fsym('lo'), fsym('hi')], dict(integration_range=(fsym('lo'), fsym('hi'))), dict(integration_range=(fsym('lo2'), fsym('hi2'))))],
}


def setters(cls):
    for m, a, new, old in SETTERS['Verify']:
        yield m, a, new, old
    if cls in PROB:
        for m, a, new, old in SETTERS['VerifyProb']:
            if cls == 'VerifyProbGammaHurdle' and m in ('set_truncation', 'set_ensemble_members', 'set_member_clip', 'set_move_sampled_ens_axis'):
                continue
            yield m, a, new, old
    for m, a, new, old in SETTERS.get(cls, []):
        yield m, a, new, old


def base(cls, members):
    d = {}
    if cls in PROB[:2] and members:
        d = dict(n_sample_members=KM)
    return d


def build(C, cls, rank, kw, square, config=None):
    s = Sc(C, cls, rank, config=config, **kw)
    if square and cls == 'VerifyEnsemble':          # members may be along either axis
        n = dim('n')
        s.f = array(s.I, 'f', (n,) * (rank + 1))
        s.o = array(s.I, 'o', (n,) * rank)
    return s


def calls(s, ms):
    for m, kw in ms:
        r = s.meth(m, **kw)
    return r


def stale(C, cls, rank, old, steps, new, before, m, kw, square):
    where = anchor(C, cls, m)
    what = '%s.%s after %s' % (cls, mtag(m, kw), ', '.join('%s(%s)' % (q, ', '.join(map(show_arg, a))) for q, a in steps))
    fresh = build(C, cls, rank, new, square).do(lambda s: calls(s, [(m, kw)]))
    s = build(C, cls, rank, dict(old, working_directory=WD), square, EMPTY)

    def go(s):
        calls(s, before)
        for q, a in steps:
            s.meth(q, *a)
        return s.meth(m, **kw)
    r = s.do(go)
    if not fresh.ok:
        if r.ok and not all(l.exc in (None, 'Unsupported') for l in fresh.leaves):
            raise Violated('%s returns a value where a new verifier refuses' % what, where=where)
        return 'refused like a new verifier'
    got = value(r, what)
    if classify(got, fresh.term) is not None:
        # the value under the old configuration, which the new one does not have
        kept = build(C, cls, rank, old, square).do(lambda s: calls(s, [(m, kw)]))
        if kept.ok and classify(got, kept.term) is None:
            raise Violated('%s still returns the value of the old configuration' % what, where=where)
    return require_equal(got, fresh.term, '%s, which %s saved before, differs from a new verifier' % (what, ', '.join(mtag(*b) for b in before)), where=where)


def run(C):
    ranks = (2,) if C.tier == 'quick' else (2, 3)
    for cls in CLASSES:
        for members in (False, True) if cls in PROB[:2] else (False,):
            cat = list(catalog(cls, members))
            for rank in ranks:
                for q, a, new, old in setters(cls):
                    if not members and q in ('set_move_sampled_ens_axis', 'set_member_clip') or not members and 'n_sample_members' in old:
                        continue
                    sq = q == 'set_ensemble_axis'
                    b = base(cls, members)
                    o = dict(b, **old)
                    if q == 'set_ensemble_members' and 'n_sample_members' not in old:
                        o.pop('n_sample_members', None)
                    n = dict(o, **new)
                    ok = lambda x, c: not (x[0] == 'crps' and cls == 'VerifyProbGamma' and c.get('truncated')) and (x[0] not in ('prob_to_ens', 'spread') or cls == 'VerifyEnsemble' or 'n_sample_members' in c)
                    ct = '%s(%s).%s(%s) rank=%d' % (cls, ', '.join('%s=%s' % (k, show_arg(x)) for k, x in sorted(o.items())), q, ', '.join(map(show_arg, a)), rank)
                    for x in cat:
                        before = [y for y in cat if ok(y, o)]
                        if not ok(x, n):
                            continue
                        C.ob('%s %s' % (ct, mtag(*x)), stale, C, cls, rank, o, [(q, a)], n, before, x[0], x[1], sq)
                        C.ob('%s %s saving paused' % (ct, mtag(*x)), stale, C, cls, rank, o, [('disable_saving', []), (q, a), ('enable_saving', [WD])], n, before, x[0], x[1], sq)
                        if C.tier != 'quick':
                            for y in before:
                                C.ob('%s %s after %s' % (ct, mtag(*x), mtag(*y)), stale, C, cls, rank, o, [(q, a)], n, [y], x[0], x[1], sq)
                            for q2, a2, new2, old2 in setters(cls):
                                if sq or q2 == 'set_ensemble_axis' or q2 == q or not members and (q2 in ('set_move_sampled_ens_axis', 'set_member_clip') or 'n_sample_members' in old2):
                                    continue
                                if not ok(x, dict(n, **new2)):
                                    continue
                                C.ob('%s.%s(%s) %s' % (ct, q2, ', '.join(map(show_arg, a2)), mtag(*x)), stale, C, cls, rank, o, [(q, a), (q2, a2)], dict(n, **new2), before, x[0], x[1], sq)
