"""C21: invalid inputs and settings are refused when given"""
from checks.common import *
from vsa.arr import cmp_
from vsa import terms as tm

RULE = ('Every constructor and setter is interpreted abstractly with each kind of invalid argument (symbolic values of a wrong type, arrays with another number of axes or one different extent, missing parameters) '
        'under different other settings: no path may return normally. With valid arguments no path may fail.')
ASSUMPTIONS = ['bool counts as an integer, as in Python']
F, S_ = fsym('x'), tm.sym('s', 'str')
DICT = {'a': 1}
BAD = {
    'avg_axis': (F, S_, DICT),
    'boot_samples': (F, S_, [3], (isym('B'),)),
    'working_directory': (5, ['a'], 1.5),
    'start_from_scratch': (S_, 1, None, 0),
    'ensemble_axis': (F, S_, (0,), [0]),
    'ensemble_collapse_func': (S_, F, None),
    'move_sampled_ens_axis': (F, S_, None, (0,)),
    'truncated': (S_, 1, None, F, 0),
    'pit_randomize_zero_ranks': (S_, 1, None, F),
    'n_sample_members': (F, S_, [3], (isym('K'),)),
    'clip_member_to_zero': (S_, [0.5], (F,)),
    'n_approx_bins': (F, S_, None, [20]),
    'integration_range': (5, (F,), (F, F, F), [F]),
}
GOOD = {
    'avg_axis': (None, 0, -1, (0,), [0]),
    'boot_samples': (None, isym('B'), 5),
    'working_directory': (None, WD, 'dir', '~/dir'),
    'start_from_scratch': (True, False),
    'ensemble_axis': (None, -1),
    'ensemble_collapse_func': (Ext('numpy.median'), Ext('numpy.mean')),
    'move_sampled_ens_axis': (0, -1, 1),
    'truncated': (False, True),
    'pit_randomize_zero_ranks': (True, False),
    'n_sample_members': (None, isym('K')),
    'clip_member_to_zero': (None, fsym('clip'), 0.5),
    'n_approx_bins': (isym('bins'), 20),
    'integration_range': (None, (fsym('lo'), fsym('hi')), [fsym('lo'), fsym('hi')]),
}
COMMON = ('avg_axis', 'boot_samples', 'working_directory', 'start_from_scratch')
PROBS = ('move_sampled_ens_axis', 'truncated', 'pit_randomize_zero_ranks', 'n_sample_members', 'clip_member_to_zero')
PARAMS = {'VerifyDeterm': COMMON, 'VerifyEnsemble': COMMON + ('ensemble_axis', 'ensemble_collapse_func'), 'VerifyProbGaussian': COMMON + PROBS, 'VerifyProbGamma': COMMON + PROBS,
          'VerifyProbGammaHurdle': COMMON + PROBS + ('n_approx_bins', 'integration_range')}
SETTERS = {'avg_axis': 'set_avg_axis', 'boot_samples': 'set_boot_samples', 'working_directory': 'enable_saving', 'ensemble_axis': 'set_ensemble_axis', 'ensemble_collapse_func': 'set_collapse_func',
           'move_sampled_ens_axis': 'set_move_sampled_ens_axis', 'n_sample_members': 'set_ensemble_members', 'clip_member_to_zero': 'set_member_clip', 'truncated': 'set_truncation', 'n_approx_bins': 'set_bins'}
CTX = ({}, dict(avg_axis=(0,)), dict(boot_samples=isym('B0')), dict(working_directory=tm.sym('wd0', 'str')), dict(working_directory=tm.sym('wd0', 'str'), start_from_scratch=False))
PCTX = (dict(truncated=True), dict(n_sample_members=isym('K0')), dict(clip_member_to_zero=fsym('c0'), move_sampled_ens_axis=0), dict(pit_randomize_zero_ranks=False))
HCTX = (dict(n_sample_members=isym('K0')), dict(integration_range=(fsym('a'), fsym('b'))), dict(n_approx_bins=isym('b0')))


def contexts(cls):
    for c in CTX:
        yield c
    if cls.startswith('VerifyProb'):
        for c in HCTX if cls.endswith('Hurdle') else PCTX:
            yield c


def tag(c):
    return ', '.join('%s=%s' % (k, show_arg(v)) for k, v in sorted(c.items())) or 'defaults'


def refuse(C, r, what, where):
    if r.ok:
        raise Violated('%s is accepted' % what, where=where)
    if not r.leaves:
        raise Undecided('no exit found')
    return 'raises %s' % sorted({str(l.exc) for l in r.leaves})


def accept(C, r, what, where):
    if not r.ok or r.leaves:
        raise Violated('%s is refused: %s' % (what, sorted({'%s %s' % (l.exc, l.site) for l in r.leaves})), where=where)
    return 'accepted on every path'


def ctor(C, cls, rank, kw, judge, what):
    s = Sc(C, cls, rank, config=EMPTY, **kw)
    return judge(C, s.do(lambda s: Val(NONE)), what, anchor(C, cls, '_validate'))


def setter(C, cls, rank, kw, m, args, k2, judge, what):
    s = Sc(C, cls, rank, config=EMPTY, **kw)
    r0 = s.do(lambda s: Val(NONE))
    if not r0.ok or r0.leaves:
        raise Undecided('the object cannot be built')
    return judge(C, s.run(m, *args, **k2), what, anchor(C, cls, m))


def neq(I, a, b):
    I.S.facts[cmp_('eq', a, b)] = False


def shapes(rank):
    """(description, shape of forecasts, shape of observations, differing extents)"""
    sh = shape(rank)
    yield 'another number of axes', sh + (dim('q'),), sh, ()
    if rank > 1:
        yield 'another number of axes', sh[:-1], sh, ()
    for j in range(rank):
        o = list(sh)
        o[j] = dim('d')
        yield 'another extent at axis %d' % j, sh, tuple(o), ((sh[j], dim('d')),)
    if rank > 1:
        yield 'axes in another order', sh[::-1], sh, tuple((sh[a], sh[b]) for a in range(rank) for b in range(a))
    if rank == 2:
        yield 'the same number of values in another shape', (tm.mul(sh[0], sh[1]),), sh, ()


def mismatch(C, cls, fs, os_, ne, kw, what, bad_key=None, ens=None):
    s = Sc(C, cls, 1, config=EMPTY, **kw)
    I = s.I
    for a, b in ne:
        neq(I, a, b)
    if cls in KEYS:
        d = {k: array(I, k, os_ if bad_key not in (None, k) else fs) for k in KEYS[cls]}
        if bad_key == 'extra':
            d = {k: array(I, k, os_) for k in KEYS[cls]}
            d['extra'] = array(I, 'extra', fs)
        s.f = lift(I, d)
    else:
        if ens is not None:
            p = ens % (len(fs) + 1)
            fs = fs[:p] + (dim('E'),) + fs[p:]
            for x in os_ + fs:
                if x is not dim('E'):
                    neq(I, x, dim('E'))
        s.f = array(I, 'f', fs)
    s.o = array(I, 'o', os_)
    return refuse(C, s.do(lambda s: Val(NONE)), '%s(f, o) with %s' % (cls, what), anchor(C, cls, '_validate'))


def typed(C, cls, rank, f, o, kw, what):
    s = Sc(C, cls, rank, config=EMPTY, **kw)
    if f is not None:
        s.f = lift(s.I, f(s))
    if o is not None:
        s.o = lift(s.I, o(s))
    return refuse(C, s.do(lambda s: Val(NONE)), '%s(f, o) with %s' % (cls, what), anchor(C, cls, '_validate'))


def run(C):
    ranks = (2,) if C.tier == 'quick' else (1, 2, 3)
    for cls in CLASSES:
        for rank in ranks:
            for ctx in contexts(cls):
                for p in PARAMS[cls]:
                    for v in BAD[p]:
                        if ctx.get('start_from_scratch') is False and p == 'start_from_scratch':
                            continue
                        C.ob('%s %s=%s (%s) rank=%d' % (cls, p, show_arg(v), tag(ctx), rank), ctor, C, cls, rank, dict(ctx, **{p: v}), refuse, '%s(f, o, %s=%s)' % (cls, p, show_arg(v)))
                        if p in SETTERS and p != 'working_directory':
                            C.ob('%s.%s(%s) (%s) rank=%d' % (cls, SETTERS[p], show_arg(v), tag(ctx), rank), setter, C, cls, rank, ctx, SETTERS[p], [v], {}, refuse, '%s.%s(%s)' % (cls, SETTERS[p], show_arg(v)))
                    for v in GOOD[p]:
                        if p == 'truncated' and v and cls.endswith('Hurdle'):
                            continue
                        C.ob('%s %s=%s valid (%s) rank=%d' % (cls, p, show_arg(v), tag(ctx), rank), ctor, C, cls, rank, dict(ctx, **{p: v}), accept, '%s(f, o, %s=%s)' % (cls, p, show_arg(v)))
                        if p in SETTERS and not (p == 'working_directory' and v is None):
                            C.ob('%s.%s(%s) valid (%s) rank=%d' % (cls, SETTERS[p], show_arg(v), tag(ctx), rank), setter, C, cls, rank, ctx, SETTERS[p], [v], {}, accept, '%s.%s(%s)' % (cls, SETTERS[p], show_arg(v)))
                for v in BAD['working_directory']:
                    C.ob('%s.enable_saving(%s) (%s) rank=%d' % (cls, show_arg(v), tag(ctx), rank), setter, C, cls, rank, ctx, 'enable_saving', [v], {}, refuse, '%s.enable_saving(%s)' % (cls, show_arg(v)))
                for v in BAD['start_from_scratch']:
                    C.ob('%s.enable_saving(wd, %s) (%s) rank=%d' % (cls, show_arg(v), tag(ctx), rank), setter, C, cls, rank, ctx, 'enable_saving', [WD, v], {}, refuse, '%s.enable_saving(wd, %s)' % (cls, show_arg(v)))
                for m in ('disable_boot', 'disable_saving'):
                    C.ob('%s.%s() valid (%s) rank=%d' % (cls, m, tag(ctx), rank), setter, C, cls, rank, ctx, m, [], {}, accept, '%s.%s()' % (cls, m))
                if cls == 'VerifyEnsemble':
                    for v in (1, -2, 5, -7) if rank > 1 else (2, -3, 5):
                        C.ob('VerifyEnsemble ensemble_axis=%d (%s) rank=%d' % (v, tag(ctx), rank), ctor, C, cls, rank, dict(ctx, ensemble_axis=v), refuse, 'VerifyEnsemble(f, o, ensemble_axis=%d)' % v)
                        C.ob('VerifyEnsemble.set_ensemble_axis(%d) (%s) rank=%d' % (v, tag(ctx), rank), setter, C, cls, rank, ctx, 'set_ensemble_axis', [v], {}, refuse, 'VerifyEnsemble.set_ensemble_axis(%d)' % v)
                    for v in (rank, -1):
                        C.ob('VerifyEnsemble ensemble_axis=%d valid (%s) rank=%d' % (v, tag(ctx), rank), ctor, C, cls, rank, dict(ctx, ensemble_axis=v), accept, 'VerifyEnsemble(f, o, ensemble_axis=%d)' % v)
                if cls.endswith('Hurdle'):
                    C.ob('%s truncated (%s) rank=%d' % (cls, tag(ctx), rank), ctor, C, cls, rank, dict(ctx, truncated=True), refuse, '%s(f, o, truncated=True)' % cls)
                    C.ob('%s.set_truncation(True) (%s) rank=%d' % (cls, tag(ctx), rank), setter, C, cls, rank, ctx, 'set_truncation', [True], {}, refuse, '%s.set_truncation(True)' % cls)
                    C.ob('%s.set_integration_range valid (%s) rank=%d' % (cls, tag(ctx), rank), setter, C, cls, rank, ctx, 'set_integration_range', [fsym('lo'), fsym('hi')], {}, accept, '%s.set_integration_range(lo, hi)' % cls)
                # inputs
                for what, fs, os_, ne in shapes(rank):
                    if cls in KEYS:
                        for k in KEYS[cls] + ['extra']:
                            C.ob('%s: %s of %s (%s) rank=%d' % (cls, what, k, tag(ctx), rank), mismatch, C, cls, fs, os_, ne, ctx, '%s of %s' % (what, k), k)
                    elif cls == 'VerifyEnsemble':
                        for ens in (-1, 0):
                            for e2 in (None, ens):
                                C.ob('%s: %s, members at %d given %s (%s) rank=%d' % (cls, what, ens, e2, tag(ctx), rank), mismatch, C, cls, fs, os_, ne, dict(ctx, ensemble_axis=e2), what, None, ens)
                    else:
                        C.ob('%s: %s (%s) rank=%d' % (cls, what, tag(ctx), rank), mismatch, C, cls, fs, os_, ne, ctx, what)
                if cls == 'VerifyEnsemble':
                    C.ob('%s: no ensemble axis (%s) rank=%d' % (cls, tag(ctx), rank), typed, C, cls, rank, lambda s: array(s.I, 'f', s.shape), None, ctx, 'forecasts without members')
                lst = lambda s: [fsym('a'), fsym('b')]
                for what, f, o in (('observations as a list', None, lst), ('observations missing', None, lambda s: None), ('observations a number', None, lambda s: F), ('forecasts as a list', lst, None),
                                   ('forecasts missing', lambda s: None, None), ('forecasts a number', lambda s: F, None)):
                    C.ob('%s: %s (%s) rank=%d' % (cls, what, tag(ctx), rank), typed, C, cls, rank, f, o, ctx, what)
                if cls in KEYS:
                    C.ob('%s: forecasts an array (%s) rank=%d' % (cls, tag(ctx), rank), typed, C, cls, rank, lambda s: array(s.I, 'f', s.shape), None, ctx, 'an array of forecasts')
                    C.ob('%s: no parameters (%s) rank=%d' % (cls, tag(ctx), rank), typed, C, cls, rank, lambda s: {}, None, ctx, 'no parameters')
                    for k in KEYS[cls]:
                        C.ob('%s: parameter %s missing (%s) rank=%d' % (cls, k, tag(ctx), rank), typed, C, cls, rank, lambda s, k=k: {q: v for q, v in s.parts.items() if q != k}, None, ctx, 'parameter %s missing' % k)
                        C.ob('%s: parameter %s a list (%s) rank=%d' % (cls, k, tag(ctx), rank), typed, C, cls, rank, lambda s, k=k: dict(s.parts, **{k: [F, F]}), None, ctx, 'parameter %s a list' % k)
