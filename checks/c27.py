"""C27: reliability diagram, ROC curve, Brier decomposition"""
from checks.common import *

RULE = ('reliability(), roc() and brier_decomp() are interpreted abstractly; their terms must be the reference constructions of spec/metrics.py '
        '(bins over [0,1], per-bin means of the same samples, curve from pooled pairs, Murphy decomposition with sample weights).')
ASSUMPTIONS = ['sklearn.metrics.roc_curve/auc and pandas.value_counts have their documented meaning']



def diagram(C, rank, ax, boot, explicit, skip):
    p = A('p', shape(rank))

    def e(I):
        return I.call(C.W.import_name(I, 'spec.metrics', 'event'), [A('o', shape(rank))(I), lift(I, T0), lift(I, None)], {})
    kw = {}
    if boot:
        kw['boot_samples'] = N
    if explicit:
        kw.update(repeats=isym('R'), confidence=fsym('conf'), skip_nan=skip)
    r = fcall(C, 'PyAnEn.utils_verify', 'reliability_diagram', [p, e, NB, ax], kw, env_=dict(skip_nan=skip if not explicit else not skip))
    if boot:
        R, c = (isym('R'), fsym('conf')) if explicit else fcall(C, 'spec.metrics', 'settings', []).term.args
        want = spec(C, 'metrics.reliability_boot', p, e, NB, ax, N, R, c, skip)
    else:
        want = spec(C, 'metrics.reliability', p, e, NB, ax)
    return require_equal(value(r, 'reliability_diagram'), want, 'reliability_diagram is not the specified construction', where='PyAnEn/utils_verify.py (reliability_diagram)')


def run(C):
    cs = cases(C.tier) if C.tier == 'thorough' else cases(C.tier) + [(3, (1,))]
    for cls in CLASSES[1:]:
        for rank, ax in cs if cls == 'VerifyEnsemble' or C.tier != 'quick' else cs[:4]:
            for skip in (False, True):
                for boot in (None, N):
                    c = Case(C, cls, rank, ax, skip, boot=boot)
                    for kw in (dict(over=T0), dict(below=T0)):
                        tag = '%s%s %s skip=%s%s' % (cls, sorted(kw), ctag(rank, ax), skip, ' boot' if boot is not None else '')
                        C.ob('reliability ' + tag, c.agree, 'reliability', nbins=NB, **kw)
                        C.ob('brier_decomp ' + tag, c.agree, 'brier_decomp', **kw)
                        if boot is None:
                            C.ob('roc ' + tag, c.agree, 'roc', **kw)
    for rank, ax in cs:
        for boot in (False, True):
            for explicit in (False, True):
                for skip in (False, True):
                    C.ob('reliability_diagram %s boot=%s explicit=%s skip=%s' % (ctag(rank, ax), boot, explicit, skip), diagram, C, rank, ax, boot, explicit, skip)
