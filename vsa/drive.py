"""Helpers to set up abstract inputs and run entry points."""
from .world import *
from . import terms as tm

ENVN = ['pyanen_ens_to_prob_method', 'pyanen_kde_bandwidth', 'pyanen_kde_kernel', 'pyanen_kde_samples', 'pyanen_kde_multiply_spread',
        'pyanen_boot_confidence', 'pyanen_boot_repeats', 'pyanen_boot_samples', 'pyanen_tqdm_disable', 'pyanen_tqdm_leave',
        'pyanen_tqdm_workers', 'pyanen_tqdm_map_axis', 'pyanen_tqdm_chunksize', 'pyanen_use_tensorflow_math', 'pyanen_skip_nan',
        'pyanen_split_crps_ensemble_along_0', 'pyanen_integrate_range_multiplier', 'pyanen_integrate_with_less_memory', 'pyanen_integrate_wdir']


def dim(n):
    return tm.sym(n, 'int', (), positive=True)


_NAMES = {}


def arrsym(name, shape, **info):
    """one symbol per (name, dims): interned terms cache their dims"""
    d = _NAMES.setdefault(name, {})
    shape = tuple(shape)
    if shape not in d:
        d[shape] = name if not d else '%s/%s' % (name, 'x'.join(tm.show(x) for x in shape))
    return tm.sym(d[shape], 'ndarray', shape, **info)


def array(I, name, shape, user=True, **info):
    t = arrsym(name, shape, **info)
    return I.new(Cell('arr', t, user=name if user else None))


def setenv(I, **kw):
    for k, v in kw.items():
        I.S.osenv['pyanen_' + k] = const(str(v))


class Outcome:
    """all ends of an abstract run: normal value (or None) plus exception leaves"""

    def __init__(self, I, value, leaves, err=None):
        self.I, self.value, self.leaves, self.err = I, value, leaves, err
        self.S = I.S

    @property
    def ok(self):
        return self.value is not None

    @property
    def term(self):
        return self.I.read(self.value)


def run(I, thunk):
    I.collectors.append([])
    try:
        v = thunk()
        return Outcome(I, v, I.collectors[-1])
    except Dead:
        return Outcome(I, None, I.collectors[-1])
    finally:
        I.collectors.pop()
