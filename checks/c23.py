"""C23: opening ensemble files"""
import itertools
from checks.common import *
from vsa.drive import run as drive

RULE = ('open_dataset(), open_mfdataset() and __add_coords__() are interpreted abstractly against a model of the xarray/netCDF4 operations, for an enumeration of the dimensions and variables a file may hold; '
        'the content of the dataset returned (names, dimensions, data terms, attributes, coordinates), the calls made to open files and the handles left open at every exit must be the required ones.')
ASSUMPTIONS = ['spec/xr.py models the xarray, netCDF4 and glob operations used: renaming and assigning give a dataset that has no close function of its own, opening several files without combine="nested" orders them by coordinate']

MODELS = {'xarray.open_dataset': 'spec.xr.open_dataset', 'xarray.load_dataset': 'spec.xr.load_dataset', 'xarray.open_mfdataset': 'spec.xr.open_mfdataset',
          'xarray.decode_cf': 'spec.xr.decode_cf', 'xarray.conventions.decode_cf': 'spec.xr.decode_cf', 'netCDF4.Dataset': 'spec.xr.NcDataset', 'glob.glob': 'spec.xr.glob', 'xarray.DataArray': 'spec.xr.Array'}
SIZES = dict(num_flts='L', num_parameters='P', num_test_times='TT', num_search_times='ST', num_times='TM', num_stations='S', num_chars='CH')


def var(name, dims, attrs=None):
    return (name, dims, A('v_' + name, tuple(isym(SIZES[d]) for d in dims)), attrs or {})


def layout(names, flts, tt, st, t, units):
    """the variables of a file, each dimension held only by what is said to be present"""
    un = {'units': 'hours since 2000-01-01'} if units else {}
    out = [var('analogs', ('num_stations',) + (('num_flts',) if flts else ()) + (('num_test_times',) if tt else ()) + (('num_search_times',) if st else ()) + (('num_times',) if t else ()), {'long_name': 'analogs'})]
    if 'p' in names:
        out.append(var('ParameterNames', ('num_parameters', 'num_chars')))
    elif 'w' in names:
        out.append(var('ParameterNames', ('num_parameters',)))
    if 's' in names:
        out.append(var('StationNames', ('num_stations', 'num_chars'), {'note': 'text'}))
    for dim_, v, how in (('num_flts', 'FLTs', flts), ('num_test_times', 'test_times', tt), ('num_search_times', 'search_times', st), ('num_times', 'Times', t)):
        if 'v' in how:
            out.append(var(v, (dim_,), un if 'time' in v.lower() else {'units': 'seconds'}))
        if 'c' in how:
            out.append(var(dim_, (dim_,), un if 'time' in dim_ else {}))
    return out


class World:
    """one interpreter with the model of the files in place"""

    def __init__(self, C, fault=None, exc='Fault'):
        self.C = C
        self.I = C.interp(models=MODELS)
        env(self.I)
        if fault is not None:
            self.I.fault_at, self.I.fault_exc = fault, exc

    def name(self, mod, n):
        return self.C.W.import_name(self.I, mod, n)

    def set(self, **kw):
        st = self.name('spec.xr', 'STATE')
        for k, v in kw.items():
            self.I.lib.setitem(self.I, st, lift(self.I, k), lift(self.I, v))

    def get(self, k):
        return self.I.lib.getitem(self.I, self.name('spec.xr', 'STATE'), lift(self.I, k))

    def call(self, mod, fn, *a, **k):
        return self.I.call(self.name(mod, fn), [lift(self.I, x) for x in a], {q: lift(self.I, x) for q, x in k.items()})


def built(lay):
    return lambda I: lift(I, lay)


def opened(C, files, args, kw, mod, fn, decode, want, found=(), root=(), nc=(), left='dataset'):
    w = World(C)
    I = w.I
    out = {}

    def go():
        w.set(files=files, root=root, nc=nc, found=list(found))
        ds = w.call(mod, fn, *args, **kw)
        got = w.call('spec.xr', 'content_of', ds)
        out['calls'] = I.read(w.get('calls'))
        out['left'] = I.read(w.call('spec.xr', 'still_open'))
        I.call(I.getattr(ds, 'close'), [], {})
        out['after'] = I.read(w.call('spec.xr', 'still_open'))
        return got
    r = drive(I, go)
    what = '%s.%s' % (mod, fn)
    got = value(r, what)
    w2 = World(C)
    exp = drive(w2.I, lambda: want(w2)).term
    require_equal(got, exp, 'the dataset returned by %s is not the required one' % fn, where='PyAnEn/IO.py')
    require_equal(out['left'], drive(w2.I, lambda: lift(w2.I, [left])).term, '%s must leave exactly the returned dataset open' % fn, where='PyAnEn/IO.py')
    require_equal(out['after'], drive(w2.I, lambda: lift(w2.I, [])).term, 'closing the dataset returned by %s must close its files' % fn, where='PyAnEn/IO.py')
    return out['calls'], w2


def one(C, lay, decode, group):
    kw = dict(decode=decode) if decode is not None else {}
    if group is not None:
        kw['group'] = group
    calls, w2 = opened(C, lay, [fsym('path')], kw, 'PyAnEn.IO', 'open_dataset', decode,
                       lambda w: w.call('spec.xr', 'one_file', lay, bool(decode)))
    want = drive(w2.I, lambda: lift(w2.I, [('open_dataset', fsym('path'), group, 'no preprocessing')])).term
    require_equal(calls, want, 'open_dataset must open the given file and group once', where='PyAnEn/IO.py')


ROOT = ('num_stations',)


def many(C, tt, flts, t, xs, paths, decode, group, pre):
    lay = layout('', flts, tt, '', t, False)
    if xs:
        lay += [var('Xs', ROOT), var('Ys', ROOT)]
    root = [('Xs', ROOT, A('root_Xs', (isym('S'),)), {'long_name': 'x'}), ('Ys', ROOT, A('root_Ys', (isym('S'),)), {}), ('num_stations', ROOT, A('root_st', (isym('S'),)), {})]
    nc = [('FLTs', ('num_flts',), A('nc_FLTs', (isym('L'),)), {}), ('test_times', ('num_test_times',), A('nc_tt', (isym('TT'),)), {})]
    kw = {}
    if decode is not None:
        kw['decode'] = decode
    if group is not None:
        kw['group'] = group
    prefn = None
    if pre is not None:
        prefn = kw['preprocess'] = fsym('preprocess')
    found = ['/d/b_Rank2.nc', '/d/a_Rank1.nc', '/d/c_Rank3.nc']
    home = lambda p: tm.T('expand', const(p))
    if paths == 'home':
        found = [home('~/a_Rank1.nc')]
    given = {'pattern': '/d/*_Rank*.nc', 'home pattern': '~/d/*_Rank*.nc', 'home': ['~/a_Rank1.nc']}.get(paths, list(found))
    calls, w2 = opened(C, lay, [given], kw, 'PyAnEn.IO', 'open_mfdataset', decode,
                       lambda w: w.call('spec.xr', 'many_files', lay, root, nc, bool(decode)), found=found, root=root, nc=nc, left='main')

    def order():
        p = prefn if pre is not None else w2.name('PyAnEn.IO', '__add_coords__')
        s = sorted(found) if paths != 'home' else found
        out = [('glob', given if paths == 'pattern' else home(given), None, 'no preprocessing')] if 'pattern' in paths else []
        out.append(('open_mfdataset', s, group, p))
        return out, ('open_mfdataset', s, None, p)
    req, rootcall = order()
    got = calls.args if calls.op == 'list' else ()
    read = lambda x: drive(w2.I, lambda: lift(w2.I, x)).term
    require_equal(tm.T('list', *[c for c in got if c.args[0] is not const('Dataset') and c is not read(rootcall) or c is read(req[-1])][:len(req)]), read(req),
                  'files must be found, sorted and opened with the given group and preprocessing', where='PyAnEn/IO.py')
    for c in got:
        if c.op == 'tuple' and c.args[0] is const('Dataset') and not any(c.args[1] is (f if isinstance(f, tm.T) else const(f)) for f in found):
            raise Violated('a file that was not given is opened: %s' % show(c.args[1], 4), 'PyAnEn/IO.py', 'other')
        if c.op == 'tuple' and c.args[0] is const('open_mfdataset') and c is not read(req[-1]):
            require_equal(c, read(rootcall), 'station locations must be read from the root group of the same files, in the same order', where='PyAnEn/IO.py')


def handles(C, decode, missing):
    """helper handles are closed on every exit"""
    lay = layout('', 'd', 'd', '', '', False)
    root = [] if missing == 'root' else [('Xs', ROOT, A('root_Xs', (isym('S'),)), {}), ('Ys', ROOT, A('root_Ys', (isym('S'),)), {})]
    nc = [] if missing == 'nc' else [('FLTs', ('num_flts',), A('nc_FLTs', (isym('L'),)), {}), ('test_times', ('num_test_times',), A('nc_tt', (isym('TT'),)), {})]

    def attempt(fault, exc):
        w = World(C, None, exc)
        I = w.I
        at = {}

        def go():
            w.set(files=lay, root=root, nc=nc, found=['/d/a_Rank1.nc', '/d/b_Rank2.nc'])
            at['n'] = len(I.events)
            if fault is not None:
                I.fault_at, I.fault_exc = fault, exc
            return w.call('PyAnEn.IO', 'open_mfdataset', '/d/*.nc', decode=decode, group='g')
        r = drive(I, go)
        n = len(I.events)
        I.fault_at = None
        for S in ([r.S] if r.ok else []) + [l.state for l in r.leaves]:
            I.S = S
            for h in I.read(w.call('spec.xr', 'still_open')).args:
                if h is not const('main'):
                    raise Violated('a helper file (%s) stays open when open_mfdataset %s%s' % (show(h, 2), 'returns' if r.ok and S is r.S else 'fails', '' if fault is None else ' at ' + str(I.events[fault])[:80]), 'PyAnEn/IO.py', 'handle')
        return at['n'], n
    n0, n = attempt(None, 'Fault')
    for i in range(n0, n):
        for exc in ('Fault', 'KeyboardInterrupt'):
            attempt(i, exc)
    return '%d program points made to fail' % (n - n0)


def added(C, source, rank, coords, dim_):
    """unique station coordinates ordered by chunk"""
    w = World(C)
    lay = [var('analogs', ('num_stations', 'num_flts'))] if dim_ == 'num_stations' else [var('analogs', ('num_flts',))]
    if coords:
        lay.append(var(dim_, (dim_,)))
    size = isym(SIZES[dim_])

    def go():
        h = w.call('spec.xr', 'opened', 'dataset')
        ds = w.call('spec.xr', 'build', lay, source, h, False)
        fn = w.name('PyAnEn.IO', '__add_coords__')
        out = w.I.call(fn, [ds], {} if dim_ == 'num_stations' else {'dim_name': lift(w.I, dim_)})
        return w.call('spec.xr', 'content_of', out)
    r = drive(w.I, go)
    if rank is None:
        if r.ok:
            raise Violated('__add_coords__ accepts a file name without a chunk number', 'PyAnEn/IO.py', 'norank')
        return
    got = value(r, '__add_coords__')

    def want():
        idx = w.call('spec.xr', 'station_index', rank, size)
        return w.call('spec.xr', 'content', dict([(n, [d, v, a]) for n, d, v, a in lay if n != dim_] + [(dim_, [(dim_,), idx, {}])]), [dim_], False)
    require_equal(got, drive(w.I, want).term, '__add_coords__ does not give chunk number + position / stations', where='PyAnEn/IO.py')


def absent(C):
    w = World(C)

    def go():
        ds = w.call('spec.xr', 'build', [var('analogs', ('num_flts',))], '/d/x_Rank4.nc', w.call('spec.xr', 'opened', 'dataset'), False)
        return w.call('PyAnEn.IO', '__add_coords__', ds)
    if drive(w.I, go).ok:
        raise Violated('__add_coords__ accepts a dataset without the station dimension', 'PyAnEn/IO.py', 'nodim')


def run(C):
    quick = C.tier == 'quick'
    how = ('', 'd', 'v', 'vc') if quick else ('', 'd', 'v', 'c', 'vc')
    for names, flts, tt, st, t in itertools.product(('', 'p', 's', 'ps', 'w'), how[:3], how, how[:3] if quick else how, how[:3] if quick else how):
        if quick and names in ('s', 'ps', 'w') and (st or t == 'd'):
            continue
        for units in (False, True):
            if quick and units and (flts or st == 'd'):
                continue
            for decode in (None, True):
                C.ob('open_dataset names=%s lead times=%s test times=%s search times=%s times=%s units=%s decode=%s' % (names, flts, tt, st, t, units, decode), one, C, layout(names, flts, tt, st, t, units), decode, None)
    for group in ('g', '/a/b'):
        for decode in (False, True):
            C.ob('open_dataset group=%s decode=%s' % (group, decode), one, C, layout('p', 'v', 'v', 'v', '', False), decode, group)
    for tt, flts, t, xs in itertools.product(('', 'd', 'v', 'vc'), ('', 'd', 'v', 'vc'), ('', 'v', 'd'), (False, True)):
        for paths in ('pattern', 'list'):
            for decode, group, pre in ((None, None, None), (True, None, None), (None, 'g', None), (False, 'g', 'own')):
                if quick and paths == 'list' and (group or t):
                    continue
                C.ob('open_mfdataset test times=%s lead times=%s times=%s locations=%s %s decode=%s group=%s preprocess=%s' % (tt, flts, t, xs, paths, decode, group, pre), many, C, tt, flts, t, xs, paths, decode, group, pre)
    for paths in ('home', 'home pattern'):
        for xs in (False, True):
            C.ob('open_mfdataset below the home directory %s locations=%s' % (paths, xs), many, C, 'v', 'd', '', xs, paths, None, None, None)
    for decode in (False, True):
        for missing in (None, 'root', 'nc'):
            C.ob('open_mfdataset helper files decode=%s missing=%s' % (decode, missing), handles, C, decode, missing)
    for src, rank in (('AnEn_Rank3.nc', 3), ('/d/AnEn_Rank0.nc', 0), ('/Rank7/d/x_Rank12_y.nc', 12), ('/d/analog_Rank004.nc', 4), ('/Rank5/x.nc', None), ('/d/x.nc', None)):
        for coords in (False, True):
            for d in ('num_stations', 'num_flts'):
                C.ob('__add_coords__ %s along %s%s' % (src, d, ' replacing' if coords else ''), added, C, src, rank, coords, d)
    C.ob('__add_coords__ without the dimension', absent, C)
