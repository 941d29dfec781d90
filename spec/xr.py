"""A model of the xarray, netCDF4 and glob operations used to open ensemble files (read, never executed).

A dataset is its variables: name -> [dims, data, attrs], the names that are coordinates, an encoding and the function that closes it.
"""
import numpy as np

STATE = {'files': {}, 'root': {}, 'found': [], 'calls': [], 'handles': []}

TIME_NAMES = ['test_times', 'search_times', 'Times', 'num_test_times', 'num_search_times', 'num_times']
COORDS = [('num_flts', 'FLTs'), ('num_parameters', 'ParameterNames'), ('num_test_times', 'test_times'), ('num_search_times', 'search_times'), ('num_times', 'Times')]
UNITS = 'seconds since 1970-01-01'


class Handle:
    def __init__(self, what):
        self.what = what
        self.open = True

    def close(self):
        self.open = False


def opened(what):
    h = Handle(what)
    STATE['handles'].append(h)
    return h


def still_open():
    return [h.what for h in STATE['handles'] if h.open]


class Array:
    def __init__(self, name, dims, data, attrs):
        self.name = name
        self.dims = dims
        self.data = data
        self.attrs = attrs

    @property
    def values(self):
        return self.data

    @property
    def ndim(self):
        return len(self.dims)

    def to_numpy(self):
        return self.data

    def assign_attrs(self, *args, **kw):
        a = dict(self.attrs)
        for d in args:
            a.update(d)
        a.update(kw)
        return Array(self.name, self.dims, self.data, a)

    def __len__(self):
        return len(self.data)


class Coords:
    def __init__(self, ds):
        self.ds = ds

    def __contains__(self, k):
        return k in self.ds._coords

    def __iter__(self):
        return iter(list(self.ds._coords))

    def __getitem__(self, k):
        if k not in self.ds._coords:
            raise KeyError(k)
        return self.ds[k]

    def __setitem__(self, k, v):
        self.ds.put(k, v)
        if k not in self.ds._coords:
            self.ds._coords.append(k)


class Dataset:
    def __init__(self, variables, coords, encoding, close):
        self._vars = variables
        self._coords = coords
        self.encoding = encoding
        self._close = close
        self.attrs = {}

    @property
    def dims(self):
        out = []
        for n, v in self._vars.items():
            for d in v[0]:
                if d not in out:
                    out.append(d)
        return out

    @property
    def sizes(self):
        out = {}
        for n, v in self._vars.items():
            for i in range(len(v[0])):
                out[v[0][i]] = v[1].shape[i]
        return out

    @property
    def variables(self):
        return {n: Array(n, v[0], v[1], v[2]) for n, v in self._vars.items()}

    @property
    def data_vars(self):
        return {n: Array(n, v[0], v[1], v[2]) for n, v in self._vars.items() if n not in self._coords}

    @property
    def coords(self):
        return Coords(self)

    def keys(self):
        return [n for n in self._vars if n not in self._coords]

    def __contains__(self, k):
        return k in self._vars

    def __iter__(self):
        return iter([n for n in self._vars if n not in self._coords])

    def __getitem__(self, k):
        if k in self._vars:
            v = self._vars[k]
            return Array(k, v[0], v[1], v[2])
        if k in self.dims:
            for n, v in self._vars.items():
                if k in v[0]:
                    size = v[1].shape[list(v[0]).index(k)]
            return Array(k, (k,), np.arange(size), {})
        raise KeyError(k)

    def put(self, k, v):
        if isinstance(v, Array):
            new = [v.dims, v.data, v.attrs]
        elif isinstance(v, tuple):
            d = v[0]
            if isinstance(d, str):
                d = (d,)
            new = [tuple(d), v[1], v[2] if len(v) > 2 else {}]
        else:
            new = [(k,), v, {}]
        self._vars = dict(self._vars)
        self._vars[k] = new
        if new[0] == (k,) and k not in self._coords:
            self._coords.append(k)

    def __setitem__(self, k, v):
        self.put(k, v)

    def copy(self, deep=False):
        out = Dataset({n: [v[0], v[1], dict(v[2])] for n, v in self._vars.items()}, list(self._coords), dict(self.encoding), None)
        return out

    def assign(self, *args, **kw):
        out = self.copy()
        for d in args:
            for k, v in d.items():
                out.put(k, v)
        for k, v in kw.items():
            out.put(k, v)
        return out

    def assign_coords(self, *args, **kw):
        out = self.copy()
        for d in args:
            for k, v in d.items():
                out.coords[k] = v
        for k, v in kw.items():
            out.coords[k] = v
        return out

    def rename(self, *args, **kw):
        names = {}
        for d in args:
            names.update(d)
        names.update(kw)
        for old, new in names.items():
            if old not in self._vars and old not in self.dims:
                raise ValueError('cannot rename')
            if new in self._vars or new in self.dims:
                raise ValueError('the new name conflicts')
        variables = {}
        for n, v in self._vars.items():
            variables[names[n] if n in names else n] = [tuple([names[d] if d in names else d for d in v[0]]), v[1], v[2]]
        return Dataset(variables, [names[c] if c in names else c for c in self._coords], dict(self.encoding), None)

    def rename_dims(self, *args, **kw):
        return self.rename(*args, **kw)

    def set_close(self, close):
        self._close = close

    def close(self):
        if self._close is not None:
            self._close()
        self._close = None

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        self.close()


def build(layout, source, handle, decode):
    ds = Dataset({n: [dims, data, dict(attrs)] for n, dims, data, attrs in layout}, [n for n, dims, data, attrs in layout if dims == (n,)], {'source': source}, handle.close)
    if decode is None or decode:
        ds = decode_cf(ds)
    return ds


def decoded(data, attrs):
    if 'units' in attrs:
        return ('decoded', data, attrs['units'])
    return data


def decode_cf(obj):
    return Dataset({n: [v[0], decoded(v[1], v[2]), {k: a for k, a in v[2].items() if k != 'units'}] for n, v in obj._vars.items()},
                   list(obj._coords), dict(obj.encoding), obj._close)


def open_dataset(filename_or_obj, group=None, decode_cf=None, engine=None):
    STATE['calls'].append(('open_dataset', filename_or_obj, group, 'no preprocessing'))
    return build(STATE['files'], filename_or_obj, opened('dataset'), decode_cf)


def load_dataset(filename_or_obj, group=None, decode_cf=None, engine=None):
    STATE['calls'].append(('open_dataset', filename_or_obj, group, 'no preprocessing'))
    h = opened('dataset')
    h.close()
    return build(STATE['files'], filename_or_obj, h, decode_cf)


def open_mfdataset(paths, chunks=None, concat_dim=None, compat='no_conflicts', preprocess=None, engine=None, data_vars='all', coords='different',
                   combine='by_coords', parallel=False, join='outer', group=None, decode_cf=None):
    if combine != 'nested' and concat_dim is not None:
        raise ValueError('concat_dim has no effect')
    STATE['calls'].append(('open_mfdataset', list(paths), group, preprocess))
    first = 'main' not in [h.what for h in STATE['handles']]
    h = opened('main' if first else 'root')
    layout = STATE['files'] if first else STATE['root']
    if combine == 'nested':
        layout = [(n, dims, ('in the order of the paths', data), attrs) for n, dims, data, attrs in layout]
    return build(layout, paths, h, decode_cf)


class Masked:
    def __init__(self, data):
        self.data = data


class NcVariable:
    def __init__(self, data):
        self.raw = data

    def __getitem__(self, k):
        return Masked(self.raw[k])


class NcDataset:
    def __init__(self, filename, mode='r'):
        STATE['calls'].append(('Dataset', filename, None, 'no preprocessing'))
        self.handle = opened('nc')
        self.variables = {n: NcVariable(data) for n, dims, data, attrs in STATE['nc']}

    def __getitem__(self, k):
        return self.variables[k]

    def close(self):
        self.handle.close()

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        self.close()


def glob(pathname):
    STATE['calls'].append(('glob', pathname, None, 'no preprocessing'))
    return list(STATE['found'])


# ------------------------------------------------------------ what is required

def names_decoded(dims, data, attrs):
    if 'num_chars' in dims:
        return [tuple([d for d in dims if d != 'num_chars']), [''.join(row) for row in data.astype('str')], {}]
    return [dims, data, dict(attrs)]


def used(variables):
    return [d for v in variables.values() for d in v[0]]


def with_units(variables):
    return {n: [v[0], v[1], {'units': UNITS} if n in TIME_NAMES and 'units' not in v[2] else
                {k: (UNITS if k == 'units' else a) for k, a in v[2].items()} if n in TIME_NAMES else v[2]] for n, v in variables.items()}


def common_time_name(variables, coords):
    dims = used(variables)
    if 'num_times' in dims or 'num_test_times' not in dims:
        return variables, coords
    new = lambda n: 'num_times' if n == 'num_test_times' else n
    return {new(n): [tuple([new(d) for d in v[0]]), v[1], v[2]] for n, v in variables.items()}, [new(c) for c in coords]


def one_file(layout, decode):
    variables = {n: names_decoded(dims, data, attrs) for n, dims, data, attrs in layout}
    coords = [n for n, dims, data, attrs in layout if dims == (n,)]
    dims = used(variables)
    for key, value in COORDS:
        if key in dims and value in variables:
            variables[key] = variables[value]
            if key not in coords:
                coords.append(key)
    return finished(variables, coords, decode)


def many_files(layout, root, nc, decode):
    variables = {n: [dims, data, dict(attrs)] for n, dims, data, attrs in layout}
    coords = [n for n, dims, data, attrs in layout if dims == (n,)]
    nc_data = {n: data for n, dims, data, attrs in nc}
    for key, value in (('num_flts', 'FLTs'), ('num_test_times', 'test_times')):
        if key in used(variables) and key not in coords:
            variables[key] = [(key,), nc_data[value], {}]
            coords.append(key)
    if 'Xs' not in variables:
        for n, dims, data, attrs in root:
            if n in ('Xs', 'Ys'):
                variables[n] = [dims, data, {}]
    return finished(variables, coords, decode)


def finished(variables, coords, decode):
    variables = with_units(variables)
    variables, coords = common_time_name(variables, coords)
    return content(variables, coords, decode)


def content(variables, coords, decode):
    return [(n, n in coords, variables[n][0], decoded(variables[n][1], variables[n][2]) if decode else variables[n][1],
             [(k, variables[n][2][k]) for k in sorted(variables[n][2]) if k != 'units' or not decode]) for n in sorted(variables)]


def content_of(ds):
    return content(ds._vars, ds._coords, False)


def station_index(rank, total):
    return [rank + i / total for i in range(total)]


# ------------------------------------------------------------ grids

def grid_text(mat):
    rows = ['(' + ', '.join(['nan' if np.isnan(e) else str(e) for e in mat[i]]) + '),\n' for i in range(mat.shape[0])]
    return '[' + str(mat.shape[0]) + ', ' + str(mat.shape[1]) + ']\n' + '(\n' + ''.join(rows) + ')'
