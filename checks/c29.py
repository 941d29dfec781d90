"""C29: writing and reading grids"""
from checks.common import *
from checks.c23 import World, var, layout, ROOT
from vsa.drive import run as drive

RULE = ('write_matrix() is interpreted abstractly for every rank, existing or missing target and overwrite setting; the text written, in order, is assembled into one term that must be the documented form, '
        'nothing may be opened for writing when the matrix is refused, and every exit (also with each file operation made to fail) must have closed the file. '
        'read_station_coordinates() is interpreted against the model of the file used for C23.')
ASSUMPTIONS = ['spec/xr.py models the xarray operations used', 'the text form of a number is that of str(); the built-in writes text in order']


def pieces(t):
    """a text term as a flat list of constant and opaque parts"""
    if t.op == 'str':
        return [p for x in t.args for p in pieces(x)]
    if t.op == 'const' and isinstance(t.args[0], str):
        return [t]
    if t.op == 'strjoin' and t.args[0] is const(''):
        if t.args[1].op in ('list', 'tuple'):
            return [p for x in t.args[1].args for p in pieces(x)]
    return [t]


def text(ts):
    out = []
    for t in ts:
        for p in pieces(t):
            if p.op == 'const' and out and out[-1].op == 'const':
                out[-1] = const(out[-1].args[0] + p.args[0])
            elif p is not const(''):
                out.append(p)
    return tm.T('str', *out)


def joined(t):
    return t if t.op == 'strjoin' else tm.T('strjoin', const(''), t)


def written(S, path):
    """the text in the file at a normal exit, as one term; None when it was never opened for writing"""
    out, mode, target = None, None, path
    for e in S.log:
        if e.kind in ('replace', 'move') and e.data[1] is path:
            target = e.data[0]
    last = None
    for e in S.log:
        if e.kind == 'open_w' and e.data[0] is target:
            if 'a' in str(e.data[1]):
                raise Violated('the file is opened for appending', 'PyAnEn/Grid.py', 'append')
            out = []
        if e.kind == 'write' and e.data[0] is target:
            x = e.data[1]
            if e.data[2] == 'writelines':
                x = joined(x)
            if e.loops:
                loops = tuple(e.loops)
                x = ('loop', loops, x)
            out = (out or []) + [x]
    if out is None:
        return None
    res, i = [], 0
    while i < len(out):
        if isinstance(out[i], tuple):
            j = i
            while j < len(out) and isinstance(out[j], tuple) and out[j][1] == out[i][1]:
                j += 1
            res.append(unrolled(out[i][1], [o[2] for o in out[i:j]]))
            i = j
        else:
            res.append(out[i])
            i += 1
    return text(res)


def unrolled(loops, xs):
    body = text(xs)
    if len(body.args) == 1:
        body = body.args[0]
    for i, n in reversed(loops):
        body = tm.T('strjoin', const(''), lam_map(n, i, body))
    return body


def lam_map(n, i, body):
    from vsa.interp import lam_map as lm
    return lm(n, i, body)


def closed(S, what):
    n = 0
    for e in S.log:
        if e.kind == 'open_w':
            n += 1
        if e.kind == 'close':
            n -= 1
    if n > 0:
        raise Violated('the file stays open %s' % what, 'PyAnEn/Grid.py', 'close')


def case(C, rank, exists, overwrite, fault=None, exc='Fault'):
    config = dict(exists=lambda I, p: const(exists)) if exists is not None else {}
    I = C.interp(**config)
    env(I)
    path = fsym('path')
    if fault is not None:
        I.fault_at, I.fault_exc = fault, exc
    kw = {} if overwrite is None else dict(overwrite=overwrite)
    r = fcall(C, 'PyAnEn.Grid', 'write_matrix', [path, A('mat', shape(rank)) if rank <= 3 else A('mat', shape(3) + (dim('E'),))], kw, I=I)
    return r, I, path


def writes(C, rank, exists, overwrite):
    r, I, path = case(C, rank, exists, overwrite)
    refused = rank != 2 or exists and not overwrite
    for S in ([r.S] if r.ok else []) + [l.state for l in r.leaves]:
        if refused and any(e.kind in ('open_w', 'remove', 'replace', 'move', 'copyfile', 'dump') for e in S.log):
            raise Violated('the target is touched although the matrix must be refused', 'PyAnEn/Grid.py', 'touched')
        closed(S, 'at an exit')
    if refused:
        if r.ok:
            raise Violated('write_matrix must refuse %s' % ('an array of rank %d' % rank if rank != 2 else 'to replace an existing file'), 'PyAnEn/Grid.py', 'refuse')
        return
    value(r, 'write_matrix')
    if r.term is not tm.TRUE:
        raise Violated('write_matrix must return True when everything is written', 'PyAnEn/Grid.py', 'true')
    got = written(r.S, path)
    if got is None:
        raise Violated('nothing is written', 'PyAnEn/Grid.py', 'nothing')
    want = text([spec(C, 'xr.grid_text', A('mat', shape(2)))])
    require_equal(got, want, 'the text written is not the documented form', where='PyAnEn/Grid.py')


def faults(C, overwrite):
    r, I, path = case(C, 2, False, overwrite)
    n = len(I.events)
    for i in range(n):
        for exc in ('Fault', 'KeyboardInterrupt'):
            r, I, path = case(C, 2, False, overwrite, i, exc)
            for S in ([r.S] if r.ok else []) + [l.state for l in r.leaves]:
                if I.events[i][0][:2] == ('fs', 'open_w'):
                    continue
                closed(S, 'when %s fails' % str(I.events[i][0])[:60])
    return '%d program points made to fail' % n


def reads(C, group, names, tt, fault):
    lay = layout('', '', tt, '', '', False) + [var('Xs', ROOT), var('Ys', ROOT), var('Lon', ROOT), var('Lat', ROOT)]
    kw = {}
    if group is not None:
        kw['group'] = group
    if names:
        kw['var_x'], kw['var_y'] = names
    out = {}

    def attempt(at, exc):
        w = World(C)

        def go():
            w.set(files=lay)
            out['n'] = len(w.I.events)
            if at is not None:
                w.I.fault_at, w.I.fault_exc = at, exc
            return w.call('PyAnEn.Grid', 'read_station_coordinates', fsym('path'), **kw)
        r = drive(w.I, go)
        end = len(w.I.events)
        w.I.fault_at = None
        for S in ([r.S] if r.ok else []) + [l.state for l in r.leaves]:
            w.I.S = S
            if at is None and w.I.read(w.call('spec.xr', 'still_open')).args:
                raise Violated('the file stays open after reading', 'PyAnEn/Grid.py', 'open')
            if at is None:
                out['calls'] = w.I.read(w.get('calls'))
        return w, r, end
    w, r, end = attempt(None, None)
    got = value(r, 'read_station_coordinates')
    x, y = names or ('Xs', 'Ys')
    require_equal(got, drive(w.I, lambda: lift(w.I, tuple([A('v_' + x, (isym('S'),)), A('v_' + y, (isym('S'),))]))).term, 'the coordinates must be those of the requested variables', where='PyAnEn/Grid.py')
    require_equal(out['calls'], drive(w.I, lambda: lift(w.I, [('open_dataset', fsym('path'), group, 'no preprocessing')])).term, 'the requested group of the file must be opened', where='PyAnEn/Grid.py')


def free(c):
    return {x.args[0].split('#')[0] for x in tm.walk(c) if x.op == 'sym'}


def missing(C, which):
    lay = [var(n, ROOT) for n in ('Xs', 'Ys') if n != which]
    w = World(C)

    def go():
        w.set(files=lay)
        return w.call('PyAnEn.Grid', 'read_station_coordinates', fsym('path'))
    r = drive(w.I, go)
    if r.ok:
        raise Violated('coordinates that are not in the file are returned', 'PyAnEn/Grid.py', 'missing')
    for l in r.leaves:
        w.I.S = l.state
        if w.I.read(w.call('spec.xr', 'still_open')).args:
            raise Violated('the file stays open when %s is missing' % which, 'PyAnEn/Grid.py', 'open')


def unequal(C):
    lay = [var('Xs', ROOT), var('Ys', ('num_flts',))]
    w = World(C)

    def go():
        w.set(files=lay)
        return w.call('PyAnEn.Grid', 'read_station_coordinates', fsym('path'))
    r = drive(w.I, go)
    # an assertion is recorded as a requirement; without one or a raise nothing tells the lengths apart
    said = [e.data[0] for e in r.S.log if e.kind == 'require'] if r.ok else []
    if r.ok and not r.leaves and not any('S' in free(c) and 'L' in free(c) for c in said):
        raise Violated('different numbers of coordinates are accepted', 'PyAnEn/Grid.py', 'unequal')


def run(C):
    for rank in (0, 1, 2, 3, 4):
        for exists in (False, True):
            for overwrite in (None, False, True):
                C.ob('write_matrix rank=%d exists=%s overwrite=%s' % (rank, exists, overwrite), writes, C, rank, exists, overwrite)
    for overwrite in (None, True):
        C.ob('write_matrix closes the file when an operation fails, overwrite=%s' % overwrite, faults, C, overwrite)
    for group in (None, 'g'):
        for names in (None, ('Lon', 'Lat')):
            for tt in ('', 'v', 'vc'):
                C.ob('read_station_coordinates group=%s names=%s test times=%s' % (group, names, tt), reads, C, group, names, tt, None)
    for which in ('Xs', 'Ys'):
        C.ob('read_station_coordinates without %s' % which, missing, C, which)
    C.ob('read_station_coordinates with unequal numbers', unequal, C)
