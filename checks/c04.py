"""C04: file-system effects stay inside the working directory"""
from checks.common import *

RULE = ('Every file-system operation reachable from constructors, setters and metrics is collected with its path term by abstract interpretation. Without a working directory there may be none, except the integration buffer when '
        'low-memory integration is asked for; with one, every path must be the directory itself or lie below it (the buffer: below the configured integration directory). Without start_from_scratch nothing that was there is removed.')
ASSUMPTIONS = ['numbers spelled into file names contain no path separator', 'libraries write no files of their own accord']
FS = {'open_w', 'open_r', 'dump', 'load', 'remove', 'rmtree', 'makedirs', 'replace', 'move', 'copyfile', 'write', 'memmap_create', 'memmap_open', 'chdir', 'system', 'open_handle'}
HOME = tm.sym('wd', 'str')
WD2 = strcat([const('/other/'), tm.sym('wd2', 'str')])
IDIR = strcat([const('/ibuf/'), tm.sym('idir', 'str')])
DELETE = {'remove', 'rmtree'}


def parts(p):
    """name as its literal and opaque pieces"""
    if p.op in ('expand', 'abspath', 'path'):
        return parts(p.args[0])
    if p.op == 'tmpname':
        return parts(p.args[0]) + [const('/'), T('tmp', *p.args[1:])]
    if p.op == 'str':
        return sum((parts(x) for x in p.args), [])
    return [p]


def below(p, d, itself=True):
    """p lies below directory d, whatever the symbols stand for"""
    ps, ds = parts(p), parts(d)
    if ds == [const('.')] and is_strc(ps[0]) and not cval(ps[0]).startswith(('/', '~')):
        # relative to the current directory
        return not any('..' in cval(x).split('/') for x in ps if is_strc(x))
    if ps == ds:
        return itself
    if len(ps) < len(ds) or ps[:len(ds) - 1] != ds[:-1]:
        return False
    a, b = ps[len(ds) - 1], ds[-1]
    rest = ps[len(ds):]
    if a is b:
        if not rest or not is_strc(rest[0]) or not cval(rest[0]).startswith('/'):
            return False
    else:
        if not (is_strc(a) and is_strc(b) and cval(a).startswith(cval(b) + '/')):
            return False
        rest = [const(cval(a)[len(cval(b)):])] + rest
    return not any('..' in cval(x).split('/') for x in rest if is_strc(x))


def ites(p):
    for x in tm.walk(p):
        if x.op == 'ite':
            return ites(tm.subst(p, {x: x.args[1]})) + ites(tm.subst(p, {x: x.args[2]}))
    return [p] if p is not NONE else []


def paths(e):
    if e.kind in ('replace', 'move', 'copyfile'):
        return [q for d in e.data[:2] for q in ites(d)]
    if e.kind in ('system', 'open_handle'):
        return []
    return ites(e.data[0])


def confined(C, r, dirs, buffers, what, where, keep=False):
    """every effect of every exit"""
    logs = [r.S.log] if r.ok else []
    logs += [l.state.log for l in r.leaves]
    if not logs:
        raise Undecided('no exit')
    n = 0
    seen = set()
    for log in logs:
        made = set()
        for e in log:
            if e.kind not in FS or id(e) in seen:
                continue
            seen.add(id(e))
            n += 1
            at = '%s:%s' % e.site
            if e.kind in ('system', 'chdir', 'open_handle'):
                raise Violated('%s: %s' % (what, e.kind), where=at)
            for p in paths(e):
                ok = any(below(p, d) for d in dirs)
                buf = any(below(p, d, False) for d in buffers)
                if not ok and not buf:
                    raise Violated('%s: %s of %s, which is outside %s' % (what, e.kind, show(p, 8), ' and '.join(show(d, 6) for d in dirs + buffers) or 'anything allowed (no working directory)'), where=at)
            if e.kind in ('open_w', 'memmap_create'):
                made |= set(paths(e))
            if keep and e.kind in DELETE:
                for p in paths(e):
                    if p not in made and p.op != 'tmpname':
                        raise Violated('%s: %s of %s although start_from_scratch is off' % (what, e.kind, show(p, 8)), where=at)
    return '%d file-system effects' % n


def obj(C, cls, rank, v, env_=None, config=None, **ctor):
    e = dict(v.get('env_', {}), **(env_ or {}))
    return Case(C, cls, rank, (0,), config=config, **dict(v, env_=e, **ctor))


def buffers(v, wd, idir):
    if str(v.get('env_', {}).get('integrate_with_less_memory', 'False')) == 'True' or v.get('env_', {}).get('integrate_with_less_memory', 'False') is None:
        return [idir] if idir is not None else [wd] if wd is not None else [const('.')]
    return []


def is_dir(p):
    return not any(x.op == 'const' and str(x.args[-1]).endswith('.pkl') for x in tm.walk(p))


def metric(C, cls, rank, v, m, kw, mode, idir):
    where = anchor(C, cls, m)
    env_ = {'integrate_wdir': idir} if idir is not None else {}
    if mode in ('none', 'empty'):
        c = obj(C, cls, rank, v, env_, EMPTY, **(dict(working_directory='') if mode == 'empty' else {}))
        r = c.s.run(m, **kw)
        return confined(C, r, [], buffers(v, None, idir), '%s.%s without a working directory' % (cls, mtag(m, kw)), where)
    if mode in ('fresh', 'home', 'keep'):
        wd = HOME if mode == 'home' else WD
        k = dict(working_directory=wd)
        if mode == 'keep':
            k['start_from_scratch'] = False
        conf = EMPTY
        if mode == 'keep':
            first = obj(C, cls, rank, v, env_, EMPTY, working_directory=wd)
            r = first.s.run(m, **kw)
            if not r.ok:
                raise Undecided('no normal result')
            files = saved(r.S)
            conf = dict(exists=lambda I, p: TRUE if p in files or is_dir(p) else FALSE, load=lambda I, p: files.get(p))
        c = obj(C, cls, rank, v, env_, conf, **k)
        if mode == 'home':
            c.s.I.S.facts[tm.T('truth', HOME)] = True
            c.s.I.S.facts[cmp_('eq', HOME, const(''))] = False
        r = c.s.run(m, **kw)
        return confined(C, r, [wd], buffers(v, wd, idir), '%s.%s with working directory %s' % (cls, mtag(m, kw), show(wd)), where, keep=mode == 'keep')
    # changes of the working directory
    c = obj(C, cls, rank, v, env_, EMPTY, working_directory=WD)
    s = c.s

    def go(s):
        s.meth(m, **kw)
        n = len(s.I.S.log)
        if mode == 'disabled':
            s.meth('disable_saving')
        else:
            s.meth('enable_saving', WD2)
        s.mark = len(s.I.S.log)
        return s.meth(m, **kw)
    r = s.do(go)
    if not r.ok:
        raise Undecided('no normal result')
    k = s.mark

    class R:
        pass
    q = R()
    q.ok, q.leaves, q.S = True, [], R()
    q.S.log = r.S.log[k:]
    dirs = [] if mode == 'disabled' else [WD2]
    return confined(C, q, dirs, buffers(v, None if mode == 'disabled' else WD2, idir), '%s.%s after %s' % (cls, mtag(m, kw), 'disable_saving' if mode == 'disabled' else 'enable_saving(other directory)'), where)


def setting(C, cls, rank, calls, ctor, dirs, keep, what):
    s = Sc(C, cls, rank, **ctor)

    def go(s):
        for q, a in calls:
            s.meth(q, *a)
        return Val(NONE)
    return confined(C, s.do(go), dirs, [], '%s %s' % (cls, what), anchor(C, cls, '_validate'), keep)


def setters(cls):
    yield 'set_avg_axis', [0]
    yield 'set_boot_samples', [N]
    yield 'disable_boot', []
    if cls == 'VerifyEnsemble':
        yield 'set_ensemble_axis', [-1]
        yield 'set_collapse_func', [Ext('numpy.median')]
    if cls in PROB:
        yield 'set_move_sampled_ens_axis', [0]
        yield 'set_ensemble_members', [KM]
        yield 'set_member_clip', [fsym('clip')]
        yield 'set_truncation', [False]
    if cls.endswith('Hurdle'):
        yield 'set_bins', [isym('bins')]
        yield 'set_integration_range', [fsym('lo'), fsym('hi')]


def run(C):
    ranks = (2,) if C.tier == 'quick' else (1, 2, 3)
    vs = list(variants(C.tier)) + [('VerifyProbGammaHurdle', dict(env_=dict(integrate_with_less_memory='True', tqdm_workers='4'))), ('VerifyProbGammaHurdle', dict(env_=dict(integrate_with_less_memory=None)))]
    for cls, v in vs:
        cat = [x for x in catalog(cls, 'members' in v) if can(cls, v, x[0])]
        for rank in ranks:
            for m, kw in cat:
                if m in ('corr', 'binned_spread_skill') and v.get('env_', {}).get('integrate_with_less_memory', '') is None:
                    continue
                for mode in ('none', 'empty', 'fresh', 'home', 'keep', 'disabled', 'moved'):
                    for idir in (None, IDIR) if cls.endswith('Hurdle') else (None,):
                        C.ob('%s of %s rank=%d %s%s' % (mtag(m, kw), vtag(cls, v), rank, mode, ' own integration directory' if idir is not None else ''), metric, C, cls, rank, v, m, kw, mode, idir)
    for cls in CLASSES:
        for rank in ranks:
            sets = list(setters(cls))
            C.ob('%s constructor and setters without a directory rank=%d' % (cls, rank), setting, C, cls, rank, sets, {}, [], False, 'constructor and setters without a working directory')
            for name, a in sets + [('enable_saving', [WD]), ('disable_saving', [])]:
                for keep in (False, True):
                    if name == 'enable_saving' and keep:
                        a = [WD, False]
                    ctor = dict(working_directory=WD, start_from_scratch=not keep)
                    C.ob('%s.%s rank=%d keep=%s' % (cls, name, rank, keep), setting, C, cls, rank, [(name, a)], ctor, [WD], keep, name)
