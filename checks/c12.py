"""C12: integration restores settings and releases resources on every exit"""
from checks.common import *

RULE = ('Typestate over all exits: CRPS, mean and variance by integration are interpreted abstractly, serial and parallel, with and without the buffer file; every program point that can raise (library calls, file and ray operations, undecided '
        'assertions, in the driver and in the workers) is numbered, and the run is repeated with an exception at each of them. On every exit, normal or exceptional, the environment variables must have their previous meaning, a buffer file that '
        'was created must have been removed, and a ray instance that the integration started must have been shut down. An operation of the cleanup itself that fails is only excused for what it should have released.')
ASSUMPTIONS = ['exceptions arise at calls, not between bytecodes (asynchronous interrupts are not considered)', 'a failed library call has no effect, except that creating the buffer file may already have created it']
TRUE_S, FALSE_S = ('y', 'yes', 't', 'true', 'on', '1'), ('n', 'no', 'f', 'false', 'off', '0')


def meaning(k, t):
    if t is None or not is_const(t):
        return t
    v = cval(t)
    if isinstance(v, str) and k.endswith(('disable', 'leave', 'less_memory', 'skip_nan', 'along_0', 'tensorflow_math')):
        return True if v.lower() in TRUE_S else False if v.lower() in FALSE_S else v
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            return v
    return v


def flat(st):
    """all alternatives of a resource state"""
    if isinstance(st, tuple) and st and st[0] == 'cond':
        return flat(st[2]) + flat(st[3])
    return [st]


def settled(S, env0, ray0, what, fault, excuse):
    at = ' (exception raised by %s at %s:%s)' % (' '.join(map(str, fault[0]))[:120], fault[1][0], fault[1][1]) if fault else ''
    where = '%s:%s' % fault[1] if fault else None
    for k in sorted(set(env0) | set(S.osenv)):
        a, b = env0.get(k), S.osenv.get(k)
        if a is not b and meaning(k, a) != meaning(k, b):
            raise Violated('%s leaves %s=%s; it was %s%s' % (what, k, show(b) if b is not None else 'unset', show(a) if a is not None else 'unset', at), where=where)
    made = {e.data[0] for e in S.log if e.kind == 'memmap_create'}
    if fault and fault[0][0] == 'memmap' and fault[0][1] == 'w+':
        pass
    for p in made:
        if 'file' in excuse:
            continue
        st = S.res.get(('fs', p))
        if any(x != 'absent' for x in flat(st)):
            raise Violated('%s leaves its buffer file %s behind%s' % (what, show(p, 6), at), where=where)
    if 'ray' not in excuse:
        if any(x != ray0 for x in flat(S.res.get('ray', 0))):
            raise Violated('%s %s%s' % (what, 'leaves the workers it started running' if not ray0 else 'shuts down workers it did not start', at), where=where)
    for e in S.log:
        if e.kind in ('chdir', 'printoptions', 'seed'):
            raise Undecided('%s during an integration' % e.kind)


def case(C, cls, rank, v, env_, direct, which, ray0):
    c = Case(C, cls, rank, (0,), config=EMPTY, **dict(v, env_=env_))
    I = c.s.I
    if ray0:
        I.S.res['ray'] = 1
    env0 = {}

    def go(s):
        env0.update(s.I.S.osenv)
        s.ev0 = len(s.I.events)
        if not direct:
            return s.meth({'mean': 'f_determ'}.get(which, which))
        integ = C.W.import_name(s.I, 'PyAnEn.utils_approximation', 'Integration')
        ob = s.I.call(integ, [s.obj], {k: lift(s.I, x) for k, x in direct.items()})
        return s.I.call(s.I.getattr(ob, which), [], {})
    return c.s, go, env0


def integration(C, cls, rank, v, env_, direct, which, ray0):
    what = '%s of %s by integration' % (which, cls)
    s, go, env0 = case(C, cls, rank, v, env_, direct, which, ray0)
    r = s.do(go)
    if not ray0:
        value(r, what)
    events = list(s.I.events)
    n0 = s.ev0
    for S in ([r.S] if r.ok else []) + [l.state for l in r.leaves]:
        settled(S, env0, ray0, what, None, ())
    if not r.ok and not r.leaves:
        raise Undecided('no exit')
    n = 0
    for i, exc in [(i, x) for i in range(n0, len(events)) for x in ('Fault', 'KeyboardInterrupt')]:
        s, go, env0 = case(C, cls, rank, v, env_, direct, which, ray0)
        s.I.fault_at = i
        s.I.fault_exc = exc
        r = s.do(go)
        ev = s.I.events[i] if len(s.I.events) > i else events[i]
        excuse = set()
        if ev[0][0] == 'fs' and ev[0][1] == 'remove':
            excuse.add('file')
        if ev[0][:2] == ('ray', 'shutdown'):
            excuse.add('ray')
        for S in ([r.S] if r.ok else []) + [l.state for l in r.leaves]:
            settled(S, env0, ray0, what, ev, excuse)
        n += 1
    return '%d program points made to fail' % n


def run(C):
    quick = C.tier == 'quick'
    ranks = (2,) if quick else (1, 2, 3)
    base = dict(tqdm_disable='False', tqdm_workers='1', integrate_with_less_memory='False')
    vs = [('VerifyProbGammaHurdle', {}), ('VerifyProbGammaHurdle', dict(integration_range=(fsym('lo'), fsym('hi')), n_approx_bins=isym('bins'))), ('VerifyProbGammaHurdle', dict(working_directory=WD)), ('VerifyProbGammaHurdle', dict(boot=N))]
    for which in ('crps', 'mean', 'variance'):
        for rank in ranks:
            for w in ('1', '4'):
                for less in ('False', 'True'):
                    for dis in ('False', 'True', 'no'):
                        env_ = dict(base, tqdm_workers=w, integrate_with_less_memory=less, tqdm_disable=dis)
                        tag = 'rank=%d workers=%s less_memory=%s tqdm_disable=%s' % (rank, w, less, dis)
                        for cls, v in vs:
                            C.ob('%s of %s %s' % (which, vtag(cls, v), tag), integration, C, cls, rank, v, env_, None, which, 0)
                        if w == '4':
                            C.ob('%s with ray already running, %s' % (which, tag), integration, C, 'VerifyProbGammaHurdle', rank, {}, env_, None, which, 1)
                        for cls in ('VerifyProbGaussian', 'VerifyEnsemble'):
                            for d in (dict(workers=1, less_memory=True, memmap_dir='/scratch'), dict(workers=3, less_memory=False), dict(workers=3, less_memory=True)):
                                C.ob('Integration(%s, %s).%s %s' % (cls, mtag('', d), which, tag), integration, C, cls, rank, {}, env_, d, which, 0)
