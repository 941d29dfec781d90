"""C05: a saved result is complete or absent"""
from checks.common import *

RULE = ('The file-system effects of every saving metric are collected in order by abstract interpretation, and replayed up to every point (process death) and for an exception raised at every file-system operation, keeping for each file '
        'whether its content is complete. For every state reached, the same call is then interpreted in a new object that finds those files: it may not load one whose content is partial.')
ASSUMPTIONS = ['a rename within one directory is atomic', 'the new process meets the files that the dead one left, and no others', 'data is complete once the file was closed or flushed after writing (a crash of the process, not of the operating system)']


def dirname(p):
    ps = list(p.args) if p.op == 'str' else [p]
    out = []
    for x in ps:
        out.append(x)
    while out:
        x = out.pop()
        if is_strc(x) and '/' in cval(x):
            return out + [const(cval(x).rsplit('/', 1)[0])]
    return []


def crashes(log, base=()):
    """states of the files after every effect: path -> 'partial' | 'open' | 'whole'"""
    st = dict(base)
    n = len(log)
    for i, e in enumerate(log):
        k = e.kind
        if k == 'open_w':
            if 'a' in e.data[1] or 'r' in e.data[1]:
                st[e.data[0]] = 'partial'
            else:
                st[e.data[0]] = 'partial'
        elif k in ('dump', 'write'):
            st[e.data[0]] = 'open'
        elif k in ('close', 'flush'):
            if st.get(e.data[0]) == 'open':
                st[e.data[0]] = 'whole'
        elif k == 'memmap_create':
            st[e.data[0]] = 'partial'
        elif k in ('replace', 'move', 'copyfile'):
            a, b = e.data[:2]
            s = st.get(a, 'whole')
            if s == 'open' and not any(x.kind == 'close' and x.data[0] is a for x in log[i:]):
                raise Undecided('%s is renamed without having been closed explicitly' % show(a, 6))
            if k == 'copyfile' or k == 'move' and dirname(a) != dirname(b):
                st[b] = 'partial'
                yield e, dict(st)
            st[b] = 'partial' if s == 'open' else s
            if k != 'copyfile':
                st.pop(a, None)
        elif k == 'remove':
            st.pop(e.data[0], None)
        elif k == 'rmtree':
            for p in list(st):
                if e.data[0] in tm.walk(p) or p is e.data[0]:
                    st.pop(p)
        else:
            continue
        yield e, dict(st)


def is_dir(p):
    return not any(x.op == 'const' and isinstance(x.args[-1], str) and ('.pkl' in x.args[-1] or '.tmp' in x.args[-1]) for x in tm.walk(p))


def contents(log):
    out = {}
    for e in log:
        if e.kind == 'dump':
            out[e.data[0]] = e.data[1]
        elif e.kind in ('replace', 'move', 'copyfile') and e.data[0] in out:
            out[e.data[1]] = out[e.data[0]]
    return out


def later(C, cls, rank, v, m, kw, st, e, data, what, where, done):
    key = frozenset((p, s) for p, s in st.items())
    if key in done or all(s == 'whole' for s in st.values()):
        return 0
    done.add(key)
    cfg = dict(load=lambda I, p: data.get(p), exists=lambda I, p: TRUE if p in st or is_dir(p) else FALSE)
    c = Case(C, cls, rank, (0,), config=cfg, working_directory=WD, start_from_scratch=False, **v)
    r = c.s.run(m, **kw)
    for log in ([r.S.log] if r.ok else []) + [l.state.log for l in r.leaves]:
        rewritten = set()
        for x in log:
            if x.kind in ('open_w', 'replace', 'move', 'copyfile', 'memmap_create', 'remove'):
                rewritten |= set(x.data[:2])
            if x.kind in ('load', 'memmap_open', 'open_r') and x.data[0] in st and x.data[0] not in rewritten and st[x.data[0]] != 'whole':
                raise Violated('%s: when the process dies (or an exception leaves) after %s at %s:%s, %s is incomplete, and a later run loads it at %s:%s' % (
                    what, e.kind, e.site[0], e.site[1], show(x.data[0], 8), x.site[0], x.site[1]), where='%s:%s' % e.site)
    return 1


def metric(C, cls, rank, v, m, kw):
    where = anchor(C, cls, m)
    what = '%s.%s' % (cls, mtag(m, kw))
    c = Case(C, cls, rank, (0,), config=EMPTY, working_directory=WD, **v)
    r = c.s.run(m, **kw)
    value(r, what)
    if not any(e.kind in ('open_w', 'dump', 'write') for e in r.S.log):
        raise Undecided('nothing is saved')
    done, n, k = set(), 0, 0
    for log in [r.S.log] + [l.state.log for l in r.leaves]:
        data = contents(log)
        for e, st in crashes(log):
            n += 1
            k += later(C, cls, rank, v, m, kw, st, e, data, what, where, done)
    return '%d points, %d later runs' % (n, k)


def faulted(C, cls, rank, v, m, kw):
    where = anchor(C, cls, m)
    what = '%s.%s, with an exception while saving' % (cls, mtag(m, kw))
    c = Case(C, cls, rank, (0,), config=EMPTY, working_directory=WD, **v)
    r = c.s.run(m, **kw)
    value(r, what)
    ev = [i for i, x in enumerate(c.s.I.events) if x[0][0] == 'fs']
    if not ev:
        raise Undecided('no file-system operation')
    data = contents(r.S.log)
    done, n, k = set(), 0, 0
    for i in ev:
        c = Case(C, cls, rank, (0,), config=EMPTY, working_directory=WD, **v)
        c.s.I.fault_at = i
        r = c.s.run(m, **kw)
        n += 1
        for log in ([r.S.log] if r.ok else []) + [l.state.log for l in r.leaves]:
            for e, st in crashes(log):
                k += later(C, cls, rank, v, m, kw, st, e, data, what, where, done)
    return '%d faults, %d later runs' % (n, k)


def run(C):
    ranks = (2,) if C.tier == 'quick' else (1, 2, 3)
    for cls, v in variants(C.tier):
        for m, kw in catalog(cls, 'members' in v):
            if not can(cls, v, m):
                continue
            for rank in ranks:
                C.ob('process death during %s of %s rank=%d' % (mtag(m, kw), vtag(cls, v), rank), metric, C, cls, rank, v, m, kw)
                if C.tier == 'thorough' or not v or m == 'crps':
                    C.ob('exception during %s of %s rank=%d' % (mtag(m, kw), vtag(cls, v), rank), faulted, C, cls, rank, v, m, kw)
