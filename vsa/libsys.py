"""Model of the operating-system side of the analysed program: environment,
file system, memory maps, process pools, ray, progress bars, pickling."""
import ast
import os
import re
from .interp import *
from .lib import strcat, tostr
from . import terms as tm

POOLS = {'concurrent.futures.ProcessPoolExecutor', 'concurrent.futures.ThreadPoolExecutor', 'multiprocessing.Pool', 'multiprocessing.pool.Pool',
         'multiprocessing.pool.ThreadPool', 'multiprocessing.dummy.Pool', 'concurrent.futures.process.ProcessPoolExecutor',
         'concurrent.futures.thread.ThreadPoolExecutor'}
TQDM = {'tqdm.tqdm', 'tqdm.auto.tqdm', 'tqdm.std.tqdm', 'tqdm.notebook.tqdm', 'tqdm.autonotebook.tqdm'}
TRANGE = {'tqdm.trange', 'tqdm.auto.trange'}
PMAP = {'tqdm.contrib.concurrent.process_map', 'tqdm.contrib.concurrent.thread_map'}
OPENERS = {'xarray.open_dataset', 'xarray.open_mfdataset', 'netCDF4.Dataset', 'xarray.open_dataarray', 'h5py.File', 'xarray.load_dataset'}
NOOP = {'warnings.warn', 'warnings.simplefilter', 'warnings.filterwarnings', 'gc.collect', 'numpy.seterr', 'sys.stdout.flush', 'sys.stderr.flush',
        'sys.stdout.write', 'sys.stderr.write', 'logging.basicConfig', 'os.fsync', 'logging.info', 'logging.debug', 'logging.warning',
        'logging.error', 'time.sleep', 'atexit.register', 'warnings.resetwarnings', 'traceback.print_exc', 'warnings.warn_explicit'}
UNSET = T('envunset')
RE = ('findall', 'search', 'match', 'fullmatch', 'split', 'sub', 'escape', 'compile')


def constant(x):
    if isinstance(x, (list, tuple)):
        return T('list' if isinstance(x, list) else 'tuple', *[constant(y) for y in x])
    return const(x)


def fnsym(name, model):
    s = tm.tmpsym(name, 'fn')
    tm.SYM[s.args[0]]['fnmodel'] = model
    tm.SYM[s.args[0]]['callable'] = True
    return Val(s)


class Sys:
    def __init__(self, lib):
        self.lib = lib
        self.uid = 0

    # ------------------------------------------------------------ environment
    def name(self, I, k):
        if is_strc(k):
            return cval(k)
        raise Unsupported('symbolic environment variable name')

    def cur(self, I, n):
        return I.S.osenv.get(n, T('env', n))

    def env_get(self, I, k):
        if not is_strc(k) and k.op == 'ite':
            return I.branch(k.args[0], lambda: self.env_get(I, k.args[1]), lambda: self.env_get(I, k.args[2]))
        n = self.name(I, k)
        return self.known(I, n, self.cur(I, n))

    def known(self, I, n, t):
        if t is UNSET:
            I.raise_leaf('KeyError', n)
        if t.op == 'ite' and occurs(UNSET, t):
            c, a, b = t.args
            return I.branch(c, lambda: self.known(I, n, a), lambda: self.known(I, n, b))
        I.effect('env_read', n)
        return Val(t)

    def env_set(self, I, k, t):
        if not is_strc(k) and k.op == 'ite':
            I.branch(k.args[0], lambda: self.env_set(I, k.args[1], t) or VNONE, lambda: self.env_set(I, k.args[2], t) or VNONE)
            return
        n = self.name(I, k)
        if kind(t) in ('int', 'float', 'bool', 'none', 'ndarray', 'num'):
            I.raise_leaf('TypeError', 'os.environ value must be str')
        I.effect('env_write', n, t)
        I.S.osenv[n] = t

    def env_has(self, I, k):
        n = self.name(I, k)
        return self.has_t(n, self.cur(I, n))

    def has_t(self, n, t):
        if t is UNSET:
            return FALSE
        if t.op == 'ite':
            return ite(t.args[0], self.has_t(n, t.args[1]), self.has_t(n, t.args[2]))
        if t is T('env', n):
            return T('truth', T('envset', n))
        return TRUE

    def env_del(self, I, k):
        n = self.name(I, k)
        I.effect('env_write', n, UNSET)
        I.S.osenv[n] = UNSET

    def env_snapshot(self, I):
        return Val(T('envsnap', tuple(sorted(I.S.osenv.items()))))

    def snap_get(self, t, n):
        return dict(t.args[0]).get(n, T('env', n))

    def env_update(self, I, v):
        t = I.read(v)
        if t.op == 'envsnap':
            d = dict(t.args[0])
            for n in set(d) | set(I.S.osenv):
                self.env_set(I, const(n), d.get(n, T('env', n)))
            return
        if isinstance(v, Ref) and I.cell(v).kind == 'dict':
            for k, x in I.cell(v).data:
                self.env_set(I, k, I.read(x))
            return
        raise Unsupported('environ.update')

    def environ(self, I, m, args, kwargs):
        if m == 'get':
            k = I.read(args[0])
            d = args[1] if len(args) > 1 else kwargs.get('default', VNONE)
            h = self.env_has(I, k)
            if I.config.get('env_defined', True) and h.op == 'truth':
                h = TRUE
            return I.branch(h, lambda: self.env_get(I, k), lambda: d)
        if m == '__getitem__':
            return self.env_get(I, I.read(args[0]))
        if m == '__contains__':
            return Val(self.env_has(I, I.read(args[0])))
        if m == '__setitem__':
            self.env_set(I, I.read(args[0]), I.read(args[1]))
            return VNONE
        if m == 'pop':
            k = I.read(args[0])
            h = self.env_has(I, k)
            if h.op == 'truth' and I.config.get('env_defined', True):
                h = TRUE
            d = args[1] if len(args) > 1 else None

            def yes():
                v = self.env_get(I, k)
                self.env_del(I, k)
                return v

            def no():
                if d is None:
                    I.raise_leaf('KeyError')
                return d
            return I.branch(h, yes, no)
        if m == 'setdefault':
            k = I.read(args[0])
            h = self.env_has(I, k)

            def no():
                self.env_set(I, k, I.read(args[1]))
                return Val(I.read(args[1]))
            return I.branch(h, lambda: self.env_get(I, k), no)
        if m == 'update':
            for a in args:
                self.env_update(I, a)
            for k, v in kwargs.items():
                self.env_set(I, const(k), I.read(v))
            return VNONE
        if m in ('copy', 'items'):
            return self.env_snapshot(I)
        if m == 'clear':
            for n in list(I.S.osenv):
                self.env_del(I, const(n))
            I.S.res['envcleared'] = True
            return VNONE
        raise Unsupported('os.environ.' + m)

    # ------------------------------------------------------------ paths
    def path(self, I, v):
        t = I.read(v) if isinstance(v, Value) else v
        return self.plain(t)

    def plain(self, t):
        if t.op == 'path':
            return self.plain(t.args[0])
        if t.op == 'file':
            return t.args[0]
        if t.op == 'ite':
            return ite(t.args[0], self.plain(t.args[1]), self.plain(t.args[2]))
        return t

    def join(self, ts):
        parts = []
        for t in ts:
            t = self.plain(t)
            first = t.args[0] if t.op == 'str' else t
            if is_strc(first) and cval(first).startswith('/'):
                # an absolute name replaces what comes before it
                parts = [t]
                continue
            last = parts[-1] if parts else None
            while last is not None and last.op == 'str':
                last = last.args[-1]
            if last is not None and not (is_strc(last) and cval(last)[-1:] in ('', '/')):
                parts.append(const('/'))
            parts.append(t)
        return strcat(parts)

    def under(self, p, d):
        """p lies inside directory d (syntactically)"""
        if p is d:
            return True
        ps = list(p.args) if p.op == 'str' else [p]
        ds = list(d.args) if d.op == 'str' else [d]
        if len(ps) < len(ds):
            return False
        for a, b in zip(ps[:len(ds)], ds):
            if a is not b:
                if is_strc(a) and is_strc(b) and b is ds[-1] and cval(a).startswith(cval(b)):
                    continue
                return False
        if p.op == 'tmpname' or any(x.op == 'tmpname' for x in ps):
            return True
        return True

    # ------------------------------------------------------------ file system state
    def fs(self, I, p):
        r = I.S.res.get(('fs', p))
        if r is not None:
            return r
        if p.op == 'tmpname':
            return 'absent'
        for k, v in I.S.res.items():
            if isinstance(k, tuple) and k[0] == 'wiped' and v and self.under(p, k[1]):
                if v is True:
                    return 'absent' if p is not k[1] else None
                if v[0] == 'cond':
                    return self.condabs(v) if p is not k[1] else None
        return None

    def condabs(self, v):
        if v is True:
            return 'absent'
        if v is None or v is False:
            return None
        return ('cond', v[1], self.condabs(v[2]), self.condabs(v[3]))

    def exists_t(self, I, p, st='?'):
        st = self.fs(I, p) if st == '?' else st
        if st is None:
            if I.config.get('exists') is not None:
                r = I.config['exists'](I, p)
                if r is not None:
                    return r
            return T('exists', p)
        if st == 'absent':
            return FALSE
        if st[0] == 'cond':
            return ite(st[1], self.exists_t(I, p, st[2]), self.exists_t(I, p, st[3]))
        return TRUE

    def load_t(self, I, p, st='?'):
        st = self.fs(I, p) if st == '?' else st
        if st is None:
            if I.config.get('load') is not None:
                r = I.config['load'](I, p)
                if r is not None:
                    return r
            return T('load', p)
        if st == 'absent':
            return T('missingfile', p)
        if st[0] == 'cond':
            return ite(st[1], self.load_t(I, p, st[2]), self.load_t(I, p, st[3]))
        if st[0] == 'data':
            return st[1]
        return T('load', p)

    def fs_event(self, I, what, p):
        I.event(('fs', what, show(p, 5)))

    def open(self, I, a, k):
        p = self.path(I, a[0] if a else k['file'])
        m = I.read(a[1]) if len(a) > 1 else I.read(k['mode']) if 'mode' in k else const('r')
        if p.op == 'fd':
            p = p.args[0]
        mode = cval(m) if is_strc(m) else '?'
        self.uid += 1
        if any(c in mode for c in 'wax+?'):
            self.fs_event(I, 'open_w', p)
            I.effect('open_w', p, mode)
            old = self.fs(I, p)
            if 'a' not in mode and '+' not in mode or 'w' in mode:
                I.S.res[('fs', p)] = ('data', T('partialfile', p))
        else:
            self.fs_event(I, 'open_r', p)
            I.effect('open_r', p)
            I.branch(self.exists_t(I, p), lambda: VNONE, lambda: I.raise_leaf('FileNotFoundError'))
        return Val(T('file', p, mode))

    def dump(self, I, p, t):
        self.fs_event(I, 'dump', p)
        I.effect('dump', p, t)
        I.S.res[('fs', p)] = ('data', t)

    def load(self, I, p):
        self.fs_event(I, 'load', p)
        I.effect('load', p)
        t = self.load_t(I, p)
        if t.op == 'missingfile':
            I.raise_leaf('FileNotFoundError')
        return I.fresh(t)

    def remove(self, I, p):
        self.fs_event(I, 'remove', p)
        I.effect('remove', p)
        I.S.res[('fs', p)] = 'absent'

    def rmtree(self, I, p):
        self.fs_event(I, 'rmtree', p)
        I.effect('rmtree', p)
        for k in list(I.S.res):
            if isinstance(k, tuple) and k[0] == 'fs' and self.under(k[1], p):
                I.S.res[k] = 'absent'
        I.S.res[('wiped', p)] = True
        I.S.res[('fs', p)] = 'absent'

    def tmp(self, I, d, pre, suf):
        self.uid += 1
        return T('tmpname', d, pre, suf, tm.Uid(self.uid) if hasattr(tm, 'Uid') else self.uid)

    # ------------------------------------------------------------ with
    def enter(self, I, v):
        if isinstance(v, Null):
            if v.tag == 'suppress':
                raise Unsupported('contextlib.suppress')
            return v if v.tag in ('pbar', 'tqdm') else v, None
        if isinstance(v, Choice):
            raise Unsupported('with on choice')
        t = I.read(v)
        if t.op == 'file':
            def close():
                I.effect('close', t.args[0])
            return v, close
        if t.op == 'pool':
            return v, None
        if t.op == 'tmpdir':
            def gone():
                self.rmtree(I, t.args[0])
            return Val(t.args[0]), gone
        if t.op == 'closing':
            inner = self.held[t.args[0]]
            return inner, lambda: I.call(I.getattr(inner, 'close'), [], {})
        if t.op == 'exitstack':
            def unwind():
                for f, a, k in reversed(I.S.res.get(('xs', t.args[0]), ())):
                    I.call(f, a, k)
            return v, unwind
        if t.op in ('call', 'mcall', 'store', 'sym', 'attr', 'ite'):
            tag = t

            def closeh():
                I.effect('close_handle', self.handle_of(tag))
            return v, closeh
        raise Unsupported('with on ' + t.op)

    held = {}

    def handle_of(self, t):
        while t.op in ('mcall', 'store', 'attr', 'ite'):
            if t.op == 'ite':
                t = t.args[1]
            else:
                t = t.args[0]
        return t

    # ------------------------------------------------------------ calls
    def ext_call(self, I, q, args, kwargs):
        if q in NOOP:
            return VNONE
        if q.startswith('os.environ.'):
            return self.environ(I, q[11:], args, kwargs)
        if q == 'os.getenv':
            return self.environ(I, 'get', args, kwargs)
        if q == 'os.putenv':
            self.env_set(I, I.read(args[0]), I.read(args[1]))
            return VNONE
        if q in TQDM:
            if args:
                return Null(args[0], 'tqdm')
            if 'iterable' in kwargs:
                return Null(kwargs['iterable'], 'tqdm')
            return Null(None, 'pbar')
        if q in TRANGE:
            return Null(self.lib.b_range(I, args, {}), 'tqdm')
        if q in PMAP:
            I.event(('parallel', q))
            I.effect('parallel', q)
            fn = args[0]
            its = list(args[1:])
            if not its:
                raise Unsupported('process_map without iterables')
            return self.pmap(I, fn, its)
        if q in POOLS:
            return Val(T('pool', q))
        if q == 'concurrent.futures.as_completed':
            return I.fresh(self.permuted(I, args[0]))
        if q == 'joblib.delayed':
            return args[0]
        if q == 'joblib.Parallel':
            return Ext('vsa.identity')
        if q == 'vsa.identity':
            return args[0]
        if q.startswith('ray.') or q == 'ray':
            return self.ray(I, q, args, kwargs)
        if q.startswith('os.path.') or q.startswith('os.') or q.startswith('shutil.') or q.startswith('tempfile.') or q.startswith('glob.'):
            r = self.os_call(I, q, args, kwargs)
            if r is not None:
                return r
        if q.startswith('pathlib.'):
            if q.split('.')[-1] in ('Path', 'PurePath', 'PosixPath'):
                ts = [I.read(a) for a in args]
                return Val(T('path', self.join(ts) if ts else const('.')))
        if q in ('pickle.dump', 'joblib.dump', 'dill.dump', 'cloudpickle.dump', 'json.dump'):
            f = I.read(args[1])
            self.dump(I, self.path(I, args[1]), I.read(args[0]))
            return VNONE
        if q in ('pickle.load', 'joblib.load', 'dill.load', 'json.load', 'pandas.read_pickle'):
            return self.load(I, self.path(I, args[0]))
        if q in ('pickle.dumps', 'dill.dumps'):
            I.event(('pickle.dumps', ''))
            return Val(T('pickled', I.read(args[0])))
        if q in ('pickle.loads', 'dill.loads'):
            t = I.read(args[0])
            if t.op == 'pickled':
                return I.fresh(t.args[0])
            if t.op == 'filebytes':
                return self.load(I, t.args[0])
            return I.fresh(T('unpickled', t))
        if q == 'numpy.save':
            self.dump(I, self.path(I, args[0]), I.read(args[1]))
            return VNONE
        if q == 'numpy.load':
            return self.load(I, self.path(I, args[0]))
        if q in ('numpy.memmap', 'numpy.lib.format.open_memmap'):
            return self.memmap(I, q, args, kwargs)
        if q in ('numpy.errstate', 'numpy.printoptions', 'warnings.catch_warnings', 'contextlib.nullcontext', 'contextlib.suppress', 'contextlib.redirect_stdout', 'contextlib.redirect_stderr'):
            if q.endswith('printoptions'):
                I.effect('printoptions', tuple(sorted((k, I.read(v)) for k, v in kwargs.items())))
            if q.endswith('nullcontext') and args:
                return Null(args[0], 'tqdm')
            return Null(None, 'suppress' if q.endswith('suppress') else 'ctx')
        if q == 'numpy.set_printoptions':
            I.effect('printoptions', tuple(sorted((k, I.read(v)) for k, v in kwargs.items())))
            return VNONE
        if q == 'contextlib.closing':
            self.uid += 1
            self.held[self.uid] = args[0]
            return Val(T('closing', self.uid))
        if q == 'contextlib.ExitStack':
            self.uid += 1
            return Val(T('exitstack', self.uid))
        if q.startswith('re.') and q[3:] in RE:
            return self.regex(I, q[3:], args, kwargs)
        if q == 'functools.partial':
            return Part(args[0], list(args[1:]), dict(kwargs))
        if q == 'functools.reduce':
            return self.reduce(I, args)
        if q in ('functools.wraps', 'functools.lru_cache', 'functools.cache'):
            return Ext('vsa.identity')
        if q in ('copy.copy', 'copy.deepcopy'):
            return self.copy(I, args[0], q.endswith('deepcopy'))
        if q.startswith('itertools.'):
            return self.itertools(I, q[10:], args, kwargs)
        if q.startswith('operator.'):
            return self.operator(I, q[9:], args, kwargs)
        if q in ('collections.OrderedDict', 'collections.defaultdict', 'collections.Counter'):
            if q.endswith('OrderedDict'):
                return self.lib.b_dict(I, args, kwargs)
            if q.endswith('defaultdict') and len(args) <= 1 and not kwargs:
                r = I.new(Cell('dict', ()))
                c = I.cell(r)
                self.defaults[r.loc] = args[0] if args else None
                return r
            raise Unsupported(q)
        if q == 'collections.namedtuple':
            f = I.read(args[1])
            names = cval(f).replace(',', ' ').split() if is_strc(f) else [cval(x) for x in f.args]

            def mk(I2, a, k, names=tuple(names)):
                vals = list(a) + [k[n] for n in names[len(a):]]
                return Tup(vals, names)
            return fnsym('namedtuple', mk)
        if q in ('logging.getLogger',):
            return Null(None, 'log')
        if q.startswith('time.') or q.startswith('datetime.') or q.startswith('uuid.') or q.startswith('random.'):
            if q == 'uuid.uuid4':
                return Val(tm.tmpsym('uuid', 'str'))
            return None
        if q.startswith('threading.') and q.split('.')[-1] in ('Lock', 'RLock'):
            return Null(None, 'lock')
        if q == 'importlib.import_module':
            n = I.read(args[0])
            if is_strc(n):
                return I.world.import_module(I, cval(n))
        if q in OPENERS:
            I.event(('open', q))
            ks = [(str(j), I.read(a)) for j, a in enumerate(args)] + [(k, I.read(a)) for k, a in kwargs.items()]
            self.uid += 1
            t = T('call', q, tuple(sorted(ks)))
            I.effect('open_handle', t)
            return I.new(Cell('arr', t))
        return None

    defaults = {}

    def regex(self, I, n, args, kwargs):
        """regular expressions applied to known text"""
        ts = [I.read(a) for a in args]
        if n == 'compile' and not kwargs and len(ts) == 1 and is_strc(ts[0]):
            return Val(T('regex', ts[0]))
        if ts and ts[0].op == 'regex':
            ts[0] = ts[0].args[0]
        if kwargs or not all(is_strc(x) or is_int(x) for x in ts):
            return None
        r = getattr(re, n)(*[cval(x) for x in ts])
        if isinstance(r, re.Match):
            return I.fresh(T('rematch', const(r.group(0)), *[constant(g) for g in r.groups()]))
        return I.fresh(constant(r))

    def pmap(self, I, fn, its):
        return self.lib.map_values(I, lambda *xs: I.call(fn, list(xs), {}), its)

    def permuted(self, I, v):
        t = self.lib.listterm(I, v)
        return t if t.op == 'perm' else T('perm', t)

    def reduce(self, I, args):
        s = self.lib.iterate(I, args[1])
        if isinstance(s, list):
            if len(args) > 2:
                acc = args[2]
            else:
                if not s:
                    I.raise_leaf('TypeError')
                acc, s = s[0], s[1:]
            for x in s:
                acc = I.call(args[0], [acc, x], {})
            return acc
        if len(args) < 3 or s[0] == 'choice':
            raise Unsupported('functools.reduce')
        fid = I.newframe({'acc': args[2]})
        slot = {}

        def body(f):
            I.setvar(fid, 'acc', I.call(args[0], [I.getvar(fid, 'acc'), slot['v']], {}))
            return True
        I.symloop(s[0], s[1], s[2], lambda v: slot.__setitem__('v', v), body, Flow(), fid)
        return I.getvar(fid, 'acc')

    def copy(self, I, v, deep):
        if isinstance(v, Tup):
            return Tup([self.copy(I, x, deep) if deep else x for x in v.elts], v.names)
        if isinstance(v, Choice):
            return I.branch(v.c, lambda: self.copy(I, v.a, deep), lambda: self.copy(I, v.b, deep))
        if isinstance(v, Ref):
            c = I.cell(v)
            rec = (lambda x: self.copy(I, x, True)) if deep else (lambda x: x)
            if c.kind in ('list', 'set'):
                return I.new(Cell(c.kind, tuple(rec(x) for x in c.data)))
            if c.kind == 'dict':
                return I.new(Cell('dict', tuple((k, rec(x)) for k, x in c.data)))
            if c.kind == 'inst':
                return I.new(Cell('inst', (c.data[0], {k: rec(x) for k, x in c.data[1].items()})))
            return I.new(Cell('arr', I.content(v.loc)))
        return v

    def itertools(self, I, n, args, kwargs):
        L = self.lib
        if n == 'chain':
            r = I.new(Cell('list', ()))
            for a in args:
                L.list_extend(I, r, a)
            return r
        if n == 'chain.from_iterable':
            s = L.iterate(I, args[0])
            if isinstance(s, list):
                return self.itertools(I, 'chain', s, {})
            raise Unsupported('chain.from_iterable')
        if n == 'product':
            ls = [L.iterate(I, a) for a in args]
            if 'repeat' in kwargs:
                ls = ls * cval(I.read(kwargs['repeat']))
            if all(isinstance(s, list) for s in ls):
                out = [[]]
                for s in ls:
                    out = [o + [x] for o in out for x in s]
                return I.new(Cell('list', tuple(Tup(o) for o in out)))
            raise Unsupported('itertools.product of symbolic')
        if n == 'starmap':
            return L.map_values(I, lambda x: I.call(args[0], L.iterate(I, x), {}), [args[1]])
        if n == 'repeat':
            if len(args) == 2:
                i = tm.tmpsym('i', 'int', ())
                return I.fresh(lam_map(I.read(args[1]), i, I.read(args[0])))
            return Val(T('forever', I.read(args[0])))
        if n == 'islice':
            s = [I.read(a) for a in args[1:]]
            if len(s) == 1:
                s = [NONE, s[0], NONE]
            while len(s) < 3:
                s.append(NONE)
            return L.getitem(I, L.b_list(I, [args[0]], {}), Val(T('slice', *s)))
        if n == 'compress':
            raise Unsupported('itertools.compress')
        raise Unsupported('itertools.' + n)

    def operator(self, I, n, args, kwargs):
        L = self.lib
        if n == 'itemgetter':
            ks = list(args)

            def get(I2, a, k):
                vs = [L.getitem(I2, a[0], x) for x in ks]
                return vs[0] if len(vs) == 1 else Tup(vs)
            return fnsym('itemgetter', get)
        if n == 'attrgetter':
            nm = cval(I.read(args[0]))

            def geta(I2, a, k):
                v = a[0]
                for p in nm.split('.'):
                    v = I2.getattr(v, p)
                return v
            return fnsym('attrgetter', geta)
        if n == 'methodcaller':
            nm = cval(I.read(args[0]))
            return fnsym('methodcaller', lambda I2, a, k: I2.call(I2.getattr(a[0], nm), list(args[1:]), dict(kwargs)))
        ops = {'add': ast.Add, 'sub': ast.Sub, 'mul': ast.Mult, 'truediv': ast.Div, 'pow': ast.Pow, 'mod': ast.Mod, 'floordiv': ast.FloorDiv,
               'and_': ast.BitAnd, 'or_': ast.BitOr, 'xor': ast.BitXor, 'matmul': ast.MatMult}
        cmps = {'lt': ast.Lt, 'le': ast.LtE, 'gt': ast.Gt, 'ge': ast.GtE, 'eq': ast.Eq, 'ne': ast.NotEq, 'is_': ast.Is, 'is_not': ast.IsNot}
        if n in ops:
            return L.binop(I, ops[n](), args[0], args[1])
        if n in cmps:
            r = L.compare(I, cmps[n](), args[0], args[1])
            return I.fresh(r)
        if n == 'getitem':
            return L.getitem(I, args[0], args[1])
        if n == 'not_':
            return Val(not_(I.truth(args[0])))
        if n == 'neg':
            return L.unop(I, ast.USub(), args[0])
        raise Unsupported('operator.' + n)

    # ------------------------------------------------------------ os
    def os_call(self, I, q, args, kwargs):
        g = lambda j, n, d=None: args[j] if len(args) > j else kwargs.get(n, d)
        if q == 'os.path.join':
            return Val(self.join([I.read(a) for a in args]))
        if q == 'os.path.expanduser':
            t = self.path(I, args[0])
            if t is NONE:
                I.raise_leaf('TypeError')
            if is_strc(t):
                return Val(t if not cval(t).startswith('~') else T('expand', t))
            if t.op == 'expand' or (t.op == 'str' and (t.args[0].op == 'expand' or is_strc(t.args[0]) and not cval(t.args[0]).startswith('~'))):
                return Val(t)
            return Val(T('expand', t))
        if q in ('os.path.abspath', 'os.path.realpath', 'os.path.normpath'):
            t = self.path(I, args[0])
            return Val(t if t.op == 'abspath' else T('abspath', t))
        if q in ('os.path.exists', 'os.path.isfile', 'os.path.isdir', 'os.path.lexists'):
            return Val(self.exists_t(I, self.path(I, args[0])))
        if q == 'os.fspath':
            return Val(self.path(I, args[0]))
        if q in ('os.path.basename', 'os.path.dirname', 'os.path.splitext', 'os.path.split'):
            t = self.path(I, args[0])
            if is_strc(t):
                return I.fresh(constant(getattr(os.path, q[8:])(cval(t))))
            if t.op == 'str' and q in ('os.path.basename', 'os.path.dirname'):
                ps = list(t.args)
                j = max((j for j, x in enumerate(ps) if is_strc(x) and '/' in cval(x)), default=None)
                if j is not None:
                    a, b = cval(ps[j]).rsplit('/', 1)
                    if q.endswith('basename'):
                        return Val(strcat([const(b)] + ps[j + 1:]))
                    return Val(strcat(ps[:j] + [const(a)]))
            return I.fresh(T('call', q, (('p', t),)))
        if q in ('os.makedirs', 'os.mkdir'):
            p = self.path(I, args[0])
            self.fs_event(I, 'makedirs', p)
            I.effect('makedirs', p)
            I.S.res[('fs', p)] = ('dir',)
            return VNONE
        if q == 'shutil.rmtree':
            self.rmtree(I, self.path(I, args[0]))
            return VNONE
        if q in ('os.remove', 'os.unlink'):
            self.remove(I, self.path(I, args[0]))
            return VNONE
        if q in ('os.rmdir', 'os.removedirs'):
            self.remove(I, self.path(I, args[0]))
            return VNONE
        if q in ('os.replace', 'os.rename', 'shutil.move', 'shutil.copy', 'shutil.copyfile', 'shutil.copy2'):
            a, b = self.path(I, args[0]), self.path(I, args[1])
            self.fs_event(I, q, b)
            I.effect('replace' if q in ('os.replace', 'os.rename') else 'move' if q == 'shutil.move' else 'copyfile', a, b)
            s = self.fs(I, a)
            I.S.res[('fs', b)] = s if s is not None else ('data', T('load', a))
            if 'copy' not in q:
                I.S.res[('fs', a)] = 'absent'
            return VNONE
        if q == 'os.fdopen':
            t = I.read(args[0])
            m = I.read(args[1]) if len(args) > 1 else const('r')
            return self.open(I, [Val(t.args[0] if t.op == 'fd' else t), Val(m)], {})
        if q == 'os.close':
            return VNONE
        if q == 'os.getpid':
            return Val(T('call', 'os.getpid', ()))
        if q in ('os.getcwd', 'os.cpu_count'):
            return Val(T('call', q, ()))
        if q == 'os.chdir':
            I.effect('chdir', self.path(I, args[0]))
            return VNONE
        if q == 'os.sched_getaffinity':
            return None
        if q.startswith('tempfile.'):
            n = q[9:]
            d = I.read(kwargs['dir']) if 'dir' in kwargs else T('call', 'tempfile.gettempdir', ())
            d = self.plain(d)
            pre = I.read(kwargs['prefix']) if 'prefix' in kwargs else NONE
            suf = I.read(kwargs['suffix']) if 'suffix' in kwargs else NONE
            if n == 'gettempdir':
                return Val(T('call', q, ()))
            if n == 'mkstemp':
                p = self.tmp(I, d, pre, suf)
                self.fs_event(I, 'open_w', p)
                I.effect('open_w', p, 'w')
                return Tup([Val(T('fd', p)), Val(p)])
            if n == 'NamedTemporaryFile':
                m = I.read(args[0] if args else kwargs.get('mode', Val(const('w+b'))))
                p = self.tmp(I, d, pre, suf)
                self.fs_event(I, 'open_w', p)
                I.effect('open_w', p, 'w')
                return Val(T('file', p, 'w'))
            if n == 'mkdtemp':
                p = self.tmp(I, d, pre, suf)
                I.effect('makedirs', p)
                return Val(p)
            if n == 'mktemp':
                return Val(self.tmp(I, d, pre, suf))
            if n == 'TemporaryDirectory':
                p = self.tmp(I, d, pre, suf)
                I.effect('makedirs', p)
                return Val(T('tmpdir', p))
        if q in ('glob.glob', 'glob.iglob', 'os.listdir', 'os.scandir'):
            return I.fresh(T('call', q, (('p', self.path(I, args[0])),)))
        if q in ('os.system', 'os.kill', 'os._exit'):
            I.effect('system', q)
            return Val(tm.tmpsym('sys', 'int'))
        return None

    # ------------------------------------------------------------ memmap
    def memmap(self, I, q, args, kwargs):
        names = ['filename', 'dtype', 'mode', 'offset', 'shape', 'order']
        d = dict(zip(names, args))
        d.update(kwargs)
        p = self.path(I, d['filename'])
        m = I.read(d['mode']) if 'mode' in d else const('r+')
        if p is NONE:
            I.raise_leaf('TypeError', 'memmap of None')
        if not is_strc(m):
            raise Unsupported('memmap mode')
        mode = {'write': 'w+', 'readonly': 'r', 'copyonwrite': 'c', 'readwrite': 'r+'}.get(cval(m), cval(m))
        sh = d.get('shape')
        if mode == 'w+':
            if sh is None:
                I.raise_leaf('ValueError')
            # a failure can come after the file was created
            I.effect('memmap_create', p)
            if I.fault_at is not None and not I.probing:
                I.S.res[('fs', p)] = ('data', T('memmap', p))
        I.event(('memmap', mode, show(p, 4)))
        if mode == 'w+':
            s = I.read(sh)
            r = I.new(Cell('arr', self.lib.np.mkfull(I, T('tuple', *shape_arg(s)) if shape_arg(s) is not None else s, ZERO)))
            I.S.res[('mm', p)] = r.loc
            I.S.res[('fs', p)] = ('data', T('memmap', p))
            return r
        loc = I.S.res.get(('mm', p))
        st = self.fs(I, p)
        if st == 'absent':
            I.raise_leaf('FileNotFoundError')
        if isinstance(loc, int):
            if mode == 'c':
                return I.new(Cell('arr', I.content(loc)))
            I.effect('memmap_open', p, mode)
            if sh is not None:
                s = shape_arg(I.read(sh))
                c = I.content(loc)
                if s is not None and dims(c) is not None and tuple(s) != tuple(dims(c)):
                    return I.fresh(T('memmap_mismatch', c, T('tuple', *s)))
            return Ref(loc)
        t = T('load', p)
        return I.new(Cell('arr', t))

    # ------------------------------------------------------------ ray
    def ray(self, I, q, args, kwargs):
        n = q.split('.')[-1]
        if n == 'init':
            I.event(('ray', 'init'))
            st = I.S.res.get('ray', 0)
            I.effect('ray_init', st)
            if st == 1 and not ('ignore_reinit_error' in kwargs):
                I.raise_leaf('RuntimeError', 'ray.init twice')
            I.S.res['ray'] = 1
            return VNONE
        if n == 'shutdown':
            I.effect('ray_shutdown')
            I.S.res['ray'] = 0
            return VNONE
        if n == 'is_initialized':
            st = I.S.res.get('ray', 0)
            return Val(self.ray_t(st))
        if n == 'put':
            I.event(('ray', 'put'))
            return args[0]
        if n == 'get':
            I.event(('ray', 'get'))
            return args[0] if args else kwargs['object_refs']
        if n == 'remote':
            if not args:
                return Ext('ray.remote')
            return Remote(args[0])
        if n == 'wait':
            I.event(('ray', 'wait'))
            L = self.lib.listterm(I, args[0] if args else kwargs['object_refs'])
            for k in ('num_returns',):
                if k in kwargs and I.read(kwargs[k]) is not ONE:
                    raise Unsupported('ray.wait num_returns')
            return Tup([I.fresh(T('raydone', L)), I.new(Cell('arr', T('rayrest', L)))])
        if n in ('cancel', 'kill', 'cluster_resources'):
            return VNONE
        return None

    def ray_t(self, st):
        if isinstance(st, tuple) and st[0] == 'cond':
            return ite(st[1], self.ray_t(st[2]), self.ray_t(st[3]))
        return const(bool(st))

    def remote_call(self, I, r, args, kwargs):
        I.event(('ray', 'remote'))
        env = dict(I.S.osenv)
        fn = r.fn
        # workers get copies of array arguments
        out = I.call(fn, args, kwargs)
        return out

    # ------------------------------------------------------------ methods of modelled objects
    def method(self, I, r, t, name, args, kwargs):
        if t.op == 'file':
            p = t.args[0]
            if name in ('write', 'writelines'):
                x = I.read(args[0])
                if x.op == 'pickled':
                    self.dump(I, p, x.args[0])
                    return VNONE
                self.fs_event(I, 'write', p)
                I.effect('write', p, x, name)
                st = self.fs(I, p)
                prev = st[1] if isinstance(st, tuple) and st[0] == 'data' else T('load', p)
                I.S.res[('fs', p)] = ('data', T('written', prev, x))
                return VNONE
            if name in ('read', 'readline', 'readlines'):
                self.fs_event(I, 'load', p)
                return Val(T('filebytes', p))
            if name in ('flush', 'seek', 'truncate'):
                I.effect(name, p)
                return VNONE
            if name == 'close':
                I.effect('close', p)
                return VNONE
            if name == 'fileno':
                return Val(ZERO)
            if name in ('__enter__',):
                return r
            if name == '__exit__':
                I.effect('close', p)
                return VNONE
        if t.op == 'pool':
            if name in ('map', 'imap', 'map_async'):
                I.event(('parallel', name))
                I.effect('parallel', name)
                its = list(args[1:])
                if t.args[0].startswith('multiprocessing'):
                    its = its[:1]
                return self.pmap(I, args[0], its)
            if name in ('starmap', 'starmap_async'):
                I.event(('parallel', name))
                return self.lib.map_values(I, lambda x: I.call(args[0], self.lib.iterate(I, x), {}), [args[1]])
            if name == 'imap_unordered':
                I.event(('parallel', name))
                return I.fresh(self.permuted(I, self.pmap(I, args[0], [args[1]])))
            if name in ('submit', 'apply_async', 'apply'):
                I.event(('parallel', name))
                if name == 'submit':
                    v = I.call(args[0], list(args[1:]), dict(kwargs))
                else:
                    a = self.lib.iterate(I, args[1]) if len(args) > 1 else []
                    v = I.call(args[0], a, {})
                if name == 'apply':
                    return v
                return Val(T('future', I.read(v)))
            if name in ('shutdown', 'close', 'join', 'terminate'):
                return VNONE
            if name == '__enter__':
                return r
        if t.op == 'regex' and name in RE:
            return self.regex(I, name, [Val(t.args[0])] + list(args), kwargs)
        if t.op == 'rematch':
            if name in ('group', '__getitem__'):
                n = [I.read(a) for a in args] or [ZERO]
                if len(n) == 1 and is_int(n[0]) and 0 <= cval(n[0]) < len(t.args):
                    return I.fresh(t.args[cval(n[0])])
            if name == 'groups':
                return I.fresh(tm.T('tuple', *t.args[1:]))
        if t.op == 'future':
            if name in ('result', 'get'):
                return I.fresh(t.args[0])
            if name in ('done',):
                return Val(TRUE)
        if t.op == 'path':
            p = t.args[0]
            if name in ('exists', 'is_file', 'is_dir'):
                return Val(self.exists_t(I, p))
            if name == 'open':
                return self.open(I, [Val(p)] + list(args), kwargs)
            if name in ('joinpath',):
                return Val(T('path', self.join([p] + [I.read(a) for a in args])))
            if name == 'expanduser':
                return Val(T('path', I.read(self.os_call(I, 'os.path.expanduser', [Val(p)], {}))))
            if name in ('resolve', 'absolute'):
                return Val(T('path', T('abspath', p)))
            if name == 'mkdir':
                return self.os_call(I, 'os.makedirs', [Val(p)], {})
            if name == 'unlink':
                return self.os_call(I, 'os.remove', [Val(p)], {})
            if name in ('replace', 'rename'):
                return self.os_call(I, 'os.replace', [Val(p), args[0]], {})
            if name == 'write_bytes':
                x = I.read(args[0])
                self.open(I, [Val(p), Val(const('wb'))], {})
                self.dump(I, p, x.args[0] if x.op == 'pickled' else x)
                I.effect('close', p)
                return VNONE
            if name == 'read_bytes':
                return Val(T('filebytes', p))
            if name == 'with_suffix':
                return Val(T('path', strcat([T('call', 'stem', (('p', p),)), I.read(args[0])])))
            if name == 'with_name':
                return Val(T('path', self.join([I.read(self.os_call(I, 'os.path.dirname', [Val(p)], {})), I.read(args[0])])))
            if name in ('as_posix', '__str__'):
                return Val(p)
        if t.op == 'envsnap':
            if name == 'get':
                return Val(self.snap_get(t, cval(I.read(args[0]))))
            if name in ('items', 'copy'):
                return r
        if t.op == 'exitstack':
            k = ('xs', t.args[0])
            if name == 'callback':
                I.S.res[k] = I.S.res.get(k, ()) + ((args[0], list(args[1:]), dict(kwargs)),)
                return args[0]
            if name == 'enter_context':
                v, ex = self.enter(I, args[0])
                if ex is not None:
                    I.S.res[k] = I.S.res.get(k, ()) + ((fnsym('exit', lambda I2, a, kk: (ex(), VNONE)[1]), [], {}),)
                return v
            if name == 'close':
                for f, a, kk in reversed(I.S.res.get(k, ())):
                    I.call(f, a, kk)
                I.S.res[k] = ()
                return VNONE
        if name == 'close' and t.op in ('call', 'mcall', 'store', 'attr', 'ite'):
            h = self.handle_of(t)
            if h.op == 'call' and h.args[0] in OPENERS:
                I.effect('close_handle', h)
                return VNONE
        return None
