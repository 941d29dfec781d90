"""Obligations, verdicts, evidence files and the command line of the checks."""
import ctypes
import json
import os
import resource
import sys
import threading
import time
import traceback
from .drive import *
from . import terms as tm
from .terms import T
from .cmp import same, classify, describe, canon

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violated(Exception):
    def __init__(self, msg, where=None, sig=None):
        Exception.__init__(self, msg)
        self.msg, self.where, self.sig = msg, where, sig


class Undecided(Exception):
    pass


class Vanished(Exception):
    pass


class Watchdog:
    """raises Budget in the analysing thread when one obligation takes too long"""
    EACH = {'quick': (100, 600), 'thorough': (300, 7200)}

    def __init__(self, tier):
        self.each, self.total = self.EACH.get(tier, self.EACH['quick'])
        self.t0 = time.time()
        self.tid = threading.get_ident()
        self.until = None
        self.lock = threading.Lock()
        threading.Thread(target=self.loop, daemon=True).start()

    def loop(self):
        while True:
            time.sleep(0.5)
            with self.lock:
                if self.until is not None and time.time() > self.until:
                    self.until = None
                    ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(self.tid), ctypes.py_object(Budget))

    def __enter__(self):
        if time.time() - self.t0 > self.total:
            raise Budget('time budget of the check exceeded')
        with self.lock:
            self.until = time.time() + self.each

    def __exit__(self, *a):
        with self.lock:
            self.until = None


_WORLD = {}
ONLY = os.environ.get('VSA_ONLY')     # decide only the obligations whose name contains this


def world():
    root = os.environ.get('VSA_ROOT', '/repo')
    if root not in _WORLD:
        W = World(root)
        W.add_specs(os.path.join(ROOT, 'spec'))
        _WORLD[root] = W
    return _WORLD[root]


class Check:
    """One property.  `ob` decides one obligation; nothing raised inside an
    obligation other than Violated ever becomes an alarm."""

    def __init__(self, pid, tier='quick'):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.results = []       # (name, verdict, detail)
        self.funcs = set()
        self.nodes = 0
        self.W = None
        self.dog = None
        self.count = 0
        self.part = None        # (worker, workers)
        self.assumptions = []
        self.rule = ''

    def guard(self):
        if self.dog is None:
            self.dog = Watchdog(self.tier)
        return self.dog

    def interp(self, **config):
        I = self.W.interp(**config)
        I.config.setdefault('funcs', self.funcs)
        return I

    def ob(self, name, fn, *a, **k):
        if ONLY and ONLY not in name:
            return None
        self.count += 1
        if self.part is not None and (self.count // 2) % self.part[1] != self.part[0]:
            self.results.append((name, None, None, 0))
            return None
        t = time.time()
        try:
            with self.guard():
                d = fn(*a, **k)
            v = 'proved'
        except Violated as e:
            v, d = 'violated', {'message': e.msg, 'where': e.where, 'sig': e.sig}
        except Undecided as e:
            v, d = 'undecided', str(e)
        except Unsupported as e:
            v, d = 'undecided', 'construct outside the analysed subset: %s' % e
        except Budget as e:
            v, d = 'undecided', 'budget: %s' % e
        except RecursionError:
            v, d = 'undecided', 'term too deep'
        except Vanished:
            raise
        except Exception as e:      # a bug of the analyser never accuses the code
            if os.environ.get('VSA_DEBUG'):
                traceback.print_exc()
            v, d = 'undecided', 'analyser error %r at %s' % (e, traceback.format_exc().splitlines()[-3].strip())
        self.results.append((name, v, d, round(time.time() - t, 3)))
        return v

    # ---------------------------------------------------------- report
    def finish(self, known=()):
        viol = [r for r in self.results if r[1] == 'violated']
        und = [r for r in self.results if r[1] == 'undecided']
        prov = [r for r in self.results if r[1] == 'proved']
        kn = []
        fresh = []
        for r in viol:
            hit = [k for k in known if k['property'] == self.pid and k['obligation'] == r[0]
                   and (not k.get('sig') or k['sig'] == r[2].get('sig'))]
            (kn if hit else fresh).append((r, hit[0] if hit else None))
        mods = sorted(self.W.paths[m] for m in self.W.trees if not m.startswith('spec.'))
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
            'coverage': {
                'explanation': self.rule,
                'files_parsed': len(mods), 'functions_analysed': len(self.funcs),
                'obligations_total': len(self.results), 'obligations_discharged': len(prov),
                'obligations_undecided': len(und), 'obligations_violated': len(viol),
                'undecided': [{'obligation': r[0], 'reason': str(r[2])[:400]} for r in und],
                'samples': [{'obligation': r[0], 'verdict': r[1], 'detail': str(r[2])[:600]} for r in prov[:8]],
                'functions': sorted(self.funcs)[:200],
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 3), 'violations': len(fresh),
        }
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s %s: %d obligations, %d discharged, %d undecided, %d violated, %d functions of %d files, %.1fs' % (
            self.pid, self.tier, len(self.results), len(prov), len(und), len(viol), len(self.funcs), len(mods), time.time() - self.t0))
        for r in und:
            print('  undecided: %s: %s' % (r[0], str(r[2])[:300]))
        for r, k in kn:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        if not self.results:
            print('analysis broken: no obligations were generated')
            return 2
        if fresh:
            path = os.path.join(ROOT, 'evidence', self.pid + '.replay.json')
            with open(path, 'w') as f:
                json.dump([{'obligation': r[0], **r[2]} for r, _ in fresh], f, indent=1)
            for r, _ in fresh[6:]:
                print('  violated: %s' % r[0])
            for r, _ in fresh[:6]:
                print('  violated: %s' % r[0])
                if r[2].get('where'):
                    print('    at %s' % r[2]['where'])
                for line in r[2]['message'].splitlines()[:30]:
                    print('    ' + line[:600])
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        return 0


def known_findings():
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['findings'] if k.get('status') == 'known']


def workers(C, mod):
    """runs the obligations of mod, dealt out to forked workers; merges their results"""
    import pickle
    import tempfile
    n = int(os.environ.get('VSA_JOBS', min(8, os.cpu_count() or 1)))
    if n <= 1:
        mod.run(C)
        return True
    sys.stdout.flush()
    kids = []
    for i in range(n):
        f = tempfile.TemporaryFile()
        pid = os.fork()
        if pid == 0:
            out = ('vanished', 'worker failed')
            try:
                C.part = (i, n)
                mod.run(C)
                out = ('ok', C.results, C.funcs)
            except Vanished as e:
                out = ('vanished', str(e))
            except BaseException:
                out = ('error', traceback.format_exc())
            pickle.dump(out, f)
            f.flush()
            os._exit(0)
        kids.append((pid, f))
    outs = []
    for pid, f in kids:
        os.waitpid(pid, 0)
        f.seek(0)
        try:
            outs.append(pickle.load(f))
        except Exception:
            outs.append(('lost', 'worker ended without a result'))
        f.close()
    for o in outs:
        if o[0] == 'vanished':
            raise Vanished(o[1])
    good = [o for o in outs if o[0] == 'ok']
    for o in outs:
        if o[0] != 'ok':
            print('  worker: %s' % o[1])
    if not good:
        return False
    for j, r in enumerate(good[0][1]):
        mine = [o[1][j] for o in good if o[1][j][1] is not None]
        C.results.append(mine[0] if mine else (r[0], 'undecided', 'worker ended without a result', 0))
    for o in good:
        C.funcs |= o[2]
    return True


def main(argv):
    import importlib
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.setrecursionlimit(20000)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    if ROOT not in sys.path:
        sys.path.insert(0, ROOT)
    mod = importlib.import_module('checks.' + pid.lower())
    C = Check(pid, tier)
    try:
        C.W = world()
    except SyntaxError as e:
        print('analysis broken: cannot parse %s' % e)
        return 2
    C.rule = mod.RULE
    C.assumptions = list(getattr(mod, 'ASSUMPTIONS', []))
    try:
        if not workers(C, mod):
            return 2
    except Vanished as e:
        print('analysis broken: public anchor vanished: %s' % e)
        C.finish()
        return 2
    return C.finish(known_findings())
