"""Loads (parses) the analysed package and evaluates module bodies abstractly."""
import ast
import os
from .interp import *
from .lib import Lib
from . import libnp
from .libnp import Np, ALIAS
from .libsys import Sys

PKG = 'PyAnEn'


class World:
    def __init__(self, root='/repo'):
        self.root = root
        self.pkgdir = os.path.join(root, PKG)
        self.trees = {}
        self.paths = {}
        self.scan()
        self.lib = Lib()
        self.lib.np = Np(self.lib)
        self.lib.sys = Sys(self.lib)
        libnp._SINGLE[0] = self.lib.np
        self.base = None

    def scan(self):
        for dp, dn, fn in os.walk(self.pkgdir):
            dn[:] = [d for d in dn if d != '__pycache__']
            for f in sorted(fn):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'):
                    rel = rel[:-9]
                with open(p, encoding='utf-8') as fh:
                    self.trees[rel] = ast.parse(fh.read(), p)
                self.paths[rel] = os.path.relpath(p, self.root)

    def add_specs(self, d):
        for f in sorted(os.listdir(d)):
            if f.endswith('.py'):
                p = os.path.join(d, f)
                with open(p, encoding='utf-8') as fh:
                    self.trees['spec.' + f[:-3]] = ast.parse(fh.read(), p)
                self.paths['spec.' + f[:-3]] = 'spec/' + f

    def is_pkg(self, name):
        return name in self.paths and self.paths[name].endswith('__init__.py')

    # --------------------------------------------------------- imports
    def resolve_from(self, mod, node):
        if not node.level:
            return node.module
        parts = mod.split('.')
        if not self.is_pkg(mod):
            parts = parts[:-1]
        if node.level > 1:
            parts = parts[:-(node.level - 1)]
        return '.'.join(parts + ([node.module] if node.module else []))

    def import_module(self, I, name):
        if name in self.trees:
            self.load(I, name)
            return Mod(name)
        return Ext(ALIAS.get(name, name))

    def import_name(self, I, base, name):
        if base in self.trees:
            self.load(I, base)
            v = I.getvar('mod:' + base, name)
            if v is not None:
                return v
            sub_ = base + '.' + name
            if sub_ in self.trees:
                self.load(I, sub_)
                return Mod(sub_)
            I.raise_leaf('ImportError' if not I.stack else 'AttributeError', name)
        q = base + '.' + name
        q = ALIAS.get(q, q)
        if q in libnp.GONE:
            I.raise_leaf('ImportError', q)
        return self.lib.np.ext_attr(I, Ext(base), name)

    def import_star(self, I, base, fid):
        if base in self.trees:
            self.load(I, base)
            for k, v in I.S.frames['mod:' + base].items():
                if not k.startswith('_') and not k.startswith('%'):
                    I.setvar(fid, k, v)
            return
        raise Unsupported('import * from ' + base)

    def load(self, I, name):
        fid = 'mod:' + name
        if fid in I.S.frames:
            return
        pk = name.rsplit('.', 1)[0]
        if pk != name and pk in self.trees and I.config.get('with_pkg'):
            self.load(I, pk)
            if fid in I.S.frames:
                return
        I.S.frames[fid] = {'%mod': name, '__name__': Val(const(name)), '__file__': Val(T('sym', '__file__'))}
        sv = (I.stack, getattr(I, 'curmod', None), I.site)
        I.stack = []
        I.curmod = name
        try:
            I.exec_block(self.trees[name].body, Flow(), fid)
        finally:
            I.stack, I.curmod, I.site = sv

    # --------------------------------------------------------- interpreters
    def interp(self, **config):
        """fresh interpreter with all package modules but the package body evaluated"""
        if self.base is None:
            I = Interp(self, self.lib, {})
            I.curmod = PKG
            for n in sorted(self.trees):
                if not self.is_pkg(n):
                    self.load(I, n)
            self.base = I
        I = Interp(self, self.lib, config)
        I.S = self.base.S.clone()
        I.S.log = []
        I.nloc, I.nfid = self.base.nloc, self.base.nfid
        I.curmod = PKG
        return I

    def get(self, I, mod, name):
        return I.world.import_name(I, mod, name)
