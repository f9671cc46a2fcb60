"""Import /repo/atomtoolkit through the transformation; the modules loaded are the current working tree's."""
from __future__ import annotations
import builtins
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

REPO = os.environ.get('VERIF_REPO', '/repo')

from . import transform, runtime, models          # noqa: E402


class VC(types.SimpleNamespace):
    pass


_mods = None


def imp(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        top = name.split('.')[0]
        m = _mods.get(name) or _mods.get(top)
        if m is not None:
            if name in _mods:
                return _mods[name] if (fromlist or '.' not in name) else _mods[top]
            if not fromlist:
                return _mods[top]
            sub = builtins.__import__(name, globals, locals, fromlist, level)
            return sub
    return builtins.__import__(name, globals, locals, fromlist, level)


class Loader(importlib.abc.Loader):
    def __init__(self, fullname, path):
        self.fullname, self.path = fullname, path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        tree = transform.transform(src, self.path)
        code = compile(tree, self.path, 'exec', dont_inherit=True)
        module.__dict__['__builtins__'] = BUILTINS
        module.__dict__['__vc__'] = runtime
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname.split('.')[0] != 'atomtoolkit':
            return None
        rel = fullname.replace('.', '/')
        for cand, pkg in ((f'{REPO}/{rel}/__init__.py', True), (f'{REPO}/{rel}.py', False)):
            if os.path.exists(cand):
                spec = importlib.machinery.ModuleSpec(fullname, Loader(fullname, cand), origin=cand, is_package=pkg)
                spec.has_location = True
                if pkg:
                    spec.submodule_search_locations = [os.path.dirname(cand)]
                return spec
        return None


BUILTINS = None


def load():
    """install the hook and import the package; returns the module namespace"""
    global _mods, BUILTINS
    if BUILTINS is not None:
        return sys.modules['atomtoolkit']
    # the real libraries first, so that only atomtoolkit's own modules see the models
    import networkx, numpy, pint, pint_pandas, pandas, tqdm, scipy.special, sympy, sympy.physics.wigner, pickle, csv  # noqa
    patch_pint(pint)
    runtime.cls = cls_hook
    _mods = models.modules()
    BUILTINS = runtime.make_builtins(imp)
    sys.meta_path.insert(0, Finder())
    import atomtoolkit
    import atomtoolkit.atom
    import atomtoolkit.IO           # noqa
    install_contracts()
    from . import contracts
    contracts.install()
    return atomtoolkit


def patch_pint(pint):
    """number * unit is Quantity(number, unit) also when the number happens to be 1: spare the case split"""
    from pint.facets.plain.unit import PlainUnit
    from .core import SNum
    orig = PlainUnit.__mul__

    def mul(self, other):
        if isinstance(other, SNum):
            return self._REGISTRY.Quantity(other, self._units)
        return orig(self, other)
    PlainUnit.__mul__ = mul
    PlainUnit.__rmul__ = mul


CLASSES = []
_cls = runtime.cls


def cls_hook(c):
    CLASSES.append(c)
    return _cls(c)


def install_contracts():
    """the Wigner symbols become uninterpreted functions wherever the package refers to them"""
    from . import wigner
    names = {'wigner3j': wigner.w3, 'wigner6j': wigner.w6, 'wigner9j': wigner.w9}
    for n, m in list(sys.modules.items()):
        if n.split('.')[0] == 'atomtoolkit' and n != 'atomtoolkit.wigner':
            for a, f in names.items():
                if a in m.__dict__:
                    m.__dict__[a] = f
            g = m.__dict__.get('wigner')
            if isinstance(g, types.ModuleType) and g.__name__ == 'atomtoolkit.wigner':
                for a, f in names.items():
                    g.__dict__[a] = f
