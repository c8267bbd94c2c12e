"""Loads the repository's modules from the working tree, transformed, with symbolic builtins and library stand-ins."""
import builtins as nb
import os, types
from . import transform, libs
from .rt import PV
from .builtins_ import OVERRIDES
from .sym import Unsupported, E
from . import sym

REPO = os.environ.get("VERIF_REPO", "/repo")
_code = {}


def _stamp_new(cls, *a, **k):
    o = object.__new__(cls)
    libs.sym_serial(o)
    return o


def build_class(func, name, *bases, **kw):
    bases = tuple(object if isinstance(b, libs.Missing) else b for b in bases)
    c = nb.__build_class__(func, name, *bases, **kw)
    if bases in ((), (object,)) and "__new__" not in c.__dict__ and "__slots__" not in c.__dict__:
        c.__new__ = staticmethod(_stamp_new)
    return c


class Loader:
    def __init__(self, overrides=None):
        self.mods = {}
        self.files = {}
        self.builtins = dict(nb.__dict__)
        self.builtins.update(OVERRIDES)
        self.builtins["__import__"] = self.import_
        self.builtins["__build_class__"] = build_class

    def path(self, name):
        p = os.path.join(REPO, *name.split("."))
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.isdir(p):
            return p, True  # namespace package
        return None, False

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            m = self.mods.get(name)
            if m is not None:
                return m
        f, pkg = self.path(name)
        if f is None:
            raise ModuleNotFoundError("No module named %r" % name)
        m = types.ModuleType(name)
        m.__file__ = f
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [f if os.path.isdir(f) else os.path.dirname(f)]
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__["_pv_"] = PV
        self.mods[name] = m
        key = (f, os.stat(f).st_mtime_ns)
        if key not in _code:
            src = ""
            if not os.path.isdir(f):
                with open(f) as fh:
                    src = fh.read()
            _code[key] = transform.transform(src, name, f)
        self.files[name] = f
        try:
            exec(_code[key], m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if "." in name:
            parent, _, last = name.rpartition(".")
            setattr(self.mods[parent], last, m)
        return m

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + name if name else "")
        if name == "nidn" or name.startswith("nidn."):
            m = self.load(name)
            for f in fromlist or ():
                if f != "*" and not hasattr(m, f) and self.path(name + "." + f)[0]:
                    self.load(name + "." + f)
            if fromlist:
                return m
            return self.mods["nidn"]
        m = libs.lib_module(name)
        if fromlist or "." not in name:
            return m
        return libs.lib_module(name.split(".")[0])
