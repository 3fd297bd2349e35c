"""Independent copies ("images") of the code under test inside one interpreter.

Every simulated operating-system process owns one image: its own module objects for
xoscar, cloudpickle and the workload's actors, executed from /repo's current sources, with
its own copy of each Cython shared library (a distinct file, hence distinct C statics).
"""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import shutil
import sys
import tempfile

from . import build

ROOTS = ("xoscar", "cloudpickle", "simactors", "random")
HIDDEN = {"torch", "mlx", "cupy", "cudf", "ray", "uvloop", "ucp", "pyfury", "pyarrow",
          "uv", "numba", "rmm", "xoscar_pygloo", "pytest", "pytest_cov"}

_real_getpid = os.getpid
_code_cache = {}
_ext = None
_scratch = None
current = None  # the Image whose modules are in sys.modules


def _code_of(path):
    code = _code_cache.get(path)
    if code is None:
        with open(path, "rb") as f:
            code = compile(f.read(), path, "exec", dont_inherit=True)
        _code_cache[path] = code
    return code


class _PyLoader(importlib.abc.Loader):
    def __init__(self, name, path, is_pkg):
        self.name, self.path, self.is_pkg = name, path, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        exec(_code_of(self.path), module.__dict__)

    def get_filename(self, name=None):
        return self.path

    def get_source(self, name=None):
        with open(self.path) as f:
            return f.read()

    def is_package(self, name=None):
        return self.is_pkg


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        root = fullname.split(".", 1)[0]
        if root in HIDDEN:
            return None
        if root not in ROOTS:
            return None
        if root == "xoscar":
            base = os.path.join(build.ROOT, *fullname.split("."))
        elif root == "simactors":
            base = os.path.join(os.path.dirname(os.path.abspath(__file__)), *fullname.split("."))
        else:
            base = os.path.join(_site_of(root), *fullname.split("."))
        if os.path.isfile(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            spec = importlib.machinery.ModuleSpec(
                fullname, _PyLoader(fullname, p, True), origin=p, is_package=True)
            spec.submodule_search_locations = [base]
            spec.has_location = True
            return spec
        if os.path.isfile(base + ".py"):
            spec = importlib.machinery.ModuleSpec(
                fullname, _PyLoader(fullname, base + ".py", False), origin=base + ".py")
            spec.has_location = True
            return spec
        if fullname in _ext:
            p = current.ext_copy(fullname)
            loader = importlib.machinery.ExtensionFileLoader(fullname, p)
            return importlib.util.spec_from_file_location(fullname, p, loader=loader)
        return None


class _Hider(importlib.abc.MetaPathFinder):
    """Packages that are absent in the simulated installation."""

    def find_spec(self, fullname, path=None, target=None):
        if fullname.split(".", 1)[0] in HIDDEN:
            raise ModuleNotFoundError(f"No module named {fullname!r}", name=fullname)
        return None


_sites = {}


def _site_of(root):
    if root not in _sites:
        for p in sys.path:
            if os.path.isdir(os.path.join(p, root)) or os.path.isfile(os.path.join(p, root + ".py")):
                _sites[root] = p
                break
        else:
            raise ModuleNotFoundError(root)
    return _sites[root]


_orig_util_find_spec = importlib.util.find_spec


def _find_spec(name, package=None):
    if name.split(".", 1)[0] in HIDDEN:
        return None
    return _orig_util_find_spec(name, package)


def install(ext):
    global _ext, _scratch
    _ext = ext
    _scratch = tempfile.mkdtemp(prefix="xsim-img-")
    sys.meta_path.insert(0, _Finder())
    sys.meta_path.insert(0, _Hider())
    importlib.util.find_spec = _find_spec


def cleanup():
    if _scratch:
        shutil.rmtree(_scratch, ignore_errors=True)


def _is_ours(name):
    r = name.split(".", 1)[0]
    return r in ROOTS


class Image:
    _n = 0

    def __init__(self):
        self.idx = Image._n
        Image._n += 1
        self.mods = {}
        self.patched = False

    def ext_copy(self, fullname):
        src = _ext[fullname]
        # a run that needs more images than were preloaded makes them in its own (forked)
        # process: never reuse a path another run may be mapping
        d = os.path.join(_scratch, f"{_real_getpid()}-{self.idx}", *fullname.split(".")[:-1])
        os.makedirs(d, exist_ok=True)
        dst = os.path.join(d, os.path.basename(src))
        shutil.copyfile(src, dst)
        return dst

    def load(self, names):
        prev = current
        activate(self)
        try:
            for n in names:
                __import__(n)
            self.mods = {k: v for k, v in sys.modules.items() if _is_ours(k)}
        finally:
            activate(prev)
        return self


def activate(image):
    """Make image's modules the importable ones."""
    global current
    old = current
    if image is old:
        return
    mods = sys.modules
    if old is not None:
        # remember what the outgoing image imported meanwhile
        if len(mods) != _modcount:
            old.mods = {k: v for k, v in mods.items() if _is_ours(k)}
        new = image.mods if image is not None else ()
        if len(old.mods) != len(new) or old.mods.keys() != (new.keys() if new else new):
            for k in old.mods:
                if k not in new:
                    mods.pop(k, None)
    if image is not None:
        mods.update(image.mods)
    current = image
    _set_modcount(len(mods))


_modcount = 0


def _set_modcount(n):
    global _modcount
    _modcount = n
