"""A second import of licant in a child: some of its state is set when it is imported (name of the main script, install paths).

The code is kept in memory, read before privileges are dropped, so that the unprivileged child need not be able to read the repository."""
import importlib.abc
import importlib.util
import os
import sys

_code = {}


def preload():
    """Remember the code of every module of the package that is there."""
    import licant
    top = os.path.dirname(os.path.abspath(licant.__file__))
    for d, dirs, files in os.walk(top):
        dirs[:] = [x for x in dirs if x != "__pycache__"]
        for f in files:
            if f.endswith(".py"):
                p = os.path.join(d, f)
                parts = ["licant"] + os.path.relpath(p, top)[:-3].split(os.sep)
                pkg = parts[-1] == "__init__"
                name = ".".join(parts[:-1] if pkg else parts)
                try:
                    with open(p, "rb") as h:
                        _code[name] = (compile(h.read(), p, "exec"), p, pkg)
                except (SyntaxError, ValueError):
                    pass
    sys.meta_path.append(_Finder())     # modules imported later, by the checks or by licant itself


class _Loader(importlib.abc.Loader):
    def __init__(self, name):
        self.name = name

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        exec(_code[self.name][0], module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name not in _code:
            return None
        spec = importlib.util.spec_from_loader(name, _Loader(name), origin=_code[name][1], is_package=_code[name][2])
        spec.has_location = True
        if _code[name][2]:
            spec.submodule_search_locations[:] = [os.path.dirname(_code[name][1])]
        return spec


def forget():
    """The next import of licant runs its modules anew."""
    for k in [k for k in sys.modules if k == "licant" or k.startswith("licant.")]:
        del sys.modules[k]
    if not isinstance(sys.meta_path[0], _Finder):
        sys.meta_path.insert(0, _Finder())


def redirect(prefix, to):
    """File names that begin with prefix lead to the same name below `to` instead (in this process)."""
    import builtins
    import io

    def mapped(p):
        if isinstance(p, (str, os.PathLike)):
            s = os.fspath(p)
            if isinstance(s, str) and s.startswith(prefix):
                return to + s[len(prefix):]
        return p

    def wrap(owner, name):
        real = getattr(owner, name)

        def f(*a, **k):
            return real(*[mapped(x) for x in a[:2]], *a[2:], **k)
        setattr(owner, name, f)
    wrap(builtins, "open")
    wrap(io, "open")
    for n in ("open", "stat", "lstat", "access", "replace", "rename", "unlink", "remove", "mkdir", "listdir", "chmod", "link", "symlink"):
        wrap(os, n)
