"""Loads the code under test below the seams, and puts its process state back."""
import collections
import copy
import logging
import os
import sys
import types
import warnings

REPO = os.environ.get("HYPERSTATIC_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
STUBS = os.path.join(os.path.dirname(HERE), "stubs")

_loaded = None


def load():
    """-> namespace of the public entry points; wrappers are installed first."""
    global _loaded
    if _loaded is not None:
        return _loaded
    sys.dont_write_bytecode = True
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    for p in (REPO, STUBS):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    from . import ext
    e = ext.path(REPO)
    if e != REPO:
        sys.path.insert(0, e)
    import numpy            # noqa: before the seams, for speed
    import scipy.sparse.linalg   # noqa
    from . import seams
    seams.install([os.path.join(REPO, "hyperstatic") + os.sep])
    warnings.simplefilter("ignore")
    seams.IMPORTING = wrote = []
    try:
        import hyperstatic.core as core
        from hyperstatic.core.fe_post.node import NodeResultResolver
        from hyperstatic.core.fe_post.beam import BeamResultResolver
        from hyperstatic.core.fe_post.structure import StructureResultResolver
    finally:
        seams.IMPORTING = None
    ns = types.SimpleNamespace(Api=core.Api, Node=NodeResultResolver, Beam=BeamResultResolver,
                               Structure=StructureResultResolver)
    _loaded = ns
    ns.wrote = wrote
    ns.state = ModState("hyperstatic")
    return ns


_PRIM = (int, float, str, bool, type(None), tuple, bytes, complex, frozenset)
_CONT = (dict, list, set, bytearray, collections.deque)


class ModState:
    """Module-level and class-level state of a package, restorable: a process
    restart, and the start of every run, begin from the state after import."""

    def __init__(self, prefix):
        self.prefix = prefix
        import numpy as np
        self.np = np
        logging.lastResort = None
        logging.raiseExceptions = False
        self.handlers = {}
        for lg in self._loggers():
            # messages on the console are dropped, log files are kept: they are files of the code under test
            self.handlers[lg] = [h for h in lg.handlers
                                 if isinstance(h, logging.FileHandler) or not isinstance(h, logging.StreamHandler)]
        self.handlers[logging.getLogger()].append(logging.NullHandler())      # else logging adds one for the console
        self.level = logging.getLogger().level
        self.snap()

    def _loggers(self):
        return [logging.getLogger()] + [lg for n, lg in sorted(logging.Logger.manager.loggerDict.items())
                                        if n.split(".")[0] == self.prefix and isinstance(lg, logging.Logger)]

    def _mods(self):
        return [m for n, m in sorted(sys.modules.items())
                if m is not None and (n == self.prefix or n.startswith(self.prefix + "."))]

    def _classes(self, m):
        return [v for v in vars(m).values() if isinstance(v, type) and v.__module__ == m.__name__]

    def snap(self):
        self.space = []         # (owner, {name: obj}, is_class)
        self.cont = []          # (obj, pristine copy)
        self.inst = []          # (obj, pristine __dict__)
        self.funcs = []         # (function, defaults, kwdefaults)
        self.caches = []
        seen = set()
        for m in self._mods():
            for owner in [m] + self._classes(m):
                names = {}
                for k, v in list(vars(owner).items()):
                    if k.startswith("__") and k.endswith("__"):
                        continue
                    names[k] = v
                    self._visit(v, seen)
                self.space.append((owner, names))

    def _visit(self, v, seen):
        f = v
        if isinstance(v, (staticmethod, classmethod)):
            f = v.__func__
        if isinstance(v, property):
            for g in (v.fget, v.fset):
                if g is not None:
                    self._visit(g, seen)
            return
        if id(f) in seen:
            return
        if isinstance(f, types.FunctionType):
            if f.__module__ and f.__module__.startswith(self.prefix):
                seen.add(id(f))
                self.funcs.append((f, copy.deepcopy(f.__defaults__) if _mut(f.__defaults__) else f.__defaults__,
                                   copy.deepcopy(f.__kwdefaults__), dict(f.__dict__)))
                for c in (f.__closure__ or ()):
                    try:
                        self._visit(c.cell_contents, seen)
                    except ValueError:
                        pass
            return
        if hasattr(f, "cache_clear") and callable(getattr(f, "cache_clear")):
            seen.add(id(f))
            self.caches.append(f)
            return
        if isinstance(f, self.np.ndarray) and f.dtype != object:
            seen.add(id(f))
            self.cont.append((f, f.copy()))
            return
        if type(f) in _CONT or isinstance(f, (collections.OrderedDict, collections.defaultdict, collections.Counter)):
            seen.add(id(f))
            try:
                self.cont.append((f, copy.deepcopy(f)))
            except Exception:
                self.cont.append((f, copy.copy(f)))
            return
        if type(f).__module__.startswith(self.prefix) and hasattr(f, "__dict__") and not isinstance(f, type):
            seen.add(id(f))
            try:
                self.inst.append((f, copy.deepcopy(f.__dict__)))
            except Exception:
                pass

    def reset(self):
        for lg in self._loggers():
            for h in lg.handlers:
                if h not in self.handlers.get(lg, ()):
                    try:
                        h.close()
                    except Exception:
                        pass
            lg.handlers[:] = self.handlers.get(lg, [])
            for h in lg.handlers:
                if isinstance(h, logging.FileHandler) and h.stream is not None:
                    try:
                        h.stream.close()
                    except Exception:
                        pass
                    h.stream = None
        logging.getLogger().setLevel(self.level)
        logging.disable(logging.NOTSET)
        for owner, names in self.space:
            cur = vars(owner)
            for k in [k for k in cur if k not in names and not (k.startswith("__") and k.endswith("__"))]:
                v = cur[k]
                if isinstance(v, types.ModuleType):
                    continue        # a lazily imported submodule
                try:
                    delattr(owner, k)
                except Exception:
                    pass
            for k, v in names.items():
                if cur.get(k, self) is not v:
                    try:
                        setattr(owner, k, v)
                    except Exception:
                        pass
        for o, p in self.cont:
            if isinstance(o, self.np.ndarray):
                o[...] = p
            elif isinstance(o, (dict, set)):
                if o != p or len(o) != len(p):
                    o.clear()
                    o.update(copy.deepcopy(p))
            elif o != p:
                o[:] = copy.deepcopy(p) if not isinstance(o, collections.deque) else p
        for o, d in self.inst:
            o.__dict__.clear()
            o.__dict__.update(copy.deepcopy(d))
        for f, d, kw, fd in self.funcs:
            if _mut(d) and f.__defaults__ != d:
                f.__defaults__ = copy.deepcopy(d)
            if kw and f.__kwdefaults__ != kw:
                f.__kwdefaults__ = copy.deepcopy(kw)
            if f.__dict__ != fd:
                f.__dict__.clear()
                f.__dict__.update(fd)
        for f in self.caches:
            f.cache_clear()


def _mut(d):
    return bool(d) and any(isinstance(x, _CONT) for x in d)
