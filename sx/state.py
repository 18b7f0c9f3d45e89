"""Hidden state of the code under test: every run starts from the state after import.

Module globals, class attributes, function defaults, closures and attributes, and what
they reach through containers and objects of the package, are put back before each run.
"""
import functools
import sys
import types

PACKAGE = "brel"
_SEEN_MODULES = set()
_SEEN = {}
_RESTORE = []  # [object, kind, saved, ids]; kind: 0 list, 1 dict, 2 set, 3 class, 4 module
_CACHES = []
_PLAIN = []  # attributes of functions that have none
_COUNT = [0]
_LRU = type(functools.lru_cache(lambda: None))


def _walk(o):
    todo = [o]
    while todo:
        o = todo.pop()
        t = type(o)
        if id(o) in _SEEN:
            continue
        if t in (str, int, float, bool, bytes, type(None)):
            continue
        if t is list:
            saved = list(o)
            _add(o, 0, saved)
            todo += saved
        elif t is dict or issubclass(t, dict):
            saved = dict(o)
            _add(o, 1, saved)
            todo += saved.values()
        elif t is set:
            _add(o, 2, set(o))
        elif t is tuple:
            todo += o
        elif t is types.FunctionType:
            if not (o.__module__ or "").startswith(PACKAGE):
                continue
            todo += o.__defaults__ or ()
            todo += (o.__kwdefaults__ or {}).values()
            if o.__dict__:
                _add(o.__dict__, 1, dict(o.__dict__))
                todo += o.__dict__.values()
            else:
                _PLAIN.append(o.__dict__)
            for c in o.__closure__ or ():
                try:
                    todo.append(c.cell_contents)
                except ValueError:
                    pass
        elif t is _LRU:
            _CACHES.append(o)
            todo.append(o.__wrapped__)
        elif t in (staticmethod, classmethod):
            todo.append(o.__func__)
        elif t is property:
            todo += [o.fget, o.fset]
        elif isinstance(o, type):
            if not o.__module__.startswith(PACKAGE):
                continue
            saved = _own(o.__dict__, 3)
            _add(o, 3, saved)
            todo += saved.values()
        elif getattr(t, "__module__", "").startswith(PACKAGE):
            d = getattr(o, "__dict__", None)
            if d is None:
                continue
            _add(d, 1, dict(d))
            todo += d.values()
        else:
            continue
        _SEEN[id(o)] = o  # keeps it alive, so that ids stay unique


def watch(o):
    """Put back o, an object of the package that a harness keeps, and what it reaches before every run."""
    _walk(o)
    return o


def _skip(k):
    return k in ("__dict__", "__weakref__", "__doc__") or k.startswith("_abc_")


def _own(d, kind):
    """The entries of a class or a module that belong to it."""
    if kind == 3:
        return {k: v for k, v in d.items() if not _skip(k)}
    return {k: v for k, v in d.items() if not (k.startswith("__") and k.endswith("__")) and type(v) is not types.ModuleType}


def _ids(o, kind):
    if kind == 0:
        return list(map(id, o))
    if kind == 2:
        return sorted(map(id, o))
    if kind >= 3:
        o = o.__dict__
    return list(map(id, o.values()))


def restore():
    """Put the package back into the state it had when it was first seen."""
    for r in _RESTORE:
        o, kind, saved, ids = r
        if _ids(o, kind) == ids:
            continue
        if kind == 0:
            o[:] = saved
        elif kind in (1, 2):
            o.clear()
            o.update(saved)
        else:
            now = _own(o.__dict__, kind)
            for k in now:
                if k not in saved:
                    delattr(o, k)
            for k, v in saved.items():
                if now.get(k, _SEEN) is not v:
                    setattr(o, k, v)
        r[3] = _ids(o, kind)
    for c in _CACHES:
        c.cache_clear()
    for d in _PLAIN:
        if d:
            d.clear()
    if len(sys.modules) == _COUNT[0]:
        return
    _COUNT[0] = len(sys.modules)
    for name in list(sys.modules):
        if name in _SEEN_MODULES or not (name == PACKAGE or name.startswith(PACKAGE + ".")):
            continue
        m = sys.modules[name]
        _SEEN_MODULES.add(name)
        g = _own(vars(m), 4)
        _add(m, 4, g)
        for v in g.values():
            _walk(v)


def _add(o, kind, saved):
    _RESTORE.append([o, kind, saved, _ids(o, kind)])
