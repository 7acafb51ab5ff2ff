"""Module- and class-level state of the code under test.

Every run starts from the state the package had right after import, so that a change that
keeps state in a module or a class cannot make one run depend on the runs before it.
load_copy() imports a second, separate copy of the package: two streams built from the two
copies share nothing that is not passed to them.
"""
import sys
import types

PKG = 'stream2py'
MUT = (list, dict, set, bytearray)
_snap = None
_copy = None
_SKIP = {'__dict__', '__weakref__', '__builtins__', '_abc_impl', '__abstractmethods__', '__doc__'}


def _mods():
    return {n: m for n, m in sys.modules.items() if n == PKG or n.startswith(PKG + '.')}


def load_copy():
    """A second import of the package (made once per process)."""
    global _copy
    if _copy is None:
        orig = _mods()
        for n in orig:
            del sys.modules[n]
        try:
            __import__(PKG)
            for n in orig:
                __import__(n)
            _copy = _mods()
        finally:
            for n in _mods():
                del sys.modules[n]
            sys.modules.update(orig)
    return _copy[PKG]


def _contents(v):
    return (list(v) if isinstance(v, (list, bytearray)) else dict(v) if isinstance(v, dict) else set(v))


def _functions(v):
    if isinstance(v, (staticmethod, classmethod)):
        v = v.__func__
    if isinstance(v, property):
        return [f for f in (v.fget, v.fset, v.fdel) if isinstance(f, types.FunctionType)]
    return [v] if isinstance(v, types.FunctionType) else []


def snapshot():
    """Remembers the present state (call after every module has been imported)."""
    global _snap
    names, values, seen, caches = [], [], set(), []
    mods = list(_mods().items()) + list((_copy or {}).items())

    def value(v):
        if type(v) in MUT and id(v) not in seen:
            seen.add(id(v))
            values.append((v, _contents(v)))
        if hasattr(v, 'cache_clear') and id(v) not in seen:
            seen.add(id(v))
            caches.append(v)
        for f in _functions(v):
            if id(f) in seen:
                continue
            seen.add(id(f))
            for d in (f.__defaults__ or ()) + tuple((f.__kwdefaults__ or {}).values()):
                value(d)
            for c in f.__closure__ or ():
                try:
                    value(c.cell_contents)
                except ValueError:
                    pass

    def holder(h, mod):
        if id(h) in seen:
            return
        seen.add(id(h))
        d = {k: v for k, v in vars(h).items() if k not in _SKIP}
        names.append((h, d))
        for k, v in d.items():
            if isinstance(v, type) and v.__module__ == mod:
                holder(v, mod)
            else:
                value(v)

    for n, m in mods:
        holder(m, n)
    _snap = names, values, caches


def restore():
    names, values, caches = _snap
    for h, d in names:
        cur = vars(h)
        if len(cur) != len(d) or any(cur.get(k, names) is not v for k, v in d.items()):
            for k in [k for k in cur if k not in d and k not in _SKIP]:
                delattr(h, k)
            for k, v in d.items():
                if cur.get(k, names) is not v:
                    setattr(h, k, v)
    for v, c in values:
        if len(v) != len(c) or v != (bytearray(c) if isinstance(v, bytearray) else c):
            if isinstance(v, list):
                v[:] = c
            elif isinstance(v, bytearray):
                v[:] = bytes(c)
            else:
                v.clear()
                v.update(c)
    for f in caches:
        f.cache_clear()
