"""Reads everything reachable through public attributes; errors of single reads are ignored."""
import collections.abc
import enum
import inspect
import types

METHODS = (types.FunctionType, types.BuiltinFunctionType, staticmethod, classmethod, type)


def touch(obj, depth=5, seen=None, limit=40):
    if depth < 0 or obj is None or isinstance(obj, (int, float, str, bytes, tuple, enum.Enum)):
        return
    mod = type(obj).__module__
    if isinstance(obj, dict):
        for v in obj.values():
            touch(v, depth - 1)
        return
    if not mod.startswith("pyflp") or mod.startswith("pyflp._events"):
        return
    for name in dir(type(obj)):
        if name.startswith("_") or name in ("events", "data"):
            continue
        if isinstance(inspect.getattr_static(type(obj), name, None), METHODS):
            continue
        try:
            v = getattr(obj, name)
        except Exception:
            continue
        if isinstance(v, collections.abc.Iterator):
            try:
                v = list(v)
            except Exception:
                continue
        if isinstance(v, list):
            for x in v[:limit]:
                touch(x, depth - 1)
        else:
            touch(v, depth - 1)
    if hasattr(type(obj), "__iter__"):
        try:
            items = list(obj)
        except Exception:
            return
        for x in items[:limit]:
            touch(x, depth - 1)


def snapshot(obj, depth=6, limit=60):
    """Everything `touch` reads, as nested tuples that can be compared; errors by class."""
    if isinstance(obj, enum.Enum):
        return "%s %r" % (type(obj).__name__, obj.value)
    for t in (str, bytes, int, float):      # subclasses and bools as the plain value
        if isinstance(obj, t):
            return repr(t(obj))
    if obj is None:
        return "None"
    if depth < 0:
        return "..."
    if isinstance(obj, dict):
        return ("dict",) + tuple((snapshot(k, 0), snapshot(v, depth - 1))
                                 for k, v in obj.items())
    if isinstance(obj, (list, tuple, set, frozenset)):
        items = [snapshot(x, depth - 1) for x in list(obj)[:limit]]
        if isinstance(obj, (set, frozenset)):
            items.sort(key=repr)
        return (type(obj).__name__, len(obj)) + tuple(items)
    mod = type(obj).__module__
    if not mod.startswith("pyflp") or mod.startswith("pyflp._events"):
        return repr(obj) if mod in ("datetime", "pathlib") else type(obj).__name__
    out = [type(obj).__name__]
    for name in sorted(dir(type(obj))):
        if name.startswith("_") or name in ("events", "data"):
            continue
        if isinstance(inspect.getattr_static(type(obj), name, None), METHODS):
            continue
        try:
            v = getattr(obj, name)
            if isinstance(v, collections.abc.Iterator):
                v = list(v)
        except Exception as e:
            out.append((name, "raises " + type(e).__name__))
            continue
        out.append((name, snapshot(v, depth - 1)))
    if hasattr(type(obj), "__len__"):
        try:
            out.append(("len", len(obj)))
        except Exception as e:
            out.append(("len", "raises " + type(e).__name__))
    if hasattr(type(obj), "__iter__"):
        try:
            items = list(obj)
        except Exception as e:
            out.append(("items", "raises " + type(e).__name__))
        else:
            out.append(("items", len(items)) + tuple(snapshot(x, depth - 1)
                                                     for x in items[:limit]))
    return tuple(out)


def _float(x):
    if not isinstance(x, str) or not set(x) & set(".en"):
        return False
    try:
        float(x)
    except ValueError:
        return False
    return True


def difference(a, b, where="", floats=True):
    """Where two snapshots differ, for messages; None if they don't (floats=False: apart from
    floating point values, which are compared elsewhere to their stored precision)."""
    if a == b or not floats and _float(a) and _float(b):
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for k, (x, y) in enumerate(zip(a, b)):
            if x != y:
                step = x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else str(k)
                d = difference(x, y, where + "/" + step, floats)
                if d:
                    return d
        return None
    return "%s: %s / %s" % (where, repr(a)[:200], repr(b)[:200])
