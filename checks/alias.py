"""
Identity walks and fingerprints on the abstract heap.
"""

import types
import typing

from absint import sym as S


def mutables(*roots, skip=(), into_instances=True):
    "id -> (object, path) of every mutable object reachable from the roots through containers and instance attributes."
    seen, out = set(), {}
    work = [(r, f"root{i}") for i, r in enumerate(roots)]
    while work:
        o, p = work.pop()
        if id(o) in seen or id(o) in skip:
            continue
        seen.add(id(o))
        if isinstance(o, dict):
            out[id(o)] = (o, p)
            work += [(v, f"{p}[{k!r}]") for k, v in o.items()]
            work += [(k, f"{p} key") for k in o if isinstance(k, tuple)]
        elif isinstance(o, (list, set, bytearray)):
            out[id(o)] = (o, p)
            if not isinstance(o, bytearray):
                work += [(v, f"{p}[{i}]") for i, v in enumerate(o)]
        elif isinstance(o, (tuple, frozenset)):
            work += [(v, f"{p}[{i}]") for i, v in enumerate(o)]
            if hasattr(o, "__dict__"):
                work.append((o.__dict__, f"{p}.__dict__"))
        elif isinstance(o, type) or S.is_sym(o) or isinstance(o, types.ModuleType) or callable(o) and not hasattr(type(o), "__annotations__"):
            continue
        elif into_instances and isinstance(getattr(o, "__dict__", None), dict) and type(o).__module__ not in ("typing", "types", "re", "datetime", "enum"):
            import enum
            if isinstance(o, enum.Enum):
                continue
            out[id(o)] = (o, p)
            work += [(v, f"{p}.{k}") for k, v in o.__dict__.items()]
    return out


def tree_sharing(root):
    "Path pairs of a mutable container that occurs twice within root, or None."
    seen = {}
    work = [(root, "result")]
    while work:
        o, p = work.pop()
        if isinstance(o, (dict, list)):
            if id(o) in seen:
                return seen[id(o)], p
            seen[id(o)] = p
            work += [(v, f"{p}[{k!r}]") for k, v in (o.items() if isinstance(o, dict) else enumerate(o))]
    return None


def fingerprint(v, depth=0, seen=None):
    "Structure of a value with identities of opaque leaves; equal before and after iff nothing was changed."
    seen = seen or ()
    if any(v is s for s in seen):
        return ("cycle",)
    if isinstance(v, dict):
        return ("dict", type(v), tuple((fingerprint(k, depth + 1, seen + (v,)), fingerprint(x, depth + 1, seen + (v,))) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return (type(v), tuple(fingerprint(x, depth + 1, seen + (v,)) for x in v), fingerprint(v.__dict__, depth + 1, seen + (v,)) if getattr(v, "__dict__", None) else None)
    if isinstance(v, (set, frozenset)):
        return (type(v), frozenset(map(id, v)))
    if isinstance(v, type):
        return ("type", id(v), tuple(sorted((k, id(x)) for k, x in v.__dict__.items() if k not in ("__weakref__", "__dict__", "_abc_impl", "__annotations__"))),
                tuple((k, id(x)) for k, x in (v.__dict__.get("__annotations__") or {}).items()))
    if isinstance(v, (int, float, str, bytes, bool, type(None))) and not S.is_sym(v):
        return (type(v), v)
    if S.is_sym(v):
        return ("sym", id(v))
    d = getattr(v, "__dict__", None)
    if isinstance(d, dict) and not isinstance(v, types.ModuleType) and not callable(v) and type(v).__module__ != "typing":
        return ("obj", id(v), fingerprint(d, depth + 1, seen + (v,)))
    return ("id", id(v))
