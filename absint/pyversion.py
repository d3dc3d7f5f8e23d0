"""
What another Python version has that the interpreter running the analysis has not, or the other way round.

The table checks/stdlib_versions.json gives, per standard-library name and parameter, the first
version that has it and the first that lacks it.
"""

import datetime
import enum
import json
import os
import re
import sys
import types
import typing

from .sym import Imprecise

HOST = tuple(sys.version_info[:2])
_TABLE = None


def table():
    global _TABLE
    if _TABLE is None:
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks", "stdlib_versions.json")
        with open(p, encoding="utf-8") as f:
            _TABLE = json.load(f)
    return _TABLE


class VersionInfo(tuple):
    "sys.version_info of the version under analysis"
    major = property(lambda s: s[0])
    minor = property(lambda s: s[1])
    micro = property(lambda s: s[2])
    releaselevel = property(lambda s: s[3])
    serial = property(lambda s: s[4])

    def __getitem__(self, i):
        r = tuple.__getitem__(self, i)
        return r


def version_info(v):
    return VersionInfo((v[0], v[1], 0, "final", 0))


_ALIAS = {"posixpath": "os.path", "_thread": "_thread"}
_MISSING = object()


class Mask:
    def __init__(self, version):
        self.v = tuple(version[:2])
        # list[int] and the like pass for types: isinstance(list[int], type) holds before 3.11
        self.alias_is_type = self.v < (3, 11)
        t = table()
        self.names = t["names"]
        self.params = t["params"]
        self.modules = t["modules"]

    def _absent(self, entry):
        a, r = entry
        return a is not None and tuple(a) > self.v or r is not None and tuple(r) <= self.v

    def module_missing(self, name):
        parts = name.split(".")
        for i in range(1, len(parts) + 1):
            e = self.modules.get(".".join(parts[:i]))
            if e is not None and self._absent(e):
                return True
        return False

    def entry(self, o, name):
        if isinstance(o, types.ModuleType):
            n = o.__name__
            return self.names.get(f"{n}.{name}") or self.names.get(f"{_ALIAS.get(n, n)}.{name}")
        if isinstance(o, type):
            for c in o.__mro__:
                m = c.__dict__.get("__module__", c.__module__)
                if isinstance(m, str):
                    e = self.names.get(f"{m}.{c.__qualname__}.{name}")
                    if e is not None:
                        return e
        return None

    def status(self, o, name):
        "'absent', 'present' (listed) or None (not listed) for an attribute of a host module or class in this version"
        e = self.entry(o, name)
        if e is None:
            return None
        return "absent" if self._absent(e) else "present"

    def why(self, o, name):
        a, r = self.entry(o, name)
        return f"added in {a[0]}.{a[1]}" if a is not None and tuple(a) > self.v else f"removed in {r[0]}.{r[1]}"

    def check_attr(self, o, name):
        t = o if isinstance(o, (types.ModuleType, type)) else type(o)
        st = self.status(t, name)
        if st == "absent":
            n = t.__name__
            raise AttributeError(f"{n!r} has no attribute {name!r} in Python {self.v[0]}.{self.v[1]} ({self.why(t, name)})")
        if st == "present":
            try:
                getattr(o, name)
            except AttributeError:
                raise Imprecise(f"{t.__name__}.{name} exists in Python {self.v[0]}.{self.v[1]} but not in the analysing interpreter") from None

    def key(self, f):
        m = getattr(f, "__module__", None)
        q = getattr(f, "__qualname__", None)
        slf = getattr(f, "__self__", None)
        if isinstance(slf, types.ModuleType):
            m = slf.__name__
        if m is None and slf is not None:
            m = (slf if isinstance(slf, type) else type(slf)).__module__
        return f"{m}.{q}"

    def new_params(self, f, names):
        "those of the keyword arguments that f does not have in this version"
        e = self.params.get(self.key(f))
        if not e:
            return []
        return [n for n in names if n in e and tuple(e[n]) > self.v]

    def check_call(self, f, args, kwargs):
        if kwargs:
            for n in self.new_params(f, kwargs):
                raise TypeError(f"{self.key(f)}() got an unexpected keyword argument {n!r} in Python {self.v[0]}.{self.v[1]}")
        if self.v < (3, 11):
            n = getattr(f, "__name__", None)
            if n == "fromisoformat":
                c = getattr(f, "__self__", None)
                if isinstance(c, type) and args and isinstance(args[0], str):
                    for b, rx in OLD_ISO:
                        if issubclass(c, b):
                            if not re.fullmatch(rx, args[0]):
                                raise ValueError(f"Invalid isoformat string: {args[0]!r}")
                            break

    def union_operator(self, a, b):
        "a | b of types raises before 3.10"
        if self.v < (3, 10) and typelike(a, b):
            raise TypeError("unsupported operand type(s) for |: 'type' and 'type'")

    def member(self, cls, isenum):
        "value in EnumClass raises before 3.12 unless the value is a member of some enumeration"
        if self.v < (3, 12) and isinstance(cls, type) and issubclass(cls, enum.Enum) and not isenum():
            raise TypeError(f"unsupported operand type(s) for 'in': a value and '{type(cls).__qualname__}' in Python {self.v[0]}.{self.v[1]}")


def typelike(a, b):
    def t(x):
        if isinstance(x, type):
            return not hasattr(type(x), "__or__") or type.__or__ is getattr(type(x), "__or__")
        return getattr(type(x), "__module__", None) == "typing" or isinstance(x, (types.GenericAlias, types.UnionType))

    return (t(a) and (t(b) or b is None)) or (t(b) and a is None)


_D = r"\d{4}-\d{2}-\d{2}"
_T = r"\d{2}(:\d{2}(:\d{2}(\.\d{3}(\d{3})?)?)?)?([+-]\d{2}:\d{2}(:\d{2}(\.\d{6})?)?)?"
OLD_ISO = [(datetime.datetime, rf"(?s:{_D}(.{_T})?)"), (datetime.date, _D), (datetime.time, _T)]


def extensions():
    "typing_extensions: a backport of everything the analysing interpreter's typing module has"
    m = types.ModuleType("typing_extensions")
    for k, v in vars(typing).items():
        if not k.startswith("__"):
            m.__dict__[k] = v
    return m
