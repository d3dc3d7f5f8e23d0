"""
Witness types: the finite set of type shapes the obligations quantify over.

Only type *declarations* are made here (classes, annotations).  Leaf positions are
filled with opaque element classes: classes with no known content whose values are
abstract and whose JSON conversion is an uninterpreted function of the input.
"""

import dataclasses
import datetime
import enum
import ipaddress
import typing
import uuid

from absint import sym as S
from absint.driver import hook
from absint.sym import JSON_KINDS, mk

from .framework import define, module

SCALARS = {
    "None": type(None), "bool": bool, "int": int, "float": float, "str": str, "bytes": bytes, "datetime": datetime.datetime,
    "date": datetime.date, "time": datetime.time, "timedelta": datetime.timedelta, "UUID": uuid.UUID,
    "IPv4Address": ipaddress.IPv4Address, "IPv6Address": ipaddress.IPv6Address,
}


def _plain(v):
    "Hash-consable image of a (possibly structured) argument."
    if isinstance(v, list):
        return ("list",) + tuple(_plain(x) for x in v)
    if isinstance(v, dict):
        return ("dict",) + tuple((k, _plain(x)) for k, x in v.items())
    return v


class Elems:
    "Opaque element classes of one analysis."

    def __init__(self, A):
        self.A = A
        ex = A.mod("exception")
        self.errors = {"JsonKeyError": ex.JsonKeyError, "JsonTypeError": ex.JsonTypeError, "JsonValueError": ex.JsonValueError}
        self.cache = {}
        self.mod = module("elems")

    def make(self, name, errors=("JsonTypeError",), read=True, write=True, result=None):
        key = (name, errors, read, write)
        if key in self.cache:
            return self.cache[key]
        E = self.A.E
        excs = tuple(self.errors[e] for e in errors)
        ns = {"__module__": self.mod.__name__, "__qualname__": name, "__absint_opaque__": True, "__absint_witness__": True}
        cls = type(name, (), ns)
        if read:
            def from_json(data):
                t = mk("hook", "from_json", cls, _plain(data), types=frozenset([cls]))
                E.may_raise(t, excs)
                return t

            cls.from_json = staticmethod(hook(from_json))
        if write:
            def to_json(self):
                return mk("hook", "to_json", cls, self, types=result)

            cls.to_json = hook(to_json)
        setattr(self.mod, name, cls)
        self.cache[key] = cls
        return cls


# field-name classes: identifier forms that name mapping distinguishes
FIELD_NAMES = ["a", "camelCase", "_private", "from_", "class_", "trailing_", "match_", "None_", "é", "self_", "x__", "in__", "_in_", "IN_", "__", "is_", "type_", "async_", "id"]
