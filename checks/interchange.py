"""
Product obligations: the analysed entry point against the reference semantics.
"""

import datetime
import typing

from absint import oracle, sym as S
from absint.sym import JSON_KINDS, Imprecise, NoneType, inp, is_sym

from .framework import Check, define, module
from .spec import ISO_DURATION, Duration, Fails, Obj, Spec, Unspecified, matches
from .witness import Elems

SCALAR_JSON = (NoneType, bool, int, float, str)


class InterchangeCheck(Check):
    def setup(self):
        self.analysis()
        self.json_to_object = self.api("serialization", "json_to_object")
        self.create_deserializer = self.api("deserializer", "create_deserializer")
        self.options = self.api("deserializer", "DeserializerOptions")
        self.object_to_json = self.api("serialization", "object_to_json")
        self.create_serializer = self.api("serializer", "create_serializer")
        self.spec = Spec(self.A)
        self.elems = Elems(self.A)
        self.jerr = self.spec.json_errors()

    def wmod(self, name, source, **names):
        "Witness module with type declarations; repository names are available as in user code."
        m = module(f"{self.ID}_{name}")
        aux, core = self.A.mod("auxiliary"), self.A.mod("core")
        m.__dict__.update({k: v for k, v in vars(aux).items() if isinstance(v, type) or typing.get_origin(v) is typing.Annotated})
        m.__dict__.update(names)
        define(m, "import dataclasses, datetime, enum, ipaddress, typing, uuid\nfrom dataclasses import InitVar, dataclass, field\nfrom enum import Enum\n"
                  "from typing import Annotated, Any, ClassVar, Dict, List, Literal, NamedTuple, Optional, Set, Tuple, Union\n" + source)
        return m

    # ------------------------------------------------------------------ product
    def product(self, impl, spec):
        E = self.A.E

        def thunk():
            try:
                r = ("return", impl())
            except Exception as e:
                if isinstance(e, RecursionError) and not type(e).__name__ == "Divergence":
                    raise
                r = ("raise", e)
            before = len(E.conds)
            try:
                s = ("return", spec())
            except Fails as e:
                s = ("raise", e.kinds)
            except self.jerr as e:
                s = ("raise", frozenset([type(e).__name__]))
            except Unspecified as e:
                raise Imprecise(f"not specified: {e}")
            except Imprecise:
                raise
            except Exception as e:
                raise Imprecise(f"specification: {type(e).__name__} {e}")
            if r[0] == "return" and s[0] == "return":
                v = matches(s[1], r[1], self.A)
            elif r[0] == "raise" and s[0] == "raise":
                v = type(r[1]).__name__ in s[1]
            else:
                v = False
            return (r, s, v)

        return thunk

    @staticmethod
    def text(r):
        if r[0] == "return":
            return "returns " + S.show(r[1])[:300]
        if isinstance(r[1], frozenset):
            return "raises " + " or ".join(sorted(r[1]))
        loc = getattr(r[1], "_absint_loc", None)
        return f"raises {type(r[1]).__name__}" + (f" at {loc[0]} in {loc[1]}" if loc else "")

    def compare(self, name, impl, spec, **k):
        def accept(o):
            if o.exc is not None:
                return f"unexpected {type(o.exc).__name__}"
            r, s, v = o.value
            if v is True:
                return None
            if r[0] == "raise":
                o.loc = getattr(r[1], "_absint_loc", None)
            return f"{self.text(r)}; the property requires: {self.text(s)}"

        def concrete(o, w):
            if o.exc is not None:
                return f"unexpected {type(o.exc).__name__}"
            r, s, v = o.value
            why = f"{self.text(r)}; the property requires: {self.text(s)}"
            if r[0] == "return" and s[0] == "return" and v is None:
                try:
                    x = fold(r[1], w)
                except oracle.Raised as e:
                    return None  # the trace's own predicates exclude this
                try:
                    y = fold(s[1], w)
                except oracle.Raised:
                    return None
                return None if _same(x, y, w) else f"{why} ({x!r} instead of {y!r})"[:700]
            return why

        return self.oblige(name, self.product(impl, spec), accept, concrete, **k)

    def decode(self, name, tp, data, skip=None, pre=None, caller=None, **k):
        "json_to_object(tp, data) against the reference decoder; data may be a function building it in the trace."
        get = data if not is_sym(data) and callable(data) else (lambda: data)
        box = {}

        def impl():
            box["d"] = get()
            separate(self.A.E, box["d"])
            kw = {}
            if skip is not None:
                kw["options"] = self.A.call(self.options, skip_unassigned=skip)
            return self.A.call(self.json_to_object, tp, box["d"], **kw)

        return self.compare(name, impl, lambda: self.spec.decode(tp, box["d"], bool(skip)), pre=pre, caller=caller, **k)


    def encode(self, name, value, tp=None, expect=None, bag=False, **k):
        """object_to_json(value) / create_serializer(tp).generate(value) against the reference encoder.
        With bag, arrays may list their items in any order (that of a set is not specified)."""
        box = {}
        norm = unordered if bag else (lambda x: x)

        def impl():
            box["v"] = value() if not is_sym(value) and callable(value) and not isinstance(value, type) else value
            separate(self.A.E, box["v"])
            if tp is None:
                return norm(self.A.call(self.object_to_json, box["v"]))
            s = self.A.call(self.create_serializer, tp)
            return norm(self.A.call(self.A.I.getattr(s, "generate"), box["v"]))

        return self.compare(name, impl, lambda: norm(expect() if expect else self.spec.encode(box["v"])), **k)

    def instance(self, cls, **values):
        "Instance of a witness class with the given field values."
        if issubclass(cls, tuple):
            return cls(**values)
        o = object.__new__(cls)
        for n, v in values.items():
            object.__setattr__(o, n, v)
        return o


def unordered(v):
    if type(v) is list:
        return sorted((unordered(x) for x in v), key=S.show)
    if type(v) is dict:
        return {k: unordered(x) for k, x in v.items()}
    return v


def separate(E, v, seen=None):
    """The members of a dictionary or set in the input are pairwise different: assumes it of those
    that are symbolic, so that code adding them one by one need not consider them equal."""
    seen = set() if seen is None else seen
    if is_sym(v) or id(v) in seen:
        return
    if isinstance(v, (dict, set, frozenset)):
        seen.add(id(v))
        keys = list(v)
        for i, a in enumerate(keys):
            for b in keys[i + 1:]:
                x, y = (a, b) if is_sym(a) else (b, a)
                if not is_sym(x):
                    continue
                p = S.mk("eq", x, y, types=frozenset([bool]))
                if p not in E.memo:
                    E.memo[p] = False
                    E.conds.append((p, False, E.where()))
                    if not is_sym(y):
                        E.neconst.setdefault(x, []).append(y)
                    else:
                        E.memo.setdefault(S.mk("eq", y, x, types=frozenset([bool])), False)
        for x in v.values() if isinstance(v, dict) else v:
            separate(E, x, seen)
    elif isinstance(v, (list, tuple)):
        seen.add(id(v))
        for x in v:
            separate(E, x, seen)
    elif isinstance(v, Obj) or hasattr(type(v), "__dataclass_fields__"):
        seen.add(id(v))
        for x in S.state(v).values():
            separate(E, x, seen)


def _same(x, y, w):
    "oracle.same with expected duration texts read by the ISO grammar."
    if isinstance(y, Duration):
        m = ISO_DURATION.fullmatch(x) if isinstance(x, str) else None
        if m is None:
            return False
        p = {k: int(v or 0) for k, v in m.groupdict().items() if k != "fraction"}
        f = (m["fraction"] or "").ljust(9, "0")
        try:
            return datetime.timedelta(**p, microseconds=int(f[:6])) == w.ev(y.value) and f.endswith("000")
        except OverflowError:
            return False
    if type(x) is type(y) and isinstance(x, (list, tuple)):
        return len(x) == len(y) and all(_same(a, b, w) for a, b in zip(x, y))
    if type(x) is type(y) is dict:
        return list(x) == list(y) and all(_same(x[k], y[k], w) for k in x)
    return oracle.same(x, y)


def fold(v, w):
    if isinstance(v, Duration):
        return v
    if isinstance(v, Obj):
        return ("obj", v.cls, {k: fold(x, w) for k, x in v.values.items()})
    if type(v) in (list, tuple):
        return type(v)(fold(x, w) for x in v)
    if type(v) is dict and set(v) == {"set"}:
        return set(fold(x, w) for x in v["set"])
    if type(v) is dict:
        return {fold(k, w): fold(x, w) for k, x in v.items()}
    if type(v) is set:
        return set(fold(x, w) for x in v)
    if hasattr(type(v), "__annotations__") and not is_sym(v) and not isinstance(v, type):
        return ("obj", type(v), {k: fold(x, w) for k, x in S.state(v).items()})
    return w.ev(v)
