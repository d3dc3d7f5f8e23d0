"""
Reference semantics of the schema generator (written from the README's conversion table and the property text).
"""

import dataclasses
import datetime
import decimal
import enum
import ipaddress
import json
import re
import types
import typing
import uuid

from absint import sym as S
from absint.sym import Imprecise, NoneType, is_sym

from .spec import Unspecified

SIMPLE = {
    NoneType: {"type": "null"}, bool: {"type": "boolean"}, int: {"type": "integer"}, float: {"type": "number"}, str: {"type": "string"},
    bytes: {"type": "string", "contentEncoding": "base64"}, datetime.datetime: {"type": "string", "format": "date-time"}, datetime.date: {"type": "string", "format": "date"},
    datetime.time: {"type": "string", "format": "time"}, datetime.timedelta: {"type": "string", "format": "duration"}, decimal.Decimal: {"type": "number"},
    uuid.UUID: {"type": "string", "format": "uuid"}, ipaddress.IPv4Address: {"type": "string", "format": "ipv4"}, ipaddress.IPv6Address: {"type": "string", "format": "ipv6"},
    typing.Any: {"oneOf": [{"type": t} for t in ("null", "boolean", "number", "string", "array", "object")]},
}
FIXED = {f"{u}int{n}": (int, u == "", n // 8, (-(2 ** (n - 1)), 2 ** (n - 1) - 1) if u == "" else (0, 2**n - 1)) for u in ("", "u") for n in (8, 16, 32, 64)}
DEFAULTS = (bool, int, float, str, enum.Enum, datetime.datetime, datetime.date, datetime.time, datetime.timedelta)


@dataclasses.dataclass
class Doc:
    "Documentation of a class: title, long description and property texts."
    title: str = None
    description: str = None
    params: dict = dataclasses.field(default_factory=dict)


class SchemaSpec:
    """schema(tp) -> schema; self.used collects (identifier, type) in order of use.

    registry: {type or hashable alias: (identifier, explicit schema or None, examples or None)}
    docs: {class: Doc}; props(cls) enumerates fields as (name, resolved type, json name)"""

    def __init__(self, A, spec, registry=None, docs=None, path="#/definitions/", descriptions=True, examples=True, transform=None):
        self.A, self.spec = A, spec
        self.registry, self.docs, self.path = registry or {}, docs or {}, path
        self.descriptions, self.examples, self.transform = descriptions, examples, transform
        self.used = {}
        aux = A.mod("auxiliary")
        self.aux = aux
        self.formats = []
        for n, (base, signed, size, (lo, hi)) in FIXED.items():
            self.formats.append((base, {"Signed": {"is_signed": signed}, "Storage": {"bytes": size}, "IntegerRange": {"minimum": lo, "maximum": hi}}, n))
        for n in (32, 64):
            self.formats.append((float, {"Storage": {"bytes": n // 8}}, f"float{n}"))

    def metaname(self, m):
        c = type(m)
        return c.__name__ if c.__module__ == self.aux.__name__ else None

    def ref(self, tp):
        ident = self.registry[tp][0]
        self.used.setdefault(ident, tp)
        return {"$ref": self.path + ident}

    def registered(self, tp):
        try:
            return tp in self.registry
        except TypeError:
            return False

    def schema(self, tp, expand=False):
        simple = self.simple(tp)
        if simple is not None:
            return simple
        if not expand and self.registered(tp):
            return self.ref(tp)
        meta = getattr(tp, "__metadata__", None) if typing.get_origin(tp) is typing.Annotated else None
        if meta is not None:
            inner = typing.get_args(tp)[0]
            simple = self.simple(inner)
            if simple is None:
                return self.schema(inner, expand)
            got = {self.metaname(m): getattr(m, "__dict__", None) for m in meta}
            if len(got) == len(meta):
                for base, want, name in self.formats:
                    if base is inner and got == want:
                        return {**simple, "format": name}
            for m in meta:
                k = self.metaname(m)
                if k == "IntegerRange":
                    simple.update(minimum=m.minimum, maximum=m.maximum)
                elif k == "Precision":
                    d = m.decimal_digits
                    i = m.significant_digits - d
                    simple.update(multipleOf=10 ** (-d), exclusiveMinimum=-(10**i), exclusiveMaximum=10**i)
                elif k == "MinLength":
                    simple.update(minLength=m.value)
                elif k == "MaxLength":
                    simple.update(maxLength=m.value)
            return simple
        origin, args = typing.get_origin(tp), typing.get_args(tp)
        if origin in (typing.Union, types.UnionType):
            return {"oneOf": [self.schema(a) for a in args]}
        if origin is list:
            return {"type": "array", "items": self.schema(args[0])}
        if origin is set:
            return {"type": "array", "items": self.schema(args[0]), "uniqueItems": True}
        if origin is tuple:
            return {"type": "array", "minItems": len(args), "maxItems": len(args), "prefixItems": [self.schema(a) for a in args]}
        if origin is dict:
            k = args[0]
            while typing.get_origin(k) is typing.Annotated:
                k = k.__origin__
            if isinstance(k, type) and issubclass(k, enum.Enum):
                names = [str(e.value) for e in k]
                return Dict_(names, lambda: self.schema(args[1]))
            return {"type": "object", "additionalProperties": self.schema(args[1])}
        if origin is typing.Literal:
            kinds = {type(a) for a in args}
            if len(kinds) != 1:
                raise Unspecified("literal of several types")
            r = dict(self.schema(kinds.pop()))
            r.update({"const": args[0]} if len(args) == 1 else {"enum": list(args)})
            return r
        if not isinstance(tp, type):
            raise Unspecified(f"schema of {tp}")
        if issubclass(tp, enum.Enum):
            kinds = {type(e.value) for e in tp}
            if len(kinds) != 1:
                raise Unspecified("enum of several types")
            k = kinds.pop()
            if k not in (bool, int, float, str):
                raise Unspecified("enum value type")
            return {**SIMPLE[k], "enum": [e.value for e in tp], **self.doc(tp)}
        return self.cls(tp)

    def simple(self, tp):
        for t, s in SIMPLE.items():
            if tp is t:
                return json.loads(json.dumps(s))
        core = self.A.mod("core").__dict__
        if tp is core.get("JsonObject"):
            return {"type": "object"}
        if tp is core.get("JsonArray"):
            return {"type": "array"}
        return None

    def doc(self, tp):
        d = self.docs.get(tp)
        out = {}
        if self.descriptions and d is not None:
            if d.title:
                out["title"] = d.title
            if d.description:
                out["description"] = d.description
        if self.descriptions and d is None and isinstance(tp, type) and issubclass(tp, tuple) and tp.__doc__:
            out["title"] = MAYBE  # text generated by NamedTuple itself
        return out

    def cls(self, tp):
        props, required = {}, set()
        for name, jn, ft, *_ in self.spec.fields(tp):
            opt = self.optional(ft)
            if opt is None:
                required.add(jn)
                s = self.schema(ft)
            else:
                s = self.schema(opt)
            d = tp.__dict__.get(name) if not issubclass(tp, tuple) else None
            for b in tp.__mro__:
                if d is None and not issubclass(tp, tuple):
                    d = b.__dict__.get(name)
            if d is not None and isinstance(d, DEFAULTS):
                s["default"] = self.spec.encode(d)
            text = None
            for b in tp.__mro__:
                if b in self.docs and name in self.docs[b].params:
                    text = self.docs[b].params[name]
                    if self.transform:
                        text = self.transform(tp, name, text)
                    break
            if text:
                s.pop("title", None)
                s["description"] = text
            props[jn] = s
        out = {"type": "object"}
        if props:
            out.update(properties=props, additionalProperties=False)
        if required:
            out["required"] = required
        out.update(self.doc(tp))
        return out

    def optional(self, tp):
        "The type without None if tp is one type or None, else None."
        meta = ()
        if typing.get_origin(tp) is typing.Annotated:
            meta = tp.__metadata__
            tp = typing.get_args(tp)[0]
        if typing.get_origin(tp) not in (typing.Union, types.UnionType):
            return None
        args = typing.get_args(tp)
        rest = tuple(a for a in args if a is not NoneType)
        if len(rest) == len(args):
            return None
        r = typing.Union[rest]
        return typing.Annotated[(r, *meta)] if meta else r

    def full(self, tp, expand=False):
        "(schema, definitions)"
        s = self.schema(tp, expand)
        defs = {}
        while True:
            todo = [k for k in self.used if k not in defs]
            if not todo:
                return s, defs
            for k in todo:
                t = self.used[k]
                ident, explicit, examples = self.registry[t]
                d = json.loads(json.dumps(explicit)) if explicit is not None else self.schema(t, True)
                if isinstance(t, type):
                    d.update(self.doc(t))
                if self.examples and examples:
                    d["examples"] = json.loads(json.dumps(examples))
                defs[k] = d


MAYBE = type("MAYBE", (), {"__repr__": lambda self: "anything"})()


class Dict_:
    "Schema of dict[Enum, V]: the properties are exactly the enumeration values."

    def __init__(self, names, value):
        self.names, self.value = names, value()


def diff(want, got, at="schema"):
    "None if the schemas agree (key order does not matter), else a text."
    if isinstance(want, Dict_):
        if not isinstance(got, dict) or got.get("type") != "object":
            return f"{at}: an object schema is required, got {S.show(got)[:200]}"
        if "properties" in got:
            if set(got) != {"type", "properties", "additionalProperties"} or got["additionalProperties"] is not False or set(got["properties"]) != set(want.names):
                return f"{at}: exactly the properties {want.names} are required, got {S.show(got)[:300]}"
            for n in want.names:
                d = diff(want.value, got["properties"][n], f"{at}.{n}")
                if d:
                    return d
            return None
        pn = got.get("propertyNames")
        if set(got) != {"type", "propertyNames", "additionalProperties"} or not isinstance(pn, dict):
            return f"{at}: property names must be restricted to {want.names}, got {S.show(got)[:300]}"
        bad = names_bad(pn, want.names)
        return f"{at}: {bad}" if bad else diff(want.value, got["additionalProperties"], f"{at}.*")
    if is_sym(want) or is_sym(got):
        return None if want is got or (is_sym(want) and is_sym(got) and want == got) else f"{at}: {S.show(want)} required, got {S.show(got)[:200]}"
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return f"{at}: {S.show(want)[:200]} required, got {S.show(got)[:200]}"
        for k in want:
            if want[k] is MAYBE:
                continue
            if k not in got:
                return f"{at}: {k} is missing ({S.show(want[k])[:120] if not isinstance(want[k], (Dict_, set)) else k} required)"
            d = diff(want[k], got[k], f"{at}.{k}")
            if d:
                return d
        for k in got:
            if k not in want:
                return f"{at}: unexpected {k} = {S.show(got[k])[:200]}"
        return None
    if isinstance(want, set):
        if not isinstance(got, (list, tuple)) or len(got) != len(want) or set(got) != want:
            return f"{at}: {sorted(want)} required (each once), got {S.show(got)[:200]}"
        return None
    if isinstance(want, list):
        if not isinstance(got, list) or len(got) != len(want):
            return f"{at}: {S.show(want)[:200]} required, got {S.show(got)[:200]}"
        for i, (a, b) in enumerate(zip(want, got)):
            d = diff(a, b, f"{at}[{i}]")
            if d:
                return d
        return None
    if type(want) in (int, float) and type(got) in (int, float):
        return None if want == got else f"{at}: {want!r} required, got {got!r}"
    return None if type(want) is type(got) and want == got else f"{at}: {want!r} required, got {S.show(got)[:200]}"


def names_bad(pn, names):
    if set(pn) == {"enum"} and set(pn["enum"]) == set(names):
        return None
    if set(pn) != {"pattern"} or not isinstance(pn["pattern"], str):
        return f"unknown restriction of property names {S.show(pn)[:200]}"
    lang = finite_language(pn["pattern"])
    if lang is None:
        return None if all(re.search(pn["pattern"], n) for n in names) else f"pattern {pn['pattern']!r} does not accept every one of {names}"
    return None if lang == set(names) else f"pattern {pn['pattern']!r} accepts {sorted(lang)} instead of {names}"


def finite_language(p):
    "Language of an anchored pattern of literal alternatives; None if it is not of that form."
    try:
        import re._parser as rp
    except ImportError:
        import sre_parse as rp
    try:
        t = list(rp.parse(p))
    except Exception:
        return set()
    if len(t) < 2 or str(t[0]) != "(AT, AT_BEGINNING)" or str(t[-1][0]) != "AT":
        return None

    def words(seq):
        out = {""}
        for op, a in seq:
            o = str(op)
            if o == "LITERAL":
                out = {w + chr(a) for w in out}
            elif o == "SUBPATTERN":
                sub = words(a[-1])
                if sub is None:
                    return None
                out = {w + s for w in out for s in sub}
            elif o == "BRANCH":
                subs = [words(b) for b in a[1]]
                if None in subs:
                    return None
                out = {w + s for w in out for x in subs for s in x}
            elif o == "IN" and all(str(k) == "LITERAL" for k, _ in a):
                out = {w + chr(c) for w in out for _, c in a}
            elif o == "AT":
                continue
            else:
                return None
        return out

    return words(t[1:-1])
