import dataclasses
import datetime
import decimal
import enum
import ipaddress
import sys
import types
import uuid

from .interchange import *

FORMATS = {"date-time": datetime.datetime, "date": datetime.date, "time": datetime.time, "duration": datetime.timedelta, "uuid": uuid.UUID, "ipv4": ipaddress.IPv4Address, "ipv6": ipaddress.IPv6Address}
WANT = {"P1DT2H": datetime.timedelta(days=1, hours=2), "2018-11-13T20:20:39Z": datetime.datetime(2018, 11, 13, 20, 20, 39, tzinfo=datetime.timezone.utc), "20:20:39Z": datetime.time(20, 20, 39, tzinfo=datetime.timezone.utc)}
UNION = (typing.Union, types.UnionType)


def dig(n):
    "Exponent of a power of ten, else None."
    if n <= 0:
        return None
    for k in range(-30, 31):
        if 10**k == n or float(10**k) == n:
            return k
    return None


NODES = {
    "number above": {"type": "number", "exclusiveMinimum": -10}, "number below": {"type": "number", "exclusiveMaximum": 10}, "number above, multiple": {"type": "number", "exclusiveMinimum": -10, "multipleOf": 0.01}, "number below, multiple": {"type": "number", "exclusiveMaximum": 10, "multipleOf": 0.01},
    "boolean": {"type": "boolean"}, "boolean const": {"type": "boolean", "const": False}, "boolean const true": {"type": "boolean", "const": True}, "integer": {"type": "integer"}, "int16": {"type": "integer", "format": "int16"}, "int32": {"type": "integer", "format": "int32"}, "int64": {"type": "integer", "format": "int64"},
    "other format": {"type": "integer", "format": "uint8"}, "integer const": {"type": "integer", "const": 0}, "integer const 7": {"type": "integer", "const": 7}, "integer enum": {"type": "integer", "enum": [5, -40000, 3]}, "small range": {"type": "integer", "minimum": -32768, "maximum": 32767}, "range": {"type": "integer", "minimum": 0, "maximum": 32768},
    "half range": {"type": "integer", "minimum": 3}, "other half": {"type": "integer", "maximum": 3}, "zero range": {"type": "integer", "minimum": 0, "maximum": 0}, "number": {"type": "number"}, "float32": {"type": "number", "format": "float32"}, "float64": {"type": "number", "format": "float64"}, "number const": {"type": "number", "const": 0.5}, "number const zero": {"type": "number", "const": 0.0},
    "decimal": {"type": "number", "multipleOf": 0.000001, "exclusiveMinimum": -1000, "exclusiveMaximum": 1000}, "decimal no fraction": {"type": "number", "multipleOf": 1, "exclusiveMinimum": -100000, "exclusiveMaximum": 100000}, "decimal fraction": {"type": "number", "multipleOf": 0.01, "exclusiveMinimum": -1, "exclusiveMaximum": 1},
    "number asymmetric": {"type": "number", "multipleOf": 0.01, "exclusiveMinimum": -1, "exclusiveMaximum": 10}, "number multiple": {"type": "number", "multipleOf": 0.1}, "number bounds": {"type": "number", "exclusiveMinimum": -10, "exclusiveMaximum": 10}, "number minimum": {"type": "number", "minimum": 0, "maximum": 5},
    "string": {"type": "string"}, "string const": {"type": "string", "const": "a"}, "string const empty": {"type": "string", "const": ""}, "max length": {"type": "string", "maxLength": 7}, "max length zero": {"type": "string", "maxLength": 0}, "min length": {"type": "string", "minLength": 2}, "enum": {"type": "string", "enum": ["a", "b"]},
    "enum names": {"type": "string", "enum": ["a-b", "a_b", "a b", "", "mro", "_x_", "__y", "1", "in", "v", "vv"]}, "enum documented": {"type": "string", "enum": ["a"], "title": "Enum title.", "description": "Enum description."}, "enum one": {"type": "string", "enum": ["only"]}, "unknown format": {"type": "string", "format": "email"},
    **{f: {"type": "string", "format": f} for f in FORMATS}, "array": {"type": "array", "items": {"type": "integer"}}, "array of dates": {"type": "array", "items": {"type": "string", "format": "date"}}, "array of arrays": {"type": "array", "items": {"type": "array", "items": {"type": "string"}}},
    "array of enums": {"type": "array", "items": {"type": "string", "enum": ["x", "y"]}}, "oneOf": {"oneOf": [{"type": "integer"}, {"type": "string"}]}, "oneOf formats": {"oneOf": [{"type": "string", "format": "date"}, {"type": "string", "format": "uuid"}, {"type": "boolean"}]}, "oneOf arrays": {"oneOf": [{"type": "array", "items": {"type": "integer"}}, {"type": "string"}]},
    "object": {"type": "object", "properties": {"q": {"type": "integer"}, "r": {"type": "string"}}, "additionalProperties": False, "required": ["q"]}, "array of objects": {"type": "array", "items": {"type": "object", "properties": {"q": {"type": "boolean"}}, "additionalProperties": False}},
    "nested object": {"type": "object", "properties": {"q": {"type": "object", "properties": {"z": {"type": "integer"}}, "additionalProperties": False, "required": ["z"]}}, "additionalProperties": False, "required": ["q"]},
    "documented": {"type": "integer", "title": "A title", "description": "A description"}, "described": {"type": "string", "description": "Only described"}, "documented object": {"type": "object", "title": "Object title.", "description": "Object text.\n\nMore text.", "properties": {"q": {"type": "integer", "title": "Q title"}}, "additionalProperties": False}, "examples": {"type": "integer", "examples": [1, 2]},
}


class C22(InterchangeCheck):
    ID = "C22"
    RULE = ("Schemas of the supported subset (every construct alone and nested in properties, arrays, oneOf and definitions; required / optional / defaulted properties; documentation; references in every order) with abstract default "
            "values: the constructed type must match the schema construct by construct according to the inverse of the generator's mapping, and disallowed schemas must raise TypeError.")
    MIN_DECIDED = 200

    def run(self):
        self.setup()
        self.fn = self.api("classdef", "schema_to_type")
        self.aux = self.A.mod("auxiliary")
        self.n = 0
        S_ = "https://json-schema.org/draft/2020-12/schema"
        num = lambda t=int, n="d": inp(n, t)
        nodes = NODES
        defaults = {
            "boolean": [num(bool)], "integer": [num(int)], "int32": [num(int)], "range": [3], "number": [0.5, num(float)], "float32": [1.5], "string": [num(str)], "max length": ["abc"], "enum": ["a", "b"], "date": ["2020-02-29"], "uuid": ["f81d4fae-7dec-11d0-a765-00a0c91e6bf6"], "duration": ["P1DT2H"], "ipv4": ["192.0.2.1"], "time": ["20:20:39Z"], "date-time": ["2018-11-13T20:20:39Z"],
            "boolean false": [False], "integer zero": [0], "string empty": [""], "ipv6": ["2001:db8::1"],
        }
        top = lambda props, required=None, **k: {"$schema": S_, "type": "object", "properties": props, "additionalProperties": False, **({"required": required} if required is not None else {}), **k}
        for n, s in nodes.items():
            self.convert(f"{n}, required", top({"p": s}, ["p"]))
            self.convert(f"{n}, not required", top({"p": s}))
            self.convert(f"{n} between others", top({"a": {"type": "integer"}, "p": s, "z": {"type": "string"}}, ["z", "p"]))
            self.convert(f"{n} in array", top({"p": {"type": "array", "items": s}}, ["p"]))
            self.convert(f"{n} in oneOf", top({"p": {"oneOf": [{"type": "boolean", "const": True}, s]}}, ["p"]) if "oneOf" not in n else top({"p": {"oneOf": [{"type": "boolean"}, s]}}, ["p"]))
            self.convert(f"{n} in inner object", top({"o": {"type": "object", "properties": {"p": s, "n": {"type": "integer"}}, "additionalProperties": False, "required": ["p"]}}, ["o"]))
            self.convert(f"{n} as definition", top({"p": {"$ref": "#/definitions/Def"}}, ["p"], definitions={"Def": s}))
            self.convert(f"{n} as definition, not required", top({"p": {"$ref": "#/definitions/Def"}, "l": {"type": "array", "items": {"$ref": "#/definitions/Def"}}}, definitions={"Def": s}))
        for n, ds in defaults.items():
            base = n if n in nodes else n.split()[0]
            for i, d in enumerate(ds):
                s = {**nodes[base], "default": d}
                self.convert(f"default {i} of {n}, required", top({"p": s}, ["p"]))
                self.convert(f"default {i} of {n}, not required", top({"p": s}))
                self.convert(f"default {i} of {n} before others", top({"p": s, "q": {"type": "integer"}, "r": {**s, "default": d}, "s": {"type": "string"}}, ["q", "p"]))
        t = {"type": "integer"}
        self.convert("empty object", top({}))
        self.convert("titled class", top({"p": t}, ["p"], title="Title.", description="Description.\nmore"))
        self.convert("described class", top({"p": t}, ["p"], description="Only description."))
        self.convert("titled property", top({"p": {**t, "title": "P title", "description": "P desc"}, "q": {**t, "description": "Q desc"}}, ["p"], title="Title."))
        self.convert("many properties", top({f"p{i}": nodes[k] for i, k in enumerate(["integer", "enum", "uuid", "array", "oneOf", "decimal", "object"])}, ["p0", "p3", "p6"]))
        ref = lambda n, **k: {"$ref": f"#/definitions/{n}", **k}
        obj = lambda req=None, **p: {"type": "object", "properties": p, "additionalProperties": False, **({"required": req} if req else {})}
        graphs = {
            "in order": {"A": obj(["v"], v=t), "B": obj(["a"], a=ref("A"))}, "later": {"A": obj(["b"], b=ref("B")), "B": obj(["v"], v=t)}, "later list": {"A": obj(["b"], b={"type": "array", "items": ref("B")}), "B": obj(v=t)}, "self": {"A": obj(a=ref("A"), v=t), "B": t}, "self list": {"A": obj(["a"], a={"type": "array", "items": ref("A")}), "B": ref("A")},
            "mutual": {"A": obj(b=ref("B")), "B": obj(["a"], a={"type": "array", "items": ref("A")})}, "union": {"A": {"oneOf": [ref("B"), t]}, "B": obj(v=t)}, "alias": {"A": t, "B": {"type": "array", "items": ref("A")}}, "enum": {"A": {"type": "string", "enum": ["x"]}, "B": obj(a=ref("A"))}, "chain": {"A": obj(["b"], b=ref("B")), "B": obj(["c"], c=ref("C")), "C": obj(v=t)},
            "documented": {"A": obj(["b"], b=ref("B", description="About b.")), "B": {**obj(v=t), "title": "Title of B."}},
        }
        for n, g in graphs.items():
            self.convert(f"definitions {n}", top({"a": ref("A"), "b": ref("B"), "l": {"type": "array", "items": ref("A")}}, ["a"], definitions=g))
            self.convert(f"definitions {n} reversed", top({"a": ref("A"), "b": ref("B")}, ["b"], definitions=dict(reversed(list(g.items())))))
        # disallowed
        for n, s in {"additional properties": {**top({"p": t}), "additionalProperties": True}, "additional properties missing": {k: v for k, v in top({"p": t}).items() if k != "additionalProperties"}, "inner additional properties": top({"o": {"type": "object", "properties": {"p": t}, "additionalProperties": True}}),
                     "inner additional properties missing": top({"o": {"type": "object", "properties": {"p": t}}}), "in array": top({"o": {"type": "array", "items": {"type": "object", "properties": {"p": t}}}}), "in definition": top({"p": t}, definitions={"D": {"type": "object", "properties": {"p": t}, "additionalProperties": True}}),
                     "default of array item": top({"p": {"type": "array", "items": {**t, "default": 1}}}), "default of union member": top({"p": {"oneOf": [{**t, "default": 1}, {"type": "string"}]}}), "default of definition": top({"p": t}, definitions={"D": {**t, "default": 1}})}.items():
            self.rejects(n, s)
        for n, r in {"elsewhere": "#/properties/D", "other document": "http://example.com/schema#/definitions/D", "nested": "#/definitions/D/properties/q", "bare name": "D", "nameless": "#/definitions/", "with suffix": "#/definitions/D-1", "draft 2020": "#/$defs/D", "empty": ""}.items():
            d = {"D": {"type": "object", "properties": {"q": t}, "additionalProperties": False}}
            for pn, p in {"property": {"p": {"$ref": r}}, "array": {"p": {"type": "array", "items": {"$ref": r}}}, "oneOf": {"p": {"oneOf": [t, {"$ref": r}]}}, "inner object": {"p": {"type": "object", "properties": {"i": {"$ref": r}}, "additionalProperties": False}}}.items():
                self.rejects(f"reference {n} in {pn}", top(p, definitions=d), ValueError)
            self.rejects(f"reference {n} in definition", top({"p": t}, definitions={**d, "R": {"$ref": r}}), ValueError)
        free = {"type": "object"}
        J = self.A.mod("core").__dict__["JsonType"]
        for n, (s, at) in {"property": (top({"p": free, "q": t}, ["p"]), lambda T, m: fields(T)["p"]), "titled property": (top({"p": {**free, "title": "Any."}}, ["p"]), lambda T, m: fields(T)["p"]),
                           "array": (top({"p": {"type": "array", "items": free}}, ["p"]), lambda T, m: typing.get_args(fields(T)["p"])[0]), "inner object": (top({"o": {"type": "object", "properties": {"p": free}, "required": ["p"], "additionalProperties": False}}, ["o"]), lambda T, m: fields(fields(T)["o"])["p"]),
                           "definition": (top({"p": t}, definitions={"D": free}), lambda T, m: m.__dict__["D"]), "reference": (top({"p": {"$ref": "#/definitions/D"}}, ["p"], definitions={"D": free}), lambda T, m: fields(T)["p"])}.items():
            m, base = self.fresh()

            def thunk():
                m.__dict__.clear()
                m.__dict__.update(base)
                r = at(self.A.call(self.fn, s, module=m, class_name="Top"), m)
                return None if r is J or r == J else f"any JSON value is required for an object of unspecified properties, got {S.show(r)[:200]}"

            def acc(o):
                return f"no type is created: {o.describe()}" if o.exc is not None else o.value

            self.oblige(f"open object as {n}", thunk, acc, concrete=lambda o, w: acc(o))
        self.ranges()

    # ------------------------------------------------------------------ obligations
    def fresh(self):
        self.n += 1
        from .framework import module
        m = module(f"C22_m{self.n}")
        base = dict(m.__dict__)
        return m, base

    def convert(self, name, schema):
        m, base = self.fresh()

        def thunk():
            m.__dict__.clear()
            m.__dict__.update(base)
            r = self.A.call(self.fn, schema, module=m, class_name="Top")
            node = {k: v for k, v in schema.items() if k not in ("$schema", "definitions")}
            defs = schema.get("definitions", {})
            why = self.bad_type(node, r, m, defs, "Top")
            if why:
                return why
            for k, v in defs.items():
                if k not in m.__dict__:
                    return f"definition {k} is not created in the module"
                why = self.bad_type(v, m.__dict__[k], m, defs, k, at=k)
                if why:
                    return why
            return None

        def acc(o):
            if o.exc is not None:
                return f"no type is created: {o.describe()}"
            return o.value

        self.oblige(name, thunk, acc, concrete=lambda o, w: acc(o))

    def rejects(self, name, schema, kind=TypeError):
        m, base = self.fresh()

        def thunk():
            m.__dict__.clear()
            m.__dict__.update(base)
            return self.A.call(self.fn, schema, module=m, class_name="Top")

        def acc(o):
            if o.exc is None or not isinstance(o.exc, kind):
                return f"{kind.__name__} is required; {o.describe()}"

        self.oblige(f"disallowed: {name}", thunk, acc, concrete=lambda o, w: acc(o))

    # -------------------------------------------------------------------- reference
    def simple(self, s):
        "Exact type of a schema that creates no class; None for the others."
        ty, aux = s.get("type"), self.aux
        if "const" in s:
            return typing.Literal[s["const"]]
        if ty == "boolean":
            return bool
        if ty == "integer":
            f = s.get("format")
            if f in ("int16", "int32", "int64"):
                return getattr(aux, f)
            lo, hi = (min(s["enum"]), max(s["enum"])) if "enum" in s else (s.get("minimum"), s.get("maximum"))
            return int if lo is None or hi is None else self.width(lo, hi)
        if ty == "number":
            f = s.get("format")
            if f in ("float32", "float64"):
                return getattr(aux, f)
            lo, hi, mu = s.get("exclusiveMinimum"), s.get("exclusiveMaximum"), s.get("multipleOf")
            if None not in (lo, hi, mu) and lo == -hi:
                i, d = dig(hi), dig(mu)
                return typing.Annotated[decimal.Decimal, aux.Precision(i - d, -d)]
            return float
        if ty == "string":
            if s.get("format") in FORMATS:
                return FORMATS[s["format"]]
            if "enum" in s:
                return None
            if "maxLength" in s:
                return typing.Annotated[str, aux.MaxLength(s["maxLength"])]
            return str
        return None

    def width(self, lo, hi):
        for b in (16, 32, 64):
            if lo >= -(2 ** (b - 1)) and hi < 2 ** (b - 1):
                return getattr(self.aux, f"int{b}")
        return int

    def bad_type(self, s, tp, m, defs, name, at="type"):
        show = lambda x: S.show(x)[:150]
        if "$ref" in s:
            n = s["$ref"].rsplit("/", 1)[1]
            if isinstance(tp, typing.ForwardRef):
                return None if resolve(tp.__forward_arg__, defs) == resolve(n, defs) else f"{at}: a reference to {n} is required, got {show(tp)}"
            return None if n in m.__dict__ and same(tp, m.__dict__[n]) else f"{at}: the type of definition {n} is required, got {show(tp)}"
        want = self.simple(s)
        if want is not None:
            return None if same(tp, want) else f"{at}: {want} is required for {show(s)}, got {show(tp)}"
        if "oneOf" in s:
            args = members(tp)
            flat = []
            for x in s["oneOf"]:
                flat += self.alternatives(x, m)
            uniq = []
            for f in flat:
                if f not in uniq:
                    uniq.append(f)
            if len(args) != len(uniq):
                return f"{at}: a union of {len(uniq)} types is required, got {show(tp)}"
            for x, a in zip(uniq, args):
                b = self.bad_type(x, a, m, defs, name, f"{at}|") if isinstance(x, dict) else (None if same(a, x) else f"{at}: {x} required in the union, got {show(a)}")
                if b:
                    return b
            return None
        ty = s.get("type")
        if ty == "array":
            if typing.get_origin(tp) is not list:
                return f"{at}: a list type is required, got {show(tp)}"
            return self.bad_type(s["items"], typing.get_args(tp)[0], m, defs, name, f"{at}[]")
        if ty == "string":
            if not (isinstance(tp, type) and issubclass(tp, enum.Enum)):
                return f"{at}: an enumeration is required, got {show(tp)}"
            if [e.value for e in tp] != s["enum"]:
                return f"{at}: an enumeration of {s['enum']} is required, got {[e.value for e in tp]}"
            if tp.__module__ != m.__name__ or tp.__name__ not in m.__dict__:
                return f"{at}: the enumeration {tp.__name__} is not created in the given module"
            return self.bad_doc(s, tp, {}, at)
        if ty == "object":
            if not (isinstance(tp, type) and dataclasses.is_dataclass(tp)):
                return f"{at}: a data class is required, got {show(tp)}"
            if tp.__module__ != m.__name__:
                return f"{at}: the data class must belong to the given module, not {tp.__module__}"
            if tp.__name__ not in m.__dict__:
                return f"{at}: the data class {tp.__name__} is not created in the given module"
            fields = {f.name: f for f in dataclasses.fields(tp)}
            props = s.get("properties", {})
            if set(fields) != set(props) or len(fields) != len(props):
                return f"{at}: exactly the fields {sorted(props)} are required, got {sorted(fields)}"
            late = False
            for n, f in fields.items():
                has = f.default is not dataclasses.MISSING or f.default_factory is not dataclasses.MISSING
                if late and not has:
                    return f"{at}: field {n} without default follows a field with default"
                late = late or has
            for n, p in props.items():
                f = fields[n]
                ft = f.type
                if n not in s.get("required", ()):
                    args = members(ft)
                    if NoneType not in args:
                        return f"{at}.{n}: an optional type is required for a property that is not required, got {show(ft)}"
                    rest = tuple(a for a in args if a is not NoneType)
                    ft = rest[0] if len(rest) == 1 else typing.Union[rest]
                elif NoneType in members(ft):
                    return f"{at}.{n}: a required property must keep its type, got {show(ft)}"
                b = self.bad_type(p, ft, m, defs, f"{name}__{n}", f"{at}.{n}")
                if b:
                    return b
                if "default" in p and "const" not in p:
                    t = self.simple(p) or ft
                    want = WANT[p["default"]] if not is_sym(p["default"]) and t in (datetime.datetime, datetime.timedelta, datetime.time) else self.spec.decode(t, p["default"])
                    got = f.default
                    if got is dataclasses.MISSING or not (got is want or matches(want, got, self.A) is True or not is_sym(got) and not is_sym(want) and type(got) is type(want) and got == want):
                        return f"{at}.{n}: default {S.show(want)} is required, got {show(got)}"
                elif f.default is not dataclasses.MISSING:
                    return f"{at}.{n}: unexpected default {show(f.default)}"
            return self.bad_doc(s, tp, {n: p.get("title") or p.get("description") for n, p in props.items()}, at)
        return f"{at}: schema {show(s)} is not in the supported subset"

    def alternatives(self, s, m):
        "Members a schema contributes to a union (unions are flat)."
        if "oneOf" in s:
            return [a for x in s["oneOf"] for a in self.alternatives(x, m)]
        if "$ref" in s:
            t = m.__dict__.get(s["$ref"].rsplit("/", 1)[1])
            if typing.get_origin(t) in UNION:
                return list(typing.get_args(t))
        return [s]

    def bad_doc(self, s, tp, params, at):
        doc = tp.__doc__ or ""
        if is_sym(doc):
            raise Imprecise("documentation text")
        parts = [s.get("title"), s.get("description")] + [f":param {n}: {t}" for n, t in params.items() if t]
        pos = 0
        for p in parts:
            if p is None:
                continue
            i = doc.find(p, pos)
            if i < 0:
                return f"{at}: documentation {p!r} is required in {doc!r}"
            pos = i + len(p)
        extra = doc[:]
        for p in parts:
            if p:
                extra = extra.replace(p, "", 1)
        if extra.strip():
            return f"{at}: unexpected documentation {extra.strip()!r}"
        return None

    def ranges(self):
        f = self.api("classdef", "integer_range_to_type")
        pts = sorted({x + d for b in (7, 8, 15, 16, 31, 32, 63, 64) for x in (-(2**b), 2**b) for d in (-1, 0, 1)} | {0, 1, -1})
        for lo in pts:
            def thunk():
                for hi in pts:
                    if hi >= lo:
                        r = self.A.call(f, lo, hi)
                        if not same(r, self.width(lo, hi)):
                            return f"range {lo}..{hi} must be {self.width(lo, hi)}, got {S.show(r)}"

            def acc(o):
                return o.describe() if o.exc is not None else o.value

            self.oblige(f"integer ranges from {lo}", thunk, acc, concrete=lambda o, w: acc(o))
        a, b = inp("lo", int), inp("hi", int)
        E = self.A.E

        def spec():
            for w in (16, 32, 64):
                if not E.branch_lt(a, -(2 ** (w - 1))) and E.branch_lt(b, 2 ** (w - 1)):
                    return getattr(self.aux, f"int{w}")
            return int

        def impl():
            return self.A.call(f, a, b)

        self.compare("integer range, any bounds", impl, spec)


def resolve(n, defs):
    "The definition a name stands for, through definitions that are mere references."
    while n in defs and "$ref" in defs[n]:
        n = defs[n]["$ref"].rsplit("/", 1)[1]
    return n


def fields(tp):
    return {f.name: f.type for f in dataclasses.fields(tp)}


def members(tp):
    if typing.get_origin(tp) in UNION:
        return list(typing.get_args(tp))
    return [tp]


def same(a, b):
    if typing.get_origin(a) is typing.Annotated or typing.get_origin(b) is typing.Annotated:
        return typing.get_origin(a) is typing.get_origin(b) and a.__origin__ is b.__origin__ and len(a.__metadata__) == len(b.__metadata__) and all(type(x) is type(y) and (x == y) is True for x, y in zip(a.__metadata__, b.__metadata__))
    if typing.get_origin(a) is typing.Literal and typing.get_origin(b) is typing.Literal:
        return [(type(x), x) for x in typing.get_args(a)] == [(type(x), x) for x in typing.get_args(b)]
    return a is b or a == b
