"""
Reference semantics of data interchange on abstract values.

`decode`/`encode` state what the properties allow, over the same abstract domain as
the analysis.  They are evaluated on the facts of the trace the analysed code took, so
that any decision the code did not make but should have made splits the trace again.
"""

import base64
import dataclasses
import datetime
import enum
import ipaddress
import keyword
import re
import types
from types import SimpleNamespace
import typing
import uuid

from absint import linear, sym as S
from absint.engine import fmt
from absint.sym import NoneType, Sym, is_sym, mk

KEY, TYPE, VALUE = "JsonKeyError", "JsonTypeError", "JsonValueError"
ANY_DATA_ERROR = frozenset([KEY, TYPE, VALUE])
UNION_TYPES = (typing.Union, types.UnionType)


class Fails(Exception):
    "The specification says decoding fails with one of these errors."

    def __init__(self, *kinds):
        super().__init__(*kinds)
        self.kinds = frozenset(kinds)


class Unspecified(Exception):
    "The properties say nothing about this case."


def strip(tp):
    "Type without Annotated."
    while typing.get_origin(tp) is typing.Annotated:
        tp = typing.get_args(tp)[0]
    return tp


def metadata(tp):
    return typing.get_args(tp)[1:] if typing.get_origin(tp) is typing.Annotated else ()


def is_optional(tp):
    t = strip(tp)
    return typing.get_origin(t) in UNION_TYPES and NoneType in typing.get_args(t)


def required_type(tp):
    t = strip(tp)
    rest = tuple(a for a in typing.get_args(t) if a is not NoneType)
    return rest[0] if len(rest) == 1 else typing.Union[rest]


def is_named_tuple(t):
    return isinstance(t, type) and issubclass(t, tuple) and hasattr(t, "_fields")


class Spec:
    def __init__(self, A):
        self.A, self.E = A, A.E
        self.Alias = A.mod("auxiliary").Alias

    # ------------------------------------------------------------------ fields
    def property_name(self, name, tp):
        for m in metadata(tp):
            if isinstance(m, self.Alias):
                return m.name
        if name.endswith("_") and keyword.iskeyword(name[:-1]):
            return name[:-1]
        return name

    scope = None

    def hints(self, cls):
        return typing.get_type_hints(cls, include_extras=True)

    def fields(self, cls):
        "(field name, property name, type, default kind, default)"
        h = self.hints(cls)
        out = []
        if dataclasses.is_dataclass(cls):
            for f in dataclasses.fields(cls):
                d = ("value", f.default) if f.default is not dataclasses.MISSING else (
                    ("factory", f.default_factory) if f.default_factory is not dataclasses.MISSING else (None, None))
                out.append((f.name, self.property_name(f.name, h[f.name]), h[f.name], *d))
        elif is_named_tuple(cls):
            for n in cls._fields:
                d = ("value", cls._field_defaults[n]) if n in cls._field_defaults else (None, None)
                out.append((n, self.property_name(n, h[n]), h[n], *d))
        else:
            for n, t in h.items():
                out.append((n, self.property_name(n, t), t, None, None))
        return out

    def discriminators(self, members):
        if not members or not all(isinstance(strip(m), type) for m in members):
            return []
        sets = []
        for m in members:
            m = strip(m)
            try:
                h = self.fields(m)
            except Exception:
                return []
            sets.append({n for _, n, t, _, _ in h if typing.get_origin(strip(t)) is typing.Literal})
        common = set.intersection(*sets)
        return sorted(common)

    # ------------------------------------------------------------------ decode
    def kind(self, data):
        data = self.E.resolve(data)
        return self.E.type_of(data) if is_sym(data) else type(data)

    def std(self, f, *a, errors=(ValueError,), **k):
        "Reading of a complete string by the standard library."
        try:
            return self.A.call(f, *a, **k)
        except errors:
            raise Fails(VALUE, TYPE)

    def decode(self, tp, data, skip=False):
        E = self.E
        tp = strip(tp)
        while isinstance(tp, (typing.ForwardRef, str)) and self.scope is not None:
            # a type alias that refers to itself
            tp = strip(getattr(self.scope, tp if isinstance(tp, str) else tp.__forward_arg__))
        if tp is NoneType:
            if self.kind(data) is not NoneType:
                raise Fails(TYPE)
            return None
        if tp is bool or tp is str or tp is int:
            if self.kind(data) is not tp:
                raise Fails(TYPE)
            return data
        if tp is float:
            k = self.kind(data)
            if k is float:
                return data
            if k is not int:
                raise Fails(TYPE)
            return self.std(float, data, errors=(OverflowError,))
        if isinstance(tp, type) and tp in SCALAR_READERS:
            if self.kind(data) is not str:
                raise Fails(TYPE)
            return SCALAR_READERS[tp](self, data)
        o, args = typing.get_origin(tp), typing.get_args(tp)
        if o is list:
            self.want(data, list)
            return [self.decode(args[0], x, skip) for x in data]
        if o is set:
            self.want(data, list)
            return {"set": [self.decode(args[0], x, skip) for x in data]}
        if o is tuple:
            self.want(data, list)
            if len(data) != len(args):
                raise Fails(VALUE)
            return tuple(self.decode(t, x, skip) for t, x in zip(args, data))
        if o is dict:
            self.want(data, dict)
            out, kinds = {}, set()

            def part(*a):
                "Keys and values may be read in any order: where several fail, each one's error will do."
                try:
                    return self.decode(*a)
                except Fails as e:
                    kinds.update(e.kinds)
                except tuple(self.json_errors()) as e:
                    kinds.add(type(e).__name__)

            for k, v in data.items():
                kk = k if args[0] is str else part(args[0], k)
                out[kk] = part(args[1], v, skip)
            if kinds:
                raise Fails(*kinds)
            return out
        if o is typing.Literal and all(isinstance(v, enum.Enum) for v in args) and len(set(map(type, args))) == 1:
            member = self.decode(type(args[0]), data, skip)
            if any(member is v for v in args):
                return member
            raise Fails(TYPE)
        if o is typing.Literal:
            for v in args:
                if type(data) is not Sym and not (type(data) is type(v)):
                    continue
                if is_sym(data):
                    ts = E.types(data)
                    if self.kind(data) is not type(v):
                        raise Fails(TYPE)
                if E.eq(data, v):
                    return v
            raise Fails(TYPE)
        if o in UNION_TYPES:
            tags = self.discriminators(args)
            if tags:
                return self.tagged(args, tags, data, skip)
            for m in args:
                try:
                    return self.decode(m, data, skip)
                except Fails:
                    continue
                except tuple(self.json_errors()):
                    continue
            raise Fails(KEY)
        if isinstance(tp, type):
            hookm = getattr(tp, "from_json", None)
            if callable(hookm):
                return hookm(data) if getattr(hookm, "__absint_hook__", False) else self.A.call(hookm, data)
            if issubclass(tp, enum.Enum):
                return self.decode_enum(tp, data)
            return self.decode_class(tp, data, skip)
        raise Unspecified(repr(tp))

    def json_errors(self):
        ex = self.A.mod("exception")
        return (ex.JsonKeyError, ex.JsonTypeError, ex.JsonValueError)

    def want(self, data, cls):
        if not is_sym(data):
            if type(data) is not cls:
                raise Fails(TYPE)
            return
        if self.kind(data) is not cls:
            raise Fails(TYPE)
        raise S.Imprecise("unshaped container")

    def decode_enum(self, tp, data):
        data = self.E.resolve(data)
        if isinstance(data, (list, dict)):
            raise Fails(TYPE, VALUE)
        for m in tp:
            if self.E.eq(data, m.value):
                return m
        raise Fails(TYPE, VALUE)

    def tagged(self, members, tags, data, skip):
        self.want(data, dict)
        E = self.E
        chosen = None
        for tag in tags:
            found, k = E.dict_find(data, tag)
            if not found:
                continue
            v = E.resolve(data[k])
            if v is None or (is_sym(v) and E.isinst(v, NoneType)):
                continue
            for m in members:
                lit = next(t for _, n, t, _, _ in self.fields(strip(m)) if n == tag)
                for lv in typing.get_args(strip(lit)):
                    if isinstance(v, (list, dict)):
                        continue
                    if is_sym(v):
                        if self.kind(v) is not type(lv):
                            continue
                    elif type(v) is not type(lv):
                        continue
                    if E.eq(v, lv):
                        return self.decode(m, data, skip)
            raise Fails(TYPE)
        raise Fails(TYPE)

    def decode_class(self, tp, data, skip):
        self.want(data, dict)
        E = self.E
        values = {}
        failures = set()
        fs = self.fields(tp)
        errors = []
        for name, prop, t, dk, dv in fs:
            found, k = E.dict_find(data, prop)
            v = E.resolve(data[k]) if found else None
            null = found and (v is None or (is_sym(v) and E.types(v) is not None and NoneType in E.types(v) and E.isinst(v, NoneType)))
            if found and not null:
                try:
                    values[name] = self.decode(required_type(t) if is_optional(t) else t, v, skip)
                except Fails as e:
                    errors.append(e.kinds)
                except self.json_errors() as e:
                    errors.append(frozenset([type(e).__name__]))
            elif dk == "value":
                values[name] = dv
            elif dk == "factory":
                values[name] = ("factory", dv)
            elif is_optional(t):
                values[name] = None
            else:
                errors.append(frozenset([VALUE if null else KEY]))
        if not skip:
            props = [p for _, p, _, _, _ in fs]
            for k in data:
                if not any(E.eq(k, p) for p in props):
                    errors.append(frozenset([KEY]))
                    break
        if errors:
            raise Fails(*frozenset().union(*errors))
        return Obj(tp, values)

    # ------------------------------------------------------------------ encode
    def encode(self, v):
        "Encoding by the value's own class."
        E, call = self.E, self.A.call
        v = E.resolve(v)
        if v is None:
            return None
        cls = E.type_of(v) if is_sym(v) else type(v)
        if cls is NoneType:
            return None
        if cls in (bool, int, float, str):
            return v
        if cls in SCALAR_WRITERS:
            return SCALAR_WRITERS[cls](self, v)
        hookm = getattr(cls, "to_json", None)
        if callable(hookm):
            return hookm(v) if getattr(hookm, "__absint_hook__", False) else call(hookm, v)
        if cls is datetime.timedelta:
            if E.branch_lt(self.A.I.getattr(v, "days"), 0):
                raise Unspecified("negative duration")
            return Duration(v)
        if issubclass(cls, enum.Enum):
            if is_sym(v):
                return self.A.I.getattr(v, "value")
            return v.value
        if cls in (list, set, tuple):
            return [self.encode(x) for x in v]
        if cls is dict:
            out = {}
            for k, x in v.items():
                if isinstance(k, enum.Enum):
                    k = k.value if isinstance(k.value, str) else str(k.value)
                elif not isinstance(k, str) and not (is_sym(k) and E.types(k) == frozenset([str])):
                    k = self.A.call(str, k)
                out[k] = self.encode(x)
            return out
        out = {}
        for name, prop, t, _, _ in self.fields(cls):
            x = E.resolve(getattr(v, name))
            if x is None or is_sym(x) and E.isinst(x, NoneType):
                continue
            out[prop] = self.encode(x)
        return out


class Obj:
    "Expected instance of a class."

    def __init__(self, cls, values):
        self.cls, self.values = cls, values

    def __repr__(self):
        return f"{self.cls.__name__}({', '.join(f'{k}={S.show(v)}' for k, v in self.values.items())})"


def _zulu(s, data):
    "a final Z means UTC; the reading of the rest is fromisoformat's"
    if s.A.call(s.A.I.getattr(data, "endswith"), "Z"):
        return s.A.I.binop("Add", s.A.I.getitem(data, slice(None, -1, None)), "+00:00")
    return data


def _datetime(s, data):
    E = s.E
    v = s.std(datetime.datetime.fromisoformat, _zulu(s, data))
    if E.isinst(s.A.I.getattr(v, "tzinfo"), NoneType):
        raise Fails(VALUE)
    return v


ISO_DURATION = re.compile(r"P(?=.)(?:(?P<weeks>\d+)W)?(?:(?P<days>\d+)D)?(?:T(?=.)(?:(?P<hours>\d+)H)?(?:(?P<minutes>\d+)M)?(?:(?P<seconds>\d+)(?:\.(?P<fraction>\d{1,9}))?S)?)?", re.ASCII)
LAX_DURATION = re.compile(r"P(?:\d+W)?(?:\d+D)?(?:T(?:\d+H)?(?:\d+M)?(?:\d+(?:\.\d{1,9})?S)?)?\n?", re.ASCII)


def _timedelta(s, data):
    "Reading of an ISO 8601 duration of weeks, days, hours, minutes, seconds and a fraction."
    E = s.E
    if is_sym(data) and data.op == "in":
        raise Unspecified("arbitrary duration text")
    g = linear.match(E, ISO_DURATION, "fullmatch", data)
    if g is None:
        raise Unspecified("duration text")
    if g is False:
        if linear.match(E, LAX_DURATION, "fullmatch", data) is not False:
            raise Unspecified("duration without components")
        raise Fails(VALUE)
    x = ({}, 0)
    for name, i in ISO_DURATION.groupindex.items():
        if g[i] is None:
            continue
        text = fmt(g[i])
        n = linear.number(E, text) if is_sym(text) else int(text)
        if n is None:
            raise Unspecified("duration text")
        if name == "fraction":
            k = linear.size(linear.pieces(E, text))
            if k > 6:
                q = s.A.I.binop("FloorDiv", n, 10 ** (k - 6))
                if not E.eq(s.A.I.binop("Mod", n, 10 ** (k - 6)), 0):
                    raise Fails(VALUE)
                n = q
            else:
                n = s.A.I.binop("Mult", n, 10 ** (6 - k))
            name = "microseconds"
        x = linear.add(x, linear.scale(linear.form(n), linear.UNITS[name]))
    try:
        return linear.duration(E, x)
    except OverflowError:
        raise Fails(VALUE)


class Duration:
    "Expected duration text: any ISO 8601 text that reads as the value."

    def __init__(self, value):
        self.value = value

    def __repr__(self):
        return f"ISO 8601 text of {S.show(self.value)}"


SCALAR_READERS = {
    bytes: lambda s, d: s.std(base64.b64decode, d, validate=True),
    datetime.datetime: _datetime,
    datetime.date: lambda s, d: s.std(datetime.date.fromisoformat, d),
    datetime.time: lambda s, d: s.std(datetime.time.fromisoformat, _zulu(s, d)),
    datetime.timedelta: _timedelta,
    uuid.UUID: lambda s, d: s.std(uuid.UUID, d),
    ipaddress.IPv4Address: lambda s, d: s.std(ipaddress.IPv4Address, d),
    ipaddress.IPv6Address: lambda s, d: s.std(ipaddress.IPv6Address, d),
}


def _enc_datetime(s, v):
    E, I = s.E, s.A.I
    if E.isinst(I.getattr(v, "tzinfo"), NoneType):
        raise Fails(VALUE)
    t = s.A.call(I.getattr(v, "isoformat"))
    if s.A.call(I.getattr(t, "endswith"), "+00:00"):
        return I.binop("Add", I.getitem(t, slice(None, -6, None)), "Z")
    return t


def _iso(s, v):
    return s.A.call(s.A.I.getattr(v, "isoformat"))


def _text(s, v):
    return s.A.call(str, v)


SCALAR_WRITERS = {
    bytes: lambda s, v: s.A.call(s.A.I.getattr(s.A.call(base64.b64encode, v), "decode"), "ascii"),
    datetime.datetime: _enc_datetime, datetime.date: _iso, datetime.time: _iso,
    uuid.UUID: _text, ipaddress.IPv4Address: _text, ipaddress.IPv6Address: _text,
}


def matches(expected, actual, A):
    """Does the actual (abstract) value equal the expected one?  True / False / None (terms differ, undecided)."""
    if isinstance(expected, Duration):
        try:
            got = _timedelta(SimpleNamespace(A=A, E=A.E), actual) if is_sym(actual) or isinstance(actual, str) else None
        except Fails:
            return False
        except Unspecified:
            return None
        return False if got is None else got is expected.value or linear.same(A.E, got, expected.value)
    if isinstance(expected, Obj):
        if type(actual) is not expected.cls:
            return False
        if is_named_tuple(expected.cls):
            got = dict(zip(expected.cls._fields, actual))
        else:
            got = S.state(actual)
        if list(got) != list(expected.values) and set(got) != set(expected.values):
            return False
        return _all(matches(x, got[n], A) for n, x in expected.values.items())
    if isinstance(expected, tuple) and len(expected) == 2 and type(expected[0]) is str and expected[0] == "factory":
        r = expected[1]()
        return type(actual) is type(r) and (actual == r or is_sym(actual) is False and repr(actual) == repr(r))
    if type(expected) is dict and set(expected) == {"set"} and isinstance(expected["set"], list):
        if type(actual) is not set:
            return False
        e = list(dict.fromkeys(expected["set"]))
        return len(e) == len(actual) and all(any(x is y or (not is_sym(x) and (isinstance(x, Obj) and matches(x, y, A) is True or x == y)) for y in actual) for x in e)
    if type(expected) in (list, tuple):
        if type(actual) is not type(expected) or len(actual) != len(expected):
            return False
        return _all(matches(x, y, A) for x, y in zip(expected, actual))
    if type(expected) is dict:
        if type(actual) is not dict or len(actual) != len(expected):
            return False
        rs = []
        for (k, x), (k2, y) in zip(expected.items(), actual.items()):
            rs.append(matches(k, k2, A))
            rs.append(matches(x, y, A))
        return _all(rs)
    if is_sym(expected) or is_sym(actual):
        if expected is actual:
            return True
        if linear.total_kind(expected) and linear.total_kind(actual):
            return linear.same(A.E, expected, actual)
        expected, actual = A.E.resolve(expected), A.E.resolve(actual)
        if is_sym(expected) and is_sym(actual) and expected.op == actual.op == "hook":
            a, b = expected.args, actual.args
            if len(a) == len(b) and a[:2] == b[:2] and _all(matches(x, y, A) for x, y in zip(a[2:], b[2:])):
                return True
        if is_sym(expected) != is_sym(actual) or is_sym(expected):
            return True if expected is actual else None
    if type(expected) is type(actual) and expected is not actual and type(expected).__module__.startswith("absint_w_") and type(vars_of(expected)) is dict:
        return matches(vars_of(expected), vars_of(actual), A)
    return type(expected) is type(actual) and (expected is actual or expected == actual)


def vars_of(o):
    return S.state(o) if not isinstance(o, (type, enum.Enum)) else None


def _all(it):
    r = True
    for x in it:
        if x is False:
            return False
        if x is None:
            r = None
    return r
