import dataclasses
import datetime
import ipaddress
import uuid

from absint.engine import fmt
from absint.sym import mk

from .c16 import SchemaCheck
from .interchange import *
from .schemaspec import SchemaSpec, diff

SC = {"None": NoneType, "bool": bool, "int": int, "float": float, "str": str, "bytes": bytes, "datetime": datetime.datetime, "date": datetime.date, "time": datetime.time, "timedelta": datetime.timedelta, "UUID": uuid.UUID, "IPv4Address": ipaddress.IPv4Address, "IPv6Address": ipaddress.IPv6Address}
META = {"text": ("note",), "object": ({"k": [1]},), "several": (1, "two", None)}


def show(s):
    if isinstance(s, str):
        return s
    if s[0] in ("dc", "frozen", "nt", "plain"):
        return f"{s[0]}({', '.join(show(c) for c in s[1:])})"
    return f"{s[0]}[{', '.join(show(c) for c in s[1:])}]"


def count(s):
    return 1 if isinstance(s, str) else 1 + sum(count(c) for c in s[1:])


class C15(SchemaCheck):
    ID = "C15"
    RULE = ("Every documented type (scalars, enums, literals, containers, both spellings, unions, data classes, named tuples, plain classes) as such and nested two levels, and with Annotated metadata of any kind wrapped around any one position (or all positions) of the type "
            "expression: decoder, encoder and schema generator each accept the type and agree with the reference semantics, in which such metadata does not occur.")
    MIN_DECIDED = 600

    def run(self):
        self.setup()
        self.m = self.wmod("types", '''
class En(Enum):
    A = "a"
    B = "b"
class Num(enum.Enum):
    A = 1
    B = 2
''')
        self.n = 0
        self.A_, self.B_ = self.elems.make("ElemA", ("JsonTypeError",)), self.elems.make("ElemB", ("JsonValueError",))
        self.made = {}
        leaves = [*SC, "En", "Num", "lit", "lit int"]
        shapes = [*leaves]
        for x in leaves:
            shapes += [("list", x), ("List", x), ("set", x), ("Dict", x), ("dict", x), ("tuple", x, "int"), ("dc", x), ("nt", x), ("plain", x), ("frozen", x)]
            if x != "None":
                shapes += [("Optional", x), ("|None", x), ("Union", x, ("list", "int")), ("|", x, ("list", "int")), ("dc", ("Optional", x)), ("nt", ("Optional", x)), ("plain", ("Optional", x))]
        for x in ("str", "datetime", "En", "lit"):
            for c in ("list", "Dict", "Set" if False else "set"):
                if x == "datetime" and c == "set":
                    continue
                shapes += [(c2, (c, x)) for c2 in ("list", "Dict", "Optional", "dc", "plain", "nt")]
            shapes += [("endict", x), ("endict", ("list", x)), ("list", ("dc", x)), ("Dict", ("nt", x)), ("Optional", ("dc", x)), ("dc", ("dc", x)), ("tuple", ("dc", x), ("nt", x)), ("list", ("Optional", x)), ("Union", ("dc", "int"), x), ("dc", ("Union", x, "int")), ("dc", ("Optional", ("Union", x, "int"))), ("Optional3", x)]
        tags = [("Union", ("tag", "p", "int"), ("tag", "q", "str")), ("|", ("tag", "p", "int"), ("tag", "q", "str")), ("list", ("Union", ("tag", "p", "int"), ("tag", "q", "str"))), ("dc", ("Union", ("tag", "p", "int"), ("tag", "q", "str"))), ("Optional", ("Union", ("tag", "p", "int"), ("tag", "q", "int"))),
                ("Union", ("tag", "p", "int"), ("tag", "q", "int"), ("tag", "r", "int"))]
        shapes += tags
        shapes += [("kdict", "str", "int"), ("kdict", "En", "str"), ("list", ("kdict", "En", "int")), ("dc", ("kdict", "En", "int")), ("dc", ("kdict", "str", "int")), ("Optional", ("kdict", "En", "int"))]
        self.wide = True
        for s in shapes:
            self.three(show(s), s, (), ())
        self.wide = False
        self.mixed()
        metas = META if self.thorough else {"text": META["text"], "object": META["object"]}
        for mn, meta in metas.items():
            for i, s in enumerate(shapes):
                if not self.thorough and mn != "text" and i % 4:
                    continue
                k = count(s)
                for pos in [(p,) for p in range(k)] + ([tuple(range(k))] if k > 1 else []):
                    self.three(f"{show(s)} annotated at {'all positions' if len(pos) > 1 else pos[0]} with {mn}", s, pos, meta)

    def mixed(self):
        "Literals of several value types: what one of the three refuses, none of them supports."
        T = typing

        def refused(o):
            if o.exc is None:
                return f"a literal type that mixes value types is supported; {o.describe()}"

        for ln, lit in {"text and number": T.Literal["a", 1], "number and flag": T.Literal[2, True], "None and text": T.Literal[None, "a"], "three kinds": T.Literal["a", 1, False], "number twice and text": T.Literal[1, 2, "a"]}.items():
            for wn, tp in {"": lit, " in a list": T.List[lit], " as dict value": T.Dict[str, lit], " in a tuple": T.Tuple[int, lit], " in Optional": T.List[T.Optional[lit]], " annotated": T.Annotated[lit, "x"], " as field": self.cls("dc", [lit])}.items():
                for fn, f in {"decoder": self.create_deserializer, "encoder": self.create_serializer, "schema generator": self.api("schema", "classdef_to_schema")}.items():
                    if fn == "encoder" and wn == " in Optional":
                        continue  # members of unions are encoded by the type of the value
                    self.oblige(f"{fn} for literal of {ln}{wn}", lambda: self.A.call(f, tp), refused, concrete=lambda o, w: refused(o))

    # ------------------------------------------------------------- type expressions
    def build(self, s, pos, meta, at=None):
        "Type of a shape with metadata at the given positions (numbered depth first)."
        at = at if at is not None else [0]
        here = at[0]
        at[0] += 1
        T = typing
        if isinstance(s, str):
            t = SC.get(s) or {"En": self.m.En, "Num": self.m.Num, "lit": T.Literal["p", "q"], "lit int": T.Literal[3], "p": T.Literal["p"], "q": T.Literal["q"], "r": T.Literal["r", "s"]}[s]
        else:
            a = [self.build(c, pos, meta, at) for c in s[1:]]
            k = s[0]
            if k in ("dc", "frozen", "nt", "plain", "tag"):
                t = self.cls(k, a)
            else:
                t = {"list": lambda: list[a[0]], "List": lambda: T.List[a[0]], "set": lambda: T.Set[a[0]], "Dict": lambda: T.Dict[str, a[0]], "dict": lambda: dict[str, a[0]], "kdict": lambda: T.Dict[a[0], a[1]], "endict": lambda: T.Dict[self.m.En, a[0]], "tuple": lambda: T.Tuple[tuple(a)], "Optional": lambda: T.Optional[a[0]], "Optional3": lambda: T.Union[a[0], None, int],
                     "|None": lambda: a[0] | None, "Union": lambda: T.Union[tuple(a)], "|": lambda: self.either(a)}[k]()
        return T.Annotated[(t, *meta)] if here in pos else t

    def either(self, a):
        r = a[0]
        for x in a[1:]:
            r = r | x
        return r

    def cls(self, kind, types_):
        self.n += 1
        name = f"{kind.capitalize()}{self.n}"
        fields = [("kind" if kind == "tag" and i == 0 else f"f{i}", t) for i, t in enumerate(types_)]
        mod = self.m
        if kind in ("dc", "frozen", "tag"):
            c = dataclasses.make_dataclass(name, fields, frozen=kind == "frozen", module=mod.__name__)
            c.__doc__ = None
        elif kind == "nt":
            c = typing.NamedTuple(name, fields)
            c.__module__ = mod.__name__
        else:
            c = type(name, (), {"__annotations__": dict(fields), "__module__": mod.__name__})
        setattr(mod, name, c)
        return c

    # ----------------------------------------------------------------------- values
    def plain(self, t):
        while typing.get_origin(t) is typing.Annotated:
            t = t.__origin__
        return t

    def json(self, t, n="x"):
        "JSON value of the right structure with abstract scalars."
        t = self.plain(t)
        o, a = typing.get_origin(t), typing.get_args(t)
        if o is list:
            return [self.json(a[0], n + "0"), self.json(a[0], n + "1")]
        if o is set:
            return [True] if self.plain(a[0]) is bool else [self.json(a[0], n + "0")]
        if o is dict:
            return {"a": self.json(a[1], n + "v")}
        if o is tuple:
            return [self.json(x, f"{n}{i}") for i, x in enumerate(a)]
        if o in (typing.Union, type(int | str)):
            return self.json([x for x in a if self.plain(x) is not NoneType][0], n)
        if o is typing.Literal:
            return a[0]
        if isinstance(t, type) and self.fields(t) is not None:
            return {k: self.json(x, f"{n}.{k}") for k, x in self.fields(t).items()}
        if t is NoneType:
            return None
        if t is datetime.timedelta:
            return self.duration(n)
        kinds = {bool: (bool,), int: (int,), float: (float, int), self.m.Num: (int,)}.get(t, (str,))
        return inp(n, *kinds) if not self.wide else inp(n, *kinds, *(k for k in (str, int, NoneType) if k not in kinds))

    def duration(self, n):
        v = inp(n, int)
        self.A.E.set_bounds(v, 0, 9999)
        self.A.E.conds += [(mk("lt", v, 0, types=frozenset([bool])), False, "assumed"), (mk("lt", 9999, v, types=frozenset([bool])), False, "assumed")]
        return fmt(["P1DT", mk("format", v, "04d", types=frozenset([str])), "M"])

    def fields(self, t):
        return dict(t.__annotations__) if t.__module__ == self.m.__name__ and not issubclass(t, self.m.En) and not issubclass(t, self.m.Num) else None

    def value(self, t, n="v"):
        t = self.plain(t)
        o, a = typing.get_origin(t), typing.get_args(t)
        if o is list:
            return [self.value(a[0], n + "0"), self.value(a[0], n + "1")]
        if o is set:
            v = self.value(a[0], n + "0")
            try:
                return {v}
            except TypeError:
                return set()
        if o is dict:
            return {("a" if self.plain(a[0]) is str else self.m.En.A): self.value(a[1], n + "v")}
        if o is tuple:
            return tuple(self.value(x, f"{n}{i}") for i, x in enumerate(a))
        if o in (typing.Union, type(int | str)):
            return self.value([x for x in a if self.plain(x) is not NoneType][0], n)
        if o is typing.Literal:
            return a[0]
        if t in (self.m.En, self.m.Num):
            return t.A
        if isinstance(t, type) and self.fields(t) is not None:
            return self.instance(t, **{k: self.value(x, f"{n}.{k}") for k, x in self.fields(t).items()})
        if t is NoneType:
            return None
        v = inp(n, t)
        if t is datetime.timedelta:
            k = mk("attr", v, "days", types=frozenset([int]))
            self.A.E.set_bounds(k, 0, 999999999)
            self.A.E.conds.append((mk("lt", k, 0, types=frozenset([bool])), False, "assumed"))
        return v

    # ------------------------------------------------------------------- obligations
    def three(self, name, s, pos, meta):
        try:
            t = self.build(s, pos, meta)
        except TypeError:
            return  # Python itself does not admit the type expression
        self.decode(f"decode {name}", t, lambda: self.json(t))
        self.encode(f"encode {name}", lambda: self.value(t), t)
        if not meta or self.thorough:
            self.encode(f"encode object of {name}", lambda: self.value(t))
        self.against(f"schema of {name}", t)
