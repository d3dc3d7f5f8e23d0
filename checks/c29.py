import dataclasses
import enum

from .interchange import *


def parts(t):
    "the classes a type is made of, members of classes included"
    if isinstance(t, type) and not typing.get_args(t):
        yield t
        if t.__module__.startswith("absint_w_C29") and not issubclass(t, enum.Enum):
            for m in typing.get_type_hints(t, include_extras=True).values():
                yield from parts(m)
    for a in typing.get_args(t):
        if isinstance(a, type) or typing.get_args(a):
            yield from parts(a)


class C29(InterchangeCheck):
    ID = "C29"
    RULE = ("Name resolution: three witness modules define different classes under the same names. For a type given as string / forward reference in every position and a context that is "
            "given, implied by the calling module or absent, and for class members written in one module but reached from another (fields, inheritance, nesting, named tuples, plain classes), "
            "the decoder, encoder and schema terms must be those of the class of the module the statement names; without any context TypeError.")
    MIN_DECIDED = 100

    def run(self):
        self.setup()
        self.json_to_generic = self.api("serialization", "json_to_generic")
        call, getattr_ = self.A.call, self.A.I.getattr
        T = typing
        A = self.elems.make("ElemA", ("JsonTypeError",))
        src = '''
@dataclass
class Thing:
    {p}: A

class Kind(Enum):
    K = "{p}"

Number = {n}
'''
        m1 = self.wmod("m1", src.format(p="one", n="int") + '''
Things = List["Thing"]

@dataclass
class Holder:
    plain: "Thing"
    opt: Optional["Thing"]
    lst: List["Thing"]
    dct: Dict[str, "Thing"]
    blt: list["Thing"]
    ann: Annotated["Thing", "note"]
    txt: "Optional[Thing]" = None
    num: "Number" = 0
    knd: Optional["Kind"] = None

class HolderNT(NamedTuple):
    thing: "Thing"
    lst: List["Thing"]

class HolderPlain:
    thing: "Thing"
    lst: "List[Thing]"

@dataclass
class BaseHolder:
    base: List["Thing"]
    opt: Optional["Thing"] = None

class BasePlain:
    base: List["Thing"]
''', A=A)
        m2 = self.wmod("m2", src.format(p="two", n="str") + '''
from absint_w_C29_m1 import BaseHolder, BasePlain, Holder, HolderNT, HolderPlain

@dataclass
class Derived(BaseHolder):
    own: List["Thing"] = field(default_factory=list)

class DerivedPlain(BasePlain):
    own: List["Thing"]

@dataclass
class Outer:
    h: List[Holder]
    mine: "Thing"

@dataclass
class OuterNT:
    h: Optional[HolderNT]
    p: Optional[HolderPlain]
    mine: List["Thing"]
''', A=A)
        m3 = self.wmod("m3", src.format(p="three", n="bool"), A=A)
        x, y = inp("x", *SCALAR_JSON), inp("y", *SCALAR_JSON)
        mods = {"m1": (m1, "one"), "m2": (m2, "two"), "m3": (m3, "three")}
        FR = T.ForwardRef
        shapes = {
            "string": ("Thing", lambda t: t, lambda p: {p: x}), "ForwardRef": (FR("Thing"), lambda t: t, lambda p: {p: x}), "List": (T.List["Thing"], lambda t: T.List[t], lambda p: [{p: x}, {p: y}]),
            "builtin list": (list["Thing"], lambda t: T.List[t], lambda p: [{p: x}]), "Dict": (T.Dict[str, "Thing"], lambda t: T.Dict[str, t], lambda p: {"k": {p: x}}),
            "Optional": (T.Optional["Thing"], lambda t: T.Optional[t], lambda p: {p: x}), "Tuple": (T.Tuple["Thing", int], lambda t: T.Tuple[t, int], lambda p: [{p: x}, 1]), "Union": (T.Union[int, "Thing"], lambda t: T.Union[int, t], lambda p: {p: x}),
            "Annotated": (T.Annotated["Thing", 1], lambda t: t, lambda p: {p: x}), "nested": (T.Dict[str, T.List[T.Optional["Thing"]]], lambda t: T.Dict[str, T.List[T.Optional[t]]], lambda p: {"k": [{p: x}, None]}),
            "expression": ("List[Thing]", lambda t: T.List[t], lambda p: [{p: x}]), "Annotated list": (T.List[T.Annotated["Thing", 1]], lambda t: T.List[t], lambda p: [{p: x}]), "optional expression": ("Optional[Thing]", lambda t: T.Optional[t], lambda p: {p: x}),
        }
        gen = lambda d, tp, ctx: call(getattr_(call(self.create_serializer, tp, *([ctx] if ctx else [])), "generate"), d)
        for sn, (tp, real, data) in shapes.items():
            for cn, (cm, p) in mods.items():
                rt = real(cm.Thing)
                for en, f in (("json_to_object", self.json_to_object), ("json_to_generic", self.json_to_generic)):
                    self.compare(f"{en}({sn}) called in {cn}", lambda: call(f, tp, data(p)), lambda: self.spec.decode(rt, data(p)), caller=cm)
                    other = m3 if cm is not m3 else m1
                    self.compare(f"{en}({sn}, context={cn}) called elsewhere", lambda: call(f, tp, data(p), context=cm), lambda: self.spec.decode(rt, data(p)), caller=other)
                self.compare(f"create_deserializer({sn}, {cn})", lambda: call(getattr_(call(self.create_deserializer, tp, cm), "parse"), data(p)), lambda: self.spec.decode(rt, data(p)), caller=m3)
                if sn not in ("Optional", "Union", "optional expression"):
                    v = self.value(data(p), cm.Thing, p)
                    self.compare(f"create_serializer({sn}, {cn})", lambda: gen(v, tp, cm), lambda: self.spec.encode(v), caller=m3)
            for what, f in (("create_deserializer", self.create_deserializer), ("create_serializer", self.create_serializer)):
                if what == "create_serializer" and sn in ("Optional", "Union", "optional expression"):
                    continue

                def acc(o):
                    if o.exc is None or type(o.exc) is not TypeError:
                        return f"TypeError expected without a context; {o.describe()}"

                if sn == "nested" and what == "create_serializer":
                    continue  # the serializer of a union does not use the member types
                self.oblige(f"{what}({sn}) without context", lambda: call(f, tp), acc, concrete=lambda o, w: acc(o), caller=m1)
        # the alias is resolved where it is defined
        self.compare("json_to_object('Things') in m1", lambda: call(self.json_to_object, "Things", [{"one": x}]), lambda: self.spec.decode(T.List[m1.Thing], [{"one": x}]), caller=m1)
        for cn, cm in (("m1", m1), ("m2", m2), ("m3", m3)):
            one = lambda: {"one": x}
            two = lambda: {"two": y}
            h = lambda: {"plain": one(), "opt": one(), "lst": [one()], "dct": {"k": one()}, "blt": [one()], "ann": one(), "txt": one(), "num": 3, "knd": "one"}
            cases = {"Holder": (m1.Holder, h), "HolderNT": (m1.HolderNT, lambda: {"thing": one(), "lst": [one()]}), "HolderPlain": (m1.HolderPlain, lambda: {"thing": one(), "lst": [one()]}),
                     "Derived": (m2.Derived, lambda: {"base": [one()], "opt": one(), "own": [two()]}), "DerivedPlain": (m2.DerivedPlain, lambda: {"base": [one()], "own": [two()]}),
                     "Outer": (m2.Outer, lambda: {"h": [h()], "mine": two()}), "OuterNT": (m2.OuterNT, lambda: {"h": {"thing": one(), "lst": [one()]}, "p": {"thing": one(), "lst": []}, "mine": [two()]})}
            for n, (cls, data) in cases.items():
                for wn, wrap, wd in (("", lambda t: t, lambda d: d), ("List of ", lambda t: T.List[t], lambda d: [d]), ("Dict of ", lambda t: T.Dict[str, t], lambda d: {"k": d}), ("Optional ", lambda t: T.Optional[t], lambda d: d),
                                     ("Annotated ", lambda t: T.Annotated[t, 1], lambda d: d), ("Union with ", lambda t: T.Union[int, t], lambda d: d), ("Tuple with ", lambda t: T.Tuple[t, int], lambda d: [d, 1])):
                    tp = wrap(cls)
                    self.compare(f"members of {wn}{n} called in {cn}", lambda: call(self.json_to_object, tp, wd(data())), lambda: self.spec.decode(tp, wd(data())), caller=cm)
                    self.compare(f"members of {wn}{n} with context {cn}", lambda: call(self.json_to_object, tp, wd(data()), context=cm), lambda: self.spec.decode(tp, wd(data())), caller=m3)
            I = self.instance
            t1 = lambda: I(m1.Thing, one=inp("a", A))
            t2 = lambda: I(m2.Thing, two=inp("b", A))
            objs = {"Holder": (m1.Holder, lambda: I(m1.Holder, plain=t1(), opt=t1(), lst=[t1()], dct={"k": t1()}, blt=[t1()], ann=t1(), txt=t1(), num=3, knd=m1.Kind.K)), "HolderNT": (m1.HolderNT, lambda: m1.HolderNT(t1(), [t1()])),
                    "HolderPlain": (m1.HolderPlain, lambda: I(m1.HolderPlain, thing=t1(), lst=[t1()])), "Derived": (m2.Derived, lambda: I(m2.Derived, base=[t1()], opt=t1(), own=[t2()])),
                    "DerivedPlain": (m2.DerivedPlain, lambda: I(m2.DerivedPlain, base=[t1()], own=[t2()])), "Outer": (m2.Outer, lambda: I(m2.Outer, h=[], mine=t2()))}
            for n, (cls, get) in objs.items():
                v = get()
                self.compare(f"encoding {n} in {cn}", lambda: call(self.object_to_json, v), lambda: self.spec.encode(v), caller=cm)
                self.compare(f"encoding {n} with context {cn}", lambda: gen([v], T.List[cls], cm), lambda: self.spec.encode([v]), caller=m3)
        self.schemas(m1, m2, m3)
        self.members(m1, m2, m3)
        self.names(m3)

    def names(self, other):
        "Types under names that also mean something else: to the functions of the library, to Python or to typing."
        call, getattr_ = self.A.call, self.A.I.getattr
        ev, T = self.api("inspection", "evaluate_type"), typing
        x = inp("x", *SCALAR_JSON)
        names = ["typ", "module", "cls", "context", "data", "options", "self", "obj", "name", "fmt", "caller", "int", "list", "Any", "List", "Literal", "Union", "datetime", "uuid", "enum", "types", "typing", "sys", "JsonType", "T", "E", "_", "Deserializer"]
        for nm in names:
            m = self.wmod(f"named_{nm}", f"""
@dataclass
class {nm}:
    w: int

@dataclass
class Uses_{nm}:
    p: "{nm}"
    q: "list[{nm}]" = None
""" if nm not in ("int", "list", "typing") else f"""
@dataclass
class {nm}:
    w: bool

@dataclass
class Uses_{nm}:
    p: "{nm}"
    q: "Optional[{nm}]" = None
""")
            cls, use = getattr(m, nm), getattr(m, f"Uses_{nm}")
            one = lambda: {"w": x}
            for tn, tp in {"string": nm, "forward reference": T.ForwardRef(nm)}.items():
                def same(o, cls=cls):
                    if o.exc is not None or o.value is not cls:
                        return f"the class of the module is required; {o.describe() if o.exc is not None else S.show(o.value)}"

                self.oblige(f"evaluate_type({tn} {nm})", lambda: call(ev, tp, m), same, concrete=lambda o, w: same(o), caller=other)
                self.compare(f"decoder of {tn} {nm}", lambda: call(getattr_(call(self.create_deserializer, tp, m), "parse"), one()), lambda: self.spec.decode(cls, one()), caller=other)
                self.compare(f"encoder of {tn} {nm}", lambda: call(getattr_(call(self.create_serializer, tp, m), "generate"), self.instance(cls, w=3)), lambda: {"w": 3}, caller=other)
                self.compare(f"json_to_object of {tn} {nm} in its module", lambda: call(self.json_to_object, tp, one()), lambda: self.spec.decode(cls, one()), caller=m)
            lst = T.List[nm]
            self.compare(f"decoder of List[{nm}]", lambda: call(getattr_(call(self.create_deserializer, lst, m), "parse"), [one()]), lambda: self.spec.decode(T.List[cls], [one()]), caller=other)
            self.compare(f"decoder of user of {nm}", lambda: call(self.json_to_object, use, {"p": one()}), lambda: self.spec.decode(use, {"p": one()}), caller=other)
            self.compare(f"encoder of user of {nm}", lambda: call(self.object_to_json, self.instance(use, p=self.instance(cls, w=3), q=None)), lambda: {"p": {"w": 3}}, caller=other)

    def members(self, m1, m2, m3):
        "inspection functions that hand out the types of class members"
        api = {k: self.api("inspection", k) for k in ("get_class_properties", "get_class_property", "dataclass_fields", "dataclass_field_by_name", "get_referenced_types")}
        call, I = self.A.call, self.A.I
        for n, cls in {"Holder": m1.Holder, "HolderNT": m1.HolderNT, "HolderPlain": m1.HolderPlain, "Derived": m2.Derived, "DerivedPlain": m2.DerivedPlain, "Outer": m2.Outer, "OuterNT": m2.OuterNT}.items():
            want = typing.get_type_hints(cls, include_extras=True)
            for cn, cm in (("m1", m1), ("m2", m2), ("m3", m3)):
                def expect(name, thunk, wanted):
                    def acc(o):
                        if o.exc is not None:
                            return f"{o.describe()}; {wanted} is required"
                        return None if o.value == wanted else f"gives {o.value}; {wanted} is required"

                    self.oblige(name, thunk, acc, concrete=lambda o, w: acc(o), caller=cm)

                expect(f"get_class_properties of {n} called in {cn}", lambda: dict(I.iterate(call(api["get_class_properties"], cls))), want)
                for f, t in want.items():
                    expect(f"get_class_property {f} of {n} called in {cn}", lambda: call(api["get_class_property"], cls, f), t)
                if dataclasses.is_dataclass(cls):
                    expect(f"dataclass_fields of {n} called in {cn}", lambda: {x.name: x.type for x in I.iterate(call(api["dataclass_fields"], cls))}, want)
                    for f, t in want.items():
                        expect(f"dataclass_field_by_name {f} of {n} called in {cn}", lambda: call(api["dataclass_field_by_name"], cls, f).type, t)
                for f, t in want.items():
                    own = {x.Thing for x in (m1, m2, m3)} & set(parts(t))
                    if t is not cls and not isinstance(t, str):
                        expect(f"get_referenced_types of member {f} of {n} called in {cn}", lambda: {x for x in call(api["get_referenced_types"], t) if getattr(x, "__name__", "") == "Thing"}, own)

    @staticmethod
    def value(data, cls, p):
        "Instance data for typed encoding, in the shape of the JSON data."
        if isinstance(data, dict) and set(data) == {p}:
            o = object.__new__(cls)
            object.__setattr__(o, p, inp("e", *[t for t in cls.__annotations__.values() if isinstance(t, type)]))
            return o
        if isinstance(data, list):
            r = [C29.value(d, cls, p) for d in data]
            return tuple(r) if len(r) == 2 and r[1] == 1 else r
        if isinstance(data, dict):
            return {k: C29.value(d, cls, p) for k, d in data.items()}
        return data

    def schemas(self, m1, m2, m3):
        schema = self.api("schema", "classdef_to_schema")
        props = {"Holder": (m1.Holder, {"plain": "one", "opt": "one"}), "HolderPlain": (m1.HolderPlain, {"thing": "one"}), "Derived": (m2.Derived, {"opt": "one"}), "Outer": (m2.Outer, {"mine": "two"})}
        lists = {"Holder": ["lst", "blt"], "HolderPlain": ["lst"], "Derived": ["base"], "OuterNT": []}
        for n, (cls, ps) in props.items():
            for cn, cm in (("m1", m1), ("m2", m2), ("m3", m3)):
                def acc(o):
                    if o.exc is not None:
                        return f"schema of {n}: {o.describe()}"
                    for f, p in ps.items():
                        sub = o.value["properties"].get(f)
                        if not isinstance(sub, dict) or list(sub.get("properties", ())) != [p]:
                            return f"member {f} of {n} must have the schema of Thing of the defining module, got {S.show(sub)[:200]}"
                    for f in lists.get(n, ()):
                        sub = o.value["properties"][f].get("items", {})
                        if list(sub.get("properties", ())) != ["one"]:
                            return f"items of {f} of {n} must have the schema of Thing of the defining module, got {S.show(sub)[:200]}"
                    if n == "Derived" and list(o.value["properties"]["own"]["items"].get("properties", ())) != ["two"]:
                        return "member own of Derived must refer to Thing of m2"

                self.oblige(f"schema of {n} called in {cn}", lambda: self.A.call(schema, cls), acc, concrete=lambda o, w: acc(o), caller=cm)
