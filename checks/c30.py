from .interchange import *
from absint.interp import Divergence

POS = {
    "Optional": 'Optional["R"]', "list": 'List["R"]', "builtin list": 'list["R"]', "dict": 'Dict[str, "R"]', "builtin dict": 'dict[str, "R"]', "optional list": 'Optional[List["R"]]',
    "tuple": 'Optional[Tuple["R", int]]', "union": 'Union["R", int]', "annotated": 'Annotated[Optional["R"], "note"]', "inner annotated": 'Optional[Annotated["R", 1]]', "string": '"Optional[R]"',
    "pipe string": '"R | None"', "string list": '"List[R]"', "list of list": 'List[List["R"]]', "dict of list": 'Dict[str, List["R"]]', "list of optional": 'List[Optional["R"]]', "set": 'Optional[Set["R"]]',
    "annotated list": 'Annotated[List["R"], "n"]', "forward": 'Optional[typing.ForwardRef("R")]',
}
KINDS = {"dataclass": "@dataclass\nclass R:\n    v: int\n    r: {t}\n", "frozen": "@dataclass(frozen=True)\nclass R:\n    v: int\n    r: {t}\n", "namedtuple": "class R(NamedTuple):\n    v: int\n    r: {t}\n", "class": "class R:\n    v: int\n    r: {t}\n",
         "default": "@dataclass\nclass R:\n    v: int\n    r: {t} = None\n"}


def put(pos, x):
    "JSON (or Python) value of field r holding one nested x; None ends the nesting."
    if pos in ("Optional", "annotated", "inner annotated", "string", "pipe string", "forward"):
        return x
    if pos == "union":
        return 7 if x is None else x
    if pos in ("list", "builtin list", "string list", "optional list", "annotated list"):
        return [] if x is None else [x]
    if pos == "set":
        return None if x is None else [x]
    if pos in ("dict", "builtin dict"):
        return {} if x is None else {"k": x}
    if pos == "tuple":
        return None if x is None else [x, 3]
    if pos == "list of list":
        return [] if x is None else [[], [x]]
    if pos == "dict of list":
        return {} if x is None else {"k": [x], "l": []}
    if pos == "list of optional":
        return [None] if x is None else [x, None]
    raise KeyError(pos)


class C30(InterchangeCheck):
    ID = "C30"
    RULE = ("Self-referencing and mutually recursive witness classes with the reference in every position and spelling: constructing the decoder, the serializer and (registered) the schema, "
            "collecting references and sorting must terminate in the abstract interpreter (a call chain that repeats without bound is reported as divergence), and decoding / encoding nested "
            "data with abstract leaves must give the reference semantics at every level.")
    MIN_DECIDED = 200

    def run(self):
        self.setup()
        call, getattr_ = self.A.call, self.A.I.getattr
        self.register = self.api("schema", "register_schema")
        self.schema = self.api("schema", "classdef_to_schema")
        self.refs = self.api("inspection", "get_referenced_types")
        self.topo = self.api("topological", "type_topological_sort")
        depth = 4 if self.thorough else 3
        n = 0
        for pos, t in POS.items():
            for kind, src in KINDS.items():
                if kind == "default" and not any(w in t for w in ("ptional", "None")):
                    continue
                n += 1
                m = self.wmod(f"r{n}", src.format(t=t))
                R = m.R
                self.build(f"{kind} with {pos} reference", [R], {"R": R})
                if pos == "set" and kind not in ("frozen", "namedtuple"):
                    continue
                x = lambda i: inp(f"v{i}", bool, int, str)

                def data(d=2 if pos == 'set' else depth):
                    v = None
                    for i in range(d):
                        v = {"v": x(i), "r": put(pos, v)}
                    return v

                self.decode(f"decode nested {kind} with {pos} reference", R, data, max_paths=600)

                def obj(d=depth):
                    v = None
                    for i in range(d):
                        r = put(pos, v)
                        if pos == "tuple" and r is not None:
                            r = tuple(r)
                        if pos == "set":
                            r = (set(r) if v is not None else set())
                        v = self.instance(R, v=inp(f"v{i}", int), r=r)
                    return v

                if pos != "set":
                    self.encode(f"encode nested {kind} with {pos} reference", obj)
                    self.encode(f"encode nested {kind} with {pos} reference by type", lambda: [obj()], typing.List[R])
        self.mutual()
        self.aliases()

    def aliases(self):
        "Type aliases that refer to themselves or to each other, as the type of a field and by name."
        call, getattr_ = self.A.call, self.A.I.getattr
        x, y = inp("x", bool, int, str, NoneType), inp("y", int, str)
        forms = {
            "Json": ('Json = Union[int, List["Json"]]', lambda: [x, [y, [1]]], lambda: [inp("i", int), [inp("j", int), []]]),
            "Full": ('Full = Union[None, bool, int, str, Dict[str, "Full"], List["Full"]]', lambda: {"a": [x, {"b": None}], "c": y}, lambda: {"a": [inp("i", int), {"b": None}], "c": inp("s", str)}),
            "Tree": ('Tree = Dict[str, "Tree"]', lambda: {"a": {"b": {}}, "c": x}, lambda: {"a": {"b": {}}, "c": {}}),
            "Small": ('Small = dict[str, "Small"]', lambda: {"a": {"b": {}}, "c": x}, lambda: {"a": {"b": {}}, "c": {}}),
            "Nest": ('Nest = List["Nest"]', lambda: [[], [[], x]], lambda: [[], [[]]]),
            "Low": ('Low = list["Low"]', lambda: [[], [[], x]], lambda: [[], [[]]]),
            "Opt": ('Opt = Optional[List["Opt"]]', lambda: [None, [x]], lambda: [None, [None, []]]),
            "Pipe": ('Pipe = Union[Annotated[str, 1], Annotated[List["Pipe"], 2]]', lambda: ["a", [y, []]], lambda: ["a", [inp("s", str)]]),
            "Pair": ('Pair = Union[int, Tuple["Pair", "Pair"]]', lambda: [1, [y, [x, 2]]], lambda: (1, (inp("i", int), 2))),
            "One": ('One = Dict[str, "Two"]\nTwo = List["One"]', lambda: {"a": [{"b": [x]}, {}]}, lambda: {"a": [{"b": [{}]}, {}]}),
            "Ann": ('Ann = Annotated[Dict[str, "Ann"], "note"]', lambda: {"a": {"b": x}}, lambda: {"a": {"b": {}}}),
            "Mix": ('Mix = List[Union["Mix", int, "Leaf"]]\n@dataclass\nclass Leaf:\n    v: int\n    m: "Mix"', lambda: [[y], 1, {"v": 1, "m": [2, [x]]}], None),
        }
        done = lambda what: (lambda o: f"{what} {o.describe()}" if o.exc is not None else None)
        for name, (src, data, value) in forms.items():
            m = self.wmod(f"alias{name}", f'''
{src}

@dataclass
class Holder:
    x: "{name}"

@dataclass
class Lister:
    x: List["{name}"]
    y: Dict[str, "{name}"]

class Plain:
    x: "{name}"
''')
            self.spec.scope = m
            by_name = lambda: call(self.create_deserializer, name, m)
            self.oblige(f"decoder of alias {name}", by_name, done("constructing the decoder"), concrete=lambda o, w: o.describe())
            self.oblige(f"serializer of alias {name}", lambda: call(self.create_serializer, name, m), done("constructing the serializer"), concrete=lambda o, w: o.describe())
            for c in (m.Holder, m.Lister, m.Plain):
                self.oblige(f"decoder of {c.__name__} of alias {name}", lambda: call(self.create_deserializer, c), done("constructing the decoder"), concrete=lambda o, w: o.describe())
                self.oblige(f"serializer of {c.__name__} of alias {name}", lambda: call(self.create_serializer, c), done("constructing the serializer"), concrete=lambda o, w: o.describe())
                self.oblige(f"schema of {c.__name__} of alias {name}", lambda: call(self.schema, c), done("generating the schema"), concrete=lambda o, w: o.describe())
            self.compare(f"decode alias {name} by name", lambda: call(getattr_(by_name(), "parse"), data()), lambda: self.spec.decode(name, data()))
            self.compare(f"decode forward reference to alias {name}", lambda: call(getattr_(call(self.create_deserializer, typing.ForwardRef(name), m), "parse"), data()), lambda: self.spec.decode(name, data()))
            self.decode(f"decode Holder of alias {name}", m.Holder, lambda: {"x": data()})
            self.decode(f"decode Lister of alias {name}", m.Lister, lambda: {"x": [data()], "y": {"k": data()}})
            self.decode(f"decode Plain of alias {name}", m.Plain, lambda: {"x": data()})
            if value is not None:
                self.compare(f"encode alias {name} by name", lambda: call(getattr_(call(self.create_serializer, name, m), "generate"), value()), lambda: self.spec.encode(value()))
                self.encode(f"encode Holder of alias {name}", lambda: self.instance(m.Holder, x=value()))
                self.encode(f"encode Lister of alias {name}", lambda: self.instance(m.Lister, x=[value(), value()], y={"k": value()}))
                self.encode(f"encode Plain of alias {name}", lambda: self.instance(m.Plain, x=value()))
        self.spec.scope = None

    def build(self, name, roots, names):
        call, getattr_ = self.A.call, self.A.I.getattr
        ctx = sys_module(roots[0])

        def done(what):
            def accept(o):
                if o.exc is not None:
                    return f"{what} {o.describe()}"
            return accept

        for r in roots:
            self.oblige(f"decoder of {r.__name__}: {name}", lambda: call(self.create_deserializer, r), done("constructing the decoder"), concrete=lambda o, w: o.describe())
            self.oblige(f"decoder of {r.__name__} by name: {name}", lambda: call(self.create_deserializer, r.__name__, ctx), done("constructing the decoder"), concrete=lambda o, w: o.describe())
            self.oblige(f"decoder of list[{r.__name__}]: {name}", lambda: call(self.create_deserializer, typing.List[r]), done("constructing the decoder"), concrete=lambda o, w: o.describe())
            self.oblige(f"serializer of {r.__name__}: {name}", lambda: call(self.create_serializer, r), done("constructing the serializer"), concrete=lambda o, w: o.describe())
            self.oblige(f"serializer of dict[str,{r.__name__}]: {name}", lambda: call(self.create_serializer, typing.Dict[str, r]), done("constructing the serializer"), concrete=lambda o, w: o.describe())

            def reg():
                for q in names.values():
                    call(self.register, q)
                return call(self.schema, r)

            def schema(o):
                if o.exc is not None:
                    return f"generating the schema {o.describe()}"
                d = o.value.get("definitions", {})
                if r.__name__ not in d or "properties" not in d[r.__name__]:
                    return f"no definition of {r.__name__} in {S.show(o.value)[:300]}"

            self.oblige(f"schema of {r.__name__}: {name}", reg, schema, concrete=lambda o, w: schema(o))

            def refs(o):
                if o.exc is not None:
                    return f"collecting references {o.describe()}"
                if r not in o.value:
                    return f"{r.__name__} is reachable from itself but not in {S.show(o.value)}"

            self.oblige(f"references of {r.__name__}: {name}", lambda: call(self.refs, r, ctx), refs, concrete=lambda o, w: refs(o))

            def topo(o):
                if isinstance(o.exc, Divergence):
                    return "sorting does not terminate"
                if o.exc is not None and not (len(names) > 1 and type(o.exc) is RuntimeError):
                    return f"sorting {o.describe()}"
                if o.exc is None and (len(names) > 1 or r not in o.value):
                    return f"sorting returns {S.show(o.value)}"

            self.oblige(f"topological sort of {r.__name__}: {name}", lambda: call(self.topo, [r]), topo, concrete=lambda o, w: topo(o))

    def mutual(self):
        I = self.instance
        m = self.wmod("mutual", '''
@dataclass
class Ping:
    n: int
    pong: Optional["Pong"] = None

@dataclass
class Pong:
    s: str
    pings: List["Ping"] = field(default_factory=list)

@dataclass
class A1:
    b: Dict[str, "B1"]

class B1(NamedTuple):
    c: List["C1"]

class C1:
    a: Optional["A1"]
    v: int

@dataclass
class Node:
    value: int
    next: Union["Leaf", "Node", None]

@dataclass
class Leaf:
    leaf: bool
    parent: Optional["Node"] = None

@dataclass
class Base:
    kids: List["Derived"]

@dataclass
class Derived(Base):
    x: int = 0

@dataclass
class TagA:
    kind: Literal["a"]
    inner: Optional[Union["TagA", "TagB"]] = None

@dataclass
class TagB:
    kind: Literal["b"]
    items: List[Union["TagA", "TagB"]] = field(default_factory=list)
''')
        x, y = inp("x", int, str), inp("y", int, str)
        self.build("mutual data classes", [m.Ping, m.Pong], {"Ping": m.Ping, "Pong": m.Pong})
        self.build("mutual classes of three kinds", [m.A1, m.B1, m.C1], {"A1": m.A1, "B1": m.B1, "C1": m.C1})
        self.build("union of two", [m.Node, m.Leaf], {"Node": m.Node, "Leaf": m.Leaf})
        self.build("tagged union members", [m.TagA, m.TagB], {"TagA": m.TagA, "TagB": m.TagB})
        T = typing
        D = self.decode
        D("decode Ping", m.Ping, lambda: {"n": x, "pong": {"s": "t", "pings": [{"n": y, "pong": {"s": x, "pings": []}}]}})
        D("decode Pong", m.Pong, lambda: {"s": x, "pings": [{"n": 1}, {"n": y, "pong": None}]})
        D("decode list[Pong]", T.List[m.Pong], lambda: [{"s": x, "pings": [{"n": 1}, {"n": y, "pong": None}]}])
        D("decode A1", m.A1, lambda: {"b": {"k": {"c": [{"a": {"b": {}}, "v": x}, {"a": None, "v": y}]}}})
        D("decode B1", m.B1, lambda: {"c": [{"a": {"b": {"q": {"c": []}}}, "v": x}]})
        D("decode Node", m.Node, lambda: {"value": 1, "next": {"value": x, "next": {"leaf": y, "parent": None}}})
        D("decode Leaf", m.Leaf, lambda: {"leaf": True, "parent": {"value": x, "next": {"leaf": False}}})
        D("decode Derived", m.Derived, lambda: {"x": x, "kids": [{"kids": [], "x": y}, {"kids": []}]})
        D("decode Base", m.Base, lambda: {"kids": [{"kids": [{"kids": [], "x": x}], "x": y}]})
        D("decode tagged", T.Union[m.TagA, m.TagB], lambda: {"kind": "b", "items": [{"kind": x}, {"kind": "a", "inner": {"kind": y}}]})
        E = self.encode
        ping = lambda v, p: I(m.Ping, n=v, pong=p)
        pong = lambda v, *p: I(m.Pong, s=v, pings=list(p))
        i, s = inp("i", int), inp("s", str)
        E("encode Ping", lambda: ping(i, pong(s, ping(1, pong("", )), ping(i, None))))
        E("encode Pong by type", lambda: pong(s, ping(i, pong(s))), m.Pong)
        E("encode A1", lambda: I(m.A1, b={"k": m.B1([I(m.C1, a=I(m.A1, b={}), v=i)])}))
        E("encode Node", lambda: I(m.Node, value=i, next=I(m.Node, value=2, next=I(m.Leaf, leaf=True, parent=None))), m.Node)
        E("encode Base", lambda: I(m.Base, kids=[I(m.Derived, kids=[I(m.Derived, kids=[], x=i)], x=1)]))
        E("encode tagged", lambda: I(m.TagB, kind="b", items=[I(m.TagA, kind="a", inner=None), I(m.TagB, kind="b", items=[])]))


def sys_module(cls):
    import sys

    return sys.modules[cls.__module__]
