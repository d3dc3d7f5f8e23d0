from .c03 import KEYS, refuse, refused
from .interchange import *
import collections


class C13(InterchangeCheck):
    ID = "C13"
    RULE = ("Encoding of instances and containers with opaque elements: on every trace partition of object_to_json / create_serializer(...).generate the result has exactly one entry per non-None "
            "field (in field order) or per element (in iteration order), holding the element encoder's term for that value.  Every field is arbitrary (None or any scalar or opaque value).")
    MIN_DECIDED = 60

    def setup_types(self):
        A = self.elems.make("ElemA", ("JsonTypeError",))
        B = self.elems.make("ElemB", ("JsonValueError",))
        self.A_, self.B_ = A, B
        return self.wmod("types", '''
class Color(Enum):
    RED = "r"
    GREEN = "green"

class Text(str, Enum):
    A = "a"
    B = "b"

@dataclass
class D1:
    req: A
    opt: Optional[B]
    dfl: int = 42
    fac: List[int] = field(default_factory=lambda: [1])

@dataclass
class D2:
    zeta: Optional[int] = 1
    alpha: Optional[str] = None
    mid: Optional[bool] = True
    beta: Optional[float] = 0.0

@dataclass(frozen=True)
class F1:
    b: A
    a: Optional[B] = None

@dataclass
class Base:
    second: A

@dataclass
class Derived(Base):
    first: Optional[B] = None

@dataclass
class Order:
    _z: A
    b: A
    class_: Optional[B]
    A1: A
    a: Annotated[B, Alias("_q")]
    _: int

class PlainOrder:
    _z: A
    b: A
    B: Optional[B]
    a: int

class NamedOrder(NamedTuple):
    b: A
    B: A
    a9: int
    a: Optional[A] = None

@dataclass
class Empty:
    pass

@dataclass
class Conts:
    lst: List[A]
    dct: Dict[str, B]
    tup: Tuple[A, B]
    opt: Optional[List[A]] = None
    uni: Union[int, A, None] = None
    ann: Annotated[Optional[B], "x"] = None
    lit: Optional[Literal["p", "q"]] = None
    enm: Optional[Color] = None

@dataclass
class Outer:
    inner: D2
    many: List[F1]
    maybe: Optional["Outer"] = None
    named: Dict[str, D2] = field(default_factory=dict)

@dataclass
class NoneField:
    n: None
    x: int

class Falsy(Enum):
    B = "b"
    A = ""

class N1(NamedTuple):
    z: A
    a: Optional[B]
    d: int = 3

class N2(NamedTuple):
    n1: N1
    items: List[A]

@dataclass
class NoInit:
    req: A
    opt: Optional[B] = field(init=False, default=None)
    bare: int = field(init=False, repr=False, compare=False)

@dataclass(frozen=True, slots=True)
class Slots:
    req: A
    opt: Optional[B]
    dfl: int = 0

@dataclass
class NotFields:
    shared: ClassVar[int] = 3
    req: A = field(kw_only=True, metadata={"a": 1})
    param: InitVar[int] = 4
    @property
    def computed(self) -> int:
        return 1
    def method(self) -> int:
        return 2

@dataclass
class Redefined(Base):
    second: B
    third: Optional[A]

@dataclass(frozen=True)
class K1:
    x: int
    y: Optional[str]

class P1:
    z: A
    a: Optional[B]
    flag: bool

class P2(P1):
    more: Optional[int]

@dataclass(frozen=True)
class Same:
    "Instances differ but look and sort alike."
    x: int

    def __str__(self):
        return "same"

    def __repr__(self):
        return "same"

@dataclass
class Zero:
    "False in a condition."
    x: Optional[A]

    def __bool__(self):
        return False

class Void:
    x: int

    def __len__(self):
        return 0

@dataclass
class Zeros:
    plain: Zero
    opt: Optional[Zero]
    void: Optional[Void]
    many: List[Zero]
    uni: Union[Zero, int, None]

''', A=A, B=B)

    def run(self):
        self.setup()
        m = self.setup_types()
        A, B = self.A_, self.B_
        T = typing
        a = lambda n, *o: inp(n, A, *o)
        b = lambda n, *o: inp(n, B, *o)
        N = NoneType
        I = self.instance
        a0, a1, a2, b0, b1 = a("a0"), a("a1"), a("a2"), b("b0"), b("b1")
        objs = {
            "D1": lambda: I(m.D1, req=a0, opt=b("o", N), dfl=inp("i", int), fac=[inp("j", int), inp("k", int)]),
            "D1 empty list": lambda: I(m.D1, req=a0, opt=None, dfl=0, fac=[]),
            "D2": lambda: I(m.D2, zeta=inp("z", int, N), alpha=inp("s", str, N), mid=inp("m", bool, N), beta=inp("f", float, N)),
            "D2 falsy": lambda: I(m.D2, zeta=0, alpha="", mid=False, beta=0.0),
            "D2 none": lambda: I(m.D2, zeta=None, alpha=None, mid=None, beta=None),
            "F1": lambda: I(m.F1, b=a0, a=b("o", N)),
            "Derived": lambda: I(m.Derived, second=a0, first=b("o", N)),
            "Empty": lambda: I(m.Empty),
            "Conts": lambda: I(m.Conts, lst=[a0, a1], dct={"k": b0, inp("key", str): b1}, tup=(a1, b0), opt=[a2], uni=inp("u", int, A, N), ann=b("an", N), lit="q", enm=m.Color.GREEN),
            "Conts sparse": lambda: I(m.Conts, lst=[], dct={}, tup=(a1, b0), opt=None, uni=None, ann=None, lit=None, enm=None),
            "Outer": lambda: I(m.Outer, inner=I(m.D2, zeta=1, alpha=None, mid=None, beta=None), many=[I(m.F1, b=a0, a=None), I(m.F1, b=a1, a=b0)],
                               maybe=I(m.Outer, inner=I(m.D2, zeta=None, alpha="t", mid=None, beta=None), many=[], maybe=None, named={}), named={"k": I(m.D2, zeta=None, alpha=None, mid=None, beta=None)}),
            "NoInit": lambda: I(m.NoInit, req=a0, opt=b("o", N), bare=inp("i", int)),
            "Slots": lambda: I(m.Slots, req=a0, opt=b("o", N), dfl=inp("i", int)),
            "XNotFields": lambda: I(m.NotFields, req=a("r", N)),
            "Redefined": lambda: I(m.Redefined, second=b0, third=a("o", N)),
            "D1 with another attribute": lambda: I(m.D1, req=a0, opt=None, dfl=1, fac=[], cached=b0, _x=1),
            "P1 with another attribute": lambda: I(m.P1, z=a0, a=None, flag=True, cached=b0),
            "N1": lambda: m.N1(a0, b("o", N), inp("i", int)),
            "N2": lambda: m.N2(m.N1(a0, None, 0), [a1, a2]),
            "Zeros": lambda: I(m.Zeros, plain=I(m.Zero, x=a0), opt=I(m.Zero, x=None), void=I(m.Void, x=0), many=[I(m.Zero, x=None), I(m.Zero, x=a1)], uni=I(m.Zero, x=a2)),
            "P1": lambda: I(m.P1, z=a0, a=b("o", N), flag=inp("g", bool)),
            "P2": lambda: I(m.P2, z=a0, a=b("o", N), flag=False, more=inp("i", int, N)),
        }
        keys = {"Ze": m.Zeros, "No": m.NoInit, "Sl": m.Slots, "XN": m.NotFields, "Re": m.Redefined, "D1": m.D1, "D2": m.D2, "F1": m.F1, "De": m.Derived, "Em": m.Empty, "Co": m.Conts, "Ou": m.Outer, "N1": m.N1, "N2": m.N2, "P1": m.P1, "P2": m.P2}
        for n, mk_ in objs.items():
            self.encode(f"object_to_json({n})", mk_)
            cls = keys[n[:2]]
            self.encode(f"serializer({n})", mk_, cls)
            self.encode(f"serializer(list[{n}])", lambda: [mk_(), mk_()], T.List[cls])
            self.encode(f"serializer(Optional[{n}])", mk_, T.Optional[cls])
            self.encode(f"serializer(Annotated[{n}])", mk_, T.Annotated[cls, "x"])
        any_ = lambda n: inp(n, N, bool, int, float, str)
        order = {"Order": (m.Order, lambda: I(m.Order, _z=a0, b=a1, class_=b0, A1=a2, a=b1, _=inp("u", int))), "PlainOrder": (m.PlainOrder, lambda: I(m.PlainOrder, _z=a0, b=a1, B=b0, a=inp("u", int))), "NamedOrder": (m.NamedOrder, lambda: m.NamedOrder(a0, a1, inp("u", int), a2))}
        for n, (tp, mk_) in order.items():
            self.encode(f"object_to_json({n})", mk_)
            self.encode(f"serializer({n})", mk_, tp)
        conts = {
            "list": (list, lambda: [any_("x"), a0, None, a1, "", [a2, []]]), "list[A]": (T.List[A], lambda: [a0, a1, a0]), "list[A] builtin": (list[A], lambda: [a0, a1]), "empty list": (list, lambda: []),
            "list[Optional[A]]": (T.List[T.Optional[A]], lambda: [None, a0, None, a("o", N)]), "tuple": (tuple, lambda: (a0, None, any_("x"), b0)), "tuple[A,B]": (T.Tuple[A, B], lambda: (a0, b0)),
            "tuple[B,A,Optional[A]]": (T.Tuple[B, A, T.Optional[A]], lambda: (b0, a0, None)), "tuple[A,list[B]]": (T.Tuple[A, T.List[B]], lambda: (a0, [b0, b1])), "tuple[A,A]": (T.Tuple[A, A], lambda: (a0, a1)), "tuple[A,B,A,B]": (tuple[A, B, A, B], lambda: (a0, b0, a1, b1)), "tuple[int,int,bool]": (tuple[int, int, bool], lambda: (inp("p", int), inp("q", int), inp("r", bool))),
            "tuple[list[A],list[A]]": (T.Tuple[T.List[A], T.List[A]], lambda: ([a0], [])),
            "set": (set, lambda: {1, "x"}), "set[A]": (T.Set[A], lambda: {a0, a1}), "empty set": (set, lambda: set()), "set[K1]": (T.Set[m.K1], lambda: {I(m.K1, x=inp("x0", int), y=None), I(m.K1, x=inp("x1", int), y="t")}), "set[Union[int,str]]": (T.Set[T.Union[int, str]], lambda: {1, "x", 0, ""}), "set[Optional[int]]": (T.Set[T.Optional[int]], lambda: {1, None}),
            "set of objects": (set, lambda: {I(m.K1, x=1, y=None), I(m.K1, x=0, y="")}), "set of tuples": (T.Set[T.Tuple[int, A]], lambda: {(1, a0), (2, a1)}), "set of enums": (T.Set[m.Color], lambda: {m.Color.RED, m.Color.GREEN}), "set[str]": (T.Set[str], lambda: {"p", "q"}),
            "dict": (dict, lambda: {"k": any_("x"), "": a0, "n": None, inp("key", str): b0}), "dict[str,A]": (T.Dict[str, A], lambda: {"k": a0, inp("key", str): a1}), "empty dict": (dict, lambda: {}),
            "dict[str,Optional[A]]": (T.Dict[str, T.Optional[A]], lambda: {"k": None, "l": a0}), "dict enum keys": (dict, lambda: {m.Color.GREEN: a0, m.Color.RED: None}),
            "dict enum keys reversed": (dict, lambda: {m.Color.RED: a0, m.Color.GREEN: b0}), "dict[Falsy,A]": (T.Dict[m.Falsy, A], lambda: {m.Falsy.B: a0, m.Falsy.A: a1}), "dict falsy enum keys": (dict, lambda: {m.Falsy.A: 0, m.Falsy.B: a1}), "list[Falsy]": (T.List[m.Falsy], lambda: [m.Falsy.A, m.Falsy.B]),
            "dict[str,int] empty key": (T.Dict[str, int], lambda: {"": 0, "b": inp("i", int), "a": 1}),
            "dict str-enum keys": (dict, lambda: {m.Text.B: a0}), "dict[Color,A]": (T.Dict[m.Color, A], lambda: {m.Color.RED: a0, m.Color.GREEN: a1}), "dict[Text,A]": (T.Dict[m.Text, A], lambda: {m.Text.A: a0}),
            "dict[str,list[A]]": (T.Dict[str, T.List[A]], lambda: {"k": [a0], "l": []}), "list[dict[str,B]]": (T.List[T.Dict[str, B]], lambda: [{}, {"k": b0}]),
            "dict with containers": (dict, lambda: {"k": [a0, (b0, None)], "t": {"u": {a1}}}), "list[A | None]": (list[A | None], lambda: [a0, None]),
            "list[Union[A,B]]": (T.List[T.Union[A, B]], lambda: [a0, b0]), "list[Color]": (T.List[m.Color], lambda: [m.Color.GREEN, m.Color.RED]),
            "set[Same]": (T.Set[m.Same], lambda: {I(m.Same, x=1), I(m.Same, x=2), I(m.Same, x=3)}), "set of Same": (set, lambda: {I(m.Same, x=1), I(m.Same, x=2)}), "list[Same]": (T.List[m.Same], lambda: [I(m.Same, x=1), I(m.Same, x=2)]), "list of Same": (list, lambda: [I(m.Same, x=1), I(m.Same, x=1)]),
            "list[Zero]": (T.List[m.Zero], lambda: [I(m.Zero, x=a0), I(m.Zero, x=None)]), "dict[str,Void]": (T.Dict[str, m.Void], lambda: {"k": I(m.Void, x=0)}), "tuple of falsy": (tuple, lambda: (I(m.Zero, x=a0), I(m.Void, x=1), 0, None)), "dict of falsy": (dict, lambda: {"k": I(m.Zero, x=a0), "l": I(m.Void, x=1)}),
            "list[Literal]": (T.List[T.Literal["p", "q"]], lambda: ["q", "p"]),
        }
        for n, (tp, mk_) in conts.items():
            k = dict(bag="set" in n)
            self.encode(f"object_to_json({n})", mk_, **k)
            self.encode(f"serializer({n})", mk_, tp, **k)
            self.encode(f"serializer(Annotated[{n}])", mk_, T.Annotated[tp, "x"], **k)
            if tp not in (list, dict, set, tuple):
                self.encode(f"serializer(Optional[{n}])", mk_, T.Optional[tp], **k)
                self.encode(f"serializer(list[{n}])", lambda: [mk_()], T.List[tp], **k)
        k = self.wmod("keys", KEYS)
        for n, mk_ in {"int enum keys": lambda: {k.Number.B: a0, k.Number.A: None}, "mixed enum keys": lambda: {k.Mixed.B: a0, k.Mixed.A: b0}, "mixed enum keys reversed": lambda: {k.Mixed.A: b0, k.Mixed.B: a0}, "int keys": lambda: {1: a0, -2: b0, 0: None},
                       "abstract int key": lambda: {inp("n", int): a0}, "bool and None keys": lambda: {True: a0, None: b0}, "float keys": lambda: {1.5: a0}, "nested int enum keys": lambda: {"k": [{k.Number.A: {k.Number.B: a0}}]}}.items():
            self.encode(f"object_to_json(dict with {n})", mk_)
        for n, kt in refused(k).items():
            for sn, tp in {"": T.Dict[kt, A], " (builtin)": dict[kt, A], " in Annotated": T.Dict[T.Annotated[kt, "x"], A], " in a list": T.List[T.Dict[kt, A]]}.items():
                self.compare(f"refused key type {n}{sn}", lambda: self.A.call(self.create_serializer, tp), refuse)
