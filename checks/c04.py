from .interchange import *
from .witness import FIELD_NAMES
import itertools

HEAD = '''
def make_list():
    return ["fresh"]
'''


class C04(InterchangeCheck):
    ID = "C04"
    RULE = ("Field table of class decoders: for data classes (plain, frozen, inherited), named tuples and annotated classes with opaque field types, and every combination of a field's "
            "property being absent, null or present (and an additional property with arbitrary name), each trace partition of json_to_object must give the instance the table prescribes "
            "or the prescribed error class.")
    MIN_DECIDED = 120

    def run(self):
        self.setup()
        A = self.elems.make("ElemA", ("JsonTypeError",))
        B = self.elems.make("ElemB", ("JsonValueError",))
        m = self.wmod("types", HEAD + '''
@dataclass
class D1:
    req: A
    opt: Optional[B]
    dfl: int = 42
    fac: List[int] = field(default_factory=lambda: [1])

@dataclass
class D2:
    opt: Optional[A] = None
    optd: Optional[B] = "preset"
    zero: int = 0
    text: str = ""

@dataclass(frozen=True)
class F1:
    req: A
    opt: Optional[B]
    dfl: int = 42

@dataclass
class Base:
    first: A

@dataclass
class Derived(Base):
    second: B
    third: Optional[int] = None

@dataclass
class PipeOpt:
    req: A
    opt: "B | None"

@dataclass
class AnnOpt:
    one: Annotated[Optional[A], "note"]
    two: Annotated[B, "note"]
    three: Annotated[Optional[A], Alias("tres")]
    four: Annotated[B, Alias("cuatro")] = None

@dataclass
class Empty:
    pass

@dataclass(frozen=True)
class FrozenFactory:
    fac: List[int] = field(default_factory=lambda: [1])
    opt: Optional[A] = None

class N1(NamedTuple):
    first: A
    second: B

class N2(NamedTuple):
    first: A
    opt: Optional[B]
    dfl: int = 7

class N4(NamedTuple):
    first: A
    zero: int = 0
    text: str = ""
    none: Optional[B] = None

@dataclass
class Factories:
    lst: List[int] = field(default_factory=lambda: [1])
    dct: Dict[str, int] = field(default_factory=lambda: {"k": 1})
    flag: bool = False
    same: Set[int] = field(default_factory=set)

class N3(NamedTuple):
    from_: A
    trailing_: Annotated[B, Alias("tail")]

@dataclass
class NoInit:
    req: A
    dfl: int = field(default=5, init=False)
    opt: Optional[B] = field(init=False, default=None)
    bare: int = field(init=False)

@dataclass(frozen=True)
class FrozenNoInit:
    dfl: int = field(default=5, init=False)
    req: A = field(kw_only=True)
    bare: Optional[B] = field(init=False)
    fac: List[int] = field(default_factory=lambda: [1], init=False)

@dataclass(slots=True)
class Slots:
    req: A
    opt: Optional[B]
    dfl: int = 0

@dataclass(frozen=True, slots=True)
class FrozenSlots:
    req: A
    opt: Optional[B]
    dfl: int = 0

@dataclass
class NotFields:
    shared: ClassVar[int] = 3
    req: A = field(kw_only=True, metadata={"a": 1}, compare=False)
    param: InitVar[int] = 4
    opt: Optional[B] = field(default=None, repr=False)

@dataclass(frozen=True)
class FrozenBase:
    req: A
    dfl: int = 1

@dataclass(frozen=True)
class FrozenDerived(FrozenBase):
    opt: Optional[B] = None
    dfl: int = 2

@dataclass
class Redefined(Base):
    first: B
    second: Optional[A]

@dataclass
class OwnInit:
    req: A
    opt: Optional[B]
    def __init__(self, text):
        raise ValueError("must not be called")

class N5(NamedTuple):
    opt: Optional[A]
    dfl: Optional[int] = 3

class SlotClass:
    __slots__ = ("req", "opt")
    req: A
    opt: Optional[B]

class P1:
    req: A
    opt: Optional[B]

class P0:
    req: A

class P2(P0):
    opt: Optional[B]
''', A=A, B=B)
        x = lambda n: inp(f"value of {n}", bool, int, float, str)
        table = {**dict.fromkeys(("NoInit", "FrozenNoInit", "Slots", "FrozenSlots", "NotFields", "FrozenDerived", "Redefined", "OwnInit", "N5", "SlotClass")), "D1": None, "D2": None, "F1": None, "Derived": None, "PipeOpt": None, "AnnOpt": None, "Empty": None, "FrozenFactory": None, "N1": None, "N2": None, "N4": None, "Factories": None, "N3": None, "P1": None, "P2": None}
        for cn in table:
            cls = getattr(m, cn)
            fs = self.spec.fields(cls)
            states = ("absent", "null", "present")
            for combo in itertools.product(*[states + (("empty",) if typing.get_origin(required(f[2])) in (list, dict, set) else ()) for f in fs]):
                for extra in (False, True):
                    if extra and not self.thorough and combo.count("present") not in (len(fs), 0):
                        continue
                    label = ", ".join(f"{f[1]} {c}" for f, c in zip(fs, combo)) + (", extra property" if extra else "")

                    def build(combo=combo, extra=extra):
                        d = {}
                        if extra:
                            k = inp("extra", str)
                            for f in fs:
                                self.A.E.neconst.setdefault(k, []).append(f[1])
                            d[k] = inp("extra value", *SCALAR_JSON)
                        for f, c in zip(fs, combo):
                            if c == "null":
                                d[f[1]] = None
                            elif c == "empty":
                                d[f[1]] = {} if typing.get_origin(required(f[2])) is dict else []
                            elif c == "present":
                                v = x(f[1])
                                t = required(f[2])
                                if t in (int, str):
                                    v = inp(f"value of {f[1]}", t)
                                elif t is bool:
                                    v = inp(f"value of {f[1]}", bool)
                                o = typing.get_origin(t)
                                d[f[1]] = [inp("item", int)] if o in (list, set) else {"j": inp("item", int)} if o is dict else v
                        return d

                    for skip in ((None, True) if extra else (None,)):
                        self.decode(f"{cn} <- {{{label}}}" + (" skipping unassigned" if skip else ""), cls, build, skip=skip)
            for sn, b in {"scalar": lambda: inp("data", *SCALAR_JSON), "array": lambda: [x("item")], "[]": lambda: []}.items():
                self.decode(f"{cn} <- {sn}", cls, b)
        # one property is present under a Python name that differs from the JSON name
        self.decode("N3 <- Python names", m.N3, lambda: {"from_": x("a"), "trailing_": x("b")})
        self.decode("AnnOpt <- Python names", m.AnnOpt, lambda: {"one": x("a"), "two": x("b"), "three": x("c"), "four": x("d")})
        # falsy values are values
        for v in (0, "", False, 0.0):
            self.decode(f"D2 <- zero and text, opt {v!r}", m.D2, lambda v=v: {"opt": v, "zero": 0, "text": ""})
        m2 = self.wmod("nested", '''
@dataclass
class Inner:
    req: A
    opt: Optional[B]

@dataclass
class Outer:
    inner: Inner
    maybe: Optional[Inner]
    many: List[Inner] = field(default_factory=list)
    table: Dict[str, Inner] = field(default_factory=dict)
''', A=A, B=B)
        for lab, b in {
            "all levels": lambda: {"inner": {"req": x("1"), "opt": x("2")}, "maybe": {"req": x("3")}, "many": [{"req": x("4")}, {"req": x("5"), "opt": None}], "table": {"k": {"req": x("6")}}},
            "missing in nested": lambda: {"inner": {"opt": x("1")}},
            "null in nested list": lambda: {"inner": {"req": x("1")}, "many": [{"req": None}]},
            "extra in nested": lambda: {"inner": {"req": x("1"), "other": x("2")}},
            "extra in nested of dict": lambda: {"inner": {"req": x("1")}, "table": {"k": {"req": x("6"), "zzz": None}}},
        }.items():
            self.decode(f"Outer <- {lab}", m2.Outer, b)
            self.decode(f"Outer <- {lab}, skipping unassigned", m2.Outer, b, skip=True)
        self.factories(m)

    def factories(self, m):
        "The default factory is called anew for each object."
        for cn in ("D1", "FrozenFactory"):
            cls = getattr(m, cn)

            def thunk():
                d = lambda: {"req": inp("v", str)} if cn == "D1" else {}
                a = self.A.call(self.json_to_object, cls, d())
                b = self.A.call(self.json_to_object, cls, d())
                return a, b

            def accept(o):
                if o.exc is not None:
                    return None
                a, b = o.value
                return "two decoded objects share the list made by the default factory" if a.fac is b.fac else None

            self.oblige(f"{cn}: default factory called per object", thunk, accept)


def required(t):
    from .spec import is_optional, required_type, strip
    return strip(required_type(t)) if is_optional(t) else strip(t)
