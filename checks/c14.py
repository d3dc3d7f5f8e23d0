from absint.driver import hook
from absint.sym import mk

from .interchange import *


class C14(InterchangeCheck):
    ID = "C14"
    RULE = ("Classes of every kind (data class, frozen, plain, annotated, enum, str-enum, named tuple, inherited hook) carrying uninterpreted to_json / from_json, in every position (top level, "
            "field, container element, dict value, tuple position, Optional, unions, Annotated): the result must be, position by position, the uninterpreted hook term applied to exactly "
            "the object / JSON data at that position, and a hook's Json*Error must be the outcome.")
    MIN_DECIDED = 200

    def hooked(self, cls, read=True, write=True, how="static"):
        E = self.A.E
        err = self.elems.errors["JsonValueError"]
        cls.__absint_witness__ = True

        if read:
            if how == "class":
                def from_json(c, data):
                    t = mk("hook", "from_json", cls, _p(data), types=frozenset([cls]))
                    E.may_raise(t, (err,))
                    return t

                f = classmethod(hook(from_json))
            else:
                def from_json(data):
                    t = mk("hook", "from_json", cls, _p(data), types=frozenset([cls]))
                    E.may_raise(t, (err,))
                    return t

                f = staticmethod(hook(from_json))
            type.__setattr__(cls, "from_json", f)
        if write:
            def to_json(obj):
                return mk("hook", "to_json", cls, obj if not isinstance(obj, tuple) else _p(list(obj)))

            type.__setattr__(cls, "to_json", hook(to_json))
        return cls

    def run(self):
        self.setup()
        T = typing
        m = self.wmod("types", '''
@dataclass
class DC:
    a: int
    b: Optional[str] = None

@dataclass(frozen=True)
class FZ:
    a: int

class Plain:
    pass

class Ann:
    x: int

class En(Enum):
    A = "a"
    B = "b"

class SEn(str, Enum):
    A = "a"

class IEn(enum.IntEnum):
    ONE = 1

class NT(NamedTuple):
    x: int
    y: str

class Parent:
    x: int

class Child(Parent):
    pass

@dataclass
class DParent:
    a: int

@dataclass
class DChild(DParent):
    c: int = 2

class RealFrom:
    def __init__(self, v):
        self.v = v
    @classmethod
    def from_json(cls, data):
        o = cls.__new__(cls)
        o.v = data
        return o
    def to_json(self):
        return ["real", self.v]

class Kept:
    def to_json(self):
        return self.result

@dataclass
class RealDC:
    v: int
    @staticmethod
    def from_json(data):
        return RealDC(data)
    def to_json(self):
        return {"value": self.v}
''')
        x = lambda n="x": inp(n, bool, int, float, str)
        for k in ("DC", "FZ", "Plain", "Ann", "En", "SEn", "IEn", "NT", "Parent", "DParent"):
            self.hooked(getattr(m, k), how="class" if k in ("FZ", "NT", "Ann") else "static")
        I = self.instance
        inst = {"DC": lambda: I(m.DC, a=1, b=None), "FZ": lambda: I(m.FZ, a=1), "Plain": lambda: I(m.Plain), "Ann": lambda: I(m.Ann, x=1), "En": lambda: m.En.B, "SEn": lambda: m.SEn.A,
                "IEn": lambda: m.IEn.ONE, "NT": lambda: m.NT(1, "t"), "Child": lambda: I(m.Child, x=1), "DChild": lambda: I(m.DChild, a=1, c=3),
                "RealFrom": lambda: I(m.RealFrom, v=x()), "RealDC": lambda: I(m.RealDC, v=x())}
        # whatever the method returns is the result
        for n, r in {"object": {"k": None, "": [1]}, "object with number keys": {1: 2}, "tuple": (1, None), "null": None, "enumeration member": m.IEn.ONE, "bytes": b"x", "array": [None, {}], "empty": {}, "text": "\u00e9\r\n", "boolean": True}.items():
            for pos, (tp, get) in {"top": (m.Kept, lambda o: o), "list": (T.List[m.Kept], lambda o: [o]), "dict": (T.Dict[str, m.Kept], lambda o: {"k": o}), "union": (T.Union[m.Kept, int], lambda o: o)}.items():
                self.encode(f"to_json that returns {n}, {pos}, by value", lambda: get(I(m.Kept, result=r)))
                self.encode(f"to_json that returns {n}, {pos}, by type", lambda: get(I(m.Kept, result=r)), tp)
        other = self.elems.make("ElemA", ("JsonTypeError",))
        for k, mk_ in inst.items():
            c = getattr(m, k)
            w = self.wmod(f"w_{k}", '''
@dataclass
class Field:
    f: C
    o: Optional[C]
    l: List[C]
    d: Optional[C] = None

@dataclass(frozen=True)
class FrozenField:
    f: Annotated[C, "n"]

class NTField(NamedTuple):
    f: C

class PlainField:
    f: C

@dataclass
class UField:
    u: Union[C, None, int]

@dataclass
class FwdField:
    f: "C"
''', C=c)
            v = mk_()
            v2 = mk_()
            enc = {
                "top": (c, lambda: v), "list": (T.List[c], lambda: [v, v2]), "dict": (T.Dict[str, c], lambda: {"k": v}), "tuple": (T.Tuple[c, other], lambda: (v, inp("e", other))),
                "optional": (T.Optional[c], lambda: v), "union": (T.Union[int, c], lambda: v), "annotated": (T.Annotated[c, "x"], lambda: v), "optional list": (T.List[T.Optional[c]], lambda: [v, None]),
                "pipe": (c | None, lambda: v), "annotated list": (T.List[T.Annotated[c, 1]], lambda: [v]),
                "field": (w.Field, lambda: I(w.Field, f=v, o=v2, l=[v], d=None)), "frozen field": (w.FrozenField, lambda: I(w.FrozenField, f=v)), "namedtuple field": (w.NTField, lambda: w.NTField(v)),
                "plain field": (w.PlainField, lambda: I(w.PlainField, f=v)), "union field": (w.UField, lambda: I(w.UField, u=v)), "forward field": (w.FwdField, lambda: I(w.FwdField, f=v)),
                "list of fields": (T.List[w.FrozenField], lambda: [I(w.FrozenField, f=v)]),
            }
            if k not in ("DC", "DChild", "RealDC", "Child", "Plain", "Ann", "RealFrom"):
                enc["set"] = (T.Set[c], lambda: {v})
            for pos, (tp, get) in enc.items():
                self.encode(f"to_json of {k}, {pos}, by value", get)
                self.encode(f"to_json of {k}, {pos}, by type", get, tp)
            y = x("y")
            dec = {
                "top": (c, x), "null": (c, lambda: None), "array": (c, lambda: [y]), "list": (T.List[c], lambda: [x(), y]), "dict": (T.Dict[str, c], lambda: {"k": y}), "tuple": (T.Tuple[c, other], lambda: [y, x()]),
                "optional": (T.Optional[c], x), "union": (T.Union[c, int], x), "union second": (T.Union[None, c], x), "annotated": (T.Annotated[c, "x"], x), "optional list": (T.List[T.Optional[c]], lambda: [y, None]),
                "annotated list": (T.List[T.Annotated[c, 1]], lambda: [y]), "pipe": (None | c, x), "object": (c, lambda: {"k": y}),
                "field": (w.Field, lambda: {"f": x(), "o": y, "l": [y], "d": None}), "field with default": (w.Field, lambda: {"f": x(), "l": [], "d": y}), "frozen field": (w.FrozenField, lambda: {"f": y}), "namedtuple field": (w.NTField, lambda: {"f": y}),
                "plain field": (w.PlainField, lambda: {"f": y}), "union field": (w.UField, lambda: {"u": y}), "forward field": (w.FwdField, lambda: {"f": y}), "list of fields": (T.List[w.FrozenField], lambda: [{"f": y}]),
            }
            if k not in ("DC", "DChild", "RealDC", "Child", "Plain", "Ann", "RealFrom"):
                dec["set"] = (T.Set[c], lambda: [y])
            for pos, (tp, get) in dec.items():
                self.decode(f"from_json of {k}, {pos}", tp, get)


def _p(v):
    if isinstance(v, list):
        return ("list",) + tuple(_p(x) for x in v)
    if isinstance(v, dict):
        return ("dict",) + tuple((k, _p(x)) for k, x in v.items())
    return v
