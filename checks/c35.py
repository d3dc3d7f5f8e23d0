import types

from .c20 import refuse
from .interchange import *


class C35(InterchangeCheck):
    ID = "C35"
    RULE = ("Objects whose class declares no types (README table: a regular class iterates over dir(obj), a named tuple over its fields): the encoding has one entry per attribute that is visible, not None, not a method and not a reserved name "
            "(under the keyword-suffix naming rule), and one per field of an untyped named tuple, each holding the encoding of the value; functions, methods, classes and modules, bare or anywhere inside, are refused with TypeError "
            "by the encoder; bare containers, instances, values and unrecognized forms given as a type are refused with TypeError by the decoder's factory, at any depth, before any data is seen.")
    MIN_DECIDED = 60

    def run(self):
        self.setup()
        T, I, N = typing, self.instance, NoneType
        A = self.A_ = self.elems.make("ElemA", ("JsonTypeError",))
        m = self.wmod("types", '''
import abc, collections
class Color(Enum):
    RED = "r"
class Empty:
    pass
class Bare:
    "Attributes are set on the instance."
    def method(self): return 1
class Consts:
    kind = "k"
    zero = 0
    nothing = None
    no = False
    color = Color.RED
    items = [1, "x", None]
    names = {"a": None}
    def method(self): return 1
    @classmethod
    def make(cls): return 1
class Derived(Consts):
    kind = "derived"
    more = ("t",)
class Prop:
    hidden_ = 1
    @property
    def prop(self): return self.value
    @property
    def none(self): return None
class Slots:
    __slots__ = ("b", "a")
class Abstract(abc.ABC):
    @abc.abstractmethod
    def run(self): ...
class Concrete(Abstract):
    def run(self): return 1
    x = 1
class Static:
    @staticmethod
    def helper(): return 1
class WithFunction:
    x = 1
class Outer:
    class Inner:
        pass
@dataclass
class DC:
    a: int
    b: Optional[int] = None
@dataclass
class Holder:
    o: Bare
    n: Optional[int] = None
CNT = collections.namedtuple("CNT", ["b", "a", "from_"], rename=False)
CND = collections.namedtuple("CND", ["x", "y"], defaults=[7])
CNE = collections.namedtuple("CNE", [])
CNR = collections.namedtuple("CNR", ["a", "def", "b_", "class", "_x", "a"], rename=True)
CNK = collections.namedtuple("CNK", ["in_", "b", "A", "a", "x_"])
@dataclass
class HasList:
    l: list
@dataclass
class HasNested:
    a: Optional[int]
    h: Optional[List[HasList]]
def func(): return 1
''', A=A)
        self.m = m
        a = lambda n, *o: inp(n, A, *o)
        any_ = lambda n: inp(n, N, bool, int, float, str)
        objs = {
            "empty": lambda: I(m.Empty), "bare without attributes": lambda: I(m.Bare), "bare": lambda: I(m.Bare, b=any_("x"), a=a("a", N), c=None, z=0),
            "bare falsy": lambda: I(m.Bare, a=0, b="", c=False, d=[], e={}, f=0.0, g=None), "keyword suffixes": lambda: I(m.Bare, from_=a("a"), in_=1, x_=2, class__=3, _p=4, __q=5, None_=6, type_=7, match_=8),
            "reserved-like": lambda: I(m.Bare, __x__=1, _abc_impl=2, __y=3, z__=4, _w_=5, __a_=6, abc_impl=9), "constants": lambda: I(m.Consts), "constants shadowed": lambda: I(m.Consts, kind=any_("x"), extra=a("a")),
            "shadowed by None": lambda: I(m.Consts, kind=None, color=None), "derived": lambda: I(m.Derived), "properties": lambda: I(m.Prop, value=any_("x")), "slots": lambda: I(m.Slots, a=a("a"), b=any_("x")),
            "abstract base": lambda: I(m.Concrete), "enum and containers": lambda: I(m.Bare, e=m.Color.RED, l=[a("a"), None, [any_("x")]], d={"k": a("b"), "n": None}, t=(1, None), s={"p"}),
            "nested": lambda: I(m.Bare, inner=I(m.Bare, b=any_("x"), a=None), l=[I(m.Empty), I(m.Consts)], d={"k": I(m.Bare, y=a("a"))}), "nested data class": lambda: I(m.Bare, d=I(m.DC, a=1, b=None), e=I(m.DC, a=2, b=inp("i", int, N))),
            "method attribute": lambda: I(m.Bare, f=I(m.Bare).method, g=1),
            "many": lambda: I(m.Bare, **{n: inp(n, int, N) for n in ("zeta", "alpha", "mid")}),
        }
        for n, mk_ in objs.items():
            self.untyped(f"object_to_json({n})", mk_)
            self.untyped(f"object_to_json(list of {n})", lambda: [mk_(), None, mk_()])
            self.untyped(f"object_to_json(dict of {n})", lambda: {"k": mk_()})
            cls = type(self.peek(mk_))
            self.untyped(f"serializer({n})", mk_, cls)
            self.untyped(f"serializer(list[{n}])", lambda: [mk_()], T.List[cls])
            self.untyped(f"serializer(Optional[{n}])", mk_, T.Optional[cls])
            self.untyped(f"serializer(Annotated[{n}])", mk_, T.Annotated[cls, "x"])
        self.untyped("data class holding an untyped object", lambda: I(m.Holder, o=I(m.Bare, y=any_("x"), z=None), n=None), m.Holder)
        nts = {"named tuple": (m.CNT, lambda: m.CNT(any_("x"), a("a"), a("c", N))), "named tuple with default": (m.CND, lambda: m.CND(a("a"))), "empty named tuple": (m.CNE, lambda: m.CNE()),
               "named tuple of containers": (m.CND, lambda: m.CND([a("a"), None], {"k": m.CND(1, I(m.Bare, q=1, r=None))})), "named tuple of falsy": (m.CNT, lambda: m.CNT(0, "", [])),
               "renamed fields": (m.CNR, lambda: m.CNR(a("a"), 1, "", [any_("x")], 0, {})), "keyword fields": (m.CNK, lambda: m.CNK(any_("x"), a("a"), 0, a("c"), ""))}
        for n, (cls, mk_) in nts.items():
            self.untyped(f"object_to_json({n})", mk_)
            self.untyped(f"object_to_json(list of {n})", lambda: [mk_(), mk_()])
            self.untyped(f"serializer({n})", mk_, cls)
            self.untyped(f"serializer(list[{n}])", lambda: [mk_()], T.List[cls])
            self.untyped(f"serializer(Annotated[{n}])", mk_, T.Annotated[cls, "x"])
        f, meth = m.func, lambda: object.__new__(m.Bare).method
        exotic = {"function": lambda: f, "method": meth, "class": lambda: m.Bare, "builtin class": lambda: int, "data class itself": lambda: m.DC, "module": lambda: m}
        for n, mk_ in exotic.items():
            for sn, w in {"": lambda v: v, " in a list": lambda v: [1, v], " in a dict": lambda v: {"k": v}, " in a tuple": lambda v: (v,), " in an object": lambda v: I(m.Bare, f=v) if n != "method" else [v], " in a named tuple": lambda v: m.CND(v),
                          " deep inside": lambda v: I(m.Bare, a=[{"k": (1, v)}])}.items():
                self.compare(f"refused: {n}{sn}", lambda: self.A.call(self.object_to_json, w(mk_())), refuse)
        self.compare("refused: static function of an object", lambda: self.A.call(self.object_to_json, I(m.Static)), refuse)
        self.compare("refused: inner class of an object", lambda: self.A.call(self.object_to_json, I(m.Outer)), refuse)
        for n, tp in {"function": types.FunctionType, "method": types.MethodType, "type": type, "module": types.ModuleType}.items():
            for sn, t in {"": tp, " in a list": T.List[tp], " annotated": T.Annotated[tp, "x"], " in a dict": T.Dict[str, tp], " in a tuple": T.Tuple[int, tp]}.items():
                self.compare(f"refused by create_serializer: {n}{sn}", lambda: self.A.call(self.create_serializer, t), refuse)
        for n, v in {"data class instance": lambda: I(m.DC, a=1), "number": lambda: 5, "list object": lambda: [int], "type variable": lambda: typing.TypeVar("T")}.items():
            self.compare(f"refused by create_serializer: {n}", lambda: self.A.call(self.create_serializer, v()), refuse)
        types_ = {"list": lambda: list, "dict": lambda: dict, "set": lambda: set, "tuple": lambda: tuple, "data class instance": lambda: I(m.DC, a=1), "number": lambda: 5, "list object": lambda: [int], "type variable": lambda: typing.TypeVar("T")}
        for n, v in types_.items():
            self.compare(f"refused by create_deserializer: {n}", lambda: self.A.call(self.create_deserializer, v()), refuse)
            self.compare(f"refused by json_to_object: {n}", lambda: self.A.call(self.json_to_object, v(), []), refuse)
            t = v()
            if isinstance(t, type):
                shapes = {"list": T.List[t], "dict": T.Dict[str, t], "set": T.Set[t], "tuple": T.Tuple[int, t], "optional": T.Optional[t], "union": T.Union[int, t], "annotated": T.Annotated[t, "x"], "builtin list": list[t], "deep": T.Dict[str, T.List[T.Optional[t]]]}
                for sn, s in shapes.items():
                    self.compare(f"refused by create_deserializer: {n} in {sn}", lambda: self.A.call(self.create_deserializer, s), refuse)
        self.compare("refused by create_deserializer: field of bare list", lambda: self.A.call(self.create_deserializer, m.HasList), refuse)
        self.compare("refused by create_deserializer: nested field of bare list", lambda: self.A.call(self.create_deserializer, m.HasNested), refuse)

    def peek(self, mk_):
        S.ENGINE = None
        return mk_()

    def untyped(self, name, mk_, tp=None):
        box = {}

        def make():
            box["v"] = mk_()
            return box["v"]

        self.encode(name, make, tp, expect=lambda: self.expected(box["v"]))

    def expected(self, v):
        E, I = self.A.E, self.A.I
        v = E.resolve(v)
        if is_sym(v) or v is None:
            return self.spec.encode(v)
        cls = type(v)
        if cls in (list, tuple, set):
            return [self.expected(x) for x in v]
        if cls is dict:
            return {k: self.expected(x) for k, x in v.items()}
        if issubclass(cls, tuple):
            return {self.prop(n): self.expected(x) for n, x in zip(cls._fields, v)}
        if cls.__module__ != self.m.__name__ or isinstance(v, self.m.Enum):
            return self.spec.encode(v)
        out = {}
        if cls in (self.m.DC, self.m.Holder):
            names = list(vars(v))
        else:
            names = sorted(n for n in dir(v) if not (n.startswith("__") and n.endswith("__") and len(n) > 4) and n != "_abc_impl")
        for n in names:
            x = E.resolve(getattr(v, n))
            if x is None or is_sym(x) and E.isinst(x, NoneType) or isinstance(x, types.MethodType):
                continue
            out[self.prop(n)] = self.expected(x)
        return out

    @staticmethod
    def prop(name):
        import keyword
        return name[:-1] if name.endswith("_") and keyword.iskeyword(name[:-1]) else name
