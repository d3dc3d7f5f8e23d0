from absint.driver import hook
from absint.sym import mk

from .interchange import *
from .spec import strip
import dataclasses
import datetime
import enum
import ipaddress
import types
import uuid

UNION = (typing.Union, types.UnionType)
SCALARS = (NoneType, bool, int, float, str, bytes, datetime.datetime, datetime.date, datetime.time, datetime.timedelta, uuid.UUID, ipaddress.IPv4Address, ipaddress.IPv6Address)


class C20(InterchangeCheck):
    ID = "C20"
    RULE = ("get_referenced_types on witness types with the reference in every position and spelling must return exactly the set reached by walking the declared types; is_generic_instance on abstract objects of every "
            "shape must decide as the structural definition in the same trace; check_recursive with an uninterpreted predicate must be the conjunction of the predicate over exactly the nested members in the same trace.")
    MIN_DECIDED = 300

    def run(self):
        self.setup()
        self.references()
        self.instances()
        self.recursive()

    # -------------------------------------------------------------- references
    def reach(self, tp, mod, seen):
        tp = strip(tp)
        if tp is NoneType or tp is typing.Any:
            return
        if isinstance(tp, str):
            return self.reach(eval(tp, mod.__dict__), mod, seen)
        if isinstance(tp, typing.ForwardRef):
            return self.reach(eval(tp.__forward_arg__, mod.__dict__), mod, seen)
        o = typing.get_origin(tp)
        if o is typing.Literal:
            return
        if o is not None:
            for a in typing.get_args(tp):
                self.reach(a, mod, seen)
            return
        if tp in seen:
            return
        seen.add(tp)
        for t in (self.spec.hints(tp) if tp.__module__.startswith("absint_w") else {}).values():
            self.reach(t, sys_module(tp), seen)

    def references(self):
        f = self.api("inspection", "get_referenced_types")
        T = typing
        call = self.A.call
        w1 = self.wmod("other", '''
@dataclass
class Thing:
    one: uuid.UUID

@dataclass
class BaseHolder:
    base: List["Thing"]
    opt: "Optional[Thing]" = None

class BasePlain:
    base: List["Thing"]
''')
        w = self.wmod("refs", '''
from absint_w_C20_other import BaseHolder, BasePlain
import absint_w_C20_other as other

class En(Enum):
    A = "a"

@dataclass
class Thing:
    two: bytes

@dataclass
class Leaf:
    v: int

@dataclass
class Mid:
    l: Leaf
    e: En

@dataclass
class Rec:
    r: Optional["Rec"]
    t: datetime.date

@dataclass
class P:
    q: "Optional[Q]"

@dataclass
class Q:
    p: List[P]
    s: str

class NT(NamedTuple):
    l: Leaf
    f: float

class Plain:
    m: Mid
    n: NT

@dataclass
class Derived(BaseHolder):
    own: Optional["Thing"] = None

class DerivedPlain(BasePlain):
    own: List["Thing"]

@dataclass
class DocLit:
    l: Literal["a", "b"]
    a: Any
    n: None = None

@dataclass
class Child(Mid):
    x: datetime.time

class Empty:
    pass
''')
        leaves = {"int": int, "En": w.En, "Leaf": w.Leaf, "Mid": w.Mid, "Rec": w.Rec, "P": w.P, "NT": w.NT, "Plain": w.Plain, "Derived": w.Derived, "DerivedPlain": w.DerivedPlain, "DocLit": w.DocLit, "Child": w.Child, "None": NoneType, "Any": T.Any, "UUID": uuid.UUID,
                  "string": "Leaf", "ForwardRef": T.ForwardRef("Mid"), "other Thing": w1.Thing, "Thing": w.Thing, "string expression": "List[Mid]", "Empty": w.Empty}
        wraps = {"": lambda t: t, "List": lambda t: T.List[t], "list": lambda t: list[t], "Set": lambda t: T.Set[t], "set": lambda t: set[t], "frozenset": lambda t: frozenset[t], "Dict value": lambda t: T.Dict[str, t], "dict value": lambda t: dict[bytes, t],
                 "Tuple first": lambda t: T.Tuple[t, float], "tuple last": lambda t: tuple[float, t], "Optional": lambda t: T.Optional[t], "Union first": lambda t: T.Union[t, float], "Union last": lambda t: T.Union[bytes, float, t], "Union with None": lambda t: T.Union[None, bytes, t],
                 "Annotated": lambda t: T.Annotated[t, "note"], "pipe": lambda t: t | bytes, "pipe None": lambda t: t | None, "pipe first": lambda t: bytes | float | t, "dict key": lambda t: dict[t, int], "pipe three": lambda t: None | bytes | t}
        n = 0
        for n1, f1 in wraps.items():
            for n2, f2 in wraps.items():
                if n2 and not self.thorough and n1 not in ("List", "Optional", "Annotated", "pipe None", "dict value", "Union last", "pipe first", "Tuple first"):
                    continue
                for ln, leaf in leaves.items():
                    if n2 and not self.thorough and ln not in ("Leaf", "P", "string", "En"):
                        continue
                    if leaf is NoneType and "key" in n1:
                        continue
                    try:
                        inner = f2(leaf) if n2 else leaf
                        tp = f1(inner)
                    except TypeError:
                        continue
                    want = set()
                    self.reach(tp, w, want)

                    def acc(o):
                        if o.exc is not None:
                            return f"get_referenced_types({tp}) {o.describe()}"
                        if not isinstance(o.value, (set, frozenset)) or set(o.value) != want:
                            miss, extra = want - set(o.value), set(o.value) - want
                            return f"get_referenced_types({tp}): missing {sorted(map(str, miss))}, unexpected {sorted(map(str, extra))}"

                    self.oblige(f"references of {n1}({n2}({ln}))", lambda: call(f, tp, w), acc, concrete=lambda o, v: acc(o))
                    if n1 == "" and isinstance(leaf, type):
                        self.oblige(f"references of {ln} without module", lambda: call(f, tp), acc, concrete=lambda o, v: acc(o))
        # as field types, in every kind of class
        k = 0
        for kind, src in {"dataclass": "@dataclass\nclass C:\n    f: X\n", "plain": "class C:\n    f: X\n", "named tuple": "class C(NamedTuple):\n    f: X\n", "inherited": "@dataclass\nclass B:\n    f: X\n@dataclass\nclass C(B):\n    pass\n",
                          "inherited plain": "class B:\n    f: X\nclass C(B):\n    g: int\n", "string": "@dataclass\nclass C:\n    f: 'X'\n", "string optional": "@dataclass\nclass C:\n    f: 'Optional[X]'\n"}.items():
            for n1, f1 in wraps.items():
                for ln in ("Leaf", "En", "P"):
                    try:
                        X = f1(leaves[ln])
                    except TypeError:
                        continue
                    k += 1
                    c = self.wmod(f"fr{k}", src, X=X).C
                    want = set()
                    self.reach(c, None, want)

                    def acc2(o):
                        if o.exc is not None:
                            return f"get_referenced_types of class with field {X}: {o.describe()}"
                        if set(o.value) != want:
                            return f"get_referenced_types of class with field {X}: missing {sorted(map(str, want - set(o.value)))}, unexpected {sorted(map(str, set(o.value) - want))}"

                    self.oblige(f"references of {kind} with field {n1}({ln})", lambda: call(f, c), acc2, concrete=lambda o, v: acc2(o))

    # --------------------------------------------------------------- instances
    def isinst(self, x, tp):
        E = self.A.E
        tp = strip(tp)
        o, args = typing.get_origin(tp), typing.get_args(tp)
        x = E.resolve(x)
        if o in (list, set):
            if is_sym(x):
                return self.kind_is(x, o)
            return isinstance(x, o) and all([self.isinst(i, args[0]) for i in x])
        if o is dict:
            if is_sym(x):
                return self.kind_is(x, o)
            return isinstance(x, dict) and all([self.isinst(k, args[0]) and self.isinst(v, args[1]) for k, v in x.items()])
        if o is tuple:
            if is_sym(x):
                return self.kind_is(x, o)
            return isinstance(x, tuple) and len(x) == len(args) and all([self.isinst(i, a) for i, a in zip(x, args)])
        if o in UNION:
            return any([self.isinst(x, a) for a in args])
        if o is typing.Literal:
            if not is_sym(x):
                return any(type(x) is type(a) and x == a for a in args)
            return any([self.spec.kind(x) is type(a) and bool(E.eq(x, a)) for a in args])
        if is_sym(x):
            return issubclass(self.spec.kind(x), tp)
        return isinstance(x, tp)

    def kind_is(self, x, c):
        if issubclass(self.spec.kind(x), c):
            raise Imprecise("unshaped container")
        return False

    def instances(self):
        f = self.api("inspection", "is_generic_instance")
        T = typing
        m = self.wmod("inst", "class Base:\n    pass\nclass Sub(Base):\n    pass\nclass En(Enum):\n    A = 'a'\n@dataclass\nclass DC:\n    v: int\nclass NT(NamedTuple):\n    a: int\n    b: str\n")
        x = lambda n, *k: inp(n, *(k or (NoneType, bool, int, float, str, bytes)))
        I = self.instance
        types_ = {"int": int, "str": str, "None": NoneType, "bool": bool, "Base": m.Base, "En": m.En, "DC": m.DC, "List int": T.List[int], "list str": list[str], "Set int": T.Set[int], "set int": set[int], "Dict": T.Dict[str, int], "dict of list": dict[str, list[int]],
                  "Tuple": T.Tuple[int, str], "tuple one": tuple[int], "tuple three": tuple[int, str, int], "Optional": T.Optional[int], "Union": T.Union[int, str], "Union None": T.Union[int, None, str], "pipe": int | str, "pipe None": int | None, "pipe list": list[int] | None,
                  "Annotated": T.Annotated[int, 1], "Annotated list": T.Annotated[list[int], 1], "list Annotated": list[T.Annotated[int, 1]], "Literal": T.Literal["a", "b"], "Literal int": T.Literal[1, 2], "list of Optional": list[T.Optional[int]], "list of pipe": list[int | None],
                  "list of list": list[list[int]], "dict of tuple": dict[str, tuple[int, str]], "list of Base": list[m.Base], "Union of lists": T.Union[list[int], list[str]], "dict int keys": dict[int, str], "list of Literal": list[T.Literal["a"]], "list of Union": T.List[T.Union[int, T.List[str]]],
                  "tuple of lists": tuple[list[int], dict[str, int]], "set of tuple": set[tuple[int, str]], "Annotated Optional": T.Annotated[T.Optional[int], 1], "Annotated tuple": T.Annotated[tuple[int, str], 1], "list of float": list[float], "tuple keys": dict[tuple[int, str], int], "Optional keys": dict[T.Optional[int], int], "Literal keys": T.Dict[T.Literal["k"], int], "union keys": dict[int | str, int], "Annotated keys": dict[T.Annotated[str, 1], int], "enum keys": dict[m.En, int],
                  "list of sets": list[set[int]], "tuple of tuples": tuple[tuple[int, str], tuple[str]], "Union of dicts": T.Union[dict[str, int], dict[int, str], None], "Optional list": T.Optional[list[T.Optional[int]]], "list of dict": list[dict[str, int]], "dict of dict": dict[str, dict[str, int]],
                  "set of Optional": set[T.Optional[int]], "set of Literal": set[T.Literal["a", 1]], "Literal mixed": T.Literal["a", 1, True, None], "object": object, "list of object": list[object], "bytes": bytes,
                  "NT": m.NT, "Optional Annotated": T.Optional[T.Annotated[int, 1]]}
        objs = {"scalar": lambda: x("x"), "base": lambda: I(m.Base), "sub": lambda: I(m.Sub), "member": lambda: m.En.A, "data class": lambda: I(m.DC, v=1), "named tuple": lambda: m.NT(1, "b"), "empty list": lambda: [], "list 1": lambda: [x("x")], "list 2": lambda: [x("x"), x("y")],
                "list of lists": lambda: [[x("x")], [], [x("y")]], "list of instances": lambda: [I(m.Sub), I(m.Base)], "mixed list": lambda: [x("x"), [x("y")]], "empty dict": lambda: {}, "dict": lambda: {"k": x("x"), "l": x("y")}, "dict of lists": lambda: {"k": [x("x")], "l": [x("y")]}, "int dict": lambda: {1: x("x")},
                "dict of tuples": lambda: {"k": (x("x"), x("y"))}, "empty set": lambda: set(), "set": lambda: {x("x", int, str), x("y", int, str)}, "set of tuples": lambda: {(1, "a"), (2, "b")}, "set of bad tuples": lambda: {(1, "a"), ("b", 2)}, "empty tuple": lambda: (), "tuple 1": lambda: (x("x"),), "tuple 2": lambda: (x("x"), x("y")),
                "tuple 3": lambda: (x("x"), x("y"), x("z")), "tuple of containers": lambda: ([x("x")], {"k": x("y")}), "mixed keys": lambda: {"a": x("x"), 2: x("y")}, "tuple keyed": lambda: {(1, "a"): x("x")}, "bad tuple keyed": lambda: {(1, "a"): x("x"), ("b", 2): x("y")}, "short tuple keyed": lambda: {(1,): x("x")}, "enum keyed": lambda: {m.En.A: x("x")}, "None keyed": lambda: {None: x("x"), 1: x("y")},
                "abstract keyed": lambda: {x("k", int, str): x("x")}, "list of sets": lambda: [{x("x", int, str)}, set()], "tuple of tuples": lambda: ((x("x"), x("y")), (x("z"),)), "list of dicts": lambda: [{"k": x("x")}, {}], "dict of dicts": lambda: {"k": {"l": x("x")}, "m": {}},
                "set with None": lambda: {None, x("x", int, str)}, "list of None": lambda: [None],
                "frozen set": lambda: frozenset({1, 2}), "frozen set of texts": lambda: frozenset({"a"}), "empty frozen set": lambda: frozenset(), "list of frozen sets": lambda: [frozenset({1}), set()], "range": lambda: range(3), "byte array": lambda: bytearray(b"a"), "dict view": lambda: {"k": 1}.keys(),
                "list of tuples": lambda: [(1, "a"), (x("x"), x("y"))], "list of ranges": lambda: [range(2)], "tuple of bytes": lambda: (b"a", b"b"), "dict of frozen sets": lambda: {"k": frozenset({1})}, "class": lambda: int, "list of classes": lambda: [m.Base]}
        for tn, tp in types_.items():
            for on, get in objs.items():
                box = {}

                def impl():
                    box["o"] = get()
                    return self.A.call(f, box["o"], tp)

                self.compare(f"is_generic_instance of {on} as {tn}", impl, lambda: self.isinst(box["o"], tp))
        F = typing.ForwardRef
        for tn, tp, tr in (("int", F("int"), int), ("str", F("str"), str), ("List of int", T.List["int"], T.List[int]), ("Dict to str", T.Dict["str", "int"], T.Dict[str, int]), ("Optional bytes", T.Optional["bytes"], T.Optional[bytes]),
                           ("Tuple", T.Tuple["int", str], T.Tuple[int, str]), ("Set", T.Set["int"], T.Set[int]), ("nested", T.List[T.Optional["float"]], T.List[T.Optional[float]]), ("Annotated", T.Annotated["int", 1], int)):
            for on, get in objs.items():
                box = {}

                def impl():
                    box["o"] = get()
                    return self.A.call(f, box["o"], tp)

                self.compare(f"is_generic_instance of {on} as {tn} named by a forward reference", impl, lambda: self.isinst(box["o"], tr))
        for tn, tp in (("a number", 5), ("an object", I(m.Base)), ("a type variable", T.TypeVar("V"))):
            self.compare(f"is_generic_instance for {tn}", lambda: self.A.call(f, 1, tp), lambda: refuse())

    # --------------------------------------------------------------- recursive
    def members(self, tp, v):
        "(type, value) pairs on which the predicate is to hold."
        E = self.A.E
        tp = strip(tp)
        o, args = typing.get_origin(tp), typing.get_args(tp)
        if tp in SCALARS or o in UNION or o is typing.Literal or isinstance(tp, type) and issubclass(tp, enum.Enum):
            yield tp, v
        elif o in (list, set):
            for i in v:
                yield from self.members(args[0], i)
        elif o is dict:
            for i in v.values():
                yield from self.members(args[1], i)
        elif o is tuple:
            for a, i in zip(args, v):
                yield from self.members(a, i)
        else:
            for n, _, t, *_ in self.spec.fields(tp):
                yield from self.members(t, getattr(v, n))

    def recursive(self):
        f = self.api("inspection", "check_recursive")
        E = self.A.E
        m = self.wmod("rec", '''
class En(Enum):
    A = "a"
    B = "b"

@dataclass
class Leaf:
    v: int

@dataclass
class Scalars:
    a: None
    b: bool
    c: int
    d: float
    e: str
    f: bytes
    g: datetime.datetime
    h: datetime.date
    i: datetime.time
    j: datetime.timedelta
    k: uuid.UUID
    l: ipaddress.IPv4Address
    m: ipaddress.IPv6Address
    n: En

@dataclass
class Containers:
    a: List[int]
    b: Dict[str, int]
    c: Set[int]
    d: Tuple[int, str]
    e: list[list[int]]
    f: dict[str, list[Leaf]]
    g: tuple[Leaf, list[Leaf]]

@dataclass
class Unions:
    a: Optional[int]
    b: Union[int, str]
    c: int | None
    d: "str | int"
    e: Annotated[Optional[int], 1]
    f: Literal["a", "b"]
    g: List[Optional[int]]
    h: list[int | None]

@dataclass
class Repeated:
    a: Dict[str, Optional[int]]
    b: List[Optional[int]]
    c: Tuple[Optional[int], Optional[int]]
    d: dict[int, "Leaf"]
    e: List[Leaf]
    f: "dict[str, int | None]"
    g: Dict[str, None]

@dataclass
class Annot:
    a: Annotated[int, 1]
    b: Annotated[List[Annotated[int, 2]], 3]
    c: Annotated[Leaf, 4]
    d: List[Annotated[Leaf, 5]]
    e: Annotated[En, 6]

class NT(NamedTuple):
    a: int
    b: Leaf

class Plain:
    a: int
    b: List[Leaf]
    c: NT

@dataclass
class Child(Leaf):
    w: str

@dataclass
class Deep:
    a: Leaf
    b: NT
    c: Child
    d: List[NT]
    e: Dict[str, Child]

@dataclass
class Fwd:
    a: "Leaf"
    b: "List[Leaf]"
    c: List["Leaf"]

@dataclass
class Empty:
    pass

class PlainChild(Plain):
    z: str

@dataclass
class Rec:
    v: int
    r: List["Rec"]

@dataclass
class Holder:
    p: Plain
''')
        I = self.instance
        c = [0]

        def s(t=int):
            c[0] += 1
            return inp(f"s{c[0]}", t)

        leaf = lambda: I(m.Leaf, v=s())
        nt = lambda: m.NT(s(), leaf())
        child = lambda: I(m.Child, v=s(), w=s(str))
        plain = lambda: I(m.Plain, a=s(), b=[leaf(), leaf()], c=nt())
        objs = {
            "Leaf": leaf, "Scalars": lambda: I(m.Scalars, a=None, b=s(bool), c=s(), d=s(float), e=s(str), f=s(bytes), g=s(datetime.datetime), h=s(datetime.date), i=s(datetime.time), j=s(datetime.timedelta), k=s(uuid.UUID), l=s(ipaddress.IPv4Address), m=s(ipaddress.IPv6Address), n=m.En.A),
            "Containers": lambda: I(m.Containers, a=[s(), s()], b={"k": s(), "l": s()}, c={s()}, d=(s(), s(str)), e=[[s()], [], [s()]], f={"k": [leaf(), leaf()], "m": [leaf()]}, g=(leaf(), [leaf()])), "Empty containers": lambda: I(m.Containers, a=[], b={}, c=set(), d=(s(), s(str)), e=[], f={}, g=(leaf(), [])),
            "Unions": lambda: I(m.Unions, a=s(), b=s(str), c=s(), d=s(), e=s(), f="a", g=[s(), s()], h=[s(), None]), "None in unions": lambda: I(m.Unions, a=None, b=s(), c=None, d=s(str), e=None, f="b", g=[], h=[]),
            "Repeated": lambda: (lambda v, l: I(m.Repeated, a={"k": v, "l": None, "m": v, "n": None}, b=[None, v, None], c=(None, v), d={1: l, 2: l}, e=[l, l], f={"k": None}, g={"k": None, "l": None}))(s(), leaf()),
            "Annot": lambda: I(m.Annot, a=s(), b=[s(), s()], c=leaf(), d=[leaf(), leaf()], e=m.En.B), "NT": nt, "Plain": plain, "Child": child, "Deep": lambda: I(m.Deep, a=leaf(), b=nt(), c=child(), d=[nt()], e={"k": child()}), "Fwd": lambda: I(m.Fwd, a=leaf(), b=[leaf()], c=[leaf()]), "Empty": lambda: I(m.Empty),
            "PlainChild": lambda: I(m.PlainChild, a=s(), b=[leaf()], c=nt(), z=s(str)), "Rec": lambda: I(m.Rec, v=s(), r=[I(m.Rec, v=s(), r=[]), I(m.Rec, v=s(), r=[I(m.Rec, v=s(), r=[])])]),
        }

        def term(kind, *a):
            return mk("hook", kind, *a, types=frozenset([bool]))

        pred = hook(lambda typ, obj: term("pred", str(typ), obj))
        vpred = hook(lambda obj: term("vpred", obj))
        tpred = hook(lambda typ: term("tpred", str(typ)))
        yes = hook(lambda typ, obj: True)
        wrong = {
            "number for a list": lambda: I(m.Containers, a=5), "tuple for a list": lambda: I(m.Containers, a=(1,)), "list for a dict": lambda: I(m.Containers, a=[], b=["k"]), "list for a set": lambda: I(m.Containers, a=[], b={}, c=[1]),
            "list for a tuple": lambda: I(m.Containers, a=[], b={}, c=set(), d=[1, "s"]), "number in a list of lists": lambda: I(m.Containers, a=[], b={}, c=set(), d=(1, "s"), e=[[1], 2]),
            "None for a class": lambda: I(m.Deep, a=None), "other class": lambda: I(m.Deep, a=I(m.Empty)), "base class for a subclass": lambda: I(m.Deep, a=leaf(), b=nt(), c=leaf()), "number for a named tuple": lambda: I(m.Deep, a=leaf(), b=5),
            "object in a list of classes": lambda: I(m.Fwd, a=leaf(), b=[leaf(), 5]), "number for an enumeration": lambda: I(m.Annot, a=1, b=[], c=leaf(), d=[], e="b"), "number for a plain class": lambda: I(m.Holder, p=5), "other class for a plain class": lambda: I(m.Holder, p=leaf()),
            "number inside a plain class": lambda: I(m.Holder, p=I(m.Plain, a=1, b=7, c=nt())), "annotated class": lambda: I(m.Annot, a=1, b=[], c=5, d=[], e=m.En.A), "class in an annotated list": lambda: I(m.Annot, a=1, b=[], c=leaf(), d=[nt()], e=m.En.A),
        }
        for on, get in wrong.items():
            def thunk():
                c[0] = 0
                return self.A.call(f, get(), pred=yes)

            self.compare(f"check_recursive with {on}", thunk, refuse)
        for on, get in objs.items():
            box = {}

            def impl(**k):
                c[0] = 0
                box["o"] = get()
                return self.A.call(f, box["o"], **k)

            def spec(p):
                for t, v in self.members(type(box["o"]), box["o"]):
                    if not p(t, v):
                        return False
                return True

            tr = E.truth
            self.compare(f"check_recursive of {on}, pred", lambda: bool_(E, impl(pred=pred)), lambda: spec(lambda t, v: tr(pred(t, v))), max_paths=400)
            self.compare(f"check_recursive of {on}, value_pred", lambda: bool_(E, impl(value_pred=vpred)), lambda: spec(lambda t, v: tr(vpred(v))), max_paths=400)
            if on != "Scalars":  # the number of partitions is exponential in the members
                self.compare(f"check_recursive of {on}, both", lambda: bool_(E, impl(type_pred=tpred, value_pred=vpred)), lambda: spec(lambda t, v: not tr(tpred(t)) or tr(vpred(v))), max_paths=3000)
            self.compare(f"check_recursive of {on}, none", lambda: bool_(E, impl()), lambda: True)

            def typerr(**k):
                def acc(o):
                    if o.exc is None or type(o.exc) is not TypeError:
                        return f"TypeError required; {o.describe()}"
                self.oblige(f"check_recursive of {on}, contradictory predicates {sorted(k)}", lambda: impl(**k), acc, concrete=lambda o, w: acc(o))

            typerr(pred=pred, value_pred=vpred)
            typerr(pred=pred, type_pred=tpred, value_pred=vpred)
            typerr(type_pred=tpred)


def refuse():
    raise Fails("TypeError")


def bool_(E, v):
    return bool(E.truth(v)) if is_sym(v) else v


def sys_module(cls):
    import sys
    return sys.modules[cls.__module__]
