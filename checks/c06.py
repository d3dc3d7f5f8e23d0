import itertools

from .interchange import *
from .witness import SCALARS

ALL = ("JsonKeyError", "JsonTypeError", "JsonValueError")


class C06(InterchangeCheck):
    ID = "C06"
    RULE = ("Untagged unions of opaque members that may each accept or fail with any Json*Error, in every spelling and position: each trace partition must return the first accepting "
            "member's result term in declaration order, or JsonKeyError when all fail; scalar member pairs are compared with the reference decoder for data of every kind.")
    MIN_DECIDED = 60

    def run(self):
        self.setup()
        T = typing
        A, B, C = (self.elems.make(n, ALL) for n in ("ElemA", "ElemB", "ElemC"))
        y = lambda i=0: inp(f"y{i}", bool, int, float, str)
        m = self.wmod("types", '''
class Color(Enum):
    RED = "r"
    GREEN = "g"

@dataclass
class X:
    x: int

@dataclass
class XY:
    x: int
    y: Optional[str]

@dataclass
class Holder:
    u: Union[S, T_]
    o: Optional[Union[S, T_]]
    p: "S | T_"

@dataclass
class Lit1:
    kind: Literal["a"]

@dataclass
class Other:
    kind: str

@dataclass
class Tag1:
    kind: Literal["a"]
    x: int

@dataclass
class Tag2:
    kind: Literal["b"]
    y: str

@dataclass
class Tag3:
    sort: Literal["a"]
    z: str

@dataclass
class Tag4:
    kind: Literal["d", "e"]
    w: str
''', A=A, B=B, S=self.elems.make("ElemS", ("JsonKeyError",)), T_=self.elems.make("ElemT", ("JsonValueError",)))
        S1, S2 = self.elems.make("ElemS", ("JsonKeyError",)), self.elems.make("ElemT", ("JsonValueError",))
        for n, tp in {"list[Union[S,T]]": T.List[T.Union[S1, S2]], "list[S|T|None]": list[S1 | S2 | None], "list[Annotated[Union[S,T],1]]": T.List[T.Annotated[T.Union[S1, S2], 1]]}.items():
            self.decode(n, tp, lambda: [y(0), None, y(1)])
        unions = {
            "Union[A,B]": T.Union[A, B], "A|B": A | B, "Union[B,A]": T.Union[B, A], "Union[A,B,C]": T.Union[A, B, C], "A|B|C": A | B | C, "Optional[Union[A,B]]": T.Optional[T.Union[A, B]],
            "A|B|None": A | B | None, "None|A": None | T.Annotated[A, 1] if False else T.Union[None, A], "Union[None,A,B]": T.Union[None, A, B], "Annotated[Union[A,B],1]": T.Annotated[T.Union[A, B], 1],
            "Union[Annotated[A,1],B]": T.Union[T.Annotated[A, 1], B], "Union[A,int]": T.Union[A, int], "Union[int,A]": T.Union[int, A],
        }
        for n, tp in unions.items():
            self.decode(f"{n} <- value", tp, y())
            self.decode(f"{n} <- null", tp, lambda: None)
            self.decode(f"{n} <- array", tp, lambda: [y()])
            self.decode(f"{n} <- object", tp, lambda: {"k": y()})
            self.decode(f"list[{n}]", T.List[tp], lambda: [y(0), None])
            if self.thorough:
                self.decode(f"dict[str,{n}]", T.Dict[str, tp], lambda: {"k0": y(0), "k1": None})
                self.decode(f"tuple[{n},{n}]", T.Tuple[tp, tp], lambda: [y(0), y(1)])
        # element-wise failure inside a member makes that member fail
        for n, tp, b in [
            ("Union[list[A],B]", T.Union[T.List[A], B], lambda: [y(0), y(1)]),
            ("Union[list[A],list[B]]", T.Union[T.List[A], T.List[B]], lambda: [y(0), y(1)]),
            ("Union[tuple[A,A],tuple[A]]", T.Union[T.Tuple[A, A], T.Tuple[A]], lambda: [y(0)]),
            ("Union[dict[str,A],B]", T.Union[T.Dict[str, A], B], lambda: {"k": y()}),
            ("Union[X,XY] x only", T.Union[m.X, m.XY], lambda: {"x": y()}),
            ("Union[X,XY] x and y", T.Union[m.X, m.XY], lambda: {"x": y(), "y": y(1)}),
            ("Union[X,XY] null x", T.Union[m.X, m.XY], lambda: {"x": None}),
            ("Union[Lit1,Other]", T.Union[m.Lit1, m.Other], lambda: {"kind": y()}),
            ("Union[Color,A]", T.Union[m.Color, A], y), ("Union[A,Color]", T.Union[A, m.Color], y),
            ("Union[Literal['a'],A]", T.Union[T.Literal["a"], A], y),
            ("Union[Literal['a'],Literal['b']]", T.Union[T.Literal["a"], T.Literal["b"]], y),
            ("Holder", m.Holder, lambda: {"u": y(0), "o": y(1), "p": y(2)}), ("Holder null o", m.Holder, lambda: {"u": y(0), "o": None, "p": y(2)}),
            ("Holder absent o", m.Holder, lambda: {"u": y(0), "p": y(2)}),
            ("nested Union[Union[A,B],C] via list", T.List[T.Union[T.Union[A, B], C]], lambda: [y(0)]),
        ]:
            self.decode(f"{n} <- nested data", tp, b)
        # members of which only some carry a tag: no property is common, and they are tried one after the other
        mixed = {"t1": m.Tag1, "t2": m.Tag2, "t3": m.Tag3, "t4": m.Tag4, "x": m.X, "o": m.Other, "int": int, "A": A}
        data = {
            "kind a": lambda: {"kind": "a", "x": y()}, "kind b": lambda: {"kind": "b", "y": y()}, "sort a": lambda: {"sort": "a", "z": y()}, "kind d": lambda: {"kind": "d", "w": y()},
            "x": lambda: {"x": y()}, "kind ?": lambda: {"kind": y()}, "scalar": y,
        }
        combos = [c for c in itertools.permutations(mixed, 3) if any(k[0] == "t" for k in c) and any(k in ("t3", "x", "o", "int", "A", "t4") for k in c)]
        if not self.thorough:
            combos = [c for i, c in enumerate(combos) if sum(k[0] == "t" for k in c) == 2 and "A" not in c]
        for c in combos:
            tp = T.Union[tuple(mixed[k] for k in c)]
            for dn, d in data.items():
                if self.thorough or dn in ("kind a", "kind ?", "x", "sort a"):
                    self.decode(f"Union[{','.join(c)}] <- {dn}", tp, d)
        names = [n for n in SCALARS if n != "timedelta"]
        pairs = [(a, b) for a in names for b in names if a != b]
        keep = pairs if self.thorough else [(a, b) for i, (a, b) in enumerate(pairs) if a in ("int", "str", "None", "bool", "UUID") and b in ("int", "str", "float", "bool", "datetime", "bytes", "None")]
        for a, b in keep:
            for k in (NoneType, bool, int, float, str):
                self.decode(f"Union[{a},{b}] <- {k.__name__}", T.Union[SCALARS[a], SCALARS[b]], inp("data", k))
