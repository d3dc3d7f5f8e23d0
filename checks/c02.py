from .interchange import *
from .witness import SCALARS


class C02(InterchangeCheck):
    ID = "C02"
    RULE = ("Exception-escape analysis of the decoders: on every trace partition of json_to_object(T, data), for each supported type shape T and data of every JSON kind "
            "and container shape, the exceptions that can leave the call are a subset of {JsonKeyError, JsonTypeError, JsonValueError}; library parsers contribute the "
            "exceptions listed for them in the model table.")
    MIN_DECIDED = 120

    def run(self):
        self.setup()
        m = self.wmod("types", '''
class Color(Enum):
    RED = "r"
    GREEN = "g"

class Number(Enum):
    ONE = 1
    TWO = 2

class Mixed(Enum):
    ONE = 1
    TWO = "two"
    YES = True

class Text(str, Enum):
    A = "a"

class Code(enum.IntEnum):
    A = 1

@dataclass
class Point:
    x: int
    y: Optional[datetime.datetime]
    z: float = 0.5
    w: List[bytes] = field(default_factory=list)

@dataclass(frozen=True)
class Frozen:
    x: uuid.UUID
    y: Color = Color.RED

class Pair(NamedTuple):
    first: int
    second: datetime.timedelta

class Plain:
    u: ipaddress.IPv4Address
    v: Optional[Color]

@dataclass
class TagA:
    kind: Literal["a"]
    value: int

@dataclass
class TagB:
    kind: Literal["b", "c"]
    value: bytes

@dataclass
class TagInt:
    kind: Literal[1]

@dataclass
class TagInt2:
    kind: Literal[2]

@dataclass
class MixA:
    kind: Literal["a"]

@dataclass
class MixB:
    kind: Literal[1, 2]
    more: Literal["x"]

@dataclass
class TagMix:
    kind: Literal["c"]
    more: Literal[3]

@dataclass
class MixC:
    kind: Literal[True]
    more: Literal["y"] = "y"

@dataclass
class Outer:
    inner: Point
    items: Dict[str, Pair]
    either: Union[TagA, TagB]
''')
        T = typing
        types_ = dict(SCALARS)
        types_.update({n: getattr(m, n) for n in ("Color", "Number", "Mixed", "Text", "Code", "Point", "Frozen", "Pair", "Plain", "Outer")})
        types_.update({
            "list[int]": T.List[int], "list[date]": T.List[SCALARS["date"]], "set[UUID]": T.Set[SCALARS["UUID"]], "dict[str,bytes]": T.Dict[str, bytes], "dict[Color,time]": T.Dict[m.Color, SCALARS["time"]],
            "dict[Text,int]": T.Dict[m.Text, int],
            "tuple[int,timedelta]": T.Tuple[int, SCALARS["timedelta"]], "Union[int,str]": T.Union[int, str], "int|str": int | str, "Optional[date]": T.Optional[SCALARS["date"]], "Union[UUID,Color]": T.Union[SCALARS["UUID"], m.Color],
            "Union[TagA,TagB]": T.Union[m.TagA, m.TagB], "TagA|TagB": m.TagA | m.TagB, "Union[TagInt,TagInt2]": T.Union[m.TagInt, m.TagInt2], "Union[MixA,MixB]": T.Union[m.MixA, m.MixB], "MixA|TagInt2|TagB": m.MixA | m.TagInt2 | m.TagB, "Union[MixB,MixC2]": T.Union[m.MixB, m.TagMix], "Union[MixA,MixC]": T.Union[m.MixA, m.MixC],
            "list[Union[MixA,MixB]]": T.List[T.Union[m.MixA, m.MixB]], "Literal[None]": T.Literal[None], "Literal[1..5]": T.Literal[1, 2, 3, 4, 5],
            "Literal['x','y']": T.Literal["x", "y"], "Literal[1,2]": T.Literal[1, 2], "Literal[True]": T.Literal[True],
            "Annotated[datetime,1]": T.Annotated[SCALARS["datetime"], 1], "list[dict[str,Optional[IPv6Address]]]": T.List[T.Dict[str, T.Optional[SCALARS["IPv6Address"]]]],
            "list[Union[Point,bytes]]": T.List[T.Union[m.Point, bytes]],
            "float64": m.float64, "uint8": m.uint8,
        })
        s = lambda n="x": inp(n, *SCALAR_JSON)
        key = lambda: inp("key", str)
        shapes = {
            "scalar": lambda: s("data"),
            "[]": lambda: [], "[x]": lambda: [s()], "[x,y]": lambda: [s(), s("y")], "[[x]]": lambda: [[s()]], "[{k:x}]": lambda: [{key(): s()}],
            "{}": lambda: {}, "{k:x}": lambda: {key(): s()}, "{k:[x]}": lambda: {key(): [s()]}, "{k:{}}": lambda: {key(): {}},
        }
        per_type = {
            "Point": lambda: {"x": s(), "y": s("y"), "z": s("z"), "w": [s("w")]},
            "Frozen": lambda: {"x": s(), "y": s("y")}, "Pair": lambda: {"first": s(), "second": s("y")}, "Plain": lambda: {"u": s(), "v": s("y")},
            "Union[TagA,TagB]": lambda: {"kind": s(), "value": s("y")}, "TagA|TagB": lambda: {"kind": s(), "value": s("y")},
            "Union[TagInt,TagInt2]": lambda: {"kind": s()}, "Union[MixA,MixB]": lambda: {"kind": s(), "more": s("y")}, "MixA|TagInt2|TagB": lambda: {"kind": s()}, "Union[MixB,MixC2]": lambda: {"kind": s(), "more": s("y")}, "Union[MixA,MixC]": lambda: {"kind": s(), "more": s("y")},
            "list[Union[MixA,MixB]]": lambda: [{"kind": s(), "more": s("y")}],
            "Outer": lambda: {"inner": {"x": s(), "y": None}, "items": {"q": {"first": 1, "second": s("y")}}, "either": {"kind": s("z"), "value": s("v")}},
        }
        deep = {
            "Union[MixB,MixC2]": [lambda: {"more": s("y")}, lambda: {"kind": None, "more": [s("y")]}, lambda: {"kind": {}, "more": s("y")}], "Union[MixA,MixB]": [lambda: {"kind": [s()]}, lambda: {"more": s("y")}],
            "Union[TagA,TagB]": [lambda: {"kind": [s()]}, lambda: {"kind": {}}, lambda: {"kind": {"a": s()}, "value": 1}],
            "TagA|TagB": [lambda: {"kind": [s()]}], "Union[TagInt,TagInt2]": [lambda: {"kind": [s()]}, lambda: {"kind": {}}],
            "Point": [lambda: {"x": [s()], "y": None}, lambda: {"x": 1, "y": {}, "w": s()}],
            "list[Union[Point,bytes]]": [lambda: [{"x": s(), "y": s("y")}]],
        }
        good = {"Point": {"x": 1, "y": None}, "Frozen": {"x": "00000000-0000-0000-0000-000000000000"}, "Pair": {"first": 1, "second": "P1D"}, "Plain": {"u": "10.0.0.1", "v": None},
                "Union[TagA,TagB]": {"kind": "a", "value": 1}, "Union[TagInt,TagInt2]": {"kind": 1}, "list[Union[Point,bytes]]": {"x": 1, "y": None}}
        for tn, g in good.items():
            wrap = (lambda v: [v]) if tn.startswith("list") else (lambda v: v)
            extras = [lambda g=g, wrap=wrap: wrap({**g, "extra": s()}), lambda g=g, wrap=wrap: wrap({key(): s(), **g, "more": None, "extra": [s()]}), lambda g=g, wrap=wrap: wrap({**g, "extra": {key(): s()}})]
            partial = [lambda k=k, g=g, wrap=wrap: wrap({n: v for n, v in g.items() if n != k}) for k in g]
            deep.setdefault(tn, [])
            deep[tn] = deep[tn] + extras + partial
        jerr = self.jerr

        def accept(o):
            if o.exc is None or isinstance(o.exc, jerr):
                return None
            return f"{o.describe()}; only JsonKeyError, JsonTypeError or JsonValueError may leave the decoder"

        for tn, tp in types_.items():
            todo = list(shapes.items())
            if tn in per_type:
                todo.append(("object", per_type[tn]))
            todo += [(f"odd{i}", b) for i, b in enumerate(deep.get(tn, ()))]
            for sn, b in todo:
                for skip in ((False, True) if self.thorough else (False,)):
                    def thunk():
                        kw = {"options": self.A.call(self.options, skip_unassigned=True)} if skip else {}
                        return self.A.call(self.json_to_object, tp, b(), **kw)
                    self.oblige(f"json_to_object({tn}, {sn}{', skip' if skip else ''})", thunk, accept)
