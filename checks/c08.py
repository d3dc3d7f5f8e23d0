from .interchange import *


class C08(InterchangeCheck):
    ID = "C08"
    RULE = ("Enum and Literal decoding over abstract data of every kind: each trace partition returns the declared member/value whose value the trace's equality facts establish, or ends in "
            "JsonTypeError/JsonValueError (JsonTypeError for literals); literals of mixed types are rejected with TypeError at construction.")
    MIN_DECIDED = 60

    def run(self):
        self.setup()
        T = typing
        m = self.wmod("types", '''
class Color(Enum):
    RED = "r"
    GREEN = "GREEN"
    BLUE = "RED"

class Number(Enum):
    ONE = 1
    TWO = 2
    ZERO = 0

class Mixed(Enum):
    ONE = 1
    TWO = "2"
    HALF = 0.5

class Aliased(Enum):
    A = "a"
    ALSO_A = "a"
    B = "b"

class Text(str, Enum):
    X = "x"
    Y = "X"

class Code(enum.IntEnum):
    OK = 200
    BAD = 400

class Flags(Enum):
    YES = True
    NO = False

class Floats(Enum):
    HALF = 0.5

class Empty(Enum):
    NONE = ""

class Alike(str, Enum):
    A = "a"
    B = "b"
    def __str__(self):
        return "same"
    def __repr__(self):
        return "same"

class Folded(Enum):
    LOW = "a"
    UP = "A"
    PAD = "a "

@dataclass
class Holder:
    c: Color
    o: Optional[Number] = None
    l: Literal["p", "q"] = "q"
''')
        types_ = {n: getattr(m, n) for n in ("Color", "Number", "Mixed", "Aliased", "Text", "Code", "Flags", "Floats", "Empty", "Alike", "Folded")}
        types_.update({
            "Annotated[Color,1]": T.Annotated[m.Color, 1],
            "Literal['a']": T.Literal["a"], "Literal['a','b','']": T.Literal["a", "b", ""], "Literal[1]": T.Literal[1], "Literal[0,1,2]": T.Literal[0, 1, 2], "Literal[True]": T.Literal[True],
            "Literal[False]": T.Literal[False], "Literal[True,False]": T.Literal[True, False], "Annotated[Literal['a'],1]": T.Annotated[T.Literal["a"], 1], "Literal[None]": T.Literal[None],
            "Literal[Alike.A]": T.Literal[m.Alike.A], "Literal[Color.RED]": T.Literal[m.Color.RED], "Literal[Number.ONE,Number.ZERO]": T.Literal[m.Number.ONE, m.Number.ZERO],
            "Literal[Alike.A,Alike.B]": T.Literal[m.Alike.A, m.Alike.B], "Literal[Folded.UP]": T.Literal[m.Folded.UP], "Literal['A','a ']": T.Literal["A", "a "], "Literal['1']": T.Literal["1"],
        })
        for n, tp in types_.items():
            for k in (NoneType, bool, int, float, str):
                self.decode(f"{n} <- {k.__name__}", tp, inp("data", k))
            self.decode(f"{n} <- array", tp, lambda: [inp("item", *SCALAR_JSON)])
            self.decode(f"{n} <- object", tp, lambda: {"k": inp("item", *SCALAR_JSON)})
            self.decode(f"list[{n}]", T.List[tp], lambda: [inp("x0", str), inp("x1", int)])
        self.decode("Holder", m.Holder, lambda: {"c": inp("c", str), "o": inp("o", int), "l": inp("l", str)})
        self.decode("dict[Color,int]", T.Dict[m.Color, int], lambda: {inp("key", str): 1})
        for lits in ((1, "a"), ("a", 1), (True, 1), (1, True), ("a", None), ("a", "b", 2), (0, False)):
            tp = T.Literal[lits]
            n = f"Literal{list(lits)!r}"

            def accept(o):
                return None if type(o.exc) is TypeError else f"{o.describe()}; a Literal of several types must be rejected with TypeError when the decoder is built"

            self.oblige(f"create_deserializer({n})", lambda: self.A.call(self.create_deserializer, tp), accept)
            self.oblige(f"create_deserializer(list[{n}])", lambda: self.A.call(self.create_deserializer, T.List[tp]), accept)
