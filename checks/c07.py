from .interchange import *


class C07(InterchangeCheck):
    ID = "C07"
    RULE = ("Unions of classes with a common literal-typed property: for data whose tag is absent, null, each declared literal, an arbitrary other value of every kind or a container, "
            "each trace partition must end exactly like decoding with the member the tag selects (result or error), else JsonTypeError; duplicate tag values must be rejected at construction.")
    MIN_DECIDED = 40

    def run(self):
        self.setup()
        T = typing
        A = self.elems.make("ElemA", ("JsonKeyError", "JsonTypeError", "JsonValueError"))
        B = self.elems.make("ElemB", ("JsonKeyError", "JsonTypeError", "JsonValueError"))
        m = self.wmod("types", '''
@dataclass
class TA:
    kind: Literal["a"]
    value: A

@dataclass
class TB:
    kind: Literal["b", "bb"]
    value: B
    more: Optional[A] = None

@dataclass
class TC:
    value: A
    kind: Literal["c"]

@dataclass
class I1:
    kind: Literal[1]

@dataclass
class I2:
    kind: Literal[2, 0]

@dataclass
class X1:
    kind: Literal["1", "True"]
    value: A

@dataclass
class X2:
    kind: Literal[True]
    value: A

@dataclass
class X3:
    kind: Literal["A", "aa", ""]
    value: B

@dataclass
class AliasA:
    type_: Annotated[Literal["a"], Alias("$type")]
    value: A

@dataclass
class AliasB:
    type_: Annotated[Literal["b"], Alias("$type")]
    value: B

@dataclass
class KwA:
    class_: Literal["a"]

@dataclass
class KwB:
    class_: Literal["b"]
    value: A

@dataclass
class DiffA:
    kind_a: Annotated[Literal["a"], Alias("k")]
    value: A

@dataclass
class DiffB:
    value: B
    other: Annotated[Literal["b"], Alias("k")]

@dataclass
class DflA:
    kind: Literal["a"] = "a"

@dataclass
class DflB:
    kind: Literal["b"] = "b"
    value: Optional[A] = None

class NTA(NamedTuple):
    kind: Literal["a"]
    value: A

class NTB(NamedTuple):
    kind: Literal["b"]

class PA:
    kind: Literal["a"]

class PB:
    kind: Literal["b"]
    value: A

@dataclass
class OptA:
    kind: Literal["a"]
    value: A
    second: Literal["s1"]

@dataclass
class OptB:
    kind: Literal["b"]
    value: B
    second: Literal["s2"]

@dataclass
class Dup2A:
    kind: Literal["a"]
    second: Literal["x", "y"]

@dataclass
class Dup2B:
    kind: Literal["a"]
    second: Literal["x"]

@dataclass
class Dup2C:
    kind: Literal["c"]
    second: Literal["y", "w"]

@dataclass
class DupA:
    kind: Literal["a", "x"]

@dataclass
class DupB:
    kind: Literal["x"]

@dataclass
class Holder:
    one: Union[TA, TB]
    many: List[Union[TA, TB, TC]]
    opt: Optional[Union[TA, TB]] = None
''', A=A, B=B)
        y = lambda i=0: inp(f"y{i}", bool, int, float, str)
        unions = {
            "Union[TA,TB]": (T.Union[m.TA, m.TB], "kind", ("a", "b", "bb")), "TA|TB": (m.TA | m.TB, "kind", ("a", "b", "bb")), "Union[TB,TA]": (T.Union[m.TB, m.TA], "kind", ("a", "b", "bb")),
            "Union[TA,TB,TC]": (T.Union[m.TA, m.TB, m.TC], "kind", ("a", "b", "bb", "c")), "Union[I1,I2]": (T.Union[m.I1, m.I2], "kind", (0, 1, 2)),
            "Union[AliasA,AliasB]": (T.Union[m.AliasA, m.AliasB], "$type", ("a", "b")), "Union[KwA,KwB]": (T.Union[m.KwA, m.KwB], "class", ("a", "b")),
            "Union[DflA,DflB]": (T.Union[m.DflA, m.DflB], "kind", ("a", "b")), "Union[NTA,NTB]": (T.Union[m.NTA, m.NTB], "kind", ("a", "b")), "Union[PA,PB]": (T.Union[m.PA, m.PB], "kind", ("a", "b")),
            "Union[DiffA,DiffB]": (T.Union[m.DiffA, m.DiffB], "k", ("a", "b")),
            "Union[I1,X1]": (T.Union[m.I1, m.X1], "kind", (1, "1", "True")), "X1|I2|I1": (m.X1 | m.I2 | m.I1, "kind", ("1", 1, 2)), "Union[X1,X2]": (T.Union[m.X1, m.X2], "kind", ("True", True)),
            "Union[X3,TA]": (T.Union[m.X3, m.TA], "kind", ("A", "a", "aa", "")),
            "Annotated[Union[TA,TB],1]": (T.Annotated[T.Union[m.TA, m.TB], 1], "kind", ("a", "b", "bb")),
        }
        self.unions, self.y = unions, y
        for n, (tp, prop, lits) in unions.items():
            self.decode(f"{n} <- scalar", tp, inp("data", *SCALAR_JSON))
            self.decode(f"{n} <- array", tp, lambda: [y()])
            self.decode(f"{n} <- no tag", tp, lambda: {"value": y()})
            self.decode(f"{n} <- empty", tp, lambda: {})
            self.decode(f"{n} <- null tag", tp, lambda: {prop: None, "value": y()})
            if len({type(lit) for lit in lits}) == 1:
                self.decode(f"{n} <- any tag, value", tp, lambda: {prop: inp("tag", bool, int, float, str), "value": y()})
                self.decode(f"{n} <- any tag only", tp, lambda: {prop: inp("tag", bool, int, float, str)})
            for lit in lits:
                self.decode(f"{n} <- tag {lit!r}", tp, lambda: {prop: lit, "value": y()})
                self.decode(f"{n} <- tag {lit!r} last", tp, lambda: {"value": y(), prop: lit})
                self.decode(f"{n} <- tag {lit!r} without value", tp, lambda: {prop: lit})
                self.decode(f"{n} <- tag {lit!r}, extra property", tp, lambda: {prop: lit, "value": y(), "zzz": 1})
                self.decode(f"{n} <- tag {lit!r}, extra property, skipping unassigned", tp, lambda: {prop: lit, "value": y(), "zzz": 1}, skip=True)
            for tag in (0, 1, 2, True, False, 1.0, "0", "1", "A", "a ", "aa", "true", "None", ""):
                if not any(tag == lit and type(tag) is type(lit) for lit in lits):
                    self.decode(f"{n} <- tag {tag!r} of no member", tp, lambda: {prop: tag, "value": y()})
            self.decode(f"{n} <- array tag", tp, lambda: {prop: ["a"], "value": y()})
            self.decode(f"{n} <- object tag", tp, lambda: {prop: {"a": 1}, "value": y()})
            self.decode(f"list[{n}]", T.List[tp], lambda: [{prop: lits[0], "value": y()}, {prop: lits[-1], "value": y(1)}])
        for k in ("a", "b", "c"):
            for s in ("s1", "s2"):
                if (k, s) in (("a", "s1"), ("b", "s2")):
                    self.decode(f"two tags {k} {s}", T.Union[m.OptA, m.OptB], lambda: {"kind": k, "value": y(), "second": s})
        self.decode("Holder", m.Holder, lambda: {"one": {"kind": "b", "value": y()}, "many": [{"kind": "c", "value": y(1)}, {"kind": "a", "value": y(2)}], "opt": {"kind": "bb", "value": y(3)}})
        self.decode("Holder unknown tag in list", m.Holder, lambda: {"one": {"kind": "b", "value": y()}, "many": [{"kind": "c", "value": y(1)}, {"kind": "zz", "value": y(2)}]})
        # duplicate tag values
        JT = self.A.mod("exception").JsonTypeError
        for n, tp in {"Union[DupA,DupB]": T.Union[m.DupA, m.DupB], "DupB|DupA": m.DupB | m.DupA, "Union[TA,PA]": T.Union[m.TA, m.PA],
                      "two tags, both repeated": T.Union[m.Dup2A, m.Dup2B], "two tags, one repeated": T.Union[m.Dup2A, m.Dup2C], "three members": T.Union[m.DupA, m.TA, m.DupB]}.items():
            for entry in ("create_deserializer", "list field"):
                t = tp if entry == "create_deserializer" else T.List[tp]

                def accept(o):
                    return None if o.exc is not None and isinstance(o.exc, JT) else f"{o.describe()}; a duplicate tag value must be rejected with JsonTypeError when the decoder is built"

                self.oblige(f"{entry}({n}) duplicate tag", lambda: self.A.call(self.create_deserializer, t), accept)
