from .interchange import *
from .schemaspec import Dict_, Doc, SchemaSpec, diff


class SchemaCheck(InterchangeCheck):
    def setup(self):
        super().setup()
        self.schema_fn = self.api("schema", "classdef_to_schema")
        self.register = self.api("schema", "register_schema")
        self.Generator = self.api("schema", "JsonSchemaGenerator")
        self.SchemaOptions = self.api("schema", "SchemaOptions")

    def against(self, name, tp, docs=None, registry=None, setup=None, options=None, expand=None, caller=None, via="classdef", transform=None):
        """The schema of tp against the reference; registry maps types to (identifier, schema, examples) and is
        registered in the trace before."""
        registry = registry or {}
        opts = options or {}

        def thunk():
            for t, (ident, explicit, examples) in registry.items():
                kw = {"name": ident}
                if explicit is not None:
                    kw["schema"] = explicit
                if examples is not None:
                    kw["examples"] = examples
                self.A.call(self.register, t, **kw)
            if setup:
                setup()
            o = self.A.call(self.SchemaOptions, **opts) if options is not None else None
            if via == "classdef":
                r = self.A.call(self.schema_fn, tp, *([o] if o is not None else []))
                r = dict(r)
                defs = r.pop("definitions", {})
                r.pop("$schema", None)
                return r, defs
            g = self.A.call(self.Generator, *([o] if o is not None else []))
            return self.A.call(self.A.I.getattr(g, "classdef_to_schema"), tp, *([expand] if expand is not None else []))

        def accept(o):
            if o.exc is not None:
                return f"no schema is generated: {o.describe()}"
            sp = SchemaSpec(self.A, self.spec, registry, docs, descriptions=opts.get("use_descriptions", True), examples=opts.get("use_examples", True),
                            path=opts.get("definitions_path", "#/definitions/"), transform=transform)
            s, defs = sp.full(tp, bool(expand))
            got, gdefs = o.value
            return diff(s, got) or diff(defs, gdefs, "definitions")

        return self.oblige(name, thunk, accept, concrete=lambda o, w: accept(o), caller=caller)


class C16(SchemaCheck):
    ID = "C16"
    RULE = ("Schema term of every type constructor over every kind of component (scalars, fixed-width and constrained Annotated types, enums, literals, containers, unions, classes), nested two levels, "
            "and of every kind of class (data class, frozen, named tuple, plain, inherited) with every kind of field, default, alias and documentation, must be structurally equal to the reference mapping.")
    MIN_DECIDED = 400

    def run(self):
        self.setup()
        T = typing
        import datetime
        import decimal
        import enum
        import ipaddress
        import uuid
        aux, core = self.A.mod("auxiliary"), self.A.mod("core")
        m = self.wmod("types", '''
class Color(Enum):
    RED = "r"
    GREEN = "g"

class Num(Enum):
    B = 2
    A = 1

class Ali(Enum):
    A = "a"
    B = "b"
    ALSO_A = "a"
    LAST = "l"

class Ali5(Enum):
    A = "a"
    B = "b"
    C = "c"
    D = "d"
    ALSO_A = "a"

class Flt(Enum):
    A = 0.5
    B = 1.5

class Bol(Enum):
    YES = True
    NO = False

class Many(Enum):
    "Many values."
    A = "a"
    B = "b.c"
    C = "c|d"
    D = "(x"
    E = "e"

class Mixed(Enum):
    A = "Upper"
    B = "upper"
    C = "MIXED case"
    D = "éÈ"
    E = "x"

class Four(Enum):
    A = "a"
    B = "b"
    C = "c"
    D = "d"

class IntEn(enum.IntEnum):
    ONE = 1
    TWO = 2

class StrEn(str, Enum):
    A = "a"

class Empty:
    pass

@dataclass
class EmptyDC:
    pass

@dataclass
class Small:
    a: int
    b: Optional[str] = None

class NT(NamedTuple):
    x: int
    y: Optional[str]
    z: List[int]

class Plain:
    p: int
    q: Optional[float]
    r: Dict[str, int]
''')
        simple = {"None": type(None), "bool": bool, "int": int, "float": float, "str": str, "bytes": bytes, "datetime": datetime.datetime, "date": datetime.date, "time": datetime.time,
                  "timedelta": datetime.timedelta, "Decimal": decimal.Decimal, "UUID": uuid.UUID, "IPv4": ipaddress.IPv4Address, "IPv6": ipaddress.IPv6Address, "Any": T.Any, "JsonObject": core.JsonObject, "JsonArray": core.JsonArray}
        fixed = {n: getattr(aux, n) for n in ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64")}
        ann = {"range": T.Annotated[int, aux.IntegerRange(23, 82)], "negative range": T.Annotated[int, aux.IntegerRange(-7, 0)], "precision": T.Annotated[decimal.Decimal, aux.Precision(9, 6)],
               "precision no fraction": T.Annotated[decimal.Decimal, aux.Precision(5)], "float precision": T.Annotated[float, aux.Precision(4, 1)], "precision all fraction": T.Annotated[decimal.Decimal, aux.Precision(3, 3)], "max": T.Annotated[str, aux.MaxLength(7)], "min": T.Annotated[str, aux.MinLength(2)],
               "both": T.Annotated[str, aux.MinLength(2), aux.MaxLength(9)], "note": T.Annotated[int, "note"], "int32 noted": T.Annotated[fixed["int32"], "note"], "noted range": T.Annotated[int, "note", aux.IntegerRange(1, 2)],
               "bytes max": T.Annotated[bytes, aux.MaxLength(4)], "noted date": T.Annotated[datetime.date, 1], "other range": T.Annotated[int, aux.Signed(True), aux.Storage(2), aux.IntegerRange(-5, 5)], "zero length": T.Annotated[str, aux.MinLength(0)]}
        enums = {k: getattr(m, k) for k in ("Color", "Num", "Flt", "Bol", "Many", "Mixed", "Four", "IntEn", "StrEn", "Ali", "Ali5")}
        lits = {"Literal one": T.Literal["a"], "Literal int": T.Literal[5], "Literal two": T.Literal["a", "b"], "Literal ints": T.Literal[2, 1], "Literal bool": T.Literal[True], "Literal empty": T.Literal[""], "Literal zero": T.Literal[0, 1, 2]}
        classes = {k: getattr(m, k) for k in ("Empty", "EmptyDC", "Small", "NT", "Plain")}
        docs = {m.Many: Doc("Many values.")}
        leaves = {**simple, **fixed, **ann, **enums, **lits, **classes}
        for n, t in leaves.items():
            self.against(n, t, docs)
        few = {k: leaves[k] for k in ("None", "int", "bytes", "datetime", "int32", "range", "Color", "Many", "Literal two", "Literal one", "Small", "NT", "Plain", "Any", "max", "float64")}
        wraps = {
            "List": lambda t: T.List[t], "list": lambda t: list[t], "Set": lambda t: T.Set[t], "set": lambda t: set[t], "Dict": lambda t: T.Dict[str, t], "dict": lambda t: dict[str, t], "dict by int": lambda t: T.Dict[int, t],
            "dict by enum": lambda t: T.Dict[m.Color, t], "dict by four": lambda t: dict[m.Four, t], "dict by many": lambda t: T.Dict[m.Many, t], "dict by mixed": lambda t: T.Dict[m.Mixed, t], "dict by number": lambda t: T.Dict[m.Num, t], "dict by aliased": lambda t: T.Dict[m.Ali, t], "dict by aliased four": lambda t: T.Dict[m.Ali5, t],
            "tuple1": lambda t: T.Tuple[t], "tuple2": lambda t: T.Tuple[t, str], "tuple3": lambda t: tuple[int, t, t], "Optional": lambda t: T.Optional[t], "Union": lambda t: T.Union[t, T.List[str], uuid.UUID],
            "None first": lambda t: T.Union[None, t], "Union with None": lambda t: T.Union[t, None, T.List[str]], "Annotated": lambda t: T.Annotated[t, "note"],
        }
        for wn, w in wraps.items():
            for n, t in (leaves if self.thorough or wn in ("List", "Optional", "Annotated") else few).items():
                tp = w(t)
                self.against(f"{wn} of {n}", tp, docs)
        two = {k: few[k] for k in ("int", "Color", "Small", "range", "Literal two")}
        for n1, w1 in wraps.items():
            for n2, w2 in wraps.items():
                for n, t in (two if self.thorough else {"int": int, "Color": m.Color}).items():
                    if n2 in ("Optional", "None first", "Union", "Union with None", "Annotated") and n1 in ("Union", "Union with None", "Optional", "None first", "Annotated"):
                        continue
                    self.against(f"{n1} of {n2} of {n}", w1(w2(t)), docs)
        for n, t in {"pipe": int | str, "pipe None": int | None, "pipe three": int | None | str, "pipe class": m.Small | m.NT, "pipe generic": list[int] | None, "str first": str | int}.items():
            self.against(n, t, docs)
            self.against("list of " + n, list[t], docs)
            self.against("annotated " + n, T.Annotated[t, 1], docs)
        self.fields(m, leaves, wraps, docs)
        self.defaults(m, docs)
        self.documented()
        self.options()

    def fields(self, m, leaves, wraps, docs):
        "Every kind of type as a field, in every kind of class."
        T = typing
        kinds = {"dataclass": "@dataclass\nclass C:\n    first: int\n    f: X\n    last: Optional[str]\n", "frozen": "@dataclass(frozen=True)\nclass C:\n    f: X\n", "named tuple": "class C(NamedTuple):\n    first: Optional[int]\n    f: X\n",
                 "plain": "class C:\n    f: X\n    last: int\n", "inherited": "@dataclass\nclass B:\n    f: X\n@dataclass\nclass C(B):\n    g: Optional[X]\n", "inherited plain": "class B:\n    f: X\nclass C(B):\n    g: X\n",
                 "alias": "@dataclass\nclass C:\n    f: Annotated[X, Alias('other')]\n    g: Optional[Annotated[X, Alias('more')]]\n    h: Annotated[Optional[X], Alias('third')]\n", "keyword": "@dataclass\nclass C:\n    in_: X\n    is_: Optional[X]\n    own_: X\n",
                 "string": "@dataclass\nclass C:\n    f: 'X'\n    g: 'Optional[X]'\n", "not in init": "@dataclass\nclass C:\n    f: X = field(init=False)\n    g: Optional[X] = field(default=None, init=False, repr=False)\n", "slots": "@dataclass(slots=True)\nclass C:\n    g: Optional[X]\n    f: X\n",
                 "not fields": "@dataclass\nclass C:\n    shared: ClassVar[int] = 3\n    f: X = field(kw_only=True, metadata={'a': 1})\n    param: InitVar[int] = 4\n    @property\n    def computed(self) -> int:\n        return 1\n",
                 "redefined": "@dataclass\nclass B:\n    f: int\n    e: Optional[str]\n@dataclass\nclass C(B):\n    f: Optional[X]\n    e: X\n",
                 "optional": "@dataclass\nclass C:\n    f: Optional[X]\n    g: Union[None, X]\n    h: Annotated[Optional[X], 'note']\n    i: List[Optional[X]]\n"}
        n = 0
        types_ = {k: v for k, v in leaves.items()}
        for wn in ("List", "dict", "Union", "tuple2", "Union with None"):
            for k in ("int", "Color", "Small"):
                types_[f"{wn} of {k}"] = wraps[wn](leaves[k])
        for kn, src in kinds.items():
            for tn, t in types_.items():
                if not self.thorough and kn not in ("dataclass", "optional") and tn not in ("int", "Color", "range", "int32", "List of int", "Union of Color", "Small", "Literal two", "Union with None of int", "NT"):
                    continue
                n += 1
                w = self.wmod(f"f{n}", src, X=t)
                self.against(f"{kn} field of {tn}", w.C, docs)

    def defaults(self, m, docs):
        vals = {"int": ("int", "5"), "zero": ("int", "0"), "negative": ("int", "-1"), "bool": ("bool", "False"), "true": ("bool", "True"), "str": ("str", "'text'"), "empty str": ("str", "''"), "float": ("float", "0.5"), "enum": ("Color", "Color.GREEN"),
                "number enum": ("Num", "Num.A"), "date": ("datetime.date", "datetime.date(2020, 2, 29)"), "list": ("List[int]", "field(default_factory=list)"), "none": ("Optional[int]", "None"),
                "optional int": ("Optional[int]", "3"), "field": ("int", "field(default=9)"), "not required, false": ("Optional[bool]", "False"), "bytes": ("bytes", "b'a'"), "tuple": ("Tuple[int, int]", "(1, 2)")}
        n = 0
        for kn, src in {"dataclass": "@dataclass\nclass C:\n    a: int\n    f: {t} = {d}\n", "frozen": "@dataclass(frozen=True)\nclass C:\n    f: {t} = {d}\n", "inherited": "@dataclass\nclass B:\n    f: {t} = {d}\n@dataclass\nclass C(B):\n    g: {t} = {d}\n",
                        "plain": "class C:\n    f: {t} = {d}\n    g: {t}\n", "alias": "@dataclass\nclass C:\n    f: Annotated[{t}, Alias('other')] = {d}\n", "keyword": "@dataclass\nclass C:\n    in_: {t} = {d}\n", "overridden": "@dataclass\nclass B:\n    f: {t}\n@dataclass\nclass C(B):\n    f: {t} = {d}\n"}.items():
            for dn, (t, d) in vals.items():
                if kn == "plain" and "field(" in d:
                    continue
                n += 1
                w = self.wmod(f"d{n}", src.format(t=t, d=d), **{k: getattr(m, k) for k in ("Color", "Num", "Small")})
                self.against(f"{kn} default {dn}", w.C, docs)

    def documented(self):
        w = self.wmod("docs", '''
@dataclass
class Short:
    """Short text."""
    a: int

@dataclass
class Long:
    """Short text.

    Longer text that
    goes on.

    :param a: The a parameter.
    :param b: The b parameter,
        which goes on.
    """
    a: int
    b: Optional[str] = None
    c: Optional[Short] = None

@dataclass
class WithClass:
    """Holder.

    :param s: Described.
    :param r: Ignored title.
    """
    s: Short
    t: Short
    r: List[Short]
    o: Optional[Short]

@dataclass
class Child(Long):
    """
    Child class.

    :param d: Of the child.
    """
    d: int = 0

@dataclass
class NoDoc:
    a: int

@dataclass
class NoDocChild(Long):
    e: int = 0

class PlainDoc:
    """
    Plain class.

    :param p: Plain property.
    """
    p: int

class Hiding(PlainDoc):
    """
    Hiding class.

    :param p: Redefined text.
    """
    p: int

class NTDoc(NamedTuple):
    """
    Named tuple.

    :param p: Tuple property.
    """
    p: int

class EnDoc(Enum):
    """
    Enum title.

    Enum description.
    """
    A = "a"

@dataclass
class Holder:
    """
    Enum holder.

    :param e: Overrides.
    """
    e: EnDoc
    f: EnDoc
    in_: int = 0

@dataclass
class KeywordDoc:
    """
    Keyword.

    :param in_: The keyword property.
    :param z: The aliased property.
    """
    in_: int
    z: Annotated[int, Alias("zed")]
''')
        ab = {"a": "The a parameter.", "b": "The b parameter, which goes on."}
        docs = {w.Short: Doc("Short text."), w.Long: Doc("Short text.", "Longer text that\ngoes on.", ab), w.WithClass: Doc("Holder.", None, {"s": "Described.", "r": "Ignored title."}), w.Child: Doc("Child class.", None, {"d": "Of the child."}),
                w.Hiding: Doc("Hiding class.", None, {"p": "Redefined text."}), w.PlainDoc: Doc("Plain class.", None, {"p": "Plain property."}), w.NTDoc: Doc("Named tuple.", None, {"p": "Tuple property."}), w.EnDoc: Doc("Enum title.", "Enum description."),
                w.Holder: Doc("Enum holder.", None, {"e": "Overrides."}), w.KeywordDoc: Doc("Keyword.", None, {"in_": "The keyword property.", "z": "The aliased property."})}
        for k, c in vars(w).items():
            if isinstance(c, type) and c.__module__ == w.__name__ and k[0].isupper():
                self.against(f"documented {k}", c, docs)
                self.against(f"list of documented {k}", typing.List[c], docs)
                self.against(f"optional documented {k}", typing.Optional[c], docs)
                if k in ("Short", "EnDoc", "NoDoc"):
                    self.against(f"documented {k} without descriptions", c, docs, options={"use_descriptions": False})
        for k in ("Short", "EnDoc"):
            c = getattr(w, k)
            h = self.wmod(f"nodesc_{k}", "@dataclass\nclass C:\n    f: X\n    g: Optional[X]\n    h: List[X]\n", X=c)
            self.against(f"fields of documented {k} without descriptions", h.C, docs, options={"use_descriptions": False})
        for k in ("Long", "Child", "WithClass", "NoDocChild", "Hiding", "PlainDoc", "NTDoc", "Holder", "KeywordDoc"):
            self.against(f"documented {k} with property_description_fun", getattr(w, k), docs, options={"property_description_fun": hook_text}, transform=hook_text)

    def options(self):
        w = self.wmod("opts", "@dataclass\nclass X:\n    a: int\n@dataclass\nclass C:\n    f: X\n    g: List[X]\n")
        reg = {w.X: ("X", None, None)}
        self.against("definitions_path", w.C, {}, reg, options={"definitions_path": "#/components/schemas/"})
        self.against("definitions_path by generator", w.C, {}, reg, options={"definitions_path": "#/d/"}, via="generator")
        self.against("generator without options", w.C, {}, reg, via="generator")
        self.against("force_expand", w.X, {}, reg, via="generator", expand=True)
        self.against("no force_expand", w.X, {}, reg, via="generator", expand=False)


def hook_text(cls, name, text):
    return f"{cls.__name__}/{name}/{text}"


from absint.driver import hook  # noqa: E402

hook(hook_text)
