import dataclasses
import enum
import sys
import types

from .framework import *
from .interchange import *

SRC = '''
class Custom:
    count = 0
    def __new__(cls, *a, **k):
        raise RuntimeError("constructor must not run")
    def __init__(self, *a):
        raise RuntimeError("initializer must not run")

class Trouble(Exception):
    def __init__(self, *a):
        raise RuntimeError("initializer must not run")

class Gone(FileNotFoundError):
    def __init__(self, *a):
        raise RuntimeError("initializer must not run")

class Demanding(Trouble):
    def __init__(self, one, two):
        self.one = one

@dataclass
class Data:
    a: int
    b: str = "x"

@dataclass(frozen=True)
class Frozen:
    a: int

class Base(Enum):
    A = "a"
    B = "b"

class Numbers(enum.IntEnum):
    ONE = 1
    TWO = 2

class Mixed(Enum):
    "Mixed values."
    A = "a"
    N = 1
    T = (1, 2)
    M = 2
    B = "b"
    F = 1.5
    Y = True

class Alias(Enum):
    A = "a"
    SAME = "a"
    N = 3

class Empty(Enum):
    pass

@dataclass
class Fields:
    plain: int
    ref: "Base"
    opt: Optional["Data"]
    lst: List["Base"] = field(default_factory=list)
    word: str = "w"
    nothing: Optional[int] = None
    zero: int = 0
    flag: bool = False
    empty: str = ""
    hidden: int = field(default=7, init=False, repr=False)
    ann: Annotated[int, "note"] = 3

@dataclass
class More(Fields):
    word: str = "v"
    own: Optional["Base"] = None

@dataclass
class Alike:
    a_: int
    a: str
    a__: bytes
    _a: "Base"
    A: Optional[int] = None
    _abc_impl: float = 0.5
    class_: bool = False
    ab: List["Base"] = field(default_factory=list)

class AlikePlain:
    x_: "Base"
    x: Optional[int]
    _x: str
    X: bytes
    _abc_impl: float
    xx: int

class Plain:
    x: "Base"
    y: Optional[int]
'''


class C33(InterchangeCheck):
    ID = "C33"
    RULE = ("The creating and listing helpers of inspection.py, interpreted for classes with constructors that must not run, enumerations of every mix of value types and collisions, modules with declared, imported, re-exported and aliased members, "
            "and data classes with inherited, redefined, defaulted and postponed members; each result is compared member by member with the declaration, and the module table and registry before and after a refused call.")
    MIN_DECIDED = 130

    def run(self):
        self.setup()
        self.w = self.wmod("w", SRC)
        self.modules_()
        self.data_types()
        self.objects()
        self.enums()
        self.listings()
        self.fields()

    def expect(self, name, thunk, caller=None):
        "thunk gives None or a complaint"
        def acc(o):
            return o.describe() if o.exc is not None else o.value

        self.oblige(name, thunk, acc, concrete=lambda o, w: acc(o), caller=caller)

    def raises(self, name, exc, thunk, after=lambda: None):
        def run():
            try:
                r = thunk()
            except exc:
                return after()
            return f"{exc.__name__} is required, got {S.show(r)[:200]}"

        self.expect(name, run)

    # ---------------------------------------------------------------- modules
    def modules_(self):
        f, call = self.api("inspection", "create_module"), self.A.call
        for n in ("absint_w_made", "absint_w_made.sub.deep", "absint_w_made2", "absint_w_é"):
            def thunk(n=n):
                before = dict(sys.modules)
                try:
                    m = call(f, n)
                    if type(m) is not types.ModuleType or m.__name__ != n:
                        return f"a module named {n} is required, got {m!r}"
                    if sys.modules.get(n) is not m:
                        return f"the module must be registered as {n}"
                    new = {k for k in sys.modules if k not in before}
                    if new != {n} or any(sys.modules[k] is not v for k, v in before.items()):
                        return f"only {n} may be registered, got {sorted(new)}"
                    extra = {k for k in vars(m) if not (k.startswith("__") and k.endswith("__"))}
                    if extra:
                        return f"the module must be empty, got {extra}"
                    try:
                        call(f, n)
                    except KeyError:
                        return None if sys.modules.get(n) is m else "a refused call must not replace the module"
                    return "creating it again must raise KeyError"
                finally:
                    for k in list(sys.modules):
                        if k not in before:
                            del sys.modules[k]

            self.expect(f"create_module {n}", thunk)
        for n in ("json", "typing", self.w.__name__):
            def after(n=n, m=sys.modules[n], d=dict(vars(sys.modules[n]))):
                if sys.modules.get(n) is not m or dict(vars(m)) != d:
                    return "a refused call must not change the existing module"

            self.raises(f"create_module of existing {n}", KeyError, lambda n=n: call(f, n), after)

    # ------------------------------------------------------------- data types
    def data_types(self):
        f, call, w = self.api("inspection", "create_data_type"), self.A.call, self.w
        T = typing
        cases = {
            "none": [], "one": [("a", int)], "two": [("b", str), ("a", int)], "three": [("z", T.List[int]), ("a", T.Optional[w.Data]), ("m", w.Base)], "twice the same type": [("x", int), ("y", int)],
            "annotated": [("a", T.Annotated[int, "n"]), ("b", T.Dict[str, w.Data])], "keyword": [("from_", str)], "union": [("u", T.Union[int, str])], "private": [("_p", int)],
        }
        for cn, fs in cases.items():
            for n in ("Made", "X"):
                def thunk(fs=fs, n=n):
                    given = list(fs)
                    c = call(f, n, given)
                    if not isinstance(c, type) or not dataclasses.is_dataclass(c):
                        return f"a data class is required, got {S.show(c)}"
                    if c.__name__ != n:
                        return f"the class must be named {n}, not {c.__name__}"
                    got = [(x.name, x.type) for x in dataclasses.fields(c)]
                    if got != fs:
                        return f"fields {fs} are required, got {got}"
                    if given != fs:
                        return "the list of fields given must not change"
                    if [x.name for x in dataclasses.fields(c) if x.default is not dataclasses.MISSING or x.default_factory is not dataclasses.MISSING]:
                        return "fields must have no default"
                    if tuple(c.__dict__.get("__slots__", "?")) != tuple(x for x, _ in fs) or "__dict__" in dir(c):
                        return f"slots for exactly the fields are required, got {c.__dict__.get('__slots__')}"

                self.expect(f"create_data_type {n} with {cn}", thunk)

    # ---------------------------------------------------------------- objects
    def objects(self):
        f, call, w = self.api("inspection", "create_object"), self.A.call, self.w
        self.expect("create_object of Custom", lambda: None if type(call(f, w.Custom)) is w.Custom else "an instance is required")
        for n, c in {"Data": w.Data, "Frozen": w.Frozen, "More": w.More, "Plain": w.Plain, "Trouble": w.Trouble, "Exception": Exception, "ValueError": ValueError, "KeyError": KeyError, "OSError": OSError, "FileNotFoundError": FileNotFoundError, "Gone": w.Gone, "UnicodeDecodeError": UnicodeDecodeError, "StopIteration": StopIteration, "SyntaxError": SyntaxError, "Demanding": w.Demanding}.items():
            def thunk(c=c):
                a, b = call(f, c), call(f, c)
                if type(a) is not c or type(b) is not c:
                    return f"an instance of {c.__name__} is required, got {a!r}"
                if a is b:
                    return "each call must make a new object"
                if getattr(a, "__dict__", None):
                    return f"no attributes may be set, got {vars(a)}"

            self.expect(f"create_object of {n}", thunk)

    # ------------------------------------------------------------------ enums
    def enums(self):
        f, call, w = self.api("inspection", "enum_value_types"), self.A.call, self.w
        for n in ("Base", "Numbers", "Mixed", "Alias", "Empty"):
            e = getattr(w, n)
            want = []
            for m in e:
                if type(m.value) not in want:
                    want.append(type(m.value))

            def thunk(e=e, want=want):
                r = call(f, e)
                return None if type(r) is list and r == want else f"{want} is required, got {S.show(r)}"

            self.expect(f"enum_value_types of {n}", thunk)
        ext = self.api("inspection", "extend_enum")
        exts = {
            "more": (w.Base, '"More letters."\n    C = "c"\n    D = "d"'), "no documentation": (w.Base, 'Z = "z"\n    C = "c"'), "numbers": (w.Numbers, "THREE = 3"), "mixed": (w.Mixed, 'Q = "q"\n    R = 17'), "empty source": (w.Empty, "A = 1\n    B = 2"),
            "other kind": (w.Base, "N = 1\n    S = (2, 3)"), "nothing added": (w.Base, "pass"), "value of other case": (w.Base, 'C = "A"'),
        }
        for cn, (src, body) in exts.items():
            for mn in ("one", "two"):
                m = self.wmod(f"enum_{mn}_{cn.replace(' ', '_')}", f"class Big(Enum):\n    {body}\n", Base=w.Base)
                small = m.Big
                want = {**{x.name: x.value for x in src}, **{x.name: x.value for x in small}}

                def thunk(src=src, small=small, want=want, m=m):
                    others = {k: v for k, v in vars(m).items() if k != "Big"}
                    own = {x.name: x.value for x in src}, {x.name: x.value for x in small}
                    doc, src_doc = small.__doc__, src.__doc__
                    m.Big = small
                    try:
                        r = call(call(ext, src), small)
                        if not isinstance(r, type) or not issubclass(r, enum.Enum):
                            return f"an enumeration is required, got {S.show(r)}"
                        got = {x.name: x.value for x in r}
                        if got != want or list(got) != list(want) or any(type(got[k]) is not type(want[k]) for k in want):
                            return f"members {want} are required, got {got}"
                        if r.__name__ != "Big" or r.__module__ != m.__name__ or r.__doc__ != doc:
                            return f"the name, module and documentation of the extending class are required, got {r.__name__} {r.__module__} {r.__doc__!r}"
                        if vars(m).get("Big") is not r:
                            return "the new enumeration must take the place of the extending class in its module"
                        if {k: v for k, v in vars(m).items() if k != "Big"} != others:
                            return "nothing else in the module may change"
                        if own != ({x.name: x.value for x in src}, {x.name: x.value for x in small}) or src.__doc__ != src_doc or src.__module__ != w.__name__:
                            return "the enumerations given must not change"
                    finally:
                        m.Big = small

                self.expect(f"extend_enum with {cn} in module {mn}", thunk)
        for cn, (src, body) in {"source value": (w.Base, 'C = "a"'), "last source value": (w.Base, 'C = "b"'), "number": (w.Numbers, "X = 2"), "own values": (w.Base, 'C = "c"\n    D = "c2"\n    E = "b"')}.items():
            m = self.wmod(f"enum_dup_{cn.replace(' ', '_')}", f"class Big(Enum):\n    {body}\n", Base=w.Base)

            def thunk(src=src, m=m, small=m.Big):
                m.Big = small
                try:
                    return call(call(ext, src), small)
                finally:
                    m.Big = small

            self.raises(f"extend_enum with a duplicate {cn}", ValueError, thunk)

    # --------------------------------------------------------------- listings
    def listings(self):
        call = self.A.call
        classes, functions = self.api("inspection", "get_module_classes"), self.api("inspection", "get_module_functions")
        hook_mod = self.wmod("other", "class Imported:\n    pass\n\nclass Enumerated(Enum):\n    A = 1\n\nclass Sub(Imported):\n    pass\n\ndef used():\n    pass\n")
        bodies = {
            "empty": ("", [], []),
            "declared": ("class B:\n    pass\n\nclass A:\n    pass\n\ndef g():\n    pass\n\ndef f(x):\n    return x\n", ["A", "B"], ["f", "g"]),
            "imports": ("from absint_w_C33_other import Imported, Enumerated, used\nimport json\n\nclass Own(Imported):\n    pass\n\ndef mine():\n    return used\n", ["Own"], ["mine"]),
            "renamed imports": ("from absint_w_C33_other import Imported as Own, used as mine\n", [], []),
            "kinds": ("import abc\n\n@dataclass\nclass D:\n    a: int\n\nclass E(Enum):\n    A = 1\n\nclass N(NamedTuple):\n    a: int\n\nclass X(Exception):\n    pass\n\nclass P(abc.ABC):\n    pass\n\nclass _Private:\n    pass\n", ["D", "E", "N", "P", "X", "_Private"], []),
            "values": ("class C:\n    class Inner:\n        pass\n    def method(self):\n        pass\n\nvalue = C()\nalias = List[int]\nnumber = 3\nbuiltin = len\nlam = C.method\ntext = 'class'\nanonymous = lambda: 0\n\nasync def co():\n    pass\n\ndef gen():\n    yield 1\n\ndef _hidden():\n    pass\n", ["C"], ["_hidden", "anonymous", "co", "gen", "lam"]),
            "prefix": ("class C:\n    pass\n\nC.__module__ = __name__ + '.sub'\n\nclass D:\n    pass\n\ndef f():\n    pass\n\nf.__module__ = 'absint_w'\n", ["D"], []),
        }
        for n, (src, cs, fs) in bodies.items():
            m = module(f"C33_list_{n.replace(' ', '_')}")
            pre = set(vars(m))
            define(m, "from dataclasses import dataclass, field\nfrom enum import Enum\nfrom typing import Dict, List, NamedTuple, Optional\n" + src)
            for what, f, names in (("get_module_classes", classes, cs), ("get_module_functions", functions, fs)):
                def thunk(m=m, f=f, names=names):
                    before = dict(vars(m))
                    r = list(call(f, m))
                    want = [getattr(m, k) for k in names]
                    if len(r) != len(want) or any(a is not b for a, b in zip(r, want)):
                        return f"{names} is required, got {r}"
                    if dict(vars(m)) != before:
                        return "the module must not change"

                self.expect(f"{what} of {n}", thunk)

    # ----------------------------------------------------------------- fields
    def fields(self):
        call, w, I = self.A.call, self.w, self.A.I
        fields, by_name, props, prop = (self.api("inspection", k) for k in ("dataclass_fields", "dataclass_field_by_name", "get_class_properties", "get_class_property"))
        MISSING = dataclasses.MISSING
        for cn in ("Data", "Frozen", "Fields", "More", "Alike"):
            c = getattr(w, cn)
            want = [(x.name, h, x.default) for x in dataclasses.fields(c) for h in [typing.get_type_hints(c, include_extras=True)[x.name]]]
            show = lambda x: (x.name, x.type, x.default)

            def all_(c=c, want=want):
                got = [show(x) for x in I.iterate(call(fields, c))]
                return None if same(got, want) else f"{want} is required, got {got}"

            self.expect(f"dataclass_fields of {cn}", all_)
            for x in want:
                def one(c=c, x=x):
                    got = show(call(by_name, c, x[0]))
                    return None if same([got], [x]) else f"{x} is required, got {got}"

                self.expect(f"dataclass_field_by_name {x[0]} of {cn}", one)
            for bad in ("missing", "", "A", "plai", "plainx", "__init__", "plain_", "_plain", "Plain", " plain", "a_", "name__", "__dataclass_fields__"):
                if bad in [x[0] for x in want]:
                    continue
                self.raises(f"dataclass_field_by_name {bad!r} of {cn}", LookupError, lambda c=c, bad=bad: call(by_name, c, bad))
                self.expect(f"get_class_property {bad!r} of {cn}", lambda c=c, bad=bad: None if call(prop, c, bad) is None else "None is required")
        for cn in ("Data", "More", "Plain", "Alike", "AlikePlain"):
            c = getattr(w, cn)
            hints = typing.get_type_hints(c, include_extras=True)
            self.expect(f"get_class_properties of {cn}", lambda c=c, hints=hints: None if [tuple(p) for p in I.iterate(call(props, c))] == list(hints.items()) else f"{hints} is required")
            for k, t in hints.items():
                self.expect(f"get_class_property {k} of {cn}", lambda c=c, k=k, t=t: None if call(prop, c, k) == t else f"{t} is required")


def same(a, b):
    return len(a) == len(b) and all(x[0] == y[0] and x[1] == y[1] and (x[2] is y[2] or type(x[2]) is type(y[2]) and x[2] == y[2]) for x, y in zip(a, b))
