import ast
import enum
import inspect
import os
import re
import types

from absint import pyversion
from . import pyscan
import dataclasses
import typing

from .framework import *
from .framework import REPO
from .interchange import *

ALL = [(3, n) for n in range(9, 15)]
BASE = pyversion.HOST

TYPES = '''
class Color(Enum):
    RED = "red"
    BLUE = "blue"

class Level(enum.IntEnum):
    LOW = 1
    HIGH = 2

@dataclass
class Point:
    """
    A point.

    :param x: Horizontal.
    :param y: Vertical.
    """

    x: int
    y: Optional[int] = None

@dataclass
class Derived(Point):
    tags: List[str] = field(default_factory=list)
    color: Color = Color.RED
    child: "Optional[Point]" = None

@dataclass
class Keyword:
    from_: str
    value: Annotated[int, IntegerRange(0, 9)]
    either: Union[str, int, None] = None

@dataclass
class Builtin:
    points: list["Point"]
    named: dict[str, "Builtin"]
    pair: "Optional[tuple[Point, int]]" = None
    seen: Optional[set["Color"]] = None
    both: Union[list["Point"], "Color", None] = None

Tree = dict[str, "Tree"]
Row = list["Point"]

class Pair(NamedTuple):
    first: int
    second: str

class Plain:
    a: int
    b: Optional[str] = None

    def method(self, n: int) -> str: ...

class Cls:
    def ctor(self, a: int, b: str = "x") -> bool:
        """
        Does it.

        :param a: First.
        :param b: Second.
        :returns: Whether.
        :raises ValueError: Never.
        """
        raise NotImplementedError()
'''

SHAPES = """bool int float str bytes None Color Level Point Derived Keyword Pair Plain datetime.datetime datetime.date datetime.time datetime.timedelta uuid.UUID ipaddress.IPv4Address ipaddress.IPv6Address
int8 uint16 float32 Any Optional[int] Optional[Point] Union[int,str] Union[int,str,None] Union[Point,Color] List[int] List[Optional[str]] Dict[str,int] Dict[Color,int] Set[str] Tuple[int,str] Literal["a"] Literal["a","b"] Literal[1]
Annotated[int,IntegerRange(0,9)] Annotated[str,MaxLength(9)] Annotated[Optional[int],"x"] Optional[Annotated[int,"x"]] Type[Point] list[int] dict[str,Point] set[int] tuple[int,str] "Point" List["Point"]
Builtin list["Point"] dict[str,"Point"] dict["Color",int] tuple["Point",int] set["Color"] Optional[list["Point"]] Annotated[list["Point"],1] list[list["Point"]] List[list["Builtin"]] list[type["Point"]] type[Point]""".split()
BY_NAME = ("Tree", "Row", "Builtin", "Point")
SHAPES_310 = ["int | None", "int | str", "Point | None", "int | str | None", "Annotated[int | None, 'x']", "list[int | None]", "dict[str, int | str]"]
JSON = {
    "datetime.datetime": ["2023-01-27T01:02:03Z", "2023-01-27T01:02:03+02:00", "2023-01-27T01:02:03.123456Z"],
    "datetime.date": ["2023-01-27"], "datetime.time": ["01:02:03Z", "01:02:03+02:00"], "int": [1, "x"], "bool": [True], "str": ["s", 1],
    "Color": ["red", "green"], "Level": [1, 3], "Point": [{"x": 1}, {"x": 1, "y": 2}, {}], "Derived": [{"x": 1, "tags": ["a"], "color": "blue"}],
    "Keyword": [{"from": "a", "value": 3, "either": 1}], "Pair": [[1, "a"], [1]], "Optional[int]": [1, None], "Union[int,str]": [1, "a", 2.5],
    "Tuple[int,str]": [[1, "a"]], "Dict[str,int]": [{"a": 1}], "List[int]": [[1, 2], 1], "Set[str]": [["a"]], 'Literal["a","b"]': ["a", "c"],
    "int | None": [1, None], "int | str": [1, "a", None], "Point | None": [None, {"x": 2}], "int | str | None": [None, "a"],
    "list[int | None]": [[1, None]], "list[int]": [[1, 2]], "Builtin": [{"points": [{"x": 1}], "named": {"n": {"points": [], "named": {}}}, "pair": [{"x": 2}, 3], "seen": ["red"], "both": [{"x": 4}]}, {"points": [{}], "named": {}}], "bytes": ["YQ=="], "uuid.UUID": ["f81d4fae-7dec-11d0-a765-00a0c91e6bf6"], "ipaddress.IPv4Address": ["192.0.2.1"], "float": [1.5],
}
SCHEMAS = [
    {"type": "object", "properties": {"a": {"type": "integer", "title": "An a."}, "b": {"type": "string", "default": "x"}}, "required": ["a"], "additionalProperties": False, "title": "T", "description": "D."},
    {"type": "object", "properties": {"p": {"type": "object", "properties": {"q": {"type": "boolean"}}, "additionalProperties": False}}, "additionalProperties": False},
    {"oneOf": [{"type": "integer"}, {"type": "string"}]},
    {"type": "string", "enum": ["a", "b"]},
    {"type": "array", "items": {"type": "string", "format": "date-time"}},
]
UNARY_SKIP = {"get_signature", "create_module", "get_module_classes", "get_module_functions", "extend_enum"}


class C26(Check):
    ID = "C26"
    RULE = ("For every Python version that pyproject.toml declares: the grammar of each module; the interpretation of each module's import with the names, parameters, modules and operators of that version; every live name, attribute, call, import, union operator and regular expression in every function body, "
            "where conditions that tell versions apart are decided with that version and all others are open; and the results of the public predicates, conversions, schemas, names and docstrings over a set of types compared with those under the analysing version.")
    MIN_DECIDED = 1200

    def versions(self):
        path = os.path.join(REPO, "pyproject.toml")
        if not os.path.exists(path):
            return ALL
        text = open(path, encoding="utf-8").read()
        lo, hi = (3, 9), (3, 14)
        m = re.search(r"^requires-python\s*=\s*\"([^\"]*)\"", text, re.M)
        if m:
            for op, a, b in re.findall(r"(>=|<=|<|>|~=|==)\s*(\d+)\.(\d+)", m.group(1)):
                v = (int(a), int(b))
                lo = max(lo, v) if op in (">=", "~=") else max(lo, (v[0], v[1] + 1)) if op == ">" else lo
                hi = min(hi, v) if op == "<=" else min(hi, (v[0], v[1] - 1)) if op == "<" else hi
        return [v for v in ALL if lo <= v <= hi]

    def run(self):
        base = None
        vs = self.versions()
        if len(vs) < 2:
            raise Broken("no declared Python versions found")
        for v in vs:
            if not self.mine():
                continue
            A = self.load(v)
            if A is None:
                continue
            self.scan(A, v)
            if v != BASE:
                if base is None:
                    base = self.outcomes(Analysis(REPO, version=BASE), BASE, v)
                self.A = A
                self.compare(base, self.outcomes(A, v, v), v)
        self.extra["versions"] = ["%d.%d" % v for v in vs]

    # ----------------------------------------------------------------- import
    def load(self, v):
        t = "%d.%d" % v
        names, ok = [], True
        root = os.path.join(REPO, "strong_typing")
        for dp, dn, fn in os.walk(root):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                rel = os.path.relpath(os.path.join(dp, f), REPO)
                src = open(os.path.join(dp, f), encoding="utf-8").read()
                ast.parse(src, rel)  # what the analysing interpreter cannot parse is not analysed
                try:
                    ast.parse(src, rel, feature_version=v)
                    later = pyscan.nested_quotes(src) if v < (3, 12) else []
                    if later:
                        ok = False
                        self.bad(f"syntax of {rel} on {t}", f"{rel}:{later[0][0]} has {later[0][1]} of an f-string, which Python {t} cannot parse")
                    else:
                        self.ok(f"syntax of {rel} on {t}")
                except SyntaxError as e:
                    ok = False
                    self.bad(f"syntax of {rel} on {t}", f"{rel}:{e.lineno} cannot be parsed by Python {t}: {e.msg}")
        if not ok:
            return None
        I = Interp(REPO, version=v)
        from absint.driver import jsonschema_stub

        I.stubs["jsonschema"] = jsonschema_stub()
        try:
            A = Analysis(REPO, version=v)
        except Imprecise as e:
            self.open_(f"import of the package on {t}", str(e))
            return None
        except Exception as e:
            loc = getattr(e, "_absint_loc", None)
            where = loc[1] if loc else "?"
            self.bad(f"import on {t}: {where}", f"importing strong_typing on Python {t} raises {type(e).__name__}: {e}" + (f" at {loc[0]} in {loc[1]}" if loc else ""))
            return None
        for n in A.names:
            self.ok(f"import of {n} on {t}")
        if self.A is None:
            self.A = A
        return A

    # ------------------------------------------------------------------ bodies
    def scan(self, A, v):
        t = "%d.%d" % v
        total = {}
        for rel, tree in sorted(A.I.trees.items()):
            name = rel[:-3].replace(os.sep, ".").removesuffix(".__init__")
            s = pyscan.Scan(A.I, rel, tree, A.I.sources[rel], A.I.modules[name])
            s.changed = pyscan.changed_names(tree)
            problems = s.run()
            for k, x in s.stats.items():
                total[k] = total.get(k, 0) + x
            for where, kind, text, line in problems:
                self.bad(f"{kind} in {name}.{where} on {t}: {text[:80]}", f"{rel}:{line} in {where}: {text}; this code is live on Python {t}")
            flagged = {w for w, *_ in problems}
            for n in ast.walk(tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name not in {w.rsplit(".", 1)[-1] for w in flagged}:
                    self.ok(f"body of {name}.{n.name} on {t}")
        self.extra[f"scanned_{t}"] = total

    # ----------------------------------------------------------------- results
    def outcomes(self, A, v, target):
        "name -> text of what the call does, for calls meaningful on the target version"
        out = {}
        self.A = A
        ch = types.SimpleNamespace(ID=f"C26_{v[0]}_{v[1]}", A=A)
        m = InterchangeCheck.wmod(ch, "types", TYPES)
        shapes = {}
        for s in SHAPES + (SHAPES_310 if target >= (3, 10) else []):
            ns = dict(m.__dict__)
            ns["Type"] = typing.Type
            shapes[s] = eval(s, ns)

        def record(name, thunk):
            try:
                res = self.traces(thunk, caller=m, max_paths=400)
            except Exception as e:
                res = []
                out[name] = None
            texts = []
            for o in res:
                if o.imprecise:
                    out[name] = None
                    return
                texts.append(f"raises {type(o.exc).__name__}" if o.exc is not None else "returns " + o.value)
            if name not in out:
                out[name] = (sorted(texts), next((o for o in res if o.exc is not None), None))

        def ask(name, f, *a, **k):
            def thunk():
                r = A.call(f, *a, **k)
                if type(r).__name__ in ("GenModel", "generator", "Gen"):
                    r = list(A.I.iterate(r))
                return canon(A, r)

            record(name, thunk)

        for mod in ("inspection", "name", "auxiliary", "docstring"):
            M = A.mod(mod)
            for n, f in sorted(vars(M).items()):
                if n.startswith("_") or n in UNARY_SKIP or type(f).__name__ not in ("Func", "LruModel") or getattr(f, "__module__", None) != M.__name__:
                    continue
                node = getattr(getattr(f, "__wrapped__", f), "_node", None)
                if node is None:
                    continue
                a = node.args
                need = len(a.posonlyargs + a.args) - len(a.defaults)
                if need != 1 or any(d is None for d in a.kw_defaults):
                    continue
                p = (a.posonlyargs + a.args)[0].arg
                for s, tp in shapes.items():
                    ask(f"{mod}.{n}({s})", f, tp)
        strf = self.api("name", "python_type_to_str")
        namef = self.api("name", "python_type_to_name")
        schema = self.api("schema", "classdef_to_schema")
        dec = self.api("serialization", "json_to_object")
        enc = self.api("serializer", "create_serializer")
        mkdec = self.api("deserializer", "create_deserializer")
        back = self.api("classdef", "schema_to_type")
        for s, tp in shapes.items():
            ask(f"text of {s} with |", strf, tp, use_union_operator=True)
            ask(f"name of {s}", namef, tp, force=True)
            ask(f"schema of {s}", schema, tp)
            ask(f"serializer of {s}", lambda tp=tp: type(A.call(enc, tp)).__name__)
            ask(f"decoding {s}", dec, tp, mk("in", "json", s, types=JSON_KINDS)) if s in ("int", "Color", "Optional[int]", "Point") else None
            for text in BY_NAME if s == "Builtin" else ([s] if '"' in s and (target < (3, 14) or not s.startswith("List[")) else ()):
                ref = tp if '"' in text else text
                ask(f"serializer of {text} in context", lambda: type(A.call(enc, ref, m)).__name__)
                for d in ({}, [], [{"x": 1}], {"a": {}}, {"a": {"x": 1}}, {"red": 1}, ["red"], [{"x": 1}, 2], [[{"x": 3}]], {"points": [{"x": 1}], "named": {}}):
                    ask(f"{text} in context from {d!r}", lambda d=d: A.call(A.I.getattr(A.call(mkdec, ref, m), "parse"), d))
            for d in JSON.get(s, ()):
                ask(f"{s} from {d!r}", dec, tp, d)
        for i, sc in enumerate(SCHEMAS):
            def conv(sc=sc, i=i):
                from copy import deepcopy

                w = module(f"C26_conv_{v[0]}_{v[1]}_{i}")
                r = A.call(back, deepcopy(sc), module=w, class_name="Made")
                return [r, {k: x for k, x in vars(w).items() if isinstance(x, type)}]

            def thunk(conv=conv):
                return canon(A, conv())

            record(f"type of schema {i}", thunk)
        cdt = vars(A.mod("inspection")).get("create_data_type")
        if cdt is not None:
            ask("create_data_type", cdt, "Made", [("a", int), ("b", Optional[str])] if False else [("a", int), ("b", str)])
        return out

    def compare(self, base, other, v):
        t = "%d.%d" % v
        for n in base:
            a, b = base[n], other.get(n)
            if a is None or b is None:
                if a is None and b is None:
                    continue
                self.open_(f"{n} on {t}", "outside the interpreted subset on one of the versions")
                continue
            if a[0] == b[0]:
                self.ok(f"{n} on {t}")
            else:
                x = next((x for x in b[0] if x not in a[0]), b[0][:1])
                y = next((y for y in a[0] if y not in b[0]), a[0][:1])
                loc = b[1].loc if b[1] is not None else None
                self.bad(f"{n} differs on {t}", f"{n}: {x[:300] if isinstance(x, str) else x} on Python {t}" + (f" at {loc[0]} in {loc[1]}" if loc and isinstance(x, str) and x.startswith("raises") else "") + f"; {y[:300] if isinstance(y, str) else y} on Python {BASE[0]}.{BASE[1]}")

    def assumptions(self):
        return [
            "checks/stdlib_versions.json lists what each version of the standard library has (from type stubs, confirmed against the pinned interpreter where it can be)",
            "other differences between versions (representation of unions in 3.14, lazy annotations) are not modelled",
        ]


def canon(A, v, depth=7):
    "text of a result that does not depend on which analysis produced it"
    if is_sym(v):
        return S.show(v)
    if depth == 0:
        return "..."
    if isinstance(v, type):
        if v in A.I.own_classes or not dataclasses.is_dataclass(v) or "absint_w_C26" not in v.__module__ or "types" in v.__module__.rsplit("_", 1)[-1]:
            return v.__qualname__
        return f"class {v.__name__} {v.__doc__!r} {[(f.name, canon(A, f.type, depth - 1), canon(A, f.default, depth - 1) if f.default is not dataclasses.MISSING else '-') for f in dataclasses.fields(v)]} in {v.__module__.split('_')[2]}"
    if isinstance(v, (list, tuple)):
        return ("[" if isinstance(v, list) else "(") + ", ".join(canon(A, x, depth - 1) for x in v) + ")"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(canon(A, x, depth - 1) for x in v)) + "}"
    if isinstance(v, dict):
        return "{" + ", ".join(f"{canon(A, k, depth - 1)}: {canon(A, x, depth - 1)}" for k, x in v.items()) + "}"
    if isinstance(v, enum.Enum):
        return f"{type(v).__name__}.{v.name}"
    if typing.get_origin(v) is not None:
        o = typing.get_origin(v)
        o = "Union" if o in (typing.Union, types.UnionType) else canon(A, o, depth - 1)
        return f"{o}[{', '.join(canon(A, x, depth - 1) for x in (*typing.get_args(v), *getattr(v, '__metadata__', ())))}]"
    if dataclasses.is_dataclass(v):
        return f"{type(v).__name__}({', '.join(canon(A, getattr(v, f.name, None), depth - 1) for f in dataclasses.fields(v))})"
    if isinstance(v, types.ModuleType):
        return "module"
    if isinstance(v, (str, int, float, bytes, type(None))):
        return repr(v)
    return re.sub(r"absint_w_C26_3_\d+", "absint_w", re.sub(r" at 0x[0-9a-f]+", "", S.show(v)))
