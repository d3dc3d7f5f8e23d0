from .alias import fingerprint, mutables, tree_sharing
from .c16 import *


class C18(SchemaCheck):
    ID = "C18"
    RULE = ("Abstract heap after generating schemas: the set of mutable objects reachable from a returned schema must be disjoint from those reachable from every module-level object of the package (catalog, caches, "
            "classes, closures, defaults), the generator, the objects given at registration and in options, and any other returned schema, and no mutable object may occur twice inside one schema; the registered "
            "objects have the same fingerprint before and after.")
    MIN_DECIDED = 100

    def run(self):
        self.setup()
        w = self.wmod("types", '''
class En(Enum):
    "Enum."
    A = "a"
    B = "b"
class Many(Enum):
    A = "a"
    B = "b"
    C = "c"
    D = "d"
    E = "e"
@dataclass
class A:
    "Documented."
    v: int
@dataclass
class B:
    "Documented."
    a: A
@dataclass
class Twice:
    """Twice.

    :param x: X.
    """
    x: A
    y: A
    z: Optional[A]
    l: List[A]
    e: Dict[En, A]
    m: Dict[Many, A]
    f: Dict[En, List[Dict[En, int]]]
    u: Union[A, List[A], Dict[str, A]]
    t: Tuple[A, A]
@dataclass
class Self:
    s: Optional["Self"]
    a: List[A]
@dataclass
class Defaults:
    a: List[int] = field(default_factory=lambda: [1])
    b: Tuple[int, ...] = ()
    c: int = 1
    d: En = En.A
class PlainDefaults:
    a: List[int] = [1]
    b: Dict[str, int] = {"a": 1}
@dataclass
class Widths:
    a: int32
    b: Optional[int32]
    c: Annotated[int, IntegerRange(1, 2)] = 1
    d: Annotated[str, MaxLength(5)] = "d"
    e: Dict[str, float64] = field(default_factory=dict)
    f: float64 = 0.5
class NT(NamedTuple):
    a: A
    b: Literal["x", "y"]
''')
        T = typing
        ex = lambda: {"type": "object", "properties": {"z": {"type": "array", "items": {"type": "integer"}}}, "required": ["z"], "examples": [[1]]}
        regs = {
            "nothing": lambda: {}, "A": lambda: {w.A: ("A", None, None)}, "A explicit": lambda: {w.A: ("A", ex(), None)}, "A examples": lambda: {w.A: ("A", None, [{"v": [1]}, {"v": {"x": 2}}])},
            "A explicit and examples": lambda: {w.A: ("A", ex(), [{"v": [1]}])}, "A and B": lambda: {w.A: ("A", ex(), [[1]]), w.B: ("B", ex(), [{"q": []}])}, "all": lambda: {c: (c.__name__, None, [{"e": [1]}]) for c in (w.A, w.B, w.Twice, w.Self, w.En, w.NT)},
            "alias": lambda: {T.List[w.A]: ("As", {"type": "array", "items": {"type": "object"}}, [[{}]]), w.A: ("A", ex(), None)},
        }
        core = self.A.mod("core").__dict__
        roots = {"A": w.A, "B": w.B, "Twice": w.Twice, "Self": w.Self, "list of A": T.List[w.A], "enum": w.En, "NT": w.NT, "dict by enum": T.Dict[w.En, T.List[w.A]], "Optional": T.Optional[w.A], "Union": T.Union[w.A, w.B],
                 "Literal": T.Literal["a", "b"], "Any": T.Any, "JsonType": core.get("JsonType"), "StrictJsonType": core.get("StrictJsonType"), "Defaults": w.Defaults if False else w.PlainDefaults, "annotated": T.Annotated[w.A, 1], "simple": int, "bytes": bytes,
                 **{n: self.A.mod("auxiliary").__dict__[n] for n in ("int32", "uint8", "float64")}, "list of int64": T.List[self.A.mod("auxiliary").int64], "range": T.Annotated[int, self.A.mod("auxiliary").IntegerRange(1, 2)],
                 "max length": T.Dict[str, T.Annotated[str, self.A.mod("auxiliary").MaxLength(3)]], "Widths": w.Widths, "pipe": w.A | None | int, "Literal one": T.Literal[1], "type": T.Type[w.A], "tuple": T.Tuple[w.En, w.En, T.Literal["q"]], "date": __import__("datetime").date}
        for rn, reg in regs.items():
            for tn, tp in roots.items():
                if tp is None:
                    continue
                for on, opts in (("", None), (", options", {"use_descriptions": True, "use_examples": True}), (", without descriptions", {"use_descriptions": False})):
                    if on and not self.thorough and rn not in ("A explicit and examples", "A and B"):
                        continue
                    self.one(f"{tn}, registered {rn}{on}", tp, reg, opts)

    def one(self, name, tp, reg, opts):
        call, ga = self.A.call, self.A.I.getattr

        def thunk():
            given = reg()
            objs = [x for _, s, e in given.values() for x in (s, e) if x is not None]
            for t, (ident, explicit, examples) in given.items():
                kw = {"name": ident}
                if explicit is not None:
                    kw["schema"] = explicit
                if examples is not None:
                    kw["examples"] = examples
                call(self.register, t, **kw)
            fp = [fingerprint(o) for o in objs]
            o = [call(self.SchemaOptions, **opts)] if opts else []
            results = {}
            g = call(self.Generator, *o)
            results["classdef_to_schema"] = call(self.schema_fn, tp, *o)
            results["second classdef_to_schema"] = call(self.schema_fn, tp, *o)
            results["generator"] = call(ga(g, "classdef_to_schema"), tp)
            results["same generator"] = call(ga(g, "classdef_to_schema"), tp)
            results["expanded"] = call(ga(g, "classdef_to_schema"), tp, True)
            results["type_to_schema"] = call(ga(call(self.Generator, *o), "type_to_schema"), tp)
            results["type_to_schema expanded"] = call(ga(call(self.Generator, *o), "type_to_schema"), tp, True)
            state = {id(x): x for x in self.A.I._reach()}
            caller = mutables(*objs)
            gen = mutables(g)
            opt = mutables(*o)
            per = {n: mutables(r) for n, r in results.items()}
            names = list(per)
            for i, n in enumerate(names):
                for x, (obj, p) in per[n].items():
                    p = p.replace("root0", "result")
                    if x in caller:
                        return f"{n}: {p} is the object given at registration ({S.show(obj)[:120]})"
                    if x in state:
                        return f"{n}: {p} is an object kept by the package ({S.show(obj)[:120]})"
                    if x in gen:
                        return f"{n}: {p} is an object kept by the generator"
                    if x in opt:
                        return f"{n}: {p} is an object given in the options"
                    for m in names[:i]:
                        if x in per[m]:
                            return f"{n}: {p} is the same object as {per[m][x][1].replace('root0', 'result')} returned by {m}"
                for part in (results[n] if isinstance(results[n], tuple) else (results[n],)):
                    s = tree_sharing(part)
                    if s:
                        return f"{n}: {s[0]} and {s[1]} are the same object"
            if [fingerprint(x) for x in objs] != fp:
                return "an object given at registration was modified"
            return None

        def accept(o):
            if o.exc is not None:
                raise Imprecise(f"no schema: {o.describe()}")
            return o.value

        self.oblige(name, thunk, accept, concrete=lambda o, v: accept(o))
