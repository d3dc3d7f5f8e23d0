from .c16 import *


def refs(v, out=None):
    out = [] if out is None else out
    if isinstance(v, dict):
        for k, x in v.items():
            if k == "$ref":
                out.append(x)
            else:
                refs(x, out)
    elif isinstance(v, (list, tuple)):
        for x in v:
            refs(x, out)
    return out


class C17(SchemaCheck):
    ID = "C17"
    RULE = ("Reference graphs among registered witness types (chains, trees, diamonds, cycles, self references; the edge in every position a type can refer to another; types registered with or without "
            "an explicit schema, examples and name): the returned schema and definitions must equal the reference closure, every $ref must be a key of the definitions, and after any earlier call on the "
            "same generator or module (other types, failing types, later registration) the result must be the one of a fresh call.")
    MIN_DECIDED = 300

    def run(self):
        self.setup()
        self.n = 0
        E = {"direct": "{t}", "list": "List[{t}]", "builtin list": "list[{t}]", "dict": "Dict[str, {t}]", "set": "Set[{t}]", "tuple": "Tuple[int, {t}]", "optional": "Optional[{t}]", "union": "Union[int, {t}, str]", "annotated": "Annotated[{t}, 'note']",
             "optional list": "Optional[List[{t}]]", "annotated optional": "Annotated[Optional[{t}], 1]", "optional annotated": "Optional[Annotated[{t}, 1]]", "list of annotated": "List[Annotated[{t}, 1]]", "union of lists": "Union[List[{t}], Dict[str, {t}]]",
             "nested": "Dict[str, List[Optional[Tuple[{t}, int]]]]", "dict by enum": "Dict[En, {t}]"}
        for en, e in E.items():
            for q in ("{}", "'{}'"):
                if q != "{}" and en in ("direct",):
                    ref = "'T'"
                else:
                    ref = q.format("T")
                t = e.format(t=ref)
                for reg in ("T", "C T", "C", ""):
                    self.graph(f"{en} reference ({'string' if q != '{}' else 'type'}), registered {reg or 'none'}", f"@dataclass\nclass T:\n    v: int\n\n@dataclass\nclass C:\n    f: {t}\n    n: int\n", "C", reg.split())
            self.graph(f"chain by {en}", "\n".join(["@dataclass\nclass D:\n    v: int\n", f"@dataclass\nclass B:\n    f: {e.format(t='D')}\n", f"@dataclass\nclass A:\n    f: {e.format(t='B')}\n", f"@dataclass\nclass C:\n    f: {e.format(t='A')}\n"]), "C", ["A", "B", "D"])
            self.graph(f"cycle by {en}", "\n".join([f"@dataclass(frozen=True)\nclass A:\n    f: {e.format(t=chr(34) + 'C' + chr(34))}\n", f"@dataclass(frozen=True)\nclass C:\n    f: {e.format(t='A')}\n"]), "C", ["A", "C"])
            self.graph(f"self reference by {en}", f"@dataclass\nclass C:\n    f: {e.format(t=chr(34) + 'C' + chr(34))}\n", "C", ["C"])
            # classes nobody registered, below other classes
            node = f"@dataclass\nclass Node:\n    v: int\n    f: {e.format(t=chr(34) + 'Node' + chr(34))}\n"
            for depth, outer in enumerate(("List[Node]", "List[A]", "Dict[str, B]")):
                self.deep(f"unregistered self reference by {en}, {depth + 1} levels down", node + "\n@dataclass\nclass A:\n    n: Node\n    m: List[Node]\n\n@dataclass\nclass B:\n    a: A\n    n: Optional[Node]\n\n@dataclass\nclass C:\n    x: int\n    o: %s\n" % outer, ["C", "List[C]", "Dict[str, C]", "Node"])
            self.deep(f"unregistered cycle by {en}", "\n".join([f"@dataclass(frozen=True)\nclass A:\n    f: {e.format(t=chr(34) + 'B' + chr(34))}\n", f"@dataclass(frozen=True)\nclass B:\n    f: {e.format(t='A')}\n\n@dataclass\nclass C:\n    a: A\n    b: B\n    l: List[A]\n"]), ["A", "B", "C", "List[C]", "Tuple[B, A]"])
            self.graph(f"top level {en}", "@dataclass\nclass T:\n    v: int\n", e.format(t="T"), ["T"])
            self.graph(f"top level chain {en}", f"@dataclass\nclass B:\n    v: int\n\n@dataclass\nclass T:\n    v: {e.format(t='B')}\n", e.format(t="T"), ["T", "B"])
            self.graph(f"skipping an unregistered class by {en}", f"@dataclass\nclass B:\n    v: int\n\n@dataclass\nclass M:\n    v: {e.format(t='B')}\n\n@dataclass\nclass C:\n    m: {e.format(t='M')}\n", "C", ["B"])
        # shapes
        cl = lambda n, *f: f"@dataclass\nclass {n}:\n" + "".join(f"    {x}: {t}\n" for x, t in f) + "\n"
        self.graph("diamond", cl("D", ("v", "int")) + cl("L", ("d", "D")) + cl("R", ("d", "List[D]")) + cl("C", ("l", "L"), ("r", "R")), "C", ["D", "L", "R"])
        self.graph("diamond, root registered", cl("D", ("v", "int")) + cl("L", ("d", "D")) + cl("R", ("d", "List[D]")) + cl("C", ("l", "L"), ("r", "R")), "List[C]", ["C", "D", "L", "R"])
        self.graph("deep", "".join(cl(f"N{i}", ("v", f"Optional[N{i + 1}]" if i < 6 else "int")) if False else cl(f"N{i}", ("v", f'"Optional[N{i + 1}]"' if i < 6 else "int")) for i in range(7)), "N0", [f"N{i}" for i in range(7)])
        self.graph("wide", "".join(cl(f"N{i}", ("v", "int")) for i in range(5)) + cl("C", *[(f"f{i}", f"N{i}") for i in range(5)]), "C", [f"N{i}" for i in range(5)])
        self.graph("back edge", cl("A", ("n", '"Optional[B]"')) + cl("B", ("n", '"Optional[D]"')) + cl("D", ("n", '"List[A]"'), ("e", "En")), "A", ["A", "B", "D", "En"])
        self.graph("two cycles", cl("A", ("b", '"Optional[B]"'), ("d", '"List[D]"')) + cl("B", ("a", '"Optional[A]"')) + cl("D", ("a", '"Dict[str, A]"')), "Union[A, B]", ["A", "B", "D"])
        self.graph("unreferenced registrations stay out", cl("A", ("v", "int")) + cl("B", ("a", "A")) + cl("X", ("b", "B")), "B", ["A", "B", "X"])
        self.graph("same class in two places", cl("A", ("v", "int")) + cl("C", ("x", "A"), ("y", "A"), ("z", "Optional[A]")), "C", ["A"])
        self.graph("inherited fields", cl("A", ("v", "int")) + cl("P", ("a", "A")) + "@dataclass\nclass C(P):\n    l: List[P]\n", "C", ["A", "P"])
        self.graph("subclass of registered class is not registered", cl("P", ("v", "int")) + "@dataclass\nclass S(P):\n    w: int\n" + cl("C", ("s", "S"), ("p", "P")), "C", ["P"])
        self.graph("registered enum, named tuple and plain class", "class NT(NamedTuple):\n    'Tuple.'\n    e: En\nclass P:\n    n: NT\n" + cl("C", ("p", "P"), ("d", "Dict[En, NT]")), "C", ["En", "NT", "P"], titles={"NT": "Tuple."})
        self.graph("type alias", cl("A", ("v", "int")) + "L = List[A]\n" + cl("C", ("l", "L"), ("a", "A"), ("o", "Optional[L]")), "C", ["L", "A"])
        self.graph("union alias", cl("A", ("v", "int")) + cl("B", ("v", "str")) + "U = Union[A, B]\n" + cl("C", ("l", "List[U]"), ("u", "U")), "C", ["U", "A", "B"])
        self.graph("annotated alias", cl("A", ("v", "int")) + "U = Annotated[A, 'x']\n" + cl("C", ("l", "List[U]"), ("u", "U")), "C", ["U", "A"])
        # explicit schemas, examples, names
        src = cl("A", ("v", "int")) + cl("B", ("a", "A")) + "@dataclass\nclass Doc_:\n    'Documented.'\n    a: A\n" + cl("C", ("a", "A"), ("b", "List[B]"), ("d", "Doc_"))
        ex = {"type": "object", "properties": {"z": {"type": "integer"}}, "additionalProperties": False}
        full = ["A", "B", "Doc_"]
        for en, entry in {"explicit schema": {"B": ("B", ex, None)}, "examples": {"A": ("A", None, [{"v": 1}, {"v": 2}])}, "explicit and examples": {"B": ("B", ex, [1])}, "names": {"A": ("Alpha", None, None), "B": ("Beta", None, None)},
                          "swapped names": {"A": ("B", None, None), "B": ("A", None, None)}, "documented explicit": {"Doc_": ("Doc_", ex, None)}, "title replaced": {"Doc_": ("Doc_", {"title": "Old", "type": "object"}, None)}, "empty schema": {"A": ("A", {}, None)}}.items():
            for root in ("C", "List[B]", "Doc_"):
                for on, opts in (("", None), (" without descriptions", {"use_descriptions": False}), (" without examples", {"use_examples": False}), (" at another path", {"definitions_path": "#/components/schemas/"})):
                    self.graph(f"{en} for {root}{on}", src, root, full, entry, opts, titles={"Doc_": "Documented."})
        # type[T] expands a registered T in place, what T refers to still needs its definition
        for en, e in E.items():
            self.n += 1
            w = self.wmod(f"g{self.n}", f"class En(Enum):\n    A = 'a'\n    B = 'b'\n\n@dataclass\nclass T:\n    v: int\n\n@dataclass\nclass C:\n    f: {e.format(t='T')}\n\n@dataclass\nclass D:\n    c: type[C]\n    l: List[type[C]]\n")
            for root in ("type[C]", "List[type[C]]", "D", "type[D]"):
                for reg in ("T", "T C", "T C D"):
                    self.closed(f"{root} whose class refers by {en}, registered {reg}, closure", eval(root, w.__dict__), {getattr(w, r): (r, None, None) for r in reg.split()})
        self.builtin()
        self.direct_references()
        self.histories()

    def direct_references(self):
        "A forward reference which stands in a type itself (not in a class), naming a Python type every module knows."
        for n in ("int", "str", "bool", "float", "bytes"):
            for e in ("List['{}']", "Dict[str, '{}']", "Optional['{}']", "Set['{}']", "Tuple['{}', int]", "Union['{}', None, List[int]]", "List[Optional['{}']]", "Annotated['{}', 1]"):
                self.n += 1
                w = self.wmod(f"d{self.n}", "")
                tp = eval(e.format(n), w.__dict__)
                self.closed(f"reference {e.format(n)}, closure", tp, {})

    def graph(self, name, src, root, reg, entry=None, options=None, titles=None):
        self.n += 1
        w = self.wmod(f"g{self.n}", "class En(Enum):\n    A = 'a'\n    B = 'b'\n\n" + src)
        tp = eval(root, w.__dict__)
        registry = {getattr(w, r): (entry or {}).get(r, (r, None, None)) for r in reg}
        docs = {getattr(w, k): Doc(v) for k, v in (titles or {}).items()}
        self.against(name, tp, docs, registry, options=options)
        self.closed(f"{name}, closure", tp, registry, options)

    def deep(self, name, src, roots):
        self.n += 1
        w = self.wmod(f"g{self.n}", "class En(Enum):\n    A = 'a'\n    B = 'b'\n\n" + src)
        for root in roots:
            self.closed(f"{name}, {root}, closure", eval(root, w.__dict__), {})

    def closed(self, name, tp, registry, options=None):
        path = (options or {}).get("definitions_path", "#/definitions/")

        def thunk():
            self.enter(registry)
            g = self.A.call(self.Generator, *([self.A.call(self.SchemaOptions, **options)] if options else []))
            return self.A.call(self.A.I.getattr(g, "classdef_to_schema"), tp)

        def accept(o):
            if o.exc is not None:
                return o.describe()
            s, d = o.value
            used = set(refs(s))
            for v in d.values():
                used |= set(refs(v))
            for r in used:
                if not isinstance(r, str) or not r.startswith(path) or r[len(path):] not in d:
                    return f"reference {r} has no definition among {sorted(d)}"
            for k in d:
                if path + k not in used:
                    return f"definition {k} is not referenced"

        self.oblige(name, thunk, accept, concrete=lambda o, w: accept(o))

    def enter(self, registry):
        for t, (ident, explicit, examples) in registry.items():
            kw = {"name": ident}
            if explicit is not None:
                kw["schema"] = explicit
            if examples is not None:
                kw["examples"] = examples
            self.A.call(self.register, t, **kw)

    def builtin(self):
        core = self.A.mod("core")
        for n in ("JsonType", "StrictJsonType"):
            t = core.__dict__.get(n)
            if t is None:
                continue
            w = self.wmod(f"core_{n}", "@dataclass\nclass C:\n    j: J\n    o: Optional[J]\n    l: List[J]\n    d: Dict[str, J]\n", J=t)
            for tn, tp in {n: t, f"class with {n}": w.C, f"list of {n}": typing.List[t], f"dict of {n}": typing.Dict[str, w.C]}.items():
                self.closed(f"{tn}, closure", tp, {})

            def thunk(t=t):
                return self.A.call(self.A.I.getattr(self.A.call(self.Generator), "classdef_to_schema"), t)

            def accept(o, n=n):
                "one alternative per kind of JSON value, elements and members refer back to the definition"
                if o.exc is not None:
                    return o.describe()
                s, d = o.value
                if s != {"$ref": f"#/definitions/{n}"} or set(d) != {n}:
                    return f"a reference to {n}, defined once, is required, got {S.show(o.value)[:300]}"
                alts = d[n].get("oneOf", d[n].get("anyOf"))
                if not isinstance(alts, list):
                    return f"alternatives are required, got {S.show(d[n])[:300]}"
                by = {}
                for a in alts:
                    for k in a["type"] if isinstance(a.get("type"), list) else [a.get("type")]:
                        if k in by:
                            return f"two alternatives for {k}"
                        by[k] = a
                want = {"boolean", "number", "string", "array", "object"} | ({"null"} if n == "JsonType" else set())
                if set(by) - {"integer"} != want:
                    return f"the alternatives {sorted(want)} are required, got {sorted(map(str, by))}"
                back = {"$ref": f"#/definitions/{n}"}
                if by["array"].get("items") != back or by["object"].get("additionalProperties") != back:
                    return f"elements and members must be {n} again, got {S.show([by['array'], by['object']])}"
                for k in want - {"array", "object"}:
                    if set(by[k]) != {"type"}:
                        return f"any {k} is a {n}, got {S.show(by[k])}"

            self.oblige(f"content of {n}", thunk, accept, concrete=lambda o, w: accept(o))

    def histories(self):
        "Result of a call after other calls equals the result of a fresh call."
        w = self.wmod("hist", '''
@dataclass
class A:
    v: int

@dataclass
class B:
    a: A
    l: List["D"]

@dataclass
class D:
    b: Optional[B]

@dataclass
class X:
    a: A

class Bad(Enum):
    A = 1
    B = "x"

@dataclass
class Fails:
    a: A
    d: List[D]
    bad: Bad

@dataclass
class Fails2:
    a: List[D]
    k: Dict[float, A]

@dataclass
class FailsInside:
    d: D
    f: Fails

@dataclass
class Self:
    s: Optional["Self"]
    a: A
''')
        registry = {getattr(w, k): (k, None, None) for k in ("A", "B", "D")}
        call, ga = self.A.call, self.A.I.getattr
        targets = {"X": w.X, "B": w.B, "D": w.D, "int": int, "list of A": typing.List[w.A], "Self": w.Self, "failing class": w.Fails2, "failing class inside": w.FailsInside}
        before = {"B": [w.B], "X": [w.X], "D then A": [w.D, w.A], "failing": [w.Fails], "failing after references": [w.Fails2], "failing inside": [w.FailsInside], "failing in definition": [typing.List[w.Fails]], "not a type": [5], "X, failing, B": [w.X, w.Fails, w.B], "Self": [w.Self], "failing twice": [w.Fails2, w.FailsInside]}

        def quiet(f, *a, **k):
            try:
                call(f, *a, **k)
            except Exception as e:
                if isinstance(e, (RecursionError, Imprecise)):
                    raise

        def outcome(f, *a):
            try:
                return call(f, *a)
            except Exception as e:
                if isinstance(e, (RecursionError, Imprecise)):
                    raise
                return type(e)

        for regs in (registry, {**registry, w.Fails: ("Fails", None, None), w.Bad: ("Bad", None, None), w.Self: ("Self", None, None)}):
            rn = "" if len(regs) == 3 else ", failing classes registered"
            for bn, seq in before.items():
                for tn, tp in targets.items():
                    for how in ("generator", "type_to_schema", "module"):
                        def thunk():
                            self.enter(regs)
                            fresh = outcome(ga(call(self.Generator), "classdef_to_schema"), tp)
                            g = call(self.Generator)
                            for t in seq:
                                if how == "module":
                                    quiet(self.schema_fn, t)
                                elif how == "type_to_schema":
                                    quiet(ga(g, "type_to_schema"), t)
                                else:
                                    quiet(ga(g, "classdef_to_schema"), t)
                            if how == "module":
                                g = call(self.Generator)
                            return fresh, outcome(ga(g, "classdef_to_schema"), tp)

                        def accept(o):
                            if o.exc is not None:
                                return o.describe()
                            if isinstance(o.value[0], type) or isinstance(o.value[1], type):
                                return None if o.value[0] is o.value[1] else f"the result of a fresh call is {S.show(o.value[0])}, got {S.show(o.value[1])[:300]}"
                            (s1, d1), (s2, d2) = o.value
                            return diff(plain(s1), s2) or diff(plain(d1), d2, "definitions")

                        self.oblige(f"{tn} after {bn} by {how}{rn}", thunk, accept, concrete=lambda o, v: accept(o))
        # registering after a call takes effect
        def thunk():
            call(self.schema_fn, w.X)
            self.enter({w.A: ("A", None, None)})
            r = dict(call(self.schema_fn, w.X))
            return r

        def accept(o):
            if o.exc is not None:
                return o.describe()
            if o.value.get("properties", {}).get("a") != {"$ref": "#/definitions/A"} or "A" not in o.value.get("definitions", {}):
                return f"a type registered after an earlier call must be referenced, got {S.show(o.value)[:300]}"

        self.oblige("registration after a call", thunk, accept, concrete=lambda o, v: accept(o))


def plain(v):
    return v
