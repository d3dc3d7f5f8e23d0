from .interchange import *
from .framework import module
import dataclasses
import enum
import sys
from absint.interp import Divergence
import itertools


class C09(InterchangeCheck):
    ID = "C09"
    RULE = ("Abstract histories: for every ordered pair (thorough: also triples) of operations over serializer, decoder and schema generator (same-named classes, differing options and contexts, "
            "options mutated between calls, failing constructions, recursive and mutually recursive types) the outcome term of the last operation after the others, and of the same operation on the "
            "initial module state, must be the same on every trace partition.")
    MIN_DECIDED = 300

    def run(self):
        self.setup()
        A = self.elems.make("ElemA", ("JsonTypeError", "JsonValueError"))
        src = '''
@dataclass
class Same:
    {f}: int
    opt: Optional[str] = None

class Kind(Enum):
    ONE = {v!r}

class Plain:
    {f}: Optional[int]
    kind: Kind

class Tup(NamedTuple):
    {f}: int

Alias_ = List["Same"]

@dataclass
class Ref:
    s: "Same"
    l: List["Kind"]

@dataclass
class Documented:
    """
    Class in {v}.

    :param identification_number: The number in {v}.
    :param {f}: Text of {f}.
    """
    identification_number: {t}
    {f}: Optional["Same"] = None
    kinds: List[Kind] = field(default_factory=list)
    fixed: int32 = {n}

def convert(first: {t}, second: "Same") -> "Kind":
    """
    Function in {v}.

    :param first: First in {v}.
    :param second: Second in {v}.
    :returns: Result in {v}.
    """

def local():
    @dataclass
    class Local:
        {f}: {t}
    return Local
'''
        m1 = self.wmod("m1", src.format(f="a", v="one", t="int", n=1))
        m2 = self.wmod("m2", src.format(f="b", v="two", t="str", n=2))
        m3 = self.wmod("m3", src.format(f="b", v="two", t="str", n=2) + '''
def two():
    @dataclass
    class Inner:
        x: int
    first = Inner
    @dataclass
    class Inner:
        y: str
    return first, Inner

class Outer1:
    @dataclass
    class Nested:
        p: int

class Outer2:
    @dataclass
    class Nested:
        q: str
''')
        rec = self.wmod("rec", '''
@dataclass
class Tree:
    value: int
    left: Optional["Tree"] = None
    kids: Optional[List["Tree"]] = None

@dataclass
class Ping:
    pong: Optional["Pong"] = None

@dataclass
class Pong:
    ping: Optional["Ping"] = None
    n: int = 0

@dataclass
class Bad:
    good: "Good"
    items: list

@dataclass
class Good:
    n: int
    back: Optional["Bad2"] = None

@dataclass
class Bad2:
    good: Optional["Good"]
    lit: Literal[1, "x"]

@dataclass
class BadFirst:
    lit: Literal[1, "x"]
    good: "Fine"

@dataclass
class Fine:
    n: int
    more: Optional["BadLast"] = None

@dataclass
class BadLast:
    fine: Optional[Fine]
    u: Union["T1", "T1b"]

@dataclass
class T1:
    kind: Literal["a"]

@dataclass
class T1b:
    kind: Literal["a"]

@dataclass
class T2:
    kind: Literal["b"]
    x: int = 0

@dataclass
class HasFwd:
    ok: Optional["Fine2"]
    missing: "DoesNotExist"

@dataclass
class Fine2:
    n: int
    h: Optional["HasFwd"] = None
''', A=A)
        self.local1, self.local2 = m3.local(), m3.local()
        two = m3.two()
        call, getattr_ = self.A.call, self.A.I.getattr
        T = typing
        x = inp("x", bool, int, str)
        schema = self.api("schema", "classdef_to_schema")
        gen = self.api("schema", "JsonSchemaGenerator")
        sopt = self.api("schema", "SchemaOptions")
        validate = self.api("schema", "get_schema_identifier")

        def dec(tp, data, skip=None, context=None):
            def op():
                kw = {}
                if skip is not None:
                    kw["options"] = call(self.options, skip_unassigned=skip)
                if context is not None:
                    kw["context"] = context
                return call(self.json_to_object, tp, data(), **kw)
            return op

        def parse(tp, data, skip=None, context=None):
            def op():
                a = [tp] + ([context] if context is not None else [])
                kw = {} if skip is None else {"options": call(self.options, skip_unassigned=skip)}
                e = call(self.create_deserializer, *a, **kw)
                return call(getattr_(e, "parse"), data())
            return op

        def mutated(tp, data):
            def op():
                o = call(self.options, skip_unassigned=False)
                e = call(self.create_deserializer, tp, options=o)
                object.__setattr__(o, "skip_unassigned", True)
                return call(getattr_(e, "parse"), data())
            return op

        def enc(v, tp=None, context=None):
            def op():
                if tp is None:
                    return call(self.object_to_json, v())
                s = call(self.create_serializer, tp, *([context] if context else []))
                return call(getattr_(s, "generate"), v())
            return op

        def sch(tp, **o):
            return lambda: call(schema, tp, call(sopt, **o)) if o else call(schema, tp)

        I = self.instance
        G = rec
        groups = {
            "decoder": {
                "Same(1)": dec(m1.Same, lambda: {"a": x}), "Same(1) extra": dec(m1.Same, lambda: {"a": 1, "z": x}), "Same(1) extra skip": dec(m1.Same, lambda: {"a": 1, "z": x}, True),
                "Same(1) noskip": dec(m1.Same, lambda: {"a": 1, "z": x}, False), "Same(2)": dec(m2.Same, lambda: {"b": x}), "Same(1) mutated options": mutated(m1.Same, lambda: {"a": 1, "z": x}),
                "list[Same] skip": dec(T.List[m1.Same], lambda: [{"a": 1, "z": x}], True), "list[Same]": dec(T.List[m1.Same], lambda: [{"a": 1, "z": x}]),
                "'Same' in 1": parse("Same", lambda: {"a": x}, context=m1), "'Same' in 2": parse("Same", lambda: {"b": x}, context=m2), "ForwardRef in 2": parse(T.ForwardRef("Same"), lambda: {"b": x}, context=m2),
                "'Alias_' in 1": parse("Alias_", lambda: [{"a": x, "z": 1}], context=m1), "'Alias_' in 2": parse("Alias_", lambda: [{"b": x}], context=m2), "'Alias_' in 1 skip": parse("Alias_", lambda: [{"a": x, "z": 1}], True, m1),
                "Kind(1)": dec(m1.Kind, lambda: x), "Kind(2)": dec(m2.Kind, lambda: x), "Plain(1)": dec(m1.Plain, lambda: {"a": 1, "kind": x, "q": 1}), "Plain(1) skip": dec(m1.Plain, lambda: {"a": 1, "kind": x, "q": 1}, True),
                "Tup(1)": dec(m1.Tup, lambda: {"a": x, "q": 1}), "Tup(1) skip": dec(m1.Tup, lambda: {"a": x, "q": 1}, True), "Ref(1)": dec(m1.Ref, lambda: {"s": {"a": x, "q": 1}, "l": []}), "Ref(2)": dec(m2.Ref, lambda: {"s": {"b": x}, "l": ["two"]}),
                "Ref(1) skip": dec(m1.Ref, lambda: {"s": {"a": x, "q": 1}, "l": []}, True), "dict[Kind,int](1)": dec(T.Dict[m1.Kind, int], lambda: {"one": x}), "dict[Kind,int](2)": dec(T.Dict[m2.Kind, int], lambda: {"one": x}),
            },
            "local classes": {
                "Local(int)": dec(m1.local(), lambda: {"a": x}), "Local(str) 1": dec(self.local1, lambda: {"b": x}), "Local(str) 2": dec(self.local2, lambda: {"b": x}), "Inner(x)": dec(two[0], lambda: {"x": x}),
                "Inner(y)": dec(two[1], lambda: {"y": x}), "Nested(p)": dec(m3.Outer1.Nested, lambda: {"p": x}), "Nested(q)": dec(m3.Outer2.Nested, lambda: {"q": x}),
                "enc Inner(x)": enc(lambda: I(two[0], x=x)), "enc Inner(y)": enc(lambda: I(two[1], y=x)), "enc Nested(p)": enc(lambda: I(m3.Outer1.Nested, p=x)), "enc Nested(q)": enc(lambda: I(m3.Outer2.Nested, q=x)),
                "schema Inner(x)": sch(two[0]), "schema Inner(y)": sch(two[1]),
            },
            "failing construction": {
                "Bad": dec(G.Bad, lambda: {}), "Good": dec(G.Good, lambda: {"n": x}), "Bad2": dec(G.Bad2, lambda: {}), "BadFirst": dec(G.BadFirst, lambda: {}), "Fine": dec(G.Fine, lambda: {"n": x}),
                "BadLast": dec(G.BadLast, lambda: {"u": {}}), "Union dup": dec(T.Union[G.T1, G.T1b], lambda: {"kind": "a"}), "Union ok": dec(T.Union[G.T1, G.T2], lambda: {"kind": x}), "T1": dec(G.T1, lambda: {"kind": x}),
                "Good again": parse(G.Good, lambda: {"n": 1, "back": {"good": None, "lit": x}}), "HasFwd": dec(G.HasFwd, lambda: {}), "Fine2": dec(G.Fine2, lambda: {"n": x, "h": None}), "'Missing'": parse("Missing", lambda: x, context=rec),
                "literal mix": dec(T.Literal[1, "x"], lambda: x), "bare list": dec(list, lambda: []), "'Fine' by name": parse("Fine", lambda: {"n": x}, context=rec), "'BadLast' by name": parse("BadLast", lambda: {}, context=rec),
                "enc Bad": enc(lambda: I(G.Bad, good=I(G.Good, n=1, back=None), items=[x])), "enc Good": enc(lambda: I(G.Good, n=x, back=None)), "enc type BadFirst": enc(lambda: I(G.BadFirst, lit=1, good=I(G.Fine, n=1, more=None)), G.BadFirst),
                "enc Fine": enc(lambda: I(G.Fine, n=x, more=None), G.Fine), "enc HasFwd": enc(lambda: I(G.HasFwd, ok=None, missing=1), G.HasFwd), "enc Fine2": enc(lambda: I(G.Fine2, n=x, h=None), G.Fine2),
                "enc function": enc(lambda: (lambda: 1)), "schema Bad": sch(G.Bad), "schema T1": sch(G.T1), "schema BadFirst": sch(G.BadFirst),
            },
            "encoder": {
                "Same(1)": enc(lambda: I(m1.Same, a=x, opt=None)), "Same(2)": enc(lambda: I(m2.Same, b=x, opt="s")), "Kind(1)": enc(lambda: m1.Kind.ONE), "Kind(2)": enc(lambda: m2.Kind.ONE),
                "'Same' in 1": enc(lambda: I(m1.Same, a=x, opt=None), "Same", m1), "'Same' in 2": enc(lambda: I(m2.Same, b=x, opt=None), "Same", m2), "Alias_ 1": enc(lambda: [I(m1.Same, a=x, opt=None)], "Alias_", m1), "Alias_ 2": enc(lambda: [I(m2.Same, b=x, opt=None)], "Alias_", m2),
                "Tup(1)": enc(lambda: m1.Tup(x)), "Tup(2)": enc(lambda: m2.Tup(x)), "Plain(1)": enc(lambda: I(m1.Plain, a=x, kind=m1.Kind.ONE)), "Plain(2)": enc(lambda: I(m2.Plain, b=x, kind=m2.Kind.ONE)),
                "True": enc(lambda: True), "1": enc(lambda: 1), "list": enc(lambda: [x, 1, True]), "dict": enc(lambda: {"k": x}), "dict Kind": enc(lambda: {m1.Kind.ONE: x}),
                "Ref(1)": enc(lambda: I(m1.Ref, s=I(m1.Same, a=x, opt=None), l=[m1.Kind.ONE])), "Ref(2)": enc(lambda: I(m2.Ref, s=I(m2.Same, b=x, opt=None), l=[m2.Kind.ONE])),
            },
            "schema": {
                "Same(1)": sch(m1.Same), "Same(2)": sch(m2.Same), "Same(1) path": sch(m1.Same, definitions_path="#/components/"), "Kind(1)": sch(m1.Kind), "Kind(2)": sch(m2.Kind), "Plain(1)": sch(m1.Plain),
                "Plain(1) no descriptions": sch(m1.Plain, use_descriptions=False), "list[Same]": sch(T.List[m1.Same]), "JsonType": sch(self.A.mod("core").JsonType), "JsonType no examples": sch(self.A.mod("core").JsonType, use_examples=False),
                "JsonType path": sch(self.A.mod("core").JsonType, definitions_path="#/$defs/"), "list[JsonType]": sch(T.List[self.A.mod("core").JsonType]), "StrictJsonType": sch(self.A.mod("core").StrictJsonType),
                "int": sch(int), "not a type": sch(17), "bad dict": sch(T.Dict[float, int]), "identifier": lambda: call(validate, m1.Same),
                "Optional": sch(T.Dict[str, T.Union[int, str]]), "dec Same(1)": dec(m1.Same, lambda: {"a": x}),
            },
            "recursive": {
                "Tree": dec(G.Tree, lambda: {"value": x, "left": {"value": 1, "kids": [{"value": x}]}}), "Tree skip": dec(G.Tree, lambda: {"value": 1, "left": {"value": 1, "zz": x}}, True),
                "Tree extra": dec(G.Tree, lambda: {"value": 1, "left": {"value": 1, "zz": x}}), "Ping": dec(G.Ping, lambda: {"pong": {"n": x, "ping": {"pong": {"n": x}}}}),
                "Pong": dec(G.Pong, lambda: {"ping": {"pong": {"n": 1, "zz": x}}}), "Pong skip": dec(G.Pong, lambda: {"ping": {"pong": {"n": 1, "zz": x}}}, True), "Ping skip": dec(G.Ping, lambda: {"zz": x, "pong": {"zz": x, "n": 1}}, True),
                "Ping extra": dec(G.Ping, lambda: {"pong": {"zz": x, "n": 1}}), "enc Tree": enc(lambda: I(G.Tree, value=x, left=I(G.Tree, value=2, left=None, kids=[]), kids=None)), "enc Pong": enc(lambda: I(G.Pong, ping=I(G.Ping, pong=None), n=x)),
            },
        }
        # one name of a module standing for different types one after the other (the name is part of the context, not of a cache)
        def bound(tp, op):
            def run():
                rec.__dict__["Now_"] = tp
                return op()
            return run

        groups["rebound name"] = {
            f"{n}{f}": bound(tp, op)
            for n, tp, data, val in (("list[int]", T.List[int], lambda: [1, 2], lambda: [1, 2]), ("list[bytes]", T.List[bytes], lambda: ["QQ=="], lambda: [b"A"]), ("builtin list[str]", list[str], lambda: ["a"], lambda: ["a"]),
                                     ("Optional", T.Optional[int], lambda: None, lambda: None), ("Same(1)", m1.Same, lambda: {"a": x}, lambda: I(m1.Same, a=x, opt=None)), ("Same(2)", m2.Same, lambda: {"b": x}, lambda: I(m2.Same, b=x, opt=None)), ("Union", T.Union[int, T.List[str]], lambda: ["a"], lambda: ["a"]))
            for f, op in ((" decoded by name", parse("Now_", data, context=rec)), (" decoded by reference", parse(T.ForwardRef("Now_"), data, context=rec)), (" encoded by name", enc(val, "Now_", rec)), (" decoded in list", parse(T.List["Now_"], lambda data=data: [data()], context=rec)))
        }
        groups.update(self.library(m1, m2, m3, two, rec, sch))
        self.generators(gen, m1)
        for g, ops in groups.items():
            for (n1, f1), (n2, f2) in itertools.product(ops.items(), repeat=2):
                self.history(f"{g}: {n2} after {n1}", [f1], f2)
            if self.thorough:
                names = list(ops)
                for k, n1 in enumerate(names):
                    for n2 in names:
                        n3 = names[(k + 3) % len(names)]
                        self.history(f"{g}: {n2} after {n3}, {n1}", [ops[n3], ops[n1]], ops[n2])
        if self.thorough:
            flat = [(g, n, f) for g, ops in groups.items() for n, f in ops.items()]
            for i, (g1, n1, f1) in enumerate(flat):
                for g2, n2, f2 in flat[(i % 7)::7]:
                    if g1 != g2:
                        self.history(f"{g2}: {n2} after {g1}: {n1}", [f1], f2)

    def library(self, m1, m2, m3, two, G, sch):
        "Operations on types, texts and schemas."
        call, api, T = self.A.call, self.api, typing
        aux = self.A.mod("auxiliary")
        parse_type, parse_text, check = (api("docstring", n) for n in ("parse_type", "parse_text", "check_docstring"))
        name, text = api("name", "python_type_to_name"), api("name", "python_type_to_str")
        def insp(n, *a, **k):
            f = api("inspection", n)

            def op():
                r = call(f, *a, **k)
                return list(r) if hasattr(r, "__next__") else r
            return op

        to_type, flatten, fopt = api("classdef", "schema_to_type"), api("classdef", "flatten_schema"), api("classdef", "SchemaFlatteningOptions")

        def doc(o, f=parse_type):
            return lambda: str(call(self.A.I.getattr(call(f, o), "__str__")))

        def upper(cls, name, text):
            return name.upper() + text

        def make(schema, cn="Top"):
            def op():
                m = module(f"{self.ID}_made")
                try:
                    t = call(to_type, schema, module=m, class_name=cn)
                    return text_of(t)
                finally:
                    sys.modules.pop(m.__name__, None)
            return op

        obj = lambda **p: {"$schema": "s", "type": "object", "properties": p, "required": sorted(p), "additionalProperties": False}
        nested = lambda n: obj(inner=bare(obj(**{n: {"type": "integer"}, "deep": bare(obj(leaf={"type": "string"}))})), other={"type": "boolean"})
        return {
            "documentation": {
                "Documented(1)": doc(m1.Documented), "Documented(2)": doc(m2.Documented), "convert(1)": doc(m1.convert), "convert(2)": doc(m2.convert), "Same(1)": doc(m1.Same),
                "text": doc("Short.\n\n:param a: One.", parse_text), "other text": doc("Short.\n\n:param a: Two.\n:raises KeyError: Bad.", parse_text), "check Documented(1)": lambda: call(check, m1.Documented, call(parse_type, m1.Documented), True),
                "schema Documented(1)": sch(m1.Documented), "schema Documented(2)": sch(m2.Documented), "schema no descriptions": sch(m1.Documented, use_descriptions=False), "schema with function": sch(m1.Documented, property_description_fun=upper),
                "schema with function(2)": sch(m2.Documented, property_description_fun=upper), "schema list": sch(T.List[m2.Documented]), "schema path": sch(T.Dict[str, m1.Documented], definitions_path="#/$defs/"),
                "schema int32": sch(aux.int32), "schema range": sch(T.Annotated[int, aux.IntegerRange(1, 2)]), "schema float64": sch(T.List[aux.float64]),
            },
            "names": {
                **{f"{fn} {tn}": (lambda f=f, t=t: call(f, t)) for fn, f in (("name", name), ("text", text)) for tn, t in {
                    "Same(1)": m1.Same, "Same(2)": m2.Same, "Nested(p)": m3.Outer1.Nested, "Nested(q)": m3.Outer2.Nested, "list[Same(1)]": T.List[m1.Same], "list[Same(2)]": T.List[m2.Same],
                    "int32": aux.int32, "range": T.Annotated[int, aux.IntegerRange(1, 2)], "other range": T.Annotated[int, aux.IntegerRange(1, 3)], "noted": T.Annotated[int, "n"], "Optional": T.Optional[m1.Same], "bad": 17}.items()},
                "forced": lambda: call(name, T.List[m1.Same], force=True), "forced(2)": lambda: call(name, T.Dict[str, m2.Kind], force=True),
            },
            "inspection": {
                **{f"{fn} {tn}": insp(fn, t) for fn, tn, t in (
                    ("get_class_properties", "Same(1)", m1.Same), ("get_class_properties", "Same(2)", m2.Same), ("get_class_properties", "Documented(1)", m1.Documented), ("get_class_properties", "Documented(2)", m2.Documented),
                    ("get_class_properties", "Tup(1)", m1.Tup), ("get_class_properties", "HasFwd", G.HasFwd), ("get_resolved_hints", "Ref(1)", m1.Ref), ("get_resolved_hints", "Ref(2)", m2.Ref), ("get_resolved_hints", "Inner(x)", two[0]), ("get_resolved_hints", "Inner(y)", two[1]),
                    ("enum_value_types", "Kind(1)", m1.Kind), ("enum_value_types", "Kind(2)", m2.Kind), ("unwrap_literal_values", "one", T.Literal[1]), ("unwrap_literal_values", "True", T.Literal[True]), ("unwrap_annotated_type", "int32", aux.int32),
                    ("is_type_optional", "Optional", T.Optional[int]), ("is_type_optional", "Union", T.Union[int, str]), ("is_type_enum", "Kind(1)", m1.Kind), ("is_type_literal", "Literal", T.Literal["a"]), ("is_dataclass_type", "Same(1)", m1.Same), ("is_dataclass_type", "Plain(1)", m1.Plain))},
                "evaluate 'Same' in 1": insp("evaluate_type", "Same", m1), "evaluate 'Same' in 2": insp("evaluate_type", "Same", m2), "evaluate ForwardRef in 1": insp("evaluate_type", T.ForwardRef("Same"), m1),
                "evaluate 'Alias_' in 1": insp("evaluate_type", "Alias_", m1), "evaluate 'Alias_' in 2": insp("evaluate_type", "Alias_", m2), "evaluate missing": insp("evaluate_type", "Nowhere", m2),
                "instance Same(1)": insp("is_generic_instance", self.instance(m1.Same, a=1, opt=None), m1.Same), "instance Same(2)": insp("is_generic_instance", self.instance(m1.Same, a=1, opt=None), m2.Same), "references Ref(1)": insp("get_referenced_types", m1.Ref), "references Ref(2)": insp("get_referenced_types", m2.Ref),
                "module classes(1)": insp("get_module_classes", m1), "module classes(2)": insp("get_module_classes", m2),
            },
            "schemas to types": {
                "int": make({"$schema": "s", "type": "integer"}), "Top(a)": make(obj(a={"type": "integer"})), "Top(b)": make(obj(b={"type": "string"})), "Top(enum)": make(obj(e={"type": "string", "enum": ["x", "y"]})), "Top(other enum)": make(obj(e={"type": "string", "enum": ["z"]})),
                "Top(default)": make(obj(a={"type": "integer", "default": 7})), "definitions": make({**obj(r={"$ref": "#/definitions/D"}), "definitions": {"D": bare(obj(a={"type": "integer"}))}}), "other definitions": make({**obj(r={"$ref": "#/definitions/D"}), "definitions": {"D": bare(obj(b={"type": "string"}))}}),
                "forward": make(obj(r={"$ref": "#/definitions/Missing"})), "bad reference": make(obj(r={"$ref": "elsewhere"})), "not additional": make({"$schema": "s", "type": "object", "properties": {"a": {"type": "null"}}}), "precision": make({"$schema": "s", "type": "number", "multipleOf": 0.01, "exclusiveMinimum": -100, "exclusiveMaximum": 100}),
                **{f"flatten {n}{on}": (lambda n=n, o=o: call(flatten, nested(n), **({"options": call(fopt, **o)} if o else {}))) for n in ("p", "q") for on, o in (("", {}), (" qualified", {"qualified_names": True}), (" recursive", {"recursive": True}), (" both", {"recursive": True, "qualified_names": True}))},
            },
        }

    def generators(self, gen, m1):
        "One schema generator object used for several types: state in the generator must not leak."
        call, getattr_ = self.A.call, self.A.I.getattr
        T = typing
        core = self.A.mod("core")
        shapes = {"JsonType": core.JsonType, "list[JsonType]": T.List[core.JsonType], "Same": m1.Same, "bad dict": T.Dict[float, core.JsonType], "fails after reference": T.Tuple[core.StrictJsonType, T.Dict[float, int]],
                  "int": int, "Kind": m1.Kind, "union": T.Union[core.StrictJsonType, m1.Same], "forward": T.ForwardRef("Nowhere"), "not a type": 5}
        for (n1, t1), (n2, t2) in itertools.product(shapes.items(), repeat=2):
            for how in ("classdef_to_schema", "type_to_schema"):
                def thunk():
                    g = call(gen)
                    try:
                        call(getattr_(g, how), t1)
                    except Exception:
                        pass
                    r1 = outcome(lambda: call(getattr_(g, "classdef_to_schema"), t2))
                    r2 = outcome(lambda: call(getattr_(call(gen), "classdef_to_schema"), t2))
                    return r1, r2, same_outcome(r1, r2, self.A)

                self.judge(f"generator: classdef_to_schema({n2}) after {how}({n1}) on one generator", thunk)

    def history(self, name, before, op):
        A = self.A

        def thunk():
            for f in before:
                try:
                    f()
                except Exception as e:
                    if isinstance(e, Imprecise) or isinstance(e, RecursionError) and not isinstance(e, Divergence):
                        raise
            r1 = outcome(op)
            A.I.restore()
            r2 = outcome(op)
            return r1, r2, same_outcome(r1, r2, A)

        self.judge(name, thunk)

    def judge(self, name, thunk):
        def accept(o):
            if o.exc is not None:
                return o.describe()
            r1, r2, v = o.value
            if v is None:
                raise Imprecise("outcome terms differ")
            return None if v else f"{self.text(r1)} after the history, but {self.text(r2)} in the initial state"

        self.oblige(name, thunk, accept, concrete=lambda o, w: accept(o))


def bare(s):
    "Schema of a nested type."
    return {k: v for k, v in s.items() if k != "$schema"}


def text_of(t):
    "What a made type is, without its identity."
    if isinstance(t, type) and issubclass(t, enum.Enum):
        return ("enum", t.__name__, t.__module__, t.__doc__, [(m.name, m.value) for m in t])
    if dataclasses.is_dataclass(t):
        return ("class", t.__name__, t.__module__, t.__doc__, [(f.name, text_of(f.type), repr(f.default)) for f in dataclasses.fields(t)])
    args = typing.get_args(t)
    if args:
        return (str(typing.get_origin(t)), [text_of(a) if not isinstance(a, (str, int)) else a for a in args])
    return t if isinstance(t, type) else str(t)


def outcome(f):
    try:
        return ("return", f())
    except Imprecise:
        raise
    except Exception as e:
        if isinstance(e, RecursionError) and not isinstance(e, Divergence):
            raise
        return ("raise", e)


def same_outcome(a, b, A):
    if a[0] != b[0]:
        return False
    if a[0] == "raise":
        return type(a[1]) is type(b[1])
    return same(a[1], b[1], A)


def same(a, b, A):
    "Structural equality of results."
    if a is b:
        return True
    if is_sym(a) or is_sym(b):
        return matches(a, b, A)
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and every(same(x, y, A) for x, y in zip(a, b))
    if isinstance(a, dict):
        return len(a) == len(b) and every(k in b and same(v, b[k], A) for k, v in a.items())
    if (hasattr(a, "__dict__") or hasattr(type(a), "__slots__")) and not isinstance(a, type) and not isinstance(a, type(same)) and S.state(a):
        return same(S.state(a), S.state(b), A)
    return a == b


def every(it):
    r = True
    for x in it:
        if x is False:
            return False
        if x is None:
            r = None
    return r
