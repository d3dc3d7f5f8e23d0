import sys
import types

from .alias import fingerprint, mutables
from .c22 import NODES
from .interchange import *


class C27(InterchangeCheck):
    ID = "C27"
    RULE = ("Effects on the abstract heap of every public operation (decode, encode, schema, validation, docstring, inspection, naming, sorting, flattening, conversion to types), on valid and on rejected input: the fingerprint of every object given to the "
            "call (data, objects, options, schemas, classes with their attributes and annotations, modules) is the same before and after; no store goes to a class or module that existed before and is not the one the caller asked to fill; "
            "no container or object reachable from a decoded or encoded result is reachable from the input, the package's own state or an earlier result.")
    MIN_DECIDED = 250

    def run(self):
        self.setup()
        T = typing
        m = self.m = self.wmod("types", '''
import collections
class En(Enum):
    "Enum."
    A = "a"
    B = "b"
@dataclass
class DC:
    """Documented.

    :param a: First.
    :param b: Second.
    """
    a: int
    b: Optional[str] = None
@dataclass
class Alias_:
    from_: Annotated[int, Alias("origin")]
    l: List[DC] = field(default_factory=list)
    d: Dict[str, List[int]] = field(default_factory=dict)
    e: En = En.A
@dataclass(frozen=True)
class FZ:
    a: List[int]
    t: Tuple[int, DC]
class NT(NamedTuple):
    a: List[int]
    b: Optional[Dict[str, int]] = None
CNT = collections.namedtuple("CNT", ["a", "b"])
class Plain:
    a: List[int]
    b: Optional[DC]
    c: "En"
@dataclass
class Sub(DC):
    c: Set[int] = field(default_factory=set)
@dataclass
class Tree:
    v: int
    kids: Optional[List["Tree"]] = None
@dataclass
class T1:
    kind: Literal["one"]
    p: List[int]
@dataclass
class T2:
    kind: Literal["two"]
    q: Dict[str, int]
class More(Enum):
    C = "c"
class Untyped:
    pass
class Oops(Exception):
    "Problem."
def func(a: int, b: Optional[str] = None) -> bool:
    """Function.

    :param a: First.
    :param b: Second.
    :returns: Result.
    :raises Oops: Trouble.
    """
    return True
''')
        x, s = inp("x", *SCALAR_JSON), inp("s", str)
        A = self.elems.make("ElemA", ("JsonTypeError", "JsonValueError"))
        self.types_ = [v for v in vars(m).values() if isinstance(v, type) and v.__module__ == m.__name__]
        call, ga = self.A.call, self.A.I.getattr
        # ---------------------------------------------------------------- decoding
        dec = {
            "int": (int, lambda: x), "list": (T.List[A], lambda: [x, x]), "list of lists": (T.List[T.List[A]], lambda: [[x], []]), "dict": (T.Dict[str, A], lambda: {"k": x, "l": x}), "dict of lists": (T.Dict[str, T.List[A]], lambda: {"k": [x], "l": []}), "dict by enum": (T.Dict[m.En, A], lambda: {"a": x}),
            "dict by enum, bad key": (T.Dict[m.En, A], lambda: {"a": x, "q": x}), "set": (T.Set[str], lambda: ["a", "b", "a"]), "tuple": (T.Tuple[A, T.List[int]], lambda: [x, [1, 2]]), "tuple, short": (T.Tuple[A, A], lambda: [x]), "optional": (T.Optional[T.List[A]], lambda: [x]),
            "union": (T.Union[T.List[int], T.Dict[str, A], str], lambda: {"k": x}), "union of lists": (T.Union[T.List[m.DC], T.List[A]], lambda: [{"a": x}]), "union of classes": (T.Union[m.DC, m.Tree], lambda: {"v": x, "kids": [{"v": 1}]}), "annotated": (T.Annotated[T.List[A], 1], lambda: [x]),
            "DC": (m.DC, lambda: {"a": x, "b": "t"}), "DC, missing": (m.DC, lambda: {"b": s}), "DC, extra": (m.DC, lambda: {"a": 1, "z": [x]}), "DC, null": (m.DC, lambda: {"a": 1, "b": None}), "Alias_": (m.Alias_, lambda: {"origin": 1, "l": [{"a": x}], "d": {"k": [1]}, "e": "b"}), "Alias_, defaults": (m.Alias_, lambda: {"origin": 1}),
            "FZ": (m.FZ, lambda: {"a": [1, x], "t": [1, {"a": 1}]}), "NT": (m.NT, lambda: {"a": [x], "b": {"k": 1}}), "Plain": (m.Plain, lambda: {"a": [1], "b": {"a": 1}, "c": "a"}), "Sub": (m.Sub, lambda: {"a": 1, "c": [1, 2]}), "Tree": (m.Tree, lambda: {"v": 1, "kids": [{"v": 2, "kids": []}, {"v": x}]}),
            "tagged": (T.Union[m.T1, m.T2], lambda: {"kind": "two", "q": {"k": x}}), "tagged, unknown": (T.Union[m.T1, m.T2], lambda: {"kind": s, "p": [1]}), "list of tagged": (T.List[T.Union[m.T1, m.T2]], lambda: [{"kind": "one", "p": [x]}, {"kind": "two", "q": {}}]), "literal": (T.Literal["a", "b"], lambda: s), "enum": (m.En, lambda: s),
            "list, wrong kind": (T.List[A], lambda: {"k": x}), "dict, wrong kind": (T.Dict[str, A], lambda: [x]), "DC, wrong kind": (m.DC, lambda: [x]), "elem given object": (A, lambda: {"k": x}), "reference": ("DC", lambda: {"a": x}), "list of references": (T.List["DC"], lambda: [{"a": x}]),
        }
        for n, (tp, data) in dec.items():
            for skip in (None, True):
                def op(tp=tp, data=data, skip=skip):
                    d = data()
                    o = [call(self.options, skip_unassigned=skip)] if skip is not None else []
                    return (lambda: call(self.json_to_object, tp, d, context=m, **({"options": o[0]} if o else {}))), [d, *o], [d]

                self.effect(f"decode {n}{', options' if skip else ''}", op, fresh=True)

            def op(tp=tp, data=data):
                d = data()
                e = call(self.create_deserializer, tp, m)
                return (lambda: call(ga(e, "parse"), d)), [d], [d]

            self.effect(f"parse {n}", op, fresh=True)
        # ---------------------------------------------------------------- encoding
        I = self.instance
        v = inp("v", A)
        enc = {
            "list": (T.List[A], lambda: [v, v]), "nested": (T.List[T.Dict[str, T.List[int]]], lambda: [{"k": [1, 2]}, {}]), "dict": (T.Dict[str, A], lambda: {"k": v}), "dict by enum": (T.Dict[m.En, A], lambda: {m.En.A: v}), "set": (T.Set[int], lambda: {1, 2}), "tuple": (T.Tuple[A, T.List[int]], lambda: (v, [1])),
            "DC": (m.DC, lambda: I(m.DC, a=1, b=None)), "Alias_": (m.Alias_, lambda: I(m.Alias_, from_=1, l=[I(m.DC, a=1, b="x")], d={"k": [1]}, e=m.En.B)), "FZ": (m.FZ, lambda: I(m.FZ, a=[1], t=(1, I(m.DC, a=1, b=None)))), "NT": (m.NT, lambda: m.NT([1], {"k": 1})), "CNT": (m.CNT, lambda: m.CNT([1], {"k": [v]})),
            "Plain": (m.Plain, lambda: I(m.Plain, a=[1], b=I(m.DC, a=1, b=None), c=m.En.A)), "Sub": (m.Sub, lambda: I(m.Sub, a=1, b=None, c={1})), "Tree": (m.Tree, lambda: I(m.Tree, v=1, kids=[I(m.Tree, v=2, kids=[]), I(m.Tree, v=3, kids=None)])), "Untyped": (None, lambda: I(m.Untyped, p=[1], q={"k": [v]}, r=None)), "Optional": (T.Optional[m.DC], lambda: I(m.DC, a=1, b=None)),
            "Union": (T.Union[m.T1, m.T2], lambda: I(m.T2, kind="two", q={"k": 1})), "datetimes": (None, lambda: [[1], {"a": {"b": []}}, ({"q": []},)]), "not encodable": (None, lambda: [object, {"k": len}]),
        }
        for n, (tp, val) in enc.items():
            def op(val=val):
                d = val()
                return (lambda: call(self.object_to_json, d)), [d], [d]

            self.effect(f"encode {n}", op, fresh=True)
            if tp is not None:
                def op(val=val, tp=tp):
                    d = val()
                    return (lambda: call(ga(call(self.create_serializer, tp), "generate"), d)), [d], [d]

                self.effect(f"generate {n}", op, fresh=True)
        # ------------------------------------------------------------------ schemas
        schema, gen, sopt = self.api("schema", "classdef_to_schema"), self.api("schema", "JsonSchemaGenerator"), self.api("schema", "SchemaOptions")
        validate = self.api("schema", "validate_object")
        ident = self.api("schema", "get_schema_identifier")
        tps = {c.__name__: c for c in self.types_ if c is not m.Oops}
        tps.update({"list": T.List[m.DC], "dict": T.Dict[m.En, m.DC], "union": T.Union[m.DC, m.NT], "optional": T.Optional[m.DC], "tuple": T.Tuple[m.DC, int], "annotated": T.Annotated[m.DC, 1], "literal": T.Literal["a"]})
        for n, tp in tps.items():
            def op(tp=tp):
                o = call(sopt)
                return (lambda: (call(schema, tp, o), call(ga(call(gen, o), "classdef_to_schema"), tp, True))), [o], [o]

            self.effect(f"schema of {n}", op)
            for on, kw in {"path without slash": {"definitions_path": "#/defs"}, "empty path": {"definitions_path": ""}, "path": {"definitions_path": "#/components/schemas/"}, "no descriptions": {"use_descriptions": False, "use_examples": False},
                           "description function": {"property_description_fun": (lambda c, p, d: f"{p}: {d}")}}.items():
                if n not in ("DC", "Sub", "Tree", "NT", "En", "list", "dict", "union"):
                    continue

                def op(tp=tp, kw=kw):
                    o = call(sopt, **kw)
                    return (lambda: (call(schema, tp, o), call(ga(call(gen, o), "classdef_to_schema"), tp, True))), [o], [o]

                self.effect(f"schema of {n} with options: {on}", op)

            def op(tp=tp):
                d = {"a": [1], "b": {"k": x}}
                return (lambda: call(validate, tp, d)), [d], [d]

            self.effect(f"validate against {n}", op)
        reg = self.api("schema", "register_schema")

        def op():
            s_, e = {"type": "object", "properties": {"a": {"type": "integer"}}}, [{"a": 1}]
            return (lambda: (call(reg, m.DC, s_, "DC", e), call(schema, m.DC), call(schema, T.List[m.DC]))), [s_, e], [s_, e]

        self.effect("register a schema", op)
        # --------------------------------------------------------------- inspection
        one = ["get_resolved_hints", "is_dataclass_type", "is_named_tuple_type", "is_type_enum", "is_type_optional", "is_type_union", "is_type_literal", "is_type_annotated", "is_generic_list", "is_generic_dict", "is_generic_set", "unwrap_annotated_type", "is_type_like", "get_referenced_types", "create_object", "enum_value_types"]
        for f in one:
            fn = self.api("inspection", f)
            for n, tp in tps.items():
                self.effect(f"{f} of {n}", lambda: ((lambda: call(fn, tp)), [], []))
        props, prop, fields, field = (self.api("inspection", k) for k in ("get_class_properties", "get_class_property", "dataclass_fields", "dataclass_field_by_name"))
        rew, ann, ext, mc, mf, sig = (self.api("inspection", k) for k in ("rewrap_annotated_type", "get_annotation", "extend_enum", "get_module_classes", "get_module_functions", "get_signature"))
        gi, cr = self.api("inspection", "is_generic_instance"), self.api("inspection", "check_recursive")
        for n, tp in tps.items():
            if isinstance(tp, type):
                self.effect(f"get_class_properties of {n}", lambda: ((lambda: list(call(props, tp))), [], []))
                self.effect(f"get_class_property of {n}", lambda: ((lambda: call(prop, tp, "a")), [], []))
            for vn, val in {"list": lambda: [I(m.DC, a=1, b=None)], "DC": lambda: I(m.DC, a=1, b="q"), "dict": lambda: {m.En.A: I(m.DC, a=1, b=None)}, "Tree": lambda: I(m.Tree, v=1, kids=[]), "FZ": lambda: I(m.FZ, a=[1], t=(1, I(m.DC, a=1, b=None)))}.items():
                def op(tp=tp, val=val):
                    d = val()
                    return (lambda: (call(gi, d, tp), call(cr, d))), [d], [d]

                self.effect(f"is_generic_instance and check_recursive of {vn} against {n}", op)
        for c in (m.DC, m.Sub, m.Tree, m.FZ):
            self.effect(f"dataclass_fields of {c.__name__}", lambda: ((lambda: (list(call(fields, c)), call(field, c, next(iter(c.__dataclass_fields__))))), [], []))
        self.effect("get_module_classes and functions", lambda: ((lambda: (call(mc, m), call(mf, m))), [], []))
        self.effect("get_signature", lambda: ((lambda: call(sig, m.func)), [], []))

        # ----------------------------------------------------------- docs and names
        pt, ptx, ck, gd, hd = (self.api("docstring", k) for k in ("parse_type", "parse_text", "check_docstring", "get_docstring", "has_docstring"))
        for c in (m.DC, m.Sub, m.NT, m.Plain, m.En, m.func, m.Untyped):
            self.effect(f"docstring of {c.__name__}", lambda: ((lambda: (call(pt, c), call(gd, c), call(hd, c))), [], []))

        def op():
            d = call(ptx, "Short.\n\nLong.\n\n:param a: First.\n:param b: Second.\n")
            return (lambda: call(ck, m.DC, d)), [d], [d]

        self.effect("check a docstring", op)
        ts, tn = self.api("name", "python_type_to_str"), self.api("name", "python_type_to_name")
        for n, tp in tps.items():
            self.effect(f"names of {n}", lambda: ((lambda: (call(ts, tp), call(tn, tp, force=True))), [], []))
        # ------------------------------------------------------- sorting, conversion
        to, tt = self.api("topological", "topological_sort"), self.api("topological", "type_topological_sort")
        for n, g in {"chain": lambda: {"a": {"b"}, "b": {"c"}, "c": set()}, "self": lambda: {"a": {"a", "b"}, "b": set()}, "cycle": lambda: {"a": {"b"}, "b": {"a"}}, "empty": lambda: {}}.items():
            def op(g=g):
                d = g()
                return (lambda: call(to, d)), [d, *d.values()], [d]

            self.effect(f"sort graph {n}", op, sets=True)

        def op():
            d = [m.Alias_, m.DC]
            deps = [m.NT]
            from absint.driver import hook
            return (lambda: call(tt, d, hook(lambda t: deps if t is m.DC else None))), [d, deps], [d]

        self.effect("sort types", op)
        fl, fo, st = self.api("classdef", "flatten_schema"), self.api("classdef", "SchemaFlatteningOptions"), self.api("classdef", "schema_to_type")
        S_ = "https://json-schema.org/draft/2020-12/schema"
        sch = lambda: {"$schema": S_, "definitions": {"D": {"type": "object", "properties": {"q": {"type": "array", "items": {"type": "string", "enum": ["x", "y"]}}}, "additionalProperties": False}}, "type": "object",
                       "properties": {"a": {"type": "integer", "default": 1}, "o": {"type": "object", "properties": {"p": {"type": "string"}, "i": {"type": "object", "properties": {"z": {"type": "number"}}, "additionalProperties": False, "required": ["z"]}}, "additionalProperties": False, "required": ["p"]}, "r": {"$ref": "#/definitions/D"}, "u": {"oneOf": [{"type": "integer"}, {"type": "string"}]}}, "additionalProperties": False, "required": ["o"]}
        for q in (False, True):
            for r in (False, True):
                def op(q=q, r=r):
                    d, o = sch(), call(fo, qualified_names=q, recursive=r)
                    return (lambda: call(fl, d, options=o)), [d, o], [d, o]

                self.effect(f"flatten {'qualified ' if q else ''}{'recursively' if r else ''}", op, fresh=True)
        cd = self.A.mod("classdef").__dict__
        flattener, top, to_def = cd.get("SchemaFlattener"), cd.get("JsonSchemaTopLevelObject"), cd.get("node_to_typedef")
        if flattener is not None and top is not None and hasattr(flattener, "flatten"):
            for q in (False, True):
                for r in (False, True):
                    def op(q=q, r=r):
                        node = call(self.json_to_object, top, sch())
                        return (lambda: call(ga(call(flattener, call(fo, qualified_names=q, recursive=r)), "flatten"), node)), [node, node.properties], [node]

                    self.effect(f"flatten node {'qualified ' if q else ''}{'recursively' if r else ''}", op)
        simple = lambda t: lambda: {"$schema": S_, "definitions": {"D": t, "E": {"type": "array", "items": {"$ref": "#/definitions/D"}}}, "type": "object", "properties": {"r": {"$ref": "#/definitions/D"}}, "additionalProperties": False}
        defs = {f"definition {k}": simple(t) for k, t in NODES.items()}
        for n, d in {**defs, "valid": sch, "rejected": lambda: {**sch(), "additionalProperties": True}}.items():
            def op(d=d):
                mod = self.target
                for k in list(vars(mod)):
                    if not k.startswith("__"):
                        delattr(mod, k)
                mod.__dict__["Existing"] = m.DC
                mod.__dict__["Other"] = 5
                o = d()
                return (lambda: call(st, o, module=mod, class_name="Top")), [o], [o], mod

            self.effect(f"convert schema, {n}", op)

    @property
    def target(self):
        if "absint_w_C27_target" not in sys.modules:
            from .framework import module
            module("C27_target")
        return sys.modules["absint_w_C27_target"]

    def effect(self, name, op, fresh=False, sets=False):
        E, m = self.A.E, self.m

        def thunk():
            r = op()
            action, given, inputs = r[:3]
            asked = r[3] if len(r) > 3 else None
            # classes and module of the caller
            before = [fingerprint(g) for g in given]
            tfp = [fingerprint(t) for t in self.types_]
            mfp = {k: id(v) for k, v in vars(m).items()}
            afp = {k: id(v) for k, v in vars(asked).items()} if asked else {}
            ids = {id(t) for t in self.types_}
            prior = mutables(*inputs)
            start = len(E.events)
            state0 = {id(o) for o in self.A.I._reach()} if fresh else None
            exc = None
            try:
                res = action()
            except Imprecise:
                raise
            except RecursionError:
                raise
            except Exception as e:
                exc, res = e, None
            for g, b in zip(given, before):
                if fingerprint(g) != b:
                    return f"the call modifies {S.show(g)[:200]}, which it was given"
            for t, b in zip(self.types_, tfp):
                if fingerprint(t) != b:
                    return f"the call changes attributes of class {t.__name__}"
            if {k: id(v) for k, v in vars(m).items()} != mfp:
                return "the call changes attributes of the caller's module"
            if asked is not None:
                for k, i in afp.items():
                    if k not in vars(asked) or id(vars(asked)[k]) != i:
                        return f"the call replaces attribute {k} of the given module, which it was not asked to define"
            for ev in E.events[start:]:
                o = ev.obj
                if ev.kind not in ("attr", "item", "global") or not isinstance(o, (type, types.ModuleType)):
                    continue
                if o is asked or self.owned(o):
                    continue
                if asked is not None and isinstance(o, type) and o.__module__ == asked.__name__ and id(o) not in afp.values():
                    continue  # created by the call
                if id(o) in ids or isinstance(o, types.ModuleType) or known_type(o):
                    return f"the call stores attribute {S.show(ev.key)} of {o!r} ({ev.loc})"
            if fresh and exc is None:
                got = mutables(res)
                for i, (o, p) in got.items():
                    p = p.replace("root0", "result")
                    if i in prior:
                        return f"{p} is {prior[i][1].replace('root0', 'input')} itself"
                    if i in state0:
                        return f"{p} is an object kept by the package"
                state1 = {id(o) for o in self.A.I._reach()}
                for i, (o, p) in got.items():
                    if i in state1:
                        return f"{p.replace('root0', 'result')} stays reachable from the package"
                try:
                    again = action()
                except Imprecise:
                    raise
                except Exception:
                    return None
                for i, (o, p) in mutables(again).items():
                    if i in got:
                        return f"{p.replace('root0', 'result')} is shared with the result of an earlier call"
            return None

        def acc(o):
            if o.exc is not None:
                raise Imprecise(o.describe())
            return o.value

        self.oblige(name, thunk, acc, concrete=lambda o, w: acc(o))

    def owned(self, o):
        n = o.__module__ if isinstance(o, type) else o.__name__
        return n == "strong_typing" or n.startswith("strong_typing.")


def known_type(t):
    "A class of the standard library or of a witness module, found under its own name."
    mod = sys.modules.get(t.__module__)
    o = mod
    for part in t.__qualname__.split("."):
        o = getattr(o, part, None)
    return o is t
