import json

from absint import models
from .framework import *
from .interchange import *

SRC = '''
@dataclass
class A:
    v: int

@dataclass
class B:
    a: Optional[A]
    w: str = "x"

class E(Enum):
    X = "x"

class P:
    q: List[int]

class N(NamedTuple):
    n: int
'''


class C34(InterchangeCheck):
    ID = "C34"
    RULE = ("Registration, validation and text output interpreted with the validator library as a black box that records what it is asked and rejects at will: the identity and content of every argument, the association made in the registry, the error for repeated, unregistered and unsuitable arguments, "
            "and the text written for JSON values of every kind and for abstract ones.")
    MIN_DECIDED = 150

    def run(self):
        self.setup()
        self.w = self.wmod("w", SRC)
        self.js = self.A.I.stubs["jsonschema"]
        self.schema = self.api("schema", "classdef_to_schema")
        self.registration()
        self.validation()
        self.text()

    def expect(self, name, thunk):
        def acc(o):
            return o.describe() if o.exc is not None else o.value

        def run():
            self.js.asked, self.js.reject, self.js.invalid = [], False, False
            self.A.I.M.stdout.parts = []
            return thunk()

        self.oblige(name, run, acc, concrete=lambda o, w: acc(o))

    def refused(self, exc, thunk):
        try:
            r = thunk()
        except exc as e:
            return None if type(e) in (exc if isinstance(exc, tuple) else (exc,)) else f"{exc.__name__} is required, got {type(e).__name__}"
        return f"{exc.__name__} is required, got {S.show(r)[:200]}"

    # ----------------------------------------------------------- registration
    def registration(self):
        w, call, T = self.w, self.A.call, typing
        reg, deco, ident = (self.api("schema", k) for k in ("register_schema", "json_schema_type", "get_schema_identifier"))
        schema = self.schema
        types_ = {"A": w.A, "B": w.B, "E": w.E, "P": w.P, "N": w.N, "list": T.List[w.A], "union": T.Union[w.A, int], "annotated": T.Annotated[w.A, "x"]}
        other = {k: v for k, v in types_.items()}
        given = lambda: {"type": "object", "properties": {"z": {"type": "integer"}}, "required": ["z"]}
        for n, tp in types_.items():
            for en, explicit in (("derived", None), ("given schema", given()), ("empty schema", {})):
                for nn, name in (("", None), (" named", "Special"), (" with odd name", "a/b c")):
                    for xn, ex in (("", None), (" with examples", [{"z": 1}, {"z": 2}])):
                        if n in ("union", "annotated", "list") and not name:
                            continue

                        def thunk(tp=tp, explicit=explicit, name=name, ex=ex, n=n):
                            kw = {}
                            if explicit is not None:
                                kw["schema"] = explicit
                            if name:
                                kw["name"] = name
                            if ex is not None:
                                kw["examples"] = ex
                            if call(ident, tp) is not None:
                                return "an unregistered type must have no identifier"
                            r = call(reg, tp, **kw)
                            if r is not tp:
                                return f"register_schema must return the type itself, got {S.show(r)}"
                            want = name or n
                            got = call(ident, tp)
                            if got != want:
                                return f"the identifier {want!r} is required, got {got!r}"
                            for m, t in other.items():
                                if m != n and call(ident, t) is not None:
                                    return f"{m} must not be registered"
                            s = call(schema, tp)
                            if s.get("$ref") != "#/definitions/" + want or want not in s.get("definitions", {}):
                                return f"the schema must refer to the definition {want!r}, got {S.show(s)[:300]}"
                            d = dict(s["definitions"][want])
                            if d.pop("examples", None) != ex:
                                return f"examples {ex} are required, got {S.show(s['definitions'][want])}"
                            if n == "N":
                                d.pop("title", None)  # documentation Python makes up for named tuples
                            if explicit is not None and d != explicit:
                                return f"the definition must be the given schema, got {S.show(d)[:300]}"
                            for again in (*([] if n in ("union", "annotated", "list") else [{}]), {"name": "Other"}, {"schema": {"type": "string"}, "name": want}):
                                c = self.refused(ValueError, lambda: call(reg, tp, **again))
                                if c:
                                    return "registering again: " + c
                            if call(ident, tp) != want or call(schema, tp) != s:
                                return "a refused registration must not change the registry"

                        self.expect(f"register_schema {n}, {en}{nn}{xn}", thunk)
        for n in ("A", "B", "E", "P", "N"):
            tp = types_[n]
            for form in ("bare", "parentheses"):
                for en, explicit in (("", None), (" with schema", given()), (" with empty schema", {})):
                    for xn, ex in (("", None), (" with examples", [{"z": 1}])):
                        if form == "bare" and (explicit is not None or ex is not None):
                            continue

                        def thunk(tp=tp, form=form, explicit=explicit, ex=ex, n=n):
                            kw = {k: v for k, v in (("schema", explicit), ("examples", ex)) if v is not None}
                            r = call(deco, tp) if form == "bare" else call(call(deco, **kw), tp)
                            if r is not tp:
                                return f"the class itself is required, got {S.show(r)}"
                            if call(ident, tp) != n:
                                return f"the identifier {n} is required, got {call(ident, tp)!r}"
                            d = dict(call(schema, tp)["definitions"][n])
                            if n == "N":
                                d.pop("title", None)
                            if d.pop("examples", None) != ex or explicit is not None and d != explicit:
                                return f"the given schema and examples are required, got {S.show(d)[:300]}"
                            return self.refused(ValueError, lambda: call(deco, tp))

                        self.expect(f"json_schema_type {form}{en}{xn} on {n}", thunk)

        def two():
            call(reg, w.A, name="First")
            call(deco, w.B)
            call(reg, w.E, schema={"type": "string"})
            got = [call(ident, t) for t in (w.A, w.B, w.E, w.P, w.N)]
            return None if got == ["First", "B", "E", None, None] else f"the identifiers First, B, E and none are required, got {got}"

        self.expect("three registrations", two)
        for n, fr in (("ForwardRef", T.ForwardRef("A")), ("other ForwardRef", T.ForwardRef("Missing"))):
            def thunk(fr=fr):
                return self.refused(TypeError, lambda: call(reg, fr, name="A")) or (None if call(ident, w.A) is None else "nothing may be registered")

            self.expect(f"register_schema of {n}", thunk)
        for n in ("JsonObject", "JsonArray", "JsonType", "StrictJsonType"):
            t = self.A.mod("core").__dict__.get(n)
            if t is not None:
                self.expect(f"identifier of {n}", lambda t=t, n=n: None if call(ident, t) == n else f"{n} is required, got {call(ident, t)!r}")

        def unhashable():
            return None if call(ident, T.Annotated[w.A, []]) is None else "no identifier is required"

        self.expect("identifier of a type with unhashable annotation", unhashable)

    # ------------------------------------------------------------- validation
    def validation(self):
        w, call, T, js = self.w, self.A.call, typing, self.js
        validator = self.api("schema", "Validator")
        validate = self.api("schema", "validate_object")
        types_ = {"A": w.A, "B": w.B, "list": T.List[w.B], "int": int, "union": T.Union[w.A, w.B], "enum": w.E, "literal": T.Literal["x"], "annotated": T.Annotated[int, "n"]}
        ids = {"Draft7": js.Draft7Validator, "Draft201909": js.Draft201909Validator, "Draft202012": js.Draft202012Validator, "Latest": js.Draft202012Validator}
        for n, tp in types_.items():
            for vn, v in (*ids.items(), (None, js.Draft202012Validator)):
                def thunk(tp=tp, vn=vn, v=v):
                    kw = {} if vn is None else {"validator": getattr(validator, vn)}
                    s = call(self.schema, tp, **kw)
                    i = v.META_SCHEMA["$id"]
                    if s.get("$schema") != i:
                        return f"the schema must state {i}, got {s.get('$schema')!r}"
                    checks = [x for x in js.asked if x[0] == "check"]
                    body = {k: x for k, x in s.items() if k != "$schema"}
                    if not checks or any(c[1] != i for c in checks):
                        return f"the schema must be checked against {i}, got {[c[1] for c in checks]}"
                    if not any({k: x for k, x in c[2].items() if k != "$schema"} == body for c in checks):
                        return "the schema returned must be the one checked"
                    js.reject = True
                    c = self.refused(TypeError, lambda: call(self.schema, tp, **kw))
                    js.reject = False
                    return c and "a schema the meta-schema rejects: " + c

                self.expect(f"schema of {n} for {vn or 'no'} validator", thunk)
            for dn, d in (("object", {"v": 1}), ("other object", {"a": [None], "b": {}}), ("list", [1, "x"]), ("string", "text"), ("number", 3), ("null", None), ("abstract", mk("in", "data", types=JSON_KINDS))):
                def thunk(tp=tp, d=d):
                    js.asked = []
                    r = call(validate, tp, d)
                    want = call(self.schema, tp)
                    v = [x for x in js.asked if x[0] == "validate"]
                    if len(v) != 1:
                        return f"one validation is required, got {len(v)}"
                    if v[0][1] is not d:
                        return f"the data given must be validated, got {S.show(v[0][1])[:200]}"
                    if v[0][2] != want:
                        return f"the schema of the type is required, got {S.show(v[0][2])[:300]}"
                    if v[0][3] is None or v[0][3] != ("format-checker", (), ()):
                        return f"a format checker is required, got {v[0][3]!r}"
                    if v[0][4] != want["$schema"]:
                        return f"the validator of {want['$schema']} is required, got {v[0][4]}"
                    js.invalid = True
                    try:
                        call(validate, tp, d)
                    except js.ValidationError:
                        return None
                    finally:
                        js.invalid = False
                    return "a validation error must get through"

                self.expect(f"validate {dn} against {n}", thunk)
        for n, x in {"number": 3, "instance": self.instance(w.A, v=1), "list": [int], "enum member": w.E.X, "tuple": (int,), "function": len}.items():
            def thunk(x=x):
                return self.refused(TypeError, lambda: call(self.schema, x)) or self.refused(TypeError, lambda: call(validate, x, 1)) or (None if not [a for a in js.asked if a[0] == "validate"] else "nothing may be validated")

            self.expect(f"schema of a {n}", thunk)

    # ------------------------------------------------------------------- text
    def text(self):
        w, call, M = self.w, self.A.call, self.A.I.M
        dumps, dump, show = self.api("serialization", "json_dump_string"), self.api("serialization", "json_dump"), self.api("schema", "print_schema")
        values = {
            "null": None, "true": True, "false": False, "zero": 0, "integer": -12, "float": 1.5, "big": 10**20, "string": "text", "empty": "", "quotes": 'a"b\\c', "control": "a\nb\tc\x00\x1f\x7f", "accents": "áéő", "wide": "日本語", "astral": "😀", "separators": "a, b: c\u2028",
            "array": [1, [2, []], {}], "empty array": [], "empty object": {}, "object": {"b": 1, "a": {"z": None, "y": [True]}, "é": "ü"}, "order": {"z": 1, "m": 2, "a": 3}, "keys": {"": 1, 'q"': 2, "a, b": 3, "a: b": 4},
            "array of objects": [{"b": 1, "a": 2}, {"z": [{"d": 1, "c": "é"}], "y": None}], "wide text in arrays": ["é", ["日本語"]], "deep": [[[{"b": [{"z": 1, "a": {}}], "a": [[]]}]]], "long": {f"k{9 - i}": [i] * i for i in range(10)},
        }
        for n, v in values.items():
            want = json.dumps(v, ensure_ascii=False, separators=(",", ":"))

            def string(v=v, want=want):
                r = call(dumps, v)
                return None if r == want else f"{want!r} is required, got {S.show(r)}"

            def file(v=v, want=want):
                f = models.StringIOModel()
                call(dump, v, f)
                r = f.getvalue()
                return None if r == want + "\n" else f"{want!r} and a line break are required, got {S.show(r)}"

            self.expect(f"json_dump_string of {n}", string)
            self.expect(f"json_dump of {n}", file)
        for n, tp in {"A": w.A, "B": w.B, "E": w.E, "P": w.P, "N": w.N}.items():
            def thunk(tp=tp):
                r = call(show, tp)
                text = M.stdout.getvalue()
                if r is not None or not isinstance(text, str):
                    return f"text must be printed, got {S.show(r)}"
                try:
                    got = json.loads(text)
                except ValueError:
                    return f"JSON is required, got {text[:200]!r}"
                want = call(self.schema, tp)
                return None if got == want and list(got) == list(want) else f"the schema of the type is required, got {text[:300]!r}"

            self.expect(f"print_schema of {n}", thunk)
