from .c22 import NODES
from .interchange import *

TOP = "https://json-schema.org/draft/2020-12/schema"


def flat(node, qualified, recursive):
    "Reference: (properties, required) of the flattened object, as lists of pairs."
    props, req = [], []
    for n, p in node.get("properties", {}).items():
        if p.get("type") != "object":
            props.append((n, p))
            if n in node.get("required", ()):
                req.append(n)
            continue
        if recursive:
            ip, ir = flat(p, qualified, recursive)
        else:
            ip, ir = list(p.get("properties", {}).items()), list(p.get("required", ()))
        pre = f"{n}." if qualified else ""
        props += [(pre + k, v) for k, v in ip]
        req += [pre + k for k in ir]
    return props, req


def differs(a, b, at=""):
    "None when the two JSON values are the same (abstract leaves by identity)."
    if is_sym(a) or is_sym(b):
        return None if a is b else f"{at}: {S.show(b)} is required, got {S.show(a)}"
    if type(a) in (int, float) and type(b) in (int, float):
        return None if a == b else f"{at}: {b!r} is required, got {a!r}"
    if type(a) is not type(b):
        return f"{at}: {S.show(b)} is required, got {S.show(a)}"
    if isinstance(a, dict):
        if set(a) != set(b):
            return f"{at}: keys {sorted(b)} are required, got {sorted(a)}"
        for k in a:
            d = differs(a[k], b[k], f"{at}/{k}")
            if d:
                return d
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return f"{at}: {S.show(b)} is required, got {S.show(a)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = differs(x, y, f"{at}[{i}]")
            if d:
                return d
        return None
    return None if a == b else f"{at}: {b!r} is required, got {a!r}"


class C23(InterchangeCheck):
    ID = "C23"
    RULE = ("flatten_schema interpreted on object schemas with up to three properties, each an object (up to three levels deep, with and without properties and required lists) or any other schema construct, with abstract documentation and default "
            "values, for every setting of the options, against the definition of flattening; the input schema must come out unchanged.")
    MIN_DECIDED = 300

    def run(self):
        self.setup()
        self.fn = self.api("classdef", "flatten_schema")
        self.opt = self.api("classdef", "SchemaFlatteningOptions")
        t, u = {"type": "integer"}, {"type": "string"}
        obj = lambda req=None, doc=None, **p: {"type": "object", **({"description": doc} if doc else {}), "properties": p, "additionalProperties": False, **({"required": req} if req is not None else {})}
        d, s = inp("doc", str), inp("def", int)
        for n, leaf in NODES.items():
            if leaf.get("type") == "object":
                continue
            self.case(f"{n} beside object", obj(["x"], x=leaf, o=obj(["y"], y=leaf, z=t)))
            self.case(f"{n} beside object, optional", obj(x=leaf, o=obj(y=leaf, z=t)))
            self.case(f"{n} two levels deep", obj(["w"], w=t, o=obj(["i"], i=obj(["y"], y=leaf, k=u))))
        leaves = {"documented": {**t, "title": d, "description": d}, "default": {**t, "default": s}, "default zero": {**t, "default": 0}, "default false": {"type": "boolean", "default": False}, "default empty": {"type": "string", "default": ""}, "default false const": {"type": "boolean", "const": False},
                  "reference": {"$ref": "#/definitions/D"}, "reference documented": {"$ref": "#/definitions/D", "description": d}, "examples": {**t, "examples": [1, 2]}, "array of objects": {"type": "array", "items": obj(["q"], q=t)}, "union of objects": {"oneOf": [obj(["q"], q=t), obj(r=u)]}}
        for n, leaf in leaves.items():
            self.case(f"{n} kept", obj(["x"], x=leaf, o=obj(["y"], y=leaf, z=leaf)), definitions={"D": obj(["q"], q=t)})
            self.case(f"{n} kept, optional", obj(x=leaf, o=obj(["z"], y=leaf, z=leaf)), definitions={"D": obj(["q"], q=obj(r=t))})
        # structure: which objects hold what, and what is required where
        reqs = lambda names: [None, [], *[[n] for n in names], list(names), list(reversed(names))]
        inners = {"empty": lambda r: obj(r), "one": lambda r: obj(r, p=t), "two": lambda r: obj(r, p=t, q=u), "nested": lambda r: obj(r, p=t, n=obj(["m"], m=t)), "nested two": lambda r: obj(r, n=obj(["m"], m=t, l=u), k=obj(j=u)), "nested deep": lambda r: obj(r, n=obj(["g"], m=t, g=obj(["h"], h=u, i=t)))}
        names = {"empty": [], "one": ["p"], "two": ["p", "q"], "nested": ["p", "n"], "nested two": ["n", "k"], "nested deep": ["n"]}
        for n, mk in inners.items():
            for r in reqs(names[n]) if names[n] else [None, []]:
                for outer in (None, [], ["o"], ["a"], ["a", "o", "b"], ["b", "a"]):
                    self.case(f"{n} requiring {r} in object requiring {outer}", obj(outer, a=t, o=mk(r), b=u))
                self.case(f"only {n} requiring {r}", obj(["o"], o=mk(r)))
        self.case("two objects", obj(["x"], x=obj(["a"], a=t, b=u), y=obj(["c"], c=t, d=u)))
        self.case("two objects, objects within both", obj(["x", "y"], x=obj(["a"], a=obj(["aa"], aa=t), b=u), y=obj(["c"], c=t, d=obj(dd=u))))
        self.case("objects around others", obj(["m", "x"], m=t, x=obj(["a"], a=t), n=u, y=obj(b=u), o=t))
        self.case("no properties", obj())
        self.case("free-form object", obj(["f"], f={"type": "object"}, a=t))
        self.case("free-form inner object", obj(["f"], f=obj(["g"], g={"type": "object"}, h=t), a=t))
        self.case("names with dots", obj(["x"], **{"x": t, "a.b": obj(["c.d"], **{"c.d": u, "e": t})}))
        self.case("same names, qualified", obj(["a"], x=obj(["a"], a=t, b=u), y=obj(["b"], a=u, b=t)), only_qualified=True)
        self.case("title", obj(["x"], x=t, o=obj(p=u)), title=d, description=d)
        self.case("definitions", obj(["x"], x={"$ref": "#/definitions/D"}), definitions={"D": obj(["q"], q=obj(r=t)), "E": u})
        # documented inner object: its own description has no place in the result
        self.case("documented inner object", obj(["x"], x=t, o=obj(["p"], "text", p=u)))

    def case(self, name, node, only_qualified=False, **more):
        "All settings of the options as one obligation; the first failing setting is the report."
        schema = {"$schema": TOP, **node, **more}
        settings = [(q, r, True) for q in (False, True) for r in (False, True)] + [(False, False, None)]

        def thunk():
            for q, r, options in settings:
                props, req = flat(schema, q, r)
                if len({n for n, _ in props}) != len(props):
                    continue
                arg = clone(schema)
                kw = {"options": self.A.call(self.opt, qualified_names=q, recursive=r)} if options else {}
                res = self.A.call(self.fn, arg, **kw)
                why = self.bad_result(schema, arg, res, props, req)
                if why:
                    return f"qualified_names={q}, recursive={r}: {why}"

        def acc(o):
            return o.describe() if o.exc is not None else o.value

        self.oblige(name, thunk, acc, concrete=lambda o, w: acc(o))

    def bad_result(self, schema, arg, res, props, req):
        want = {k: v for k, v in schema.items() if k not in ("properties", "required", "additionalProperties")}
        d = differs(arg, schema)
        if d:
            return f"the input schema is modified: {d}"
        if not isinstance(res, dict):
            return f"a schema is required, got {S.show(res)[:100]}"
        if res.get("additionalProperties") is not False:
            return f"additionalProperties must be false, got {S.show(res.get('additionalProperties'))}"
        got = res.get("properties") or {}
        if set(got) != {n for n, _ in props}:
            return f"properties {[n for n, _ in props]} are required, got {list(got)}"
        d = differs({k: norm(v) for k, v in got.items()}, {k: norm(v) for k, v in props}, "properties")
        if d:
            return d
        have = res.get("required") or []
        if sorted(have) != sorted(req):
            return f"exactly {sorted(req)} must be required, got {sorted(have)}"
        return differs({k: norm(v) for k, v in res.items() if k not in ("properties", "required", "additionalProperties")}, norm(want), "schema")


def clone(x):
    if isinstance(x, dict):
        return {k: clone(v) for k, v in x.items()}
    return [clone(v) for v in x] if isinstance(x, list) else x


def norm(x):
    "An empty list of required properties says the same as none."
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items() if not (k in ("required", "properties") and x.get("type") == "object" and not is_sym(v) and v in ([], {}))}
    return [norm(v) for v in x] if isinstance(x, list) else x
