from .c22 import C22, same
from .interchange import *

INTS = {f"{u}int{b}": (not u, b) for u in ("", "u") for b in (8, 16, 32, 64)}
FLOATS = {"float32": 4, "float64": 8}


class C25(C22):
    ID = "C25"
    RULE = ("Every fixed-width type as the interpreted module auxiliary leaves it: signedness, storage size and range recomputed from the bit width in the name; format lookup, printed names and generated schemas for each type, alone, optional, in containers and "
            "with further annotations, and for near misses that must not be taken for one; the range-to-type mapping at and around every power-of-two boundary, for constant and for arbitrary bounds; schema and type converted back and forth.")
    MIN_DECIDED = 120

    def run(self):
        self.setup()
        self.aux = self.A.mod("auxiliary")
        self.n = 0
        self.fmt = self.api("auxiliary", "get_auxiliary_format")
        self.tostr, self.toname = self.api("name", "python_type_to_str"), self.api("name", "python_type_to_name")
        self.schema = self.api("schema", "classdef_to_schema")
        self.fn = self.api("classdef", "schema_to_type")
        self.types = {n: self.api("auxiliary", n) for n in [*INTS, *FLOATS]}
        self.constants()
        self.formats()
        self.annotations()
        self.decorator()
        self.ranges()
        self.back()

    def check(self, name, thunk):
        def acc(o):
            return o.describe() if o.exc is not None else o.value

        self.oblige(name, thunk, acc, concrete=lambda o, w: acc(o))

    def meta(self, tp, cls):
        return [m for m in getattr(tp, "__metadata__", ()) if type(m) is cls]

    def constants(self):
        aux = self.aux
        for n, (signed, bits) in INTS.items():
            def thunk(n=n, signed=signed, bits=bits):
                tp = self.types[n]
                if typing.get_origin(tp) is not typing.Annotated or tp.__origin__ is not int:
                    return f"{n} must be an annotated int, got {tp}"
                s, b, r = self.meta(tp, aux.Signed), self.meta(tp, aux.Storage), self.meta(tp, aux.IntegerRange)
                if len(tp.__metadata__) != 3 or not (len(s) == len(b) == len(r) == 1):
                    return f"{n} must have signedness, storage and range, got {tp.__metadata__}"
                lo, hi = (-(2 ** (bits - 1)), 2 ** (bits - 1) - 1) if signed else (0, 2**bits - 1)
                if s[0].is_signed is not signed:
                    return f"{n} must be {'signed' if signed else 'unsigned'}"
                if b[0].bytes != bits // 8:
                    return f"{n} must take {bits // 8} bytes, not {b[0].bytes}"
                if (r[0].minimum, r[0].maximum) != (lo, hi):
                    return f"{n} must range over {lo}..{hi}, not {r[0].minimum}..{r[0].maximum}"

            self.check(f"constants of {n}", thunk)
        for n, size in FLOATS.items():
            def thunk(n=n, size=size):
                tp = self.types[n]
                b = self.meta(tp, aux.Storage)
                if typing.get_origin(tp) is not typing.Annotated or tp.__origin__ is not float or len(tp.__metadata__) != 1 or len(b) != 1 or b[0].bytes != size:
                    return f"{n} must be a float of {size} bytes, got {tp}"

            self.check(f"constants of {n}", thunk)

    def formats(self):
        call, aux = self.A.call, self.aux
        for n, tp in self.types.items():
            def eq(fn, want, arg, **k):
                def thunk():
                    r = call(fn, arg, **k)
                    if r != want:
                        return f"{want!r} is required, got {S.show(r)[:200]}"
                return thunk

            rebuilt = typing.Annotated[(tp.__origin__, *tp.__metadata__)]
            A = typing.Annotated
            self.check(f"format of {n}", eq(self.fmt, n, tp))
            self.check(f"format of {n} spelled out", eq(self.fmt, n, rebuilt))
            self.check(f"text of {n}", eq(self.tostr, n, tp))
            self.check(f"text of {n} spelled out", eq(self.tostr, n, rebuilt))
            self.check(f"name of {n}", eq(self.toname, n, tp))
            self.check(f"forced name of {n}", eq(self.toname, n, tp, force=True))
            self.check(f"text of list of {n}", eq(self.tostr, f"list[{n}]", typing.List[tp]))
            self.check(f"text of optional {n}", eq(self.tostr, f"Optional[{n}]", typing.Optional[tp]))
            self.check(f"text of dict to {n}", eq(self.tostr, f"dict[str, {n}]", typing.Dict[str, tp]))
            self.check(f"text of {n} | None", eq(self.tostr, f"{n} | None", typing.Optional[tp], use_union_operator=True))
            self.check(f"name of list of {n}", eq(self.toname, f"List__{n}", typing.List[tp], force=True))
            self.check(f"text of {n} with annotation", eq(self.tostr, f"Annotated[{n}, 'x']", A[tp, "x"]))
            self.check(f"text of {n} with two annotations", eq(self.tostr, f"Annotated[{n}, 'x', 5]", A[tp, "x", 5]))
            self.check(f"format of {n} with annotation", eq(self.fmt, None, A[tp, "x"]))
            js = "integer" if n in INTS else "number"
            for label, t, path in (("alone", tp, ()), ("in list", typing.List[tp], ("items",)), ("in dict", typing.Dict[str, tp], ("additionalProperties",))):
                def thunk(t=t, path=path, n=n, js=js):
                    r = call(self.schema, t)
                    for p in path:
                        r = r[p]
                    if r.get("type") != js or r.get("format") != n:
                        return f"type {js} and format {n} are required, got {S.show(r)}"

                self.check(f"schema of {n} {label}", thunk)
        near = {"int": int, "float": float, "str": str, "annotated int": typing.Annotated[int, "x"], "signed int": typing.Annotated[int, aux.Signed(True)], "4-byte int": typing.Annotated[int, aux.Storage(4)], "16-byte float": typing.Annotated[float, aux.Storage(16)], "4-byte str": typing.Annotated[str, aux.Storage(4)],
                "int32 range, unsigned": typing.Annotated[int, aux.Signed(False), aux.Storage(4), aux.IntegerRange(-(2**31), 2**31 - 1)], "int32 off by one": typing.Annotated[int, aux.Signed(True), aux.Storage(4), aux.IntegerRange(-(2**31), 2**31)], "int24": typing.Annotated[int, aux.Signed(True), aux.Storage(3), aux.IntegerRange(-(2**23), 2**23 - 1)], "none": None}
        for n, tp in near.items():
            def thunk(tp=tp):
                r = call(self.fmt, tp)
                if r is not None:
                    return f"no format is required, got {S.show(r)}"
                if tp is not None:
                    r = call(self.tostr, tp)
                    if r in self.types:
                        return f"{tp} is not {r}"

            self.check(f"near miss: {n}", thunk)

    def annotations(self):
        "Annotation objects are values: equal iff all members are, hashable, printed with their members."
        call, aux = self.A.call, self.aux
        from absint.engine import Engine  # noqa: F401
        E = self.A.E
        cases = {"Alias": (("a",), ("b",)), "Signed": ((True,), (False,)), "Storage": ((4,), (8,)), "IntegerRange": ((0, 5), (1, 5), (0, 6)), "Precision": ((5, 2), (5, 3), (6, 2)), "TimePrecision": ((3,), (6,)), "Length": ((3,), (4,)), "MinLength": ((3,), (4,)), "MaxLength": ((3,), (4,)), "SpecialConversion": ((),)}
        for n, argss in cases.items():
            cls = self.api("auxiliary", n)

            def thunk(n=n, cls=cls, argss=argss):
                objs = [cls(*a) for a in argss]
                for i, a in enumerate(argss):
                    twin = cls(*a)
                    if not (twin == objs[i]) or hash(twin) != hash(objs[i]):
                        return f"two {n}{a} must be equal and hash alike"
                    for j, o in enumerate(objs):
                        if i != j and o == objs[i]:
                            return f"{n}{a} must differ from {n}{argss[j]}"
                    want = f"{n}({', '.join(map(repr, a))})"
                    r = call(repr, twin)
                    if r != want:
                        return f"{want!r} is required as text, got {S.show(r)}"

            self.check(f"annotation {n}", thunk)

        p = self.api("auxiliary", "Precision")

        def thunk():
            if p(7, 3).integer_digits != 4 or p(7).decimal_digits != 0 or p(7).integer_digits != 7:
                return "integer digits are the significant digits less the decimal digits"

        self.check("precision digits", thunk)

    def decorator(self):
        "User-defined annotation classes: data classes with value semantics and a positional text."
        import dataclasses
        call, E, I = self.A.call, self.A.E, self.A.I
        text = I.M.repr_
        deco, base = self.api("auxiliary", "typeannotation"), self.api("auxiliary", "CompactDataClass")
        bodies = {"no field": ("pass", []), "one field": ("a: int", ["a"]), "three fields": ("z: int\n    a: str\n    m: list", ["z", "a", "m"]), "default": ("a: int\n    b: str = 'd'", ["a", "b"]), "class variable": ("a: int\n    k: typing.ClassVar[int] = 3", ["a"]),
                  "method": ("a: int\n    def twice(self): return 2", ["a"]), "hidden field": ("a: int\n    b: int = field(repr=False, default=2)", ["a", "b"])}
        forms = {"": {}, " with parentheses": {"()": 1}, " without equality": {"eq": False}, " with order": {"order": True}, " with equality and order": {"eq": True, "order": True}}
        n = [0]

        def decl(body, head="class C:"):
            n[0] += 1
            return self.wmod(f"deco{n[0]}", f"{head}\n    {body}\n", Base=base).C

        def rep(o, fields):
            want = [f"{type(o).__name__}("]
            for i, f in enumerate(fields):
                want += ([", "] if i else []) + [text(getattr(o, f))]
            want.append(")")
            r = want[0]
            for x in want[1:]:
                r = I.binop("Add", r, x)
            got = text(o)
            if got is not r and not E.eq(got, r):
                return f"{S.show(r)} is required as text, got {S.show(got)}"

        for bn, (body, fields) in bodies.items():
            for fn, kw in forms.items():
                def thunk(body=body, fields=fields, kw=kw):
                    c = decl(body)
                    names = set(vars(c))
                    opts = {k: v for k, v in kw.items() if k != "()"}
                    r = call(call(deco, **opts), c) if kw else call(deco, c)
                    if r is not c:
                        return f"the class itself must be returned, got {S.show(r)}"
                    p = getattr(c, "__dataclass_params__", None)
                    if p is None or [f.name for f in dataclasses.fields(c)] != fields:
                        return "a data class of the declared fields is required"
                    if not p.frozen or p.eq is not opts.get("eq", True) or p.order is not opts.get("order", False) or not p.init:
                        return f"immutable, equality {opts.get('eq', True)} and order {opts.get('order', False)} are required, got {p}"
                    a, b = (c(*[10 * k + i for i in range(len(fields))]) for k in (1, 2))
                    twin = c(*[10 + i for i in range(len(fields))])
                    if opts.get("eq", True) and (a != twin or hash(a) != hash(twin) or fields and a == b):
                        return "objects are equal iff all members are, and hash alike"
                    if opts.get("order") and fields and not (a < b and b > a and a <= twin):
                        return "objects are ordered by their members"
                    if names - set(vars(c)):
                        return f"{names - set(vars(c))} got lost"
                    return rep(c(*[inp(f"v{i}", int, str, NoneType) for i in range(len(fields))]), fields)

                self.check(f"typeannotation{fn} on a class with {bn}", thunk)
            for dn, d in {"": "@dataclass", ", no text of its own": "@dataclass(repr=False)", ", mutable and ordered": "@dataclass(order=True)"}.items():
                def thunk(body=body, fields=fields, d=d):
                    c = decl(body, d + "\nclass C:")
                    before = c.__dataclass_params__, c.__dataclass_fields__
                    if call(deco, c) is not c:
                        return "the class itself must be returned"
                    if (c.__dataclass_params__, c.__dataclass_fields__) != before:
                        return "a data class stays as declared"
                    return rep(c(*[inp(f"v{i}", int, str, NoneType) for i in range(len(fields))]), fields)

                self.check(f"typeannotation on a data class with {bn}{dn}", thunk)

            def thunk(body=body, fields=fields):
                c = decl(body, "@dataclass(repr=False)\nclass C(Base):")
                return rep(c(*[inp(f"v{i}", int, str, NoneType) for i in range(len(fields))]), fields)

            self.check(f"compact data class with {bn}", thunk)

        def thunk():
            c = decl("pass", "class C(Base):")
            r = text(c())
            return None if r == "C" else f"the name of the class is required, got {S.show(r)}"

        self.check("compact class without fields", thunk)

        def thunk():
            c = decl("a: int\n    b: 'C' = None", "@dataclass(repr=False)\nclass C(Base):")
            r = text(c(1, c("x", [c(2)])))
            return None if r == "C(1, C('x', [C(2, None)]))" else f"nested objects keep the compact text, got {S.show(r)}"

        self.check("nested compact data classes", thunk)

    def back(self):
        call = self.A.call
        top = lambda s: {"$schema": "https://json-schema.org/draft/2020-12/schema", "type": "object", "properties": {"p": s}, "additionalProperties": False, "required": ["p"]}
        for n in ("int16", "int32", "int64", "float32", "float64"):
            def thunk(n=n):
                m, base = self.fresh()
                s = call(self.schema, self.types[n])
                s = {k: v for k, v in s.items() if not k.startswith("$")}
                t = call(self.fn, top(s), module=m, class_name="Top")
                got = {f.name: f.type for f in __import__("dataclasses").fields(t)}["p"]
                if not same(got, self.types[n]):
                    return f"{n} must come back as {n}, got {got}"

            self.check(f"{n} to schema and back", thunk)
        for n, (signed, bits) in INTS.items():
            lo, hi = (-(2 ** (bits - 1)), 2 ** (bits - 1) - 1) if signed else (0, 2**bits - 1)

            def thunk(n=n, lo=lo, hi=hi):
                m, base = self.fresh()
                t = call(self.fn, top({"type": "integer", "minimum": lo, "maximum": hi}), module=m, class_name="Top")
                got = {f.name: f.type for f in __import__("dataclasses").fields(t)}["p"]
                if not same(got, self.width(lo, hi)):
                    return f"{lo}..{hi} must be {self.width(lo, hi)}, got {got}"

            self.check(f"range of {n} to type", thunk)
