from .interchange import *
from .witness import FIELD_NAMES


class C05(InterchangeCheck):
    ID = "C05"
    RULE = ("For every class kind (data class, named tuple, annotated class), every lexical class of field name, with and without Alias and with other annotations: the property name in the "
            "serializer's output, the one the decoder reads, the schema's properties/required and the tag a union dispatches on all equal the stated name function of (field name, annotations).")
    MIN_DECIDED = 150

    def run(self):
        self.setup()
        self.schema = self.api("schema", "classdef_to_schema")
        A = self.elems.make("ElemA", ("JsonTypeError",))
        anns = {
            "plain": ("{t}", None), "alias": ('Annotated[{t}, Alias("$prop-1")]', "$prop-1"), "note": ('Annotated[{t}, "note"]', None),
            "note and alias": ('Annotated[{t}, "note", Alias("prop")]', "prop"), "alias like another field": ('Annotated[{t}, Alias("from_")]', "from_"),
            "keyword alias": ('Annotated[{t}, Alias("class")]', "class"), "optional": ("Optional[{t}]", None), "optional in alias": ('Annotated[Optional[{t}], Alias("opt")]', "opt"),
        }
        count = 0
        for an, (tpl, alias) in anns.items():
            for fi, f in enumerate(FIELD_NAMES):
                if an not in ("plain", "alias") and f not in ("a", "from_", "trailing_", "camelCase"):
                    continue
                for kind in ("dataclass", "namedtuple", "class", "postponed dataclass", "frozen dataclass", "inherited dataclass"):
                    if kind == "namedtuple" and f.startswith("_"):
                        continue
                    if kind in ("frozen dataclass", "inherited dataclass") and f not in ("a", "from_", "trailing_", "_private"):
                        continue
                    t = tpl.format(t="int")
                    count += 1
                    body = f"    other: int\n    {f}: {t}\n"
                    src = {
                        "dataclass": "@dataclass\nclass C:\n" + body, "frozen dataclass": "@dataclass(frozen=True)\nclass C:\n" + body, "namedtuple": "class C(NamedTuple):\n" + body,
                        "class": "class C:\n" + body, "postponed dataclass": f"@dataclass\nclass C:\n    other: 'int'\n    {f}: {t!r}\n",
                        "inherited dataclass": f"@dataclass\nclass B:\n    {f}: {t}\n@dataclass\nclass C(B):\n    other: int\n",
                    }[kind]
                    m = self.wmod(f"t{count}", src)
                    opt = "ptional" in an
                    self.name_of(f"{kind} field {f} ({an})", m.C, f, self.rule(f, alias), opt)
        self.typed()
        self.tags()

    def typed(self):
        "The name does not depend on the type of the field."
        import uuid
        A = self.elems.make("ElemT", ("JsonTypeError",))
        B = self.elems.make("ElemU", ("JsonTypeError",))
        x = inp("y", int)
        types_ = {"int": (lambda m: x, x), "str": (lambda m: inp("s", str), inp("s", str)), "bool": (lambda m: inp("b", bool), inp("b", bool)), "List[int]": (lambda m: [x], [x]), "Dict[str, int]": (lambda m: {"k": x}, {"k": x}),
                  "Color": (lambda m: m.Color.RED, "r"), "Inner": (lambda m: self.instance(m.Inner, from_=x), {"from": x}), "Tuple[int, int]": (lambda m: (x, 1), [x, 1]), "Literal['q']": (lambda m: "q", "q"),
                  "Union[int, str]": (lambda m: 5, 5), "None": (lambda m: None, None), "'Inner'": (lambda m: self.instance(m.Inner, from_=x), {"from": x})}
        anns = {"plain": "{t}", "optional": "Optional[{t}]", "alias": 'Annotated[{t}, Alias("prop")]', "optional alias": 'Annotated[Optional[{t}], Alias("prop")]'}
        n = 0
        for t, (value, data) in types_.items():
            for an, tpl in anns.items():
                if t == "None" and an != "plain":
                    continue
                for f in ("from_", "trailing_"):
                    prop = self.rule(f, "prop" if "alias" in an else None)
                    for kind in ("dataclass", "namedtuple", "class"):
                        n += 1
                        h = {"dataclass": "@dataclass\nclass C:\n", "class": "class C:\n", "namedtuple": "class C(NamedTuple):\n"}[kind]
                        m = self.wmod(f"w{n}", "class Color(Enum):\n    RED = 'r'\n\n@dataclass\nclass Inner:\n    from_: int\n\n" + h + f"    other: int\n    {f}: {tpl.format(t=t)}\n")
                        self.name_of(f"{kind} field {f} of type {t} ({an})", m.C, f, prop, "optional" in an or t == "None" and None, lambda m=m: value(m), data)

    @staticmethod
    def rule(f, alias):
        import keyword

        return alias if alias else (f[:-1] if f.endswith("_") and keyword.iskeyword(f[:-1]) else f)

    def name_of(self, name, cls, f, prop, opt, value=None, y=inp("y", int)):
        x = inp("x", int)
        call = self.A.call
        value = value or (lambda: y)
        keys = {"other"} if y is None else {"other", prop}
        self.oblige(f"serializer: {name}", lambda: call(self.object_to_json, self.instance(cls, **{"other": x, f: value()})),
                    lambda o: None if o.exc is None and type(o.value) is dict and set(o.value) == keys and (y is None or o.value[prop] is y or not is_sym(y) and o.value[prop] == y) and o.value["other"] is x
                    else f"the property must be written as {prop!r}; {self.text(('return', o.value) if o.exc is None else ('raise', o.exc))}",
                    concrete=lambda o, w: f"the property must be written as {prop!r}; {o.describe()[:300]}")
        if y is not None:
            self.decode(f"decoder: {name}", cls, lambda: {"other": x, prop: y})
        for wrong in {f, f.rstrip("_"), f + "_"} - {prop}:
            if y is not None:
                self.decode(f"decoder: {name} given as {wrong!r}", cls, lambda: {"other": x, wrong: y}, skip=True)
                self.decode(f"decoder: {name} given as {wrong!r}, strict", cls, lambda: {"other": x, wrong: y})
                self.decode(f"decoder: {name} given also as {wrong!r}", cls, lambda: {"other": x, prop: y, wrong: inp("z", int)})

        def schema(o):
            if o.exc is not None:
                return f"the schema must list {prop!r}; {o.describe()}"
            s = o.value
            if type(s) is not dict or type(s.get("properties")) is not dict:
                return f"no properties in the schema {S.show(s)}"
            want = {"other"} if opt else {"other", prop}
            if set(s["properties"]) != {"other", prop}:
                return f"schema properties are {sorted(s['properties'])}, expected {sorted(['other', prop])}"
            req = s.get("required", [])
            if set(req) != want or len(req) != len(want):
                return f"schema lists {sorted(req)} as required, expected {sorted(want)}"

        self.oblige(f"schema: {name}", lambda: call(self.schema, cls), schema, concrete=lambda o, w: schema(o))

    def tags(self):
        n = 0
        for f in FIELD_NAMES:
            for alias in (None, "$type", "from_"):
                prop = self.rule(f, alias)
                a = lambda v: f"Literal[{v!r}]" if alias is None else f"Annotated[Literal[{v!r}], Alias({alias!r})]"
                for kind in ("dataclass", "class", "namedtuple"):
                    if kind == "namedtuple" and f.startswith("_"):
                        continue
                    n += 1
                    h = {"dataclass": "@dataclass\nclass {c}:\n", "class": "class {c}:\n", "namedtuple": "class {c}(NamedTuple):\n"}[kind]
                    m = self.wmod(f"u{n}", "".join(h.format(c=c) + f"    {f}: {a(v)}\n    other: int\n" for c, v in (("U1", "one"), ("U2", "two"))))
                    x = inp("x", int)
                    for v in ("one", "two"):
                        self.decode(f"tag: {kind} field {f} (alias {alias}) = {v}", typing.Union[m.U1, m.U2], lambda: {prop: v, "other": x})
