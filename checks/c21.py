"""
Docstrings.  Texts are generated from a document grammar; the words are opaque letters that occur
nowhere in the analysed code, so that a text stands for all texts of its structure.
"""

import builtins
import inspect
import itertools

from .interchange import *

FIRST = 0x4E00


class Words:
    def __init__(self):
        self.n = 0

    def __call__(self):
        self.n += 2
        return chr(FIRST + self.n) + chr(FIRST + self.n + 1)


class C21(InterchangeCheck):
    ID = "C21"
    RULE = ("(a) parse_text on every structure of the document grammar (short and long description, any sequence of up to three known, unknown and malformed fields, each with single-line, multi-line, empty, colon-bearing descriptions, several layouts) returns exactly the parts the text was "
            "composed of; (b) str() of a Docstring with abstract parts contains every part once and in order, and reads back as the same parts; (c) parse_type and check_docstring raise TypeError exactly on the listed mismatches and otherwise assign the declared types, for every combination of declared and documented members.")
    MIN_DECIDED = 700

    def run(self):
        self.setup()
        self.parse_text = self.api("docstring", "parse_text")
        self.parse_type = self.api("docstring", "parse_type")
        self.check_docstring = self.api("docstring", "check_docstring")
        self.Docstring = self.api("docstring", "Docstring")
        self.parts = {k: self.api("docstring", k) for k in ("DocstringParam", "DocstringReturns", "DocstringRaises", "DocstringSeeAlso")}
        self.texts()
        self.printing()
        self.classes()
        self.functions()
        self.access()

    # ------------------------------------------------------------------- (a) parsing
    def texts(self):
        plain = ("param", "x", "one")
        fields = [(k, n, d) for k in ("param", "raises", "raise", "returns", "return", "see", "seealso") for n in ("x",) for d in ("one", "two lines", "next line", "blank line", "colon", "empty", "indented field", "tight", "spaces", "unindented", "punctuation", "three lines")]
        others = [("unknown", None, "one"), ("unknown two", None, "one"), ("malformed", None, "one"), ("bare colon", None, "one"), ("unknown", None, "two lines"), ("param alone", None, "one"), ("returns two", None, "one")]
        docs = []
        shorts, longs = ("none", "line", "two lines", "colon", "dots", "inner colon line"), ("none", "line", "paragraphs", "preformatted", "list", "with colon")
        for s in shorts:
            for lo in longs:
                if s == "none" and lo != "none":
                    continue
                for fs in ((), (plain,), (plain, ("returns", None, "one")), (("see", None, "two lines"),)):
                    for lay in ("own line", "first line", "flush", "no end"):
                        docs.append((s, lo, fs, lay))
        for f in fields + others:
            for s, lo in (("line", "none"), ("none", "none"), ("line", "paragraphs")):
                for lay in ("own line", "flush", "no end"):
                    docs.append((s, lo, (f,), lay))
        kinds = [(k, n, "two lines") for k, n in (("param", "x"), ("param", "y"), ("returns", None), ("raises", "x"), ("raise", "y"), ("see", None), ("seealso", None), ("return", None))] + others
        for a, b in itertools.product(kinds, repeat=2):
            if {a[0], b[0]} <= {"returns", "return"}:
                continue
            docs.append(("line", "line", (a, b), "own line"))
            docs.append(("none", "none", (a, b), "no end"))
        for t in itertools.permutations(kinds[:7], 3):
            docs.append(("line", "none", t, "own line"))
            if self.thorough:
                docs.append(("two lines", "paragraphs", t, "first line"))
        for t in itertools.product(fields if self.thorough else fields[::5], fields[::3]):
            if {t[0][0], t[1][0]} <= {"returns", "return"}:
                continue
            docs.append(("line", "none", t, "own line"))
        for d in dict.fromkeys(docs):
            self.text_obligation(*d)
        for t in ("", " ", "\n", "\n\n   \n", ":", "::", ":\n", ":a", ":a b c d", ": a", "a:", "a: b", ":param", ":param:", ":param :", ":param x", ":returns", ":raises", ":see", ":param x\n:param y: z", "a\n:", ":::", ":param x::", "\t:a", ": :", ":a\n:b\n:c"):
            self.total(t)

    def describe(self, w, kind, pad):
        "Lines of a field description and its normalised text."
        a, b, c = w(), w(), w()
        if kind == "one":
            return f" {a} {b}", f"{a} {b}"
        if kind == "two lines":
            return f" {a} {b}\n{pad}    {c}", f"{a} {b} {c}"
        if kind == "three lines":
            return f" {a}\n{pad}    {b}\n{pad}        {c}", f"{a} {b} {c}"
        if kind == "next line":
            return f"\n{pad}    {a}\n{pad}    {b} {c}", f"{a} {b} {c}"
        if kind == "blank line":
            return f" {a}\n\n{pad}    {b} {c}", f"{a} {b} {c}"
        if kind == "colon":
            return f" {a}: {b} :{c}:", f"{a}: {b} :{c}:"
        if kind == "empty":
            return "", ""
        if kind == "indented field":
            return f" {a}\n{pad}    :param {b}: {c}", f"{a} :param {b}: {c}"
        if kind == "tight":
            return f"{a} {b}", f"{a} {b}"
        if kind == "spaces":
            return f"   {a}  {b}\t{c}  ", f"{a} {b} {c}"
        if kind == "unindented":
            return f" {a}\n{pad}{b}", f"{a} {b}"
        return f" ({a}), `{b}`; [{c}]. 'x'", f"({a}), `{b}`; [{c}]. 'x'"

    def text_obligation(self, s, lo, fs, lay):
        w = Words()
        pad = "" if lay == "flush" else "    "
        short = long_ = None
        out = []
        if s == "line":
            short = f"{w()} {w()}"
            out.append(short)
        elif s == "two lines":
            a, b = f"{w()} {w()}", w()
            short = f"{a} {b}"
            out.append(f"{a}\n{pad}{b}")
        elif s == "colon":
            short = f"{w()}: {w()}:"
            out.append(short)
        elif s == "dots":
            short = f"{w()}. {w()}..."
            out.append(short)
        elif s == "inner colon line":
            a, b = w(), w()
            short = f"{a} :{b}: {a}"
            out.append(f"{a} :{b}:\n{pad}{a}")
        if lo != "none":
            a, b, c = w(), w(), w()
            text = {"line": f"{a} {b}", "paragraphs": f"{a} {b}\n{{p}}{c}\n\n{{p}}{b}\n\n\n{{p}}{c}", "preformatted": f"{a}\n\n{{p}}    {b}\n{{p}}        {c}\n{{p}}{a}", "list": f"{a}\n{{p}}* {b}\n{{p}}* {c}", "with colon": f"{a}: {b}\n{{p}} :{c}: {a}"}[lo]
            long_ = text.replace("{p}", "")
            out.append(text.replace("{p}", pad))
        params, raises, see, returns = {}, {}, [], None
        names = {}
        lines = []
        for k, n, d in fs:
            text, norm = self.describe(w, d, pad)
            nm = None
            if n is not None and k in ("param", "raise", "raises"):
                nm = names.setdefault((k[:5], n, len(names)), w())
            if k == "param":
                params[nm] = norm
            elif k in ("raise", "raises"):
                raises[nm] = norm
            elif k in ("return", "returns"):
                returns = norm
            elif k in ("see", "seealso"):
                see.append(norm)
            head = {"unknown": f":{w()}:", "unknown two": f":{w()} {w()}:", "malformed": f":{w()} {w()}", "bare colon": ":", "param alone": ":param:", "returns two": f":returns {w()}:"}.get(k) or (f":{k} {nm}:" if nm else f":{k}:")
            if k == "malformed":
                text = f" {w()}"
            if k == "bare colon":
                text = f" {w()}"
            lines.append(head + text)
        body = f"\n\n{pad}".join(out)
        if lines:
            body += (f"\n\n{pad}" if out else "") + f"\n{pad}".join(lines)
        text = {"own line": f"\n    {body}\n    ", "first line": body + "\n    ", "flush": f"\n{body}\n", "no end": f"\n    {body}"}[lay]
        self.parsed(f"{s} / {lo} / {', '.join('-'.join(str(x) for x in f if x) for f in fs)} / {lay}", text, short, long_, params, returns, raises, see)

    def view(self, d):
        g = self.A.I.getattr
        p, r = g(d, "params"), g(d, "raises")
        ret = g(d, "returns")
        return (g(d, "short_description"), g(d, "long_description"), [(k, g(v, "name"), g(v, "description")) for k, v in p.items()], None if ret is None else g(ret, "description"),
                [(k, g(v, "typename"), g(v, "description")) for k, v in r.items()], [g(v, "text") for v in g(d, "see_also")])

    def parsed(self, name, text, short, long_, params, returns, raises, see):
        want = (short, long_, [(k, k, v) for k, v in params.items()], returns, [(k, k, v) for k, v in raises.items()], see)
        label = ("short description", "long description", "params", "returns", "raises", "see also")

        def accept(o):
            if o.exc is not None:
                return f"parse_text({text!r}) raises {type(o.exc).__name__}"
            for n, x, y in zip(label, o.value, want):
                if x != y or type(x) is not type(y):
                    return f"{n} of {text!r}: got {x!r}, the text has {y!r}"

        self.oblige(f"parse {name}", lambda: self.view(self.A.call(self.parse_text, text)), accept)

    def total(self, text):
        self.oblige(f"parse {text!r}", lambda: self.view(self.A.call(self.parse_text, text)), lambda o: None if o.exc is None else f"parse_text({text!r}) raises {type(o.exc).__name__}")

    # ------------------------------------------------------------------ (b) printing
    def build(self, c, f):
        "Docstring of a combination of parts; f makes texts."
        P, call = self.parts, self.A.call
        short, long_, np, ret, nr, ns = c
        return call(self.Docstring, short_description=f("short") if short else None, long_description=f("long") if long_ else None,
                    params={f"p{i}": call(P["DocstringParam"], f"p{i}", f(f"param{i}")) for i in range(np)}, returns=call(P["DocstringReturns"], f("returns")) if ret else None,
                    raises={f"E{i}": call(P["DocstringRaises"], f"E{i}", f(f"raises{i}")) for i in range(nr)}, see_also=[call(P["DocstringSeeAlso"], f(f"see{i}")) for i in range(ns)])

    def printing(self):
        for c in itertools.product((0, 1), (0, 1), (0, 1, 2), (0, 1), (0, 1, 2), (0, 1, 2)):
            name = f"short={c[0]} long={c[1]} params={c[2]} returns={c[3]} raises={c[4]} see={c[5]}"
            order = ["short"] * c[0] + ["long"] * c[1] + [f"param{i}" for i in range(c[2])] + ["returns"] * c[3] + [f"raises{i}" for i in range(c[4])] + [f"see{i}" for i in range(c[5])]
            g = self.A.I.getattr

            def printed():
                at = {}

                def f(n):
                    at[n] = inp(n, str)
                    return at[n]

                r = self.A.call(str, self.build(c, f))
                return r, at

            def accept(o):
                if o.exc is not None:
                    return f"str() raises {type(o.exc).__name__}"
                r, at = o.value
                seq = [x for x in (r.args if is_sym(r) and r.op == "fmt" else (r,)) if is_sym(x)]
                for n in order:
                    k = sum(x is at[n] for x in seq)
                    if o.eqconst.get(at[n]) == "":
                        continue
                    if k != 1:
                        return f"{n} is written {k} times in {S.show(r)[:300]}"
                got = [x for x in seq if any(x is at[n] for n in order)]
                if [x for n in order for x in got if x is at[n]] != got:
                    return f"parts out of order in {S.show(r)[:300]}"

            self.oblige(f"print {name}", printed, accept)
            w = Words()
            texts = {}

            def word(n):
                if n not in texts:
                    texts[n] = w() if n != "long" else f"{w()}\n{w()}"
                return texts[n]

            if c[1] and not c[0]:
                continue  # a long description alone reads as a short one

            def again():
                d = self.build(c, word)
                t = self.A.call(str, d)
                return self.view(d), self.view(self.A.call(self.parse_text, t)), t

            def accept2(o):
                if o.exc is not None:
                    return f"raises {type(o.exc).__name__}"
                a, b, t = o.value
                return None if a == b else f"{t!r} reads as {b!r}, printed from {a!r}"

            self.oblige(f"print and parse {name}", again, accept2)
        for short, long_ in itertools.product((0, 1), repeat=2):
            def full():
                a, b = inp("s", str), inp("l", str)
                return self.A.I.getattr(self.A.call(self.Docstring, short_description=a if short else None, long_description=b if long_ else None), "full_description"), a, b

            def accept3(o):
                if o.exc is not None:
                    return f"raises {type(o.exc).__name__}"
                r, a, b = o.value
                want = [x for x, on in ((a, short), (b, long_)) if on and o.eqconst.get(x) != ""]
                got = [x for x in (r.args if is_sym(r) and r.op == "fmt" else (r,)) if is_sym(x)]
                return None if got == want and (r is not None or not want) else f"full_description is {S.show(r)}"

            self.oblige(f"full description short={short} long={long_}", full, accept3)

    # ---------------------------------------------------------- (c) mismatches: classes
    def document(self, params, returns=False, raises=()):
        if returns == "empty":  # fields without text are fields all the same
            return "Short.\n\n" + "".join(f":param {p}:\n" for p in params) + ":returns:\n" + "".join(f":raises {r}:\n" for r in raises)
        return "Short.\n\n" + "".join(f":param {p}: Text of {p}.\n" for p in params) + (":returns: Result.\n" if returns else "") + "".join(f":raises {r}: Text of {r}.\n" for r in raises)

    def classes(self):
        m = self.wmod("classes", '''
import enum
class LocalError(Exception):
    pass
class KeyError(LookupError):
    "Hides the built-in."
class NotAnError:
    pass
''')
        m.ValueErrorAlias = ValueError
        shapes = {"plain": (("a: int", "b: str"), ()), "one": (("a: int",), ()), "inherited": (("a: int", "b: str"), ("c: float",)), "none": ((), ()), "none inherited": ((), ("c: float",)), "string annotations": (("a: 'int'", "b: 'List[str]'"), ()), "annotated": (("a: Annotated[int, 'n']", "b: Optional[str] = None"), ())}
        kinds = {"a: int": int, "b: str": str, "c: float": float, "a: 'int'": int, "b: 'List[str]'": typing.List[str], "a: Annotated[int, 'n']": typing.Annotated[int, "n"], "b: Optional[str] = None": typing.Optional[str]}
        n = 0
        for frozen in (False, True):
            for sn, (own, base) in shapes.items():
                for k in range(4):
                    for docd in itertools.combinations(("a", "b", "z"), k):
                        for raises in ((), ("ValueError",), ("LocalError",), ("NoSuchError",), ("NotAnError",), ("KeyError",), ("ValueErrorAlias",)) if len(docd) < 2 else ((),):
                            n += 1
                            deco = f"@dataclass(frozen={frozen})\n"
                            define(m, (f"{deco}class Base{n}:\n" + "".join(f"    {f}\n" for f in base or ("pass",)) if base else "") + f"{deco}class Data{n}{f'(Base{n})' if base else ''}:\n" + "".join(f"    {f}\n" for f in own or ("pass",)))
                            cls = getattr(m, f"Data{n}")
                            text = self.document(docd, raises=raises)
                            cls.__doc__ = text
                            names = {f.split(":")[0]: kinds[f] for f in own}
                            self.expect(f"data class {sn} {'frozen ' if frozen else ''}documenting {','.join(docd)} raising {','.join(raises)}", cls, text, names, docd, False, None, raises, {"ValueError": ValueError, "LocalError": m.LocalError, "KeyError": m.KeyError, "ValueErrorAlias": ValueError}, [f for f in names])
        for i, (bn, body) in enumerate({"method": "def z(self) -> None:\n        pass", "property": "@property\n    def z(self) -> int:\n        return 1", "class method": "@classmethod\n    def z(cls) -> None:\n        pass",
                                        "attribute": "z = 1", "nested class": "class z:\n        pass", "static method": "@staticmethod\n    def z() -> int:\n        return 1"}.items()):
            for docd in (("z",), ("a", "z"), ("a",), ("__init__",), ("__eq__",)):
                n += 1
                define(m, f"@dataclass\nclass Data{n}:\n    a: int\n\n    {body}\n")
                cls = getattr(m, f"Data{n}")
                cls.__doc__ = text = self.document(docd)
                self.expect(f"data class with {bn} z documenting {','.join(docd)}", cls, text, {"a": int}, docd, False, None, (), {}, ["a"])
        for sn, src in {"no docstring": "@dataclass\nclass NoDoc:\n    a: int\n", "plain class": "class PlainDoc:\n    'Text.'\n    a: int\n", "enum": "class EnDoc(enum.Enum):\n    'Text.'\n    A = 1\n"}.items():
            define(m, src)
            cls = getattr(m, src.split("class ")[1].split(":")[0].split("(")[0])

            def accept(o, sn=sn):
                if o.exc is not None:
                    return f"raises {type(o.exc).__name__}"
                want = (None if sn == "no docstring" else "Text.", None, [], None, [], [])
                return None if o.value == want else f"got {o.value!r}, declared {want!r}"

            self.oblige(f"parse {sn}", lambda: self.view(self.A.call(self.parse_type, cls)), accept)

    def expect(self, name, obj, text, declared, docd, ret_doc, ret, raises, known, must):
        "Outcome of parse_type and of check_docstring, lenient and strict."
        g, E_ = self.A.I.getattr, inspect.Signature.empty
        mismatch = any(d not in declared for d in docd) or (ret_doc and ret is E_)
        unknown = any(r not in known for r in raises)
        missing = any(p not in docd for p in must) or (ret is not None and ret is not E_ and not ret_doc)

        def types_():
            d = self.A.call(self.parse_type, obj)
            return {k: g(v, "param_type") for k, v in g(d, "params").items()}, (g(g(d, "returns"), "return_type") if g(d, "returns") is not None else None), {k: g(v, "raise_type") for k, v in g(d, "raises").items()}

        def accept(o):
            if mismatch or unknown:
                return None if isinstance(o.exc, TypeError) else f"TypeError required for {text!r}, " + (f"raises {type(o.exc).__name__}" if o.exc else "accepted")
            if o.exc is not None:
                return f"{text!r} fits the declaration but raises {type(o.exc).__name__}: {o.exc}"
            want = ({k: declared[k] for k in docd}, (ret if ret_doc else None), {r: known[r] for r in raises})
            return None if o.value == want and all(x is want[2][k] for k, x in o.value[2].items()) else f"assigned types {o.value!r}, declared {want!r}"

        self.oblige(f"parse {name}", types_, accept)
        for strict in (None, False, True):
            def check():
                d = self.A.call(self.parse_text, text)
                return self.A.call(self.check_docstring, obj, d) if strict is None else self.A.call(self.check_docstring, obj, d, strict=strict)

            bad = mismatch or (strict and missing)

            def accept2(o):
                if bad:
                    return None if isinstance(o.exc, TypeError) else f"TypeError required for {text!r}, " + (f"raises {type(o.exc).__name__}" if o.exc else "accepted")
                return None if o.exc is None else f"{text!r} fits the declaration but raises {type(o.exc).__name__}: {o.exc}"

            self.oblige(f"check {name} strict={strict}", check, accept2)

    # --------------------------------------------------------- (c) mismatches: functions
    def functions(self):
        m = self.wmod("functions", '''
class LocalError(Exception):
    pass
''')
        E_ = inspect.Signature.empty
        sigs = {"none": "", "two": "a: int, b: str", "positional only": "a: int, /, b: str", "keyword only": "a: int, *, b: str", "variadic": "*a: int, **b: str", "defaults": "a: int = 1, b: str = ''", "unannotated": "a, b", "member": "self, a: int, b: str", "member keyword self": "a: int, *, self: str", "class member": "cls, a: int, b: str", "member positional self": "self, /, a: int, b: str", "this": "this, a: int", "string": "a: 'int', b: 'str'"}
        n = 0
        for sn, sig in sigs.items():
            for rn, ret in {"": E_, "-> None": _NONE, "-> int": int, "-> 'str'": str}.items():
                for prefix in ("def", "async def"):
                    if prefix == "async def" and (sn not in ("two", "member") or rn not in ("", "-> int")):
                        continue
                    for docd in ((), ("a",), ("b",), ("a", "b"), ("b", "a"), ("z",), ("a", "b", "z"), ("self",), ("a", "b", "self")):
                        for rd in (False, True, "empty") if sn in ("two", "unannotated", "member") else (False, True):
                            for raises in ((), ("ValueError",), ("LocalError",), ("Nope",)) if docd == ("a", "b") else ((),):
                                n += 1
                                define(m, f"{prefix} func{n}({sig}) {rn}:\n    pass\n")
                                fn = getattr(m, f"func{n}")
                                text = self.document(docd, rd, raises)
                                fn.__doc__ = text
                                ps = inspect.signature(fn, eval_str=True).parameters
                                declared = {k: p.annotation for k, p in ps.items()}
                                must = [k for k, p in ps.items() if not (k == "self" and p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD))]
                                self.expect(f"{prefix} ({sig}) {rn} documenting {','.join(docd)}{f' and return {rd}' if rd else ''} raising {','.join(raises)}", fn, text, declared, docd, rd, ret, raises, {"ValueError": ValueError, "LocalError": m.LocalError}, must)

    # --------------------------------------------------------------- presence of docstrings
    def access(self):
        gd, hd = self.api("docstring", "get_docstring"), self.api("docstring", "has_docstring")
        m = self.wmod("access", '''
class LocalError(Exception):
    pass
''')
        cases = {"class with text": ("class K0:\n    'Text.'\n", "Text."), "class without": ("class K1:\n    pass\n", None), "data class without": ("@dataclass\nclass K2:\n    a: int\n    b: List[str]\n", None), "data class with": ("@dataclass\nclass K3:\n    'Text.'\n    a: int\n", "Text."),
                 "data class whose text starts with its name": ("@dataclass\nclass K4:\n    'K4 is a (data) class'\n    a: int\n", "K4 is a (data) class"), "enum with": ("class K5(enum.Enum):\n    'Text.'\n    A = 1\n", "Text."), "function with": ("def K6():\n    'Text.'\n", "Text."), "function without": ("def K7():\n    pass\n", None),
                 "empty data class": ("@dataclass\nclass K8:\n    pass\n", None), "data class with text of another signature": ("@dataclass\nclass K9:\n    'Other(a: int)'\n    a: int\n", "Other(a: int)"), "data class with several lines": ("@dataclass\nclass K10:\n    'K10(a)\\n\\nMore.'\n    a: int\n", "K10(a)\n\nMore."), "old enum default": ("class K11(enum.Enum):\n    'An enumeration.'\n    A = 1\n", None),
                 "class with the old enum default": ("class K12:\n    'An enumeration.'\n", "An enumeration.")}
        for i, (n, (src, want)) in enumerate(cases.items()):
            define(m, src)
            o = getattr(m, f"K{i}")
            self.oblige(f"get_docstring of {n}", lambda: (self.A.call(gd, o), self.A.call(hd, o)), lambda r: None if r.exc is None and r.value == (want, want is not None) else f"got {r.value if r.exc is None else type(r.exc).__name__}, declared {want!r}")


class _None:
    "The return annotation None, as opposed to no return value being documented."

    def __eq__(self, other):
        return other is None

    def __ne__(self, other):
        return other is not None

    __hash__ = object.__hash__


_NONE = _None()
