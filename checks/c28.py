import collections.abc
import enum

from .interchange import *

T = typing
NAMES = {dict: "dict", list: "list", set: "set", frozenset: "frozenset", tuple: "tuple", type: "type"}
UNIONS = (typing.Union, type(int | str))


class C28(InterchangeCheck):
    ID = "C28"
    RULE = ("Type names computed by abstract interpretation for every type expression of a grammar (simple types and classes of every kind, None, Any, Ellipsis, auxiliary types, type variables, forward references; list, dict, set, frozenset, tuple, type, "
            "Optional, Union, |, Literal, Annotated, Callable and user-defined generics over them, nested two levels, in both spellings) against a reference printer; the formatter with every combination of its options and a context module.")
    MIN_DECIDED = 400

    def run(self):
        self.setup()
        self.aux = self.A.mod("auxiliary")
        self.auxnames = {n: self.api("auxiliary", n) for n in ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64")}
        self.tostr, self.toname, self.Fmt = self.api("name", "python_type_to_str"), self.api("name", "python_type_to_name"), self.api("name", "TypeFormatter")
        m = self.m = self.wmod("names", '''
class En(Enum):
    A = "a"
    B = "b"
class Plain:
    pass
@dataclass
class DC:
    a: int
class NT(NamedTuple):
    a: int
X = typing.TypeVar("X")
Y = typing.TypeVar("Y")
class G(typing.Generic[X]):
    pass
class G2(typing.Generic[X, Y]):
    pass
class Outer:
    class Inner:
        pass
AliasOfList = List[int]
''')
        ax, An = self.aux, T.Annotated
        Self = self.api("name", "Self")
        leaves = {"int": int, "str": str, "bytes": bytes, "None": type(None), "Any": T.Any, "En": m.En, "Plain": m.Plain, "DC": m.DC, "NT": m.NT, "Inner": m.Outer.Inner, "list": list, "object": object, "X": m.X, "int8": ax.int8, "uint64": ax.uint64, "float32": ax.float32, "Self": Self}
        lits = {"L1": T.Literal["a"], "L2": T.Literal["a", "b'\"\n"], "L3": T.Literal[3, 1, 2], "L4": T.Literal[True], "L5": T.Literal[m.En.A], "L6": T.Literal["", None], "L7": T.Literal[0, False]}
        anns = {"A1": An[int, "x"], "A2": An[str, "x", 7], "A3": An[m.DC, ax.Alias("a")], "A4": An[ax.int32, "x"], "A5": An[ax.int32, ax.Alias("q"), 5], "A6": An[str, ax.MaxLength(5)], "A7": An[T.List[int], "l"], "A8": An[float, ax.Storage(4), "f"], "A9": An[int, ax.Signed(True)], "A10": An[int, ax.Storage(4)],
                "A11": An[T.Optional[int], "o"], "A12": An[int, [1, 2]], "A13": An[int, "x", *ax.int16.__metadata__], "A14": An[m.En, None], "A15": An[str, *ax.int16.__metadata__], "A16": An[T.Literal["v"], 1], "A17": An[T.Union[int, str], 1, 2], "A18": An[ax.uint8, {"k": 1}]}
        for an in ("int8", "uint16", "int32", "uint64", "float32"):
            meta = getattr(ax, an).__metadata__
            base = getattr(ax, an).__origin__
            anns.update({f"{an} reordered": An[(base, *reversed(meta))], f"{an} repeated": An[(base, *meta, *meta)], f"{an} reordered with note": An[(base, "n", *reversed(meta))], f"{an} around note": An[(base, meta[0], "n", *meta[1:], 3)]})
        pool = {**leaves, **lits, **anns}
        one = dict(pool)
        for n, t in pool.items():
            one.update(self.wrap(n, t))
        two = {}
        step = 1 if self.thorough else 3
        for i, (n, t) in enumerate(one.items()):
            if n not in pool and i % step == 0:
                two.update(self.wrap(n, t))
        allt = {**one, **two}
        extra = {"Callable[[int, str], bool]": (T.Callable[[int, str], bool], "Callable[[int, str], bool]"), "Callable[..., int]": (T.Callable[..., int], "Callable[..., int]"), "Callable[[], None]": (T.Callable[[], None], "Callable[[], None]"), "tuple of any length": (T.Tuple[int, ...], "tuple[int, ...]"),
                 "tuple of any length, builtin": (tuple[m.DC, ...], "tuple[DC, ...]"), "G[int]": (m.G[int], "G[int]"), "G2": (m.G2[int, T.List[str]], "G2[int, list[str]]"), "G[X]": (m.G[m.X], "G[X]"), "Iterable": (T.Iterable[int], "Iterable[int]"), "Mapping": (collections.abc.Mapping[str, int], "Mapping[str, int]"),
                 "forward": (T.List["DC"], "list[DC]"), "forward union": (T.Union["DC", int, None], "Union[DC, int, None]"), "forward optional": (T.Optional["Unknown"], "Optional[Unknown]"), "string in builtin": (list["DC"], "list[DC]"), "string": ("DC", "DC"), "None object": (None, "None"), "Ellipsis": (..., "..."), "dict of forwards": (T.Dict["En", "DC"], "dict[En, DC]"),
                 "ParamSpec": (T.ParamSpec("P"), "P"), "type variable": (m.Y, "Y"), "callable of lists": (T.Callable[[T.List[int]], T.Dict[str, m.DC]], "Callable[[list[int]], dict[str, DC]]")}
        for n, t in allt.items():
            self.text(n, t, self.ref(t), self.ref(t, True))
        for n, (t, want) in extra.items():
            self.text(n, t, want, None)
        bars = {"forward union": (T.Union["DC", int, None], "DC | int | None"), "forward optional": (T.Optional["Unknown"], "Unknown | None"), "forward in list": (T.List[T.Union["DC", int]], "list[DC | int]"), "two forwards": (T.Union["DC", "En"], "DC | En"),
                "callable": (T.Callable[[T.Optional[int]], T.Union[int, str]], "Callable[[int | None], int | str]"), "generic": (m.G[T.Optional[int]], "G[int | None]"), "tuple": (T.Tuple[T.Optional[m.DC], ...], "tuple[DC | None, ...]")}
        for n, (t, want) in bars.items():
            self.expect(f"text of {n} with the union operator", lambda: self.A.call(self.tostr, t, use_union_operator=True), want)
        # types which compare equal although they are written differently, one after the other
        twins = [[An[int, 1], An[int, True], An[int, 1.0]], [An[str, 0], An[str, False]], [T.Union[int, str], T.Union[str, int]], [T.Optional[m.DC], T.Union[None, m.DC]], [T.Literal["a", "b"], T.Literal["b", "a"]], [T.List[An[int, 1]], T.List[An[int, True]]],
                 [An[T.Literal[1], 1], An[T.Literal[1], True]], [int | str, str | int], [T.Union[int, str, None], T.Union[None, str, int]], [T.Dict[str, T.Union[int, bool]], T.Dict[str, T.Union[bool, int]]], [An[m.DC, 1], An[m.DC, True]]]
        for g in twins:
            for order in (g, g[::-1]):
                names = [self.ref(t) for t in order]
                self.expect(f"texts of {', '.join(names)} in sequence", lambda: [self.A.call(self.tostr, t) for t in order], names)
                names = [self.ref(t, True) for t in order]
                self.expect(f"texts of {', '.join(names)} in sequence with the union operator", lambda: [self.A.call(self.tostr, t, use_union_operator=True) for t in order], names)
                self.expect(f"texts with and without the union operator of {names[0]} and {names[1]}", lambda: [self.A.call(self.tostr, order[0], use_union_operator=True), self.A.call(self.tostr, order[1])], [names[0], self.ref(order[1])])
                short = [self.refname(t, True) for t in order]
                if not any(x in (None, ...) for x in short):
                    self.expect(f"forced names of {', '.join(names)} in sequence", lambda: [self.A.call(self.toname, t, force=True) for t in order], short)
        for n, t in allt.items():
            self.name(n, t)
        for n, t in {"string name": "DC"}.items():
            self.expect(f"text of {n}", lambda: self.A.call(self.A.I.getattr(self.A.call(self.Fmt), "python_type_to_str"), t), "DC")
        for n, v in {"number": 5, "text of an expression": "List[int]", "object": object(), "value": True}.items():
            def thunk():
                try:
                    return self.A.call(self.A.I.getattr(self.A.call(self.Fmt), "python_type_to_str"), v)
                except ValueError:
                    return "ValueError"

            self.expect(f"not a type: {n}", thunk, "ValueError")
        self.formatter()

    def wrap(self, n, t):
        N = type(None)
        out = {f"List[{n}]": T.List[t], f"list[{n}]": list[t], f"Dict[str,{n}]": T.Dict[str, t], f"dict[{n},int]": dict[t, int], f"Set[{n}]": T.Set[t], f"set[{n}]": set[t], f"FrozenSet[{n}]": T.FrozenSet[t], f"Tuple[{n}]": T.Tuple[t], f"Tuple[{n},int]": T.Tuple[t, int], f"tuple[str,{n},int]": tuple[str, t, int]}
        if isinstance(t, type) or T.get_origin(t) is not None and T.get_origin(t) is not T.Literal:
            out[f"Type[{n}]"] = T.Type[t]
            out[f"type[{n}]"] = type[t]
        try:
            hash(t)
        except TypeError:
            return out
        out[f"Annotated[{n}]"] = T.Annotated[t, "w"]
        out[f"Annotated[{n}] twice"] = T.Annotated[t, 1, "w", (2,)]
        if t is not N and t is not T.Any and not isinstance(t, T.TypeVar):
            for k, f in {f"Optional[{n}]": lambda: T.Optional[t], f"Union[None,{n}]": lambda: T.Union[None, t], f"Union[{n},bytes]": lambda: T.Union[t, bytes], f"Union[complex,{n},None]": lambda: T.Union[complex, t, None], f"Union[None,{n},complex]": lambda: T.Union[None, t, complex], f"{n} | None": lambda: t | None, f"None | {n}": lambda: None | t, f"{n} | complex": lambda: t | complex, f"{n} | None | complex": lambda: t | None | complex, f"G[{n}]": lambda: self.m.G[t]}.items():
                try:
                    out[k] = f()
                except TypeError:
                    pass
        return out

    # ----------------------------------------------------------- reference printer
    def ref(self, t, bar=False):
        if t is None or t is type(None):
            return "None"
        if t is T.Any:
            return "Any"
        if t is T.Self:
            return "Self"
        o = T.get_origin(t)
        if o is T.Annotated:
            base, meta = t.__origin__, t.__metadata__
            for n, a in self.auxnames.items():
                if a.__origin__ is base and a.__metadata__ == meta:
                    return n
            for n, a in self.auxnames.items():
                if a.__origin__ is base and all(any(same(x, y) for y in meta) for x in a.__metadata__):
                    rest = [y for y in meta if not any(same(x, y) for x in a.__metadata__)]
                    return f"Annotated[{n}, {', '.join(map(self.repr, rest))}]" if rest else n
            return f"Annotated[{self.ref(base, bar)}, {', '.join(map(self.repr, meta))}]"
        if o is None:
            return t.__name__
        args = T.get_args(t)
        if o is T.Literal:
            return f"Literal[{', '.join(map(self.repr, args))}]"
        if o in UNIONS:
            if bar:
                return " | ".join(self.ref(a, bar) for a in args)
            rest = [a for a in args if a is not type(None)]
            if len(args) == 2 and len(rest) == 1:
                return f"Optional[{self.ref(rest[0], bar)}]"
            return f"Union[{', '.join(self.ref(a, bar) for a in args)}]"
        return f"{NAMES.get(o) or o.__name__}[{', '.join(self.ref(a, bar) for a in args)}]"

    def repr(self, v):
        if type(v).__module__.startswith("strong_typing") or "strong_typing" in getattr(type(v), "__module__", ""):
            import dataclasses
            return f"{type(v).__name__}({', '.join(repr(getattr(v, f.name)) for f in dataclasses.fields(v))})"
        return repr(v)

    def refname(self, t, force):
        "Reference name; None when TypeError is required, Ellipsis when unspecified."
        o = T.get_origin(t)
        for n, a in self.auxnames.items():
            if o is T.Annotated and a.__origin__ is t.__origin__ and a.__metadata__ == t.__metadata__:
                return n
        if o is T.Annotated:
            return self.refname(t.__origin__, force)
        if o is None:
            return t.__name__ if isinstance(t, type) else ...
        if not force:
            return None
        args = T.get_args(t)
        if o in UNIONS:
            rest = [a for a in args if a is not type(None)]
            kind, args = ("Optional", rest) if len(args) == 2 and len(rest) == 1 else ("Union", args)
        elif o in NAMES:
            kind = {dict: "Dict", list: "List", set: "Set", frozenset: "FrozenSet", tuple: "Tuple", type: "Type"}[o]
        else:
            return None
        parts = [self.refname(a, force) for a in args]
        if any(p is ... for p in parts):
            return ...
        return None if any(p is None for p in parts) else "__".join([kind, *parts])

    # ------------------------------------------------------------------ obligations
    def expect(self, name, thunk, want):
        def acc(o):
            if o.exc is not None:
                return f"{want!r} is required; {o.describe()}"
            if o.value != want:
                return f"{want!r} is required, got {S.show(o.value)[:250]}"

        self.oblige(name, thunk, acc, concrete=lambda o, w: acc(o))

    def text(self, n, t, want, bar):
        def thunk():
            a = self.A.call(self.tostr, t) if want is not None else None
            if a != want:
                return a
            if bar is not None:
                return (a, self.A.call(self.tostr, t, use_union_operator=True))
            return a

        self.expect(f"text of {n}", thunk, (want, bar) if bar is not None else want)

    def name(self, n, t):
        for force in (False, True):
            want = self.refname(t, force)
            if want is ...:
                continue

            def thunk():
                try:
                    return self.A.call(self.toname, t, force=force)
                except TypeError:
                    return None

            self.expect(f"{'forced ' if force else ''}name of {n}", thunk, want)

    def formatter(self):
        m = self.m
        from absint.driver import hook
        seen = []

        @hook
        def tt(t):
            return f"<{t.__name__}>"

        @hook
        def vt(v):
            return f"={v!r}="

        cases = {
            "class": (m.DC, "DC", "<DC>"), "list": (T.List[m.DC], "list[DC]", "list[<DC>]"), "dict": (T.Dict[str, m.En], "dict[str, En]", "dict[<str>, <En>]"), "union": (T.Union[m.DC, m.En], "Union[DC, En]", "Union[<DC>, <En>]"), "optional": (T.Optional[m.DC], "Optional[DC]", "Optional[<DC>]"), "annotated": (T.Annotated[m.DC, 1], "Annotated[DC, 1]", "Annotated[<DC>, 1]"),
            "aux": (self.aux.int32, "int32", "int32"), "aux list": (T.List[self.aux.float64], "list[float64]", "list[float64]"), "none": (None, "None", "None"), "type": (T.Type[m.DC], "type[DC]", "type[<DC>]"), "nested": (T.Dict[str, T.List[T.Optional[m.NT]]], "dict[str, list[Optional[NT]]]", "dict[<str>, list[Optional[<NT>]]]"), "tuple": (T.Tuple[m.DC, ...], "tuple[DC, ...]", "tuple[<DC>, ...]"),
        }
        get, call = self.A.I.getattr, self.A.call
        for n, (t, plain, trans) in cases.items():
            for c in (None, m):
                self.expect(f"formatter on {n}{' in context' if c else ''}", lambda: call(get(call(self.Fmt, context=c), "python_type_to_str"), t), plain)
                self.expect(f"formatter on {n} with type transform{' in context' if c else ''}", lambda: call(get(call(self.Fmt, context=c, type_transform=tt), "python_type_to_str"), t), trans)
        lit = {"literal": (T.Literal["a", "b"], "Literal[='a'=, ='b'=]"), "nested literal": (T.List[T.Optional[T.Literal[1, 2]]], "list[Optional[Literal[=1=, =2=]]]")}
        for n, (t, want) in lit.items():
            self.expect(f"value transform on {n}", lambda: call(get(call(self.Fmt, value_transform=vt), "python_type_to_str"), t), want)
        fw = {"name": (T.List["DC"], "list[DC]", "list[<DC>]"), "expression": (T.List["List[DC]"], "list[list[DC]]", "list[list[<DC>]]"), "builtin": (T.List["int"], "list[int]", "list[<int>]"), "optional": (T.Optional["DC"], "Optional[DC]", "Optional[<DC>]"), "union": (T.Union["DC", "En", None], "Union[DC, En, None]", "Union[<DC>, <En>, None]")}
        for n, (t, plain, trans) in fw.items():
            self.expect(f"forward {n} in context", lambda: call(get(call(self.Fmt, context=m), "python_type_to_str"), t), plain)
            self.expect(f"forward {n} in context with type transform", lambda: call(get(call(self.Fmt, context=m, type_transform=tt), "python_type_to_str"), t), trans)
        for n, (t, want) in {"identifier": ("DC", "DC"), "expression": ("Dict[str, DC]", "dict[str, DC]"), "builtin": ("int", "int"), "optional": ("Optional[En]", "Optional[En]")}.items():
            self.expect(f"string {n} in context", lambda: call(get(call(self.Fmt, context=m), "python_type_to_str"), t), want)


def same(a, b):
    return type(a) is type(b) and (a == b) is True
