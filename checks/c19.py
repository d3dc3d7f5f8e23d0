from .interchange import *


class C19(InterchangeCheck):
    ID = "C19"
    RULE = ("Every type of the grammar (leaf classes of each kind; Optional/Union/| in both orders; Literal, List/list, Set/set, Dict/dict, Tuple, Annotated; nested two levels) is classified by construction; "
            "each predicate's abstract result must be the truth of its category for the type and for the type wrapped in Annotated, and each unwrapper's result must be the constructor's own arguments.")
    MIN_DECIDED = 500

    def run(self):
        self.setup()
        T = typing
        I = lambda n: self.api("inspection", n)
        m = self.wmod("types", '''
import collections
class En(Enum):
    A = "a"
class IEn(enum.IntEnum):
    A = 1
class SEn(str, Enum):
    A = "a"
class Fl(enum.Flag):
    A = 1
@dataclass
class DC:
    a: int
@dataclass(frozen=True)
class FZ:
    a: int
class SubDC(DC):
    pass
class NT(NamedTuple):
    a: int
CNT = collections.namedtuple("CNT", ["a", "b"])
class Plain:
    a: int
class SubTuple(tuple):
    pass
class SubList(list):
    pass
class NT0(NamedTuple):
    pass
CNT0 = collections.namedtuple("CNT0", [])
class En0(Enum):
    pass
class IFl(enum.IntFlag):
    A = 1
class FromEn0(En0):
    A = 1
@dataclass
class DC0:
    pass
@dataclass
class NTDC(tuple):
    a: int
class Meta(type):
    pass
class WithMeta(metaclass=Meta):
    a: int
class WithFields:
    _fields = ("a",)
class TupleFields(tuple):
    _fields = (1, 2)
class MultiTuple(tuple, WithFields):
    pass
''')
        # type -> (categories, parts)
        leaves = {"int": (int, ()), "str": (str, ()), "None": (type(None), ()), "En": (m.En, ("enum",)), "IEn": (m.IEn, ("enum",)), "SEn": (m.SEn, ("enum",)), "Fl": (m.Fl, ("enum",)), "DC": (m.DC, ("dataclass",)), "FZ": (m.FZ, ("dataclass",)),
                  "SubDC": (m.SubDC, ("dataclass",)), "NT": (m.NT, ("namedtuple",)), "CNT": (m.CNT, ("namedtuple",)), "Plain": (m.Plain, ()), "SubTuple": (m.SubTuple, ()), "SubList": (m.SubList, ()), "WithFields": (m.WithFields, ()), "TupleFields": (m.TupleFields, ()),
                  "list": (list, ()), "dict": (dict, ()), "set": (set, ()), "tuple": (tuple, ()), "Any": (T.Any, ()), "object": (object, ()), "type": (type, ()), "MultiTuple": (m.MultiTuple, ()),
                  "NT0": (m.NT0, ("namedtuple",)), "CNT0": (m.CNT0, ("namedtuple",)), "En0": (m.En0, ("enum",)), "IFl": (m.IFl, ("enum",)), "FromEn0": (m.FromEn0, ("enum",)), "DC0": (m.DC0, ("dataclass",)), "NTDC": (m.NTDC, ("dataclass",)), "WithMeta": (m.WithMeta, ())}
        pool = [(n, t, frozenset(c), {}) for n, (t, c) in leaves.items()]
        base = list(pool)

        def wrap(items):
            out = []
            for n, t, c, _ in items:
                a = out.append
                a((f"List[{n}]", T.List[t], {"list"}, {"list": t}))
                a((f"list[{n}]", list[t], {"list"}, {"list": t}))
                a((f"Set[{n}]", T.Set[t], {"set"}, {"set": t}))
                a((f"set[{n}]", set[t], {"set"}, {"set": t}))
                a((f"Dict[str, {n}]", T.Dict[str, t], {"dict"}, {"dict": (str, t)}))
                a((f"dict[{n}, int]", dict[t, int], {"dict"}, {"dict": (t, int)}))
                a((f"Tuple[{n}, int]", T.Tuple[t, int], set(), {}))
                a((f"tuple[{n}]", tuple[t], set(), {}))
                a((f"FrozenSet[{n}]", T.FrozenSet[t], set(), {}))
                a((f"Type[{n}]", T.Type[t], set(), {}))
                if t is not type(None) and t is not T.Any and not (c & {"optional", "union"}):
                    N = type(None)
                    a((f"Optional[{n}]", T.Optional[t], {"optional", "strict"}, {"optional": t}))
                    a((f"Union[None, {n}]", T.Union[None, t], {"optional", "strict"}, {"optional": t}))
                    a((f"Union[{n}, bytes]", T.Union[t, bytes], {"union"}, {"union": (t, bytes)}))
                    a((f"Union[{n}, None, bytes]", T.Union[t, None, bytes], {"optional", "union"}, {"optional": T.Union[t, bytes], "union": (t, N, bytes)}))
                    a((f"Union[bytes, {n}, None]", T.Union[bytes, t, None], {"optional", "union"}, {"optional": T.Union[bytes, t], "union": (bytes, t, N)}))
                    a((f"Union[bytes, {n}, float]", T.Union[bytes, t, float], {"union"}, {"union": (bytes, t, float)}))
                    try:
                        t | bytes
                    except TypeError:
                        continue
                    if T.get_origin(t) is T.Literal or isinstance(t | bytes, T._UnionGenericAlias):
                        continue
                    a((f"{n} | None", t | None, {"optional", "strict"}, {"optional": t}))
                    a((f"None | {n}", None | t, {"optional", "strict"}, {"optional": t}))
                    a((f"{n} | bytes", t | bytes, {"union"}, {"union": (t, bytes)}))
                    a((f"{n} | None | bytes", t | None | bytes, {"optional", "union"}, {"optional": T.Union[t, bytes], "union": (t, N, bytes)}))
                    a((f"None | bytes | {n}", None | bytes | t, {"optional", "union"}, {"optional": T.Union[bytes, t], "union": (N, bytes, t)}))
            return out

        lits = [("Literal['a']", T.Literal["a"], {"literal"}, {"literal": ("a",)}), ("Literal[1, 2]", T.Literal[1, 2], {"literal"}, {"literal": (1, 2)}), ("Literal[None]", T.Literal[None], {"literal"}, {"literal": (None,)}),
                ("Literal[True, 'x']", T.Literal[True, "x"], {"literal"}, {"literal": (True, "x")}), ("Literal['']", T.Literal[""], {"literal"}, {"literal": ("",)}), ("Literal[En.A]", T.Literal[m.En.A], {"literal"}, {"literal": (m.En.A,)}),
                ("Literal[1, True]", T.Literal[1, True], {"literal"}, {"literal": (1, True)}), ("Literal[0, False]", T.Literal[0, False], {"literal"}, {"literal": (0, False)}), ("Literal['a', 'b', 1]", T.Literal["a", "b", 1], {"literal"}, {"literal": ("a", "b", 1)}),
                ("Literal['x', None]", T.Literal["x", None], {"literal"}, {"literal": ("x", None)})]
        one = wrap(base) + lits + wrap(lits)
        sub = [p for p in wrap(base) if any(k in p[0] for k in ("int]", "En]", "Optional[DC", "| None"))][: 400 if self.thorough else 60]
        allt = pool + one + (wrap(sub) if self.thorough else wrap(sub)[:400])
        preds = {"optional": I("is_type_optional"), "union": I("is_type_union"), "literal": I("is_type_literal"), "list": I("is_generic_list"), "set": I("is_generic_set"), "dict": I("is_generic_dict"), "enum": I("is_type_enum"),
                 "dataclass": I("is_dataclass_type"), "namedtuple": I("is_named_tuple_type")}
        annotated, opt = I("is_type_annotated"), preds["optional"]
        un = {"optional": I("unwrap_optional_type"), "union": I("unwrap_union_types"), "literal": I("unwrap_literal_values"), "list": I("unwrap_generic_list"), "set": I("unwrap_generic_set"), "dict": I("unwrap_generic_dict")}
        uv, ut, ua, ga = I("unwrap_literal_value"), I("unwrap_literal_types"), I("unwrap_annotated_type"), I("get_annotation")
        metas = {"": None, "Annotated ": ("note",), "Annotated by a list ": ([1], {"k": 2}), "Annotated twice ": (1, "two")}
        for n, t, cats, parts in allt:
            for mn, meta in metas.items():
                if mn == "Annotated twice " and not self.thorough and (n, t, cats, parts) not in (base + lits) and cats & {"list"}:
                    pass
                tp = t if meta is None else T.Annotated[(t, *meta)]
                name = mn + n
                self.several(name, tp, t, cats, parts, meta, preds, annotated, opt, un, uv, ut, ua, ga)
        # metadata lookup
        class M1:
            pass

        class M2(M1):
            pass
        for c in (M1, M2):
            c.__absint_witness__ = True
        a, b, c = M1(), M2(), M1()
        for n, tp, want in (("first", T.Annotated[int, a, c], {M1: a, M2: None}), ("subclass", T.Annotated[int, "x", b, a], {M1: b, M2: b, str: "x"}), ("none", int, {M1: None}), ("string", T.Annotated[str, 1], {int: 1, str: None}), ("nested annotated", T.Annotated[T.Annotated[int, a], b], {M1: a, M2: b}),
                            ("inner only", T.List[T.Annotated[int, a]], {M1: None})):
            for k, v in want.items():
                self.expect(f"get_annotation {n} {k.__name__}", lambda: self.A.call(ga, tp, k), lambda r: r is v or r == v and type(r) is type(v), f"{v!r}")

    def expect(self, name, thunk, good, want):
        def acc(o):
            if o.exc is not None:
                return f"{want} required; {o.describe()}"
            if not good(o.value):
                return f"{want} required, got {S.show(o.value)[:200]}"
        self.oblige(name, thunk, acc, concrete=lambda o, w: acc(o))

    def raises(self, name, thunk, kind):
        def acc(o):
            if o.exc is None or type(o.exc) is not kind:
                return f"{kind.__name__} required; {o.describe()}"
        self.oblige(name, thunk, acc, concrete=lambda o, w: acc(o))

    def several(self, name, tp, t, cats, parts, meta, preds, annotated, opt, un, uv, ut, ua, ga):
        call = self.A.call
        T = typing

        def thunk():
            r = {k: call(p, tp) for k, p in preds.items()}
            r["strict"] = call(opt, tp, True)
            r["strict keyword"] = call(opt, tp, strict=True)
            r["annotated"] = call(annotated, tp)
            return r

        want = {k: k in cats for k in preds}
        want["strict"] = want["strict keyword"] = "strict" in cats
        want["annotated"] = meta is not None

        def acc(o):
            if o.exc is not None:
                return f"predicates on {tp}: {o.describe()}"
            for k, v in want.items():
                if o.value[k] is not v and bool(o.value[k]) is not v:
                    return f"the predicate for {k} must be {v} for {tp}"

        self.oblige(f"predicates of {name}", thunk, acc, concrete=lambda o, w: acc(o))
        rewrap = lambda x: x if meta is None else T.Annotated[(x, *meta)]
        self.expect(f"unwrap_annotated_type of {name}", lambda: call(ua, tp), lambda r: r is t or r == t, f"{t}")
        for k, f in un.items():
            if k in parts:
                w = parts[k]
                if k == "union" and meta is not None:
                    w = T.get_args(T.get_args(tp)[0])  # Python itself may reorder the members of an annotated union
                if k in ("optional", "list", "set"):
                    w = rewrap(w)
                self.expect(f"{f.__name__} of {name}", lambda: call(f, tp), lambda r: same(r, w), f"{w}")
            elif k in ("optional", "union") and not cats & {"optional", "union"}:
                self.raises(f"{f.__name__} of {name}", lambda: call(f, tp), TypeError)
        if "literal" in cats:
            v = parts["literal"]
            self.expect(f"unwrap_literal_types of {name}", lambda: call(ut, tp), lambda r: tuple(r) == tuple(type(x) for x in v), "value types")
            if len(v) == 1:
                self.expect(f"unwrap_literal_value of {name}", lambda: call(uv, tp), lambda r: r == v[0] and type(r) is type(v[0]), repr(v[0]))
            else:
                self.raises(f"unwrap_literal_value of {name}", lambda: call(uv, tp), TypeError)


def same(a, b):
    if isinstance(b, tuple):
        return isinstance(a, tuple) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if typing.get_origin(b) in (typing.Union, type(int | str)):
        return typing.get_origin(a) in (typing.Union, type(int | str)) and set(typing.get_args(a)) == set(typing.get_args(b)) and len(typing.get_args(a)) == len(typing.get_args(b))
    return type(a) is type(b) and a == b
