from .interchange import *
from .spec import Fails


class C03(InterchangeCheck):
    ID = "C03"
    RULE = ("Containers of opaque element classes: on every trace partition of json_to_object(list|set|dict|tuple of T, data) the result is the Python container holding, "
            "position by position (key by key), the element decoder's result term for that item; a failing element yields exactly its error; other kinds and lengths yield "
            "the stated Json*Error.  Arrays of length 0 to 3 and objects of 0 to 2 entries with arbitrary items; each entry is handled by one loop body, nested containers included.")
    MIN_DECIDED = 60

    def run(self):
        self.setup()
        A = self.elems.make("ElemA", ("JsonKeyError", "JsonTypeError", "JsonValueError"))
        B = self.elems.make("ElemB", ("JsonTypeError",))
        C = self.elems.make("ElemC", ("JsonValueError",))
        m = self.wmod("types", '''
class Color(Enum):
    RED = "r"
    GREEN = "green"
    BLUE = "RED"

class Text(str, Enum):
    A = "a"
    B = "b"

class Falsy(Enum):
    B = "b"
    A = ""
''', A=A, B=B, C=C)
        T = typing
        x = lambda i: inp(f"x{i}", *SCALAR_JSON)
        y = lambda i: inp(f"y{i}", bool, int, float, str)
        n = 4 if self.thorough else 3
        lists = {f"array of {k}": (lambda k=k: [x(i) for i in range(k)]) for k in range(n + 1)}
        # a list repeated element: same item twice
        lists["array with a repeated item"] = lambda: [x(0), x(0)]
        lists["array starting with null"] = lambda: [None, x(1)]
        lists["array of arrays"] = lambda: [[x(0)], [x(1), x(2)]]
        objs = {"empty object": lambda: {}, "object with 1 entry": lambda: {"k0": x(0)}, "object with 2 entries": lambda: {"k0": x(0), "k1": x(1)},
                "object with null": lambda: {"k0": None, "k1": x(1)}, "object with abstract key": lambda: {inp("key", str): x(0)},
                "object with empty key": lambda: {"": x(0)}}
        if self.thorough:
            objs["object with 3 entries"] = lambda: {"k0": x(0), "k1": x(1), "k2": x(2)}
        scal = {"scalar": lambda: inp("data", *SCALAR_JSON)}
        for name, tp in {"list[A]": T.List[A], "list[A] (builtin)": list[A], "set[A]": T.Set[A], "tuple[A,B]": T.Tuple[A, B], "tuple[A,B] (builtin)": tuple[A, B], "tuple[A,A]": tuple[A, A],
                         "tuple[B]": T.Tuple[B], "tuple[A,B,C]": T.Tuple[A, B, C]}.items():
            for sn, b in {**lists, **scal, "object": objs["object with 1 entry"]}.items():
                self.decode(f"{name} <- {sn}", tp, b)
        for name, tp in {"dict[str,A]": T.Dict[str, A], "dict[str,A] (builtin)": dict[str, A]}.items():
            for sn, b in {**objs, **scal, "array": lists["array of 1"]}.items():
                self.decode(f"{name} <- {sn}", tp, b)
        key = {"entry 'r'": lambda: {"r": x(0)}, "entries 'green','r'": lambda: {"green": x(0), "r": x(1)}, "entry 'RED'": lambda: {"RED": x(0)}, "abstract key": lambda: {inp("key", str): x(0)},
               "empty": lambda: {}, "known and abstract key": lambda: {"r": x(0), inp("key", str): x(1)}}
        for sn, b in {**key, **scal}.items():
            self.decode(f"dict[Color,A] <- {sn}", T.Dict[m.Color, A], b)
        self.decode("dict[Text,A] <- 'a'", T.Dict[m.Text, A], lambda: {"a": x(0)})
        self.decode("dict[Falsy,A] <- '', 'b'", T.Dict[m.Falsy, A], lambda: {"": x(0), "b": x(1)})
        self.decode("list[dict[Falsy,A]] <- ''", T.List[T.Dict[m.Falsy, A]], lambda: [{"": x(0)}, {}])
        # nesting
        for name, tp, b in [
            ("list[list[A]]", T.List[T.List[A]], lambda: [[x(0)], [], [x(1), x(2)]]),
            ("dict[str,list[A]]", T.Dict[str, T.List[A]], lambda: {"k0": [x(0), x(1)], "k1": []}),
            ("list[dict[str,A]]", T.List[T.Dict[str, A]], lambda: [{"k0": x(0)}, {}, {"k1": x(1), "k2": x(2)}]),
            ("list[tuple[A,B]]", T.List[T.Tuple[A, B]], lambda: [[x(0), x(1)], [x(2), x(3)]]),
            ("list[tuple[A,B]] wrong length", T.List[T.Tuple[A, B]], lambda: [[x(0), x(1)], [x(2)]]),
            ("tuple[list[A],dict[str,B]]", T.Tuple[T.List[A], T.Dict[str, B]], lambda: [[x(0), x(1)], {"k0": x(2)}]),
            ("tuple[A,list[B]] wrong kind", T.Tuple[A, T.List[B]], lambda: [x(0), x(1)]),
            ("list[Optional[A]]", T.List[T.Optional[A]], lambda: [y(0), None, y(1)]),
            ("dict[str,Optional[A]]", T.Dict[str, T.Optional[A]], lambda: {"k0": None, "k1": y(1)}),
            ("list[int]", T.List[int], lambda: [inp("x0", int), inp("x1", int)]),
            ("set[str]", T.Set[str], lambda: [inp("x0", str), inp("x1", str)]),
            ("dict[str,str]", T.Dict[str, str], lambda: {inp("key", str): inp("x0", str)}),
        ]:
            self.decode(f"{name} <- nested data", tp, b)
        # key types that JSON property names cannot represent
        k = self.wmod("keys", KEYS)
        for name, kt in refused(k).items():
            for sn, tp in {"": T.Dict[kt, A], " (builtin)": dict[kt, A], " in Annotated": T.Dict[T.Annotated[kt, "x"], A], " in a list": T.List[T.Dict[kt, A]], " in Optional": T.Optional[T.Dict[kt, A]]}.items():
                for dn, d in {"empty object": {}, "entry": {"1": 1}, "array": [{"1": 1}], "member name": {"A": 1}}.items():
                    self.compare(f"refused key type {name}{sn} <- {dn}", lambda: self.A.call(self.json_to_object, tp, d), refuse)


KEYS = """
class Number(Enum):
    A = 1
    B = 2

class Mixed(Enum):
    A = "1"
    B = 2

class Empty(Enum):
    pass

class Real(float, Enum):
    A = 1.5

class Octets(Enum):
    A = b"1"

class Truth(Enum):
    A = True

class Tuples(Enum):
    A = ("1", "2")

class MixedLast(Enum):
    A = "1"
    B = "2"
    C = b"3"

class SubText(str):
    pass
"""


def refused(k):
    import datetime
    import uuid

    return {"int": int, "float": float, "bool": bool, "bytes": bytes, "date": datetime.date, "UUID": uuid.UUID, "int enum": k.Number, "mixed enum": k.Mixed, "float enum": k.Real, "empty enum": k.Empty,
            "bytes enum": k.Octets, "bool enum": k.Truth, "tuple enum": k.Tuples, "mixed last enum": k.MixedLast, "str subclass": k.SubText}


def refuse():
    raise Fails("JsonTypeError", "TypeError")
