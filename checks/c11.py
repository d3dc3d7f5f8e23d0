from .interchange import *
from .witness import SCALARS
import datetime

INVERSE = {  # (parser, formatter): the parser is total on the formatter's output and inverts it
    ("b64decode", "b64"), ("datetime.fromisoformat", "m:isoformat"), ("date.fromisoformat", "m:isoformat"), ("time.fromisoformat", "m:isoformat"),
    ("UUID", "str"), ("IPv4Address", "str"), ("IPv6Address", "str"),
}


class C11(InterchangeCheck):
    ID = "C11"
    RULE = ("Encoder and decoder terms of every scalar type: the encoder's result term must be the stated formatter of the value, and feeding that term to the same type's decoder must yield "
            "parser(formatter(v)) for a pair in the inverse table with no exception trace left feasible.")
    MIN_DECIDED = 25

    def run(self):
        self.setup()
        T = typing
        m = self.wmod("types", '''
class Color(Enum):
    RED = "r"
    GREEN = "GREEN"

class Number(Enum):
    ONE = 1
    ZERO = 0

class Text(str, Enum):
    X = "x"
    Y = "why"

class Code(enum.IntEnum):
    OK = 200

class Odd(Enum):
    HALF = 0.5
    NO = False
    EMPTY = ""
''')
        for n, tp in SCALARS.items():
            if tp is datetime.timedelta:
                continue
            v = None if tp is NoneType else inp("v", tp)
            self.encode(f"object_to_json({n})", v)
            self.encode(f"serializer({n})", v, tp)
            self.encode(f"serializer(Optional[{n}])", v, T.Optional[tp])
            self.encode(f"serializer(Annotated[{n},1])", v, T.Annotated[tp, 1])
            if tp is not NoneType:
                self.encode(f"object_to_json(list of {n})", lambda: [v])
            self.round_trip(n, tp, v)
        for n in ("Color", "Number", "Text", "Code", "Odd"):
            tp = getattr(m, n)
            for mem in tp:
                self.encode(f"object_to_json({n}.{mem.name})", lambda mem=mem: mem)
                self.encode(f"serializer({n})({n}.{mem.name})", lambda mem=mem: mem, tp)
                self.round_trip(f"{n}.{mem.name}", tp, mem)
        for tp, vs in {T.Literal["a", "b"]: ("a", "b"), T.Literal[1, 0]: (1, 0), T.Literal[True, False]: (True, False)}.items():
            for x in vs:
                self.encode(f"serializer({tp})({x!r})".replace("typing.", ""), lambda x=x: x, tp)

    def round_trip(self, n, tp, v):
        A = self.A

        def thunk():
            t = A.call(self.object_to_json, v)
            try:
                r = ("return", A.call(self.json_to_object, tp, t))
            except Exception as e:
                r = ("raise", e)
            return t, r

        def norm(x):
            return x

        def accept(o):
            if o.exc is not None:
                return None  # encoding failed: judged by the encoder obligation
            t, r = o.value
            if r[0] == "raise":
                o.loc = getattr(r[1], "_absint_loc", None)
                return f"the decoder raises {type(r[1]).__name__} on the text the encoder writes: {S.show(t)}"
            if is_sym(v) and o.eqconst.get(v, v) is r[1]:
                return None
            if r[1] is v or (not is_sym(v) and not is_sym(r[1]) and r[1] == v and type(r[1]) is type(v)):
                return None
            if inverse(r[1], v, o):
                return None
            return f"decoding the encoded text gives {S.show(r[1])}, not the value"

        def concrete(o, w):
            t, r = o.value
            if r[0] == "raise":
                # predicates hold for this member, so the decoder really fails on it
                return f"the decoder raises {type(r[1]).__name__} on {fold(t, w)!r}"
            x, y = fold(r[1], w), fold(v, w)
            return None if oracle.same(x, y) or x == y and type(x) is type(y) else f"{y!r} is encoded as {fold(t, w)!r}, which decodes to {x!r}"

        def infeasible(o):
            "An inverse parser does not fail on its formatter's text."
            return False

        if not self.mine():
            return
        outs = self.traces(thunk)
        bad = []
        undecided = []
        for o in outs:
            if o.imprecise:
                undecided.append(o.imprecise)
                continue
            if self.impossible(o, v):
                continue
            why = accept(o)
            if not why:
                continue
            S.ENGINE = None
            verdict = self.refute(o, concrete, why)
            if verdict is False:
                undecided.append(why)
            elif verdict:
                bad.append((o, verdict))
        name = f"decode(encode({n}))"
        for o, (w, why) in bad:
            self.bad(name, f"{name}: {why}", o, w)
        if not bad:
            if undecided:
                self.open_(name, "; ".join(dict.fromkeys(undecided))[:300])
            else:
                self.ok(f"{name}: {len(outs)} trace(s)")

    def impossible(self, o, v):
        "Traces on which an inverse parser rejects its formatter's own text."
        for p, want, _ in o.conds:
            if p.op == "raises" and want and is_sym(p.args[0]) and inverse(p.args[0], v, o):
                return True
            if p.op == "isinst" and want and is_sym(p.args[0]) and p.args[0].op == "attr" and inverse(p.args[0].args[0], v, o):
                if any(q.op == "isinst" and q.args[0] is not p.args[0] and is_sym(q.args[0]) and q.args[0].op == "attr" and q.args[0].args == (v, p.args[0].args[1]) and q.args[1] == p.args[1] and not w2 for q, w2, _ in o.conds):
                    return True  # the parsed value has the attributes of v
            if p.op == "raises" and want and is_sym(p.args[0]) and p.args[0].op == "m:decode" and is_sym(p.args[0].args[0]) and p.args[0].args[0].op == "call" \
                    and "b64encode" in S.fname(p.args[0].args[0].args[0]):
                return True
        return False


def inverse(t, v, o):
    "Is t = parser(formatter(v)) for an inverse pair (up to the Z spelling of +00:00)?"
    if not is_sym(t) or t.op != "call":
        return False
    f, x = S.fname(t.args[0]), t.args[1]
    parser = next((p for p, _ in INVERSE if f == p or f.endswith("." + p)), None)
    if parser is None or not is_sym(x):
        return False
    # slice(y, None, -k) + literal, where y is known to end with the literal of length k
    if x.op == "fmt" and len(x.args) == 2 and isinstance(x.args[1], str) and is_sym(x.args[0]) and x.args[0].op == "slice":
        y, a, b, c = x.args[0].args
        if a is None and c is None and b == -len(x.args[1]) and any(p.op == "m:endswith" and want and p.args[0] is y and p.args[1] == x.args[1] for p, want, _ in o.conds):
            x = y
    forms = {fm for p, fm in INVERSE if p == parser}
    if "b64" in forms:
        return x.op == "m:decode" and is_sym(x.args[0]) and x.args[0].op == "call" and S.fname(x.args[0].args[0]).endswith("b64encode") and len(x.args[0].args) == 2 and x.args[0].args[1] is v
    return x.op in forms and len(x.args) == 1 and x.args[0] is v
