"""
Abstract values.

A `Sym` is an abstract value: a hash-consed *term* (where the value comes from and
which library functions it went through) plus the set of Python classes its concrete
values may have (its kinds).  Terms carry no concrete content.
"""


NoneType = type(None)
JSON_KINDS = frozenset([NoneType, bool, int, float, str, list, dict])


class Imprecise(BaseException):
    "The analysis lost precision on this trace; nothing may be concluded from it."

    def __init__(self, reason):
        super().__init__(reason)
        self.reason = reason


class Sym:
    __slots__ = ("op", "args", "types", "note", "__weakref__")

    def __new__(cls, *a, **k):
        raise TypeError("use mk()")

    def __repr__(self):
        return show(self)

    # -- operations reached through host (standard library) code ------------------
    def __hash__(self):
        return object.__hash__(self)

    def __eq__(self, other):
        if self is other:
            return True
        if ENGINE is None:
            return False
        return ENGINE.branch_eq(self, other)

    def __ne__(self, other):
        return not self.__eq__(other)

    def __bool__(self):
        return ENGINE.truth(self)

    def __str__(self):
        return show(self)

    def __format__(self, spec):
        raise Imprecise(f"host code formats {show(self)}")

    def __deepcopy__(self, memo):
        return self  # scalars/opaque elements: value semantics

    def __copy__(self):
        return self


def _deny(name):
    def method(self, *args):
        raise Imprecise(f"host code applies {name} to {show(self)}")

    return method


for _n in ("__len__ __iter__ __getitem__ __contains__ __lt__ __le__ __gt__ __ge__ __add__ __radd__ __sub__ __rsub__ "
           "__mul__ __rmul__ __mod__ __rmod__ __floordiv__ __truediv__ __int__ __float__ __index__ __neg__ "
           "__call__ __iadd__ __or__ __and__ __divmod__ __rdivmod__ __abs__ __round__ __bytes__").split():
    setattr(Sym, _n, _deny(_n))
# `callable(sym)`/`hasattr` must not be answered by the class; the interpreter never asks the host for them

class Kw(tuple):
    "Keyword arguments of a call term: ((name, value), ...), last argument of the term."


def kw(kwargs):
    return (Kw(sorted(kwargs.items())),) if kwargs else ()


ENGINE = None  # set by engine module
_TABLE = {}


def _freeze(v):
    "Key under which an argument is hash-consed."
    if isinstance(v, Sym):
        return ("s", id(v))
    if isinstance(v, tuple):
        return ("kw" if type(v) is Kw else "t",) + tuple(_freeze(x) for x in v)
    if isinstance(v, (list,)):
        return ("l",) + tuple(_freeze(x) for x in v)
    if isinstance(v, dict):
        return ("d",) + tuple((_freeze(k), _freeze(x)) for k, x in v.items())
    if isinstance(v, (int, float, str, bytes, bool, NoneType)):
        return (type(v).__name__, repr(v))
    return ("o", id(v))


_KEEP = []


def mk(op, *args, types=None):
    key = (op,) + tuple(_freeze(a) for a in args) + (types,)
    s = _TABLE.get(key)
    if s is None:
        s = object.__new__(Sym)
        s.op = op
        s.args = args
        s.types = types  # frozenset of classes, or None for anything
        s.note = None
        _TABLE[key] = s
    return s


def inp(name, *types):
    return mk("in", name, types=frozenset(types) if types else None)


def is_sym(v):
    return type(v) is Sym


def has_sym(v, depth=4):
    if type(v) is Sym:
        return True
    if depth == 0:
        return False
    t = type(v)
    if t in (list, tuple, set, frozenset):
        return any(has_sym(x, depth - 1) for x in v)
    if t is dict:
        return any(has_sym(k, depth - 1) or has_sym(x, depth - 1) for k, x in v.items())
    if isinstance(v, tuple):
        return any(has_sym(x, depth - 1) for x in v)
    return False


def fname(f):
    n = getattr(f, "__qualname__", None) or getattr(f, "__name__", None)
    if n is None:
        return repr(f)
    m = getattr(f, "__module__", None)
    return n if m in (None, "builtins") else f"{m}.{n}"


def show(v, depth=6):
    if type(v) is Sym:
        if depth == 0:
            return "..."
        if v.op == "in":
            return f"<{v.args[0]}>"
        if v.op == "call":
            fn, args = v.args[0], v.args[1:]
            al = [show(a, depth - 1) for a in args if type(a) is not Kw]
            al += [f"{k}={show(x, depth - 1)}" for a in args if type(a) is Kw for k, x in a]
            return f"{fname(fn) if callable(fn) else fn}({', '.join(al)})"
        if v.op == "fmt":
            return "f'" + "".join(a if isinstance(a, str) else "{" + show(a, depth - 1) + "}" for a in v.args) + "'"
        if v.op in ("lin", "td"):
            return ("" if v.op == "lin" else "microseconds ") + "(" + " + ".join([f"{c}*{show(a, depth - 1)}" for a, c in v.args[1:]] + ([str(v.args[0])] if v.args[0] else [])) + ")"
        return f"{v.op}({', '.join(show(a, depth - 1) for a in v.args)})"
    if depth == 0:
        return "..."
    if type(v) in (list, tuple):
        o, c = ("[", "]") if type(v) is list else ("(", ")")
        return o + ", ".join(show(x, depth - 1) for x in v) + c
    if type(v) is dict:
        return "{" + ", ".join(f"{show(k, depth - 1)}: {show(x, depth - 1)}" for k, x in v.items()) + "}"
    if isinstance(v, type):
        return v.__qualname__
    if callable(v) and hasattr(v, "__name__"):
        return fname(v)
    try:
        r = repr(v)
    except BaseException:
        r = f"<{type(v).__name__}>"
    return r if len(r) < 200 else r[:197] + "..."


def atoms(v, acc=None):
    "Input atoms of a term."
    if acc is None:
        acc = []
    if type(v) is Sym:
        if v.op == "in":
            if not any(v is y for y in acc):
                acc.append(v)
        else:
            for a in v.args:
                atoms(a, acc)
    elif type(v) in (list, tuple):
        for a in v:
            atoms(a, acc)
    elif type(v) is dict:
        for k, a in v.items():
            atoms(k, acc)
            atoms(a, acc)
    return acc




def state(o):
    "Attributes an instance holds, in its dictionary and in slots."
    out = {}
    for c in reversed(type(o).__mro__):
        slots = c.__dict__.get("__slots__", ())
        for n in (slots,) if isinstance(slots, str) else slots:
            if n not in ("__dict__", "__weakref__"):
                try:
                    out[n] = object.__getattribute__(o, n)
                except AttributeError:
                    pass
    out.update(getattr(o, "__dict__", {}))
    return out
