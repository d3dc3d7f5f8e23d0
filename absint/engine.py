"""
Trace-partition state and abstract semantics of primitive operations.

One `Engine` analyses one trace partition after the other: every branch whose outcome
the abstract values do not determine is a choice point; all combinations are enumerated
by replay.  Facts learnt on a branch (kinds, equalities, intervals, predicate values)
refine the abstract values for the rest of the trace.
"""

import datetime
import enum
import math
import operator
import re
from types import MappingProxyType
from re import _parser as _sre_parser

from . import sym as S
from .sym import Imprecise, NoneType, Sym, has_sym, is_sym, mk

NUM = frozenset([bool, int, float])
MAX_CHOICES = 160


_INT_TEXT = re.compile(r"-?\d+\Z")
_GROUP_MIN = {}


def _group_min(g):
    "Least length of the text a regular-expression group captures when it takes part."
    m, k = g.args
    if k == 0:
        return 0
    pat = m.args[1]
    t = _GROUP_MIN.get(pat)
    if t is None:
        t = {}

        def walk(p):
            for op, av in p:
                if str(op) == "SUBPATTERN":
                    if av[0] is not None:
                        t[av[0]] = av[3].getwidth()[0]
                    walk(av[3])
                elif str(op) in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
                    walk(av[2])
                elif str(op) == "BRANCH":
                    for b in av[1]:
                        walk(b)
                elif str(op) in ("ASSERT", "ASSERT_NOT"):
                    walk(av[1])
                elif str(op) == "ATOMIC_GROUP":
                    walk(av)

        walk(_sre_parser.parse(pat.pattern, pat.flags & ~re.DEBUG))
        _GROUP_MIN[pat] = t
    return t.get(k, 0)


class TooManyPaths(Exception):
    pass


class Event:
    __slots__ = ("kind", "obj", "key", "value", "loc", "locks", "func")

    def __init__(self, kind, obj, key, value, loc, locks, func):
        self.kind, self.obj, self.key, self.value = kind, obj, key, value
        self.loc, self.locks, self.func = loc, locks, func


class Engine:
    def __init__(self):
        self.prefix = []
        self.deadline = None
        self.reset()

    # ------------------------------------------------------------------ traces
    def reset(self):
        self.decisions = []  # (chosen, n)
        self.conds = []  # (predicate term, value, location)
        self.memo = {}
        self.typefacts = {}
        self.eqconst = {}
        self.neconst = {}
        self.bounds = {}
        self.groups = {}  # groups of matches that are known exactly
        self.events = []
        self.frames = []
        self.locks = []
        self.funcs_seen = set()
        self.sites_seen = set()
        self.depth = 0
        self.loc = None
        self.fresh = 0

    def choose(self, n, label=None):
        i = len(self.decisions)
        if i >= MAX_CHOICES:
            raise Imprecise("too many undetermined branches on one trace")
        v = self.prefix[i] if i < len(self.prefix) else 0
        self.decisions.append((v, n))
        return v

    def next_prefix(self):
        d = list(self.decisions)
        while d and d[-1][0] + 1 >= d[-1][1]:
            d.pop()
        if not d:
            return None
        v, n = d.pop()
        return [x for x, _ in d] + [v + 1]

    def event(self, kind, obj=None, key=None, value=None):
        fr = self.frames[-1] if self.frames else None
        ev = Event(kind, obj, key, value, self.where(), tuple(self.locks), fr.name if fr else "?")
        self.events.append(ev)
        if self.listener is not None:
            self.listener(ev)

    listener = None  # sees every write event, and read events of containers and instances

    def read(self, obj, key):
        if self.listener is not None:
            fr = self.frames[-1] if self.frames else None
            self.listener(Event("read", obj, key, None, self.where(), tuple(self.locks), fr.name if fr else "?"))

    def where(self):
        if self.frames:
            fr = self.frames[-1]
            return f"{fr.file}:{fr.lineno}"
        return "?"

    # ------------------------------------------------------------------- kinds
    def types(self, s):
        t = self.typefacts.get(s)
        return s.types if t is None else t

    def resolve(self, v):
        "Constant the trace facts force a value to be, else the value itself."
        if type(v) is Sym:
            if v in self.eqconst:
                return self.eqconst[v]
            t = self.types(v)
            if t is not None and len(t) == 1 and NoneType in t:
                return None
        return v

    def set_types(self, s, ts):
        self.typefacts[s] = frozenset(ts)

    def isinst(self, s, classes):
        "isinstance(s, classes) for an abstract s."
        if not isinstance(classes, tuple):
            classes = (classes,)
        ts = self.types(s)
        if ts is None:
            p = mk("isinst", s, tuple(classes), types=frozenset([bool]))
            return self.branch(p)
        yes = frozenset(t for t in ts if issubclass(t, classes))
        no = ts - yes
        if not no:
            return True
        if not yes:
            return False
        p = mk("isinst", s, tuple(sorted(classes, key=lambda c: c.__name__)), types=frozenset([bool]))
        r = self.branch(p)
        self.set_types(s, yes if r else no)
        return r

    def type_of(self, s):
        ts = self.types(s)
        if ts is None:
            raise Imprecise(f"type() of unconstrained value {S.show(s)}")
        ts = sorted(ts, key=lambda c: (c.__module__, c.__qualname__))
        if len(ts) > 1:
            for i, t in enumerate(ts[:-1]):
                if self.branch(mk("typeis", s, t, types=frozenset([bool]))):
                    self.set_types(s, [t])
                    return t
            self.set_types(s, [ts[-1]])
        return ts[-1] if len(ts) == 1 else ts[-1]

    # -------------------------------------------------------------- predicates
    def branch(self, p):
        "Decides predicate term p on this trace, splitting the partition if it is open."
        if p in self.memo:
            return self.memo[p]
        r = bool(self.choose(2))
        r = not r  # first explore True
        self.memo[p] = r
        self.conds.append((p, r, self.where()))
        return r

    def truth(self, v):
        v = self.resolve(v)
        if type(v) is not Sym:
            return bool(v)
        ts = self.types(v)
        if ts is not None:
            if len(ts) > 1:
                if NoneType in ts:
                    if self.isinst(v, NoneType):
                        return False
                    return self.truth(v)
                if ts <= NUM and ts != frozenset([bool]):
                    return not self.branch_eq(v, 0)
                return self.branch(mk("truth", v, types=frozenset([bool])))
            (t,) = ts
            if t is bool:
                return self.branch_eq(v, True)
            if t in (int, float):
                return not self.branch_eq(v, 0)
            if t is str:
                return not self.branch_eq(v, "")
            if t is bytes:
                return not self.branch_eq(v, b"")
            if t in (list, dict, set, tuple):
                return self.branch(mk("truth", v, types=frozenset([bool])))
            if t is datetime.timedelta:
                return not self.branch_eq(v, datetime.timedelta(0))
            if getattr(t, "__absint_opaque__", False):
                return self.branch(mk("truth", v, types=frozenset([bool])))
            if not hasattr(t, "__bool__") and not hasattr(t, "__len__"):
                return True
        return self.branch(mk("truth", v, types=frozenset([bool])))

    def branch_eq(self, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if type(a) is not Sym and type(b) is not Sym:
            return a == b
        if a is b:
            return True
        if type(a) is not Sym:
            a, b = b, a
        # a is abstract
        ta = self.types(a)
        if type(b) is Sym:
            tb = self.types(b)
            if ta is not None and tb is not None and not self._overlap(ta, tb):
                return False
            x, y = sorted((a, b), key=id)
            # deterministic order by textual form
            x, y = sorted((a, b), key=lambda s: S.show(s))
            return self.branch(mk("eq", x, y, types=frozenset([bool])))
        # b is a constant
        if a.op == "slice" and type(b) is str and a.args[3] is None and ta == frozenset([str]):
            y, i, j, _ = a.args
            if b and i == -len(b) and j is None:
                return self.edge(y, b, True)
            if b and i in (None, 0) and j == len(b):
                return self.edge(y, b, False)
        if a.op == "index" and type(b) is str and len(b) == 1 and a.args[1] in (0, -1) and self.types(a.args[0]) == frozenset([str]):
            return self.edge(a.args[0], b, a.args[1] == -1)
        if isinstance(b, datetime.timedelta) and a.types == frozenset([datetime.timedelta]):
            from . import linear

            return all(self.branch_eq(x, y) for x, y in linear.td_parts(self, a, b))
        if isinstance(b, enum.Enum):
            if not isinstance(b, (str, int, float)):
                if ta is not None and type(b) not in ta:
                    return False
            else:
                b = b.value
        tb = type(b)
        if ta is not None and not self._overlap(ta, frozenset([tb])):
            return False
        if isinstance(b, str) and not self.text_may_equal(a, b):
            return False
        if isinstance(b, (list, tuple, dict, set, frozenset)):
            return self.branch(mk("eq", a, b, types=frozenset([bool])))
        if ta == frozenset([bool]) and tb is not bool:
            if b not in (0, 1):
                return False
            b = bool(b)
            tb = bool
        try:
            ne = self.neconst.get(a, ())
            if any(b == x for x in ne):
                return False
        except TypeError:
            pass
        if tb is float and ta is not None and ta <= frozenset([int, bool]) and not b.is_integer():
            return False
        if tb in NUM:
            lo, hi = self.bounds.get(a, (-math.inf, math.inf))
            if not (lo <= b <= hi):
                return False
        if ta == frozenset([bool]):
            # two-valued: canonical predicate is "a is True"
            p = mk("eq", a, True, types=frozenset([bool]))
            r = self.branch(p)
            self.eqconst[a] = r
            return r == b
        if ta == frozenset([int]) and tb in (int, bool) and a.op in ("lin", "FloorDiv", "Mod"):
            from . import linear

            c = linear.canonical_eq(self, a, int(b))
            if isinstance(c, bool):
                return c
            if c[0] is not a:
                r = self.branch_eq(*c)
                if r:
                    self.eqconst[a] = int(b)
                else:
                    self.neconst.setdefault(a, []).append(b)
                return r
        r = self.branch(mk("eq", a, b, types=frozenset([bool])))
        if r:
            if ta is not None and len(ta) == 1 or tb in (str, bytes):
                if ta is not None and ta <= NUM and (tb is bool or len(ta) == 1):
                    (t1,) = ta if len(ta) == 1 else (tb,)
                    self.eqconst[a] = t1(b)
                else:
                    self.eqconst[a] = b
            if tb in (str, bytes) and ta is not None:
                self.set_types(a, [tb])
        else:
            self.neconst.setdefault(a, []).append(b)
            if tb in (int,) and ta == frozenset([int]):
                lo, hi = self.bounds.get(a, (-math.inf, math.inf))
                if b == lo:
                    lo += 1
                if b == hi:
                    hi -= 1
                self.bounds[a] = (lo, hi)
        return r

    def nonempty_text(self, a):
        "Is the abstract text certainly non-empty?"
        if type(a) is not Sym:
            return a != ""
        if a.op == "fmt":
            return any(self.nonempty_text(x) for x in a.args)
        if a.op in ("str", "format") and type(a.args[0]) is Sym:
            ts = self.types(a.args[0])
            return ts is not None and all(t in (int, float, bool, NoneType) for t in ts)
        if a.op == "group":
            return _group_min(a) > 0
        return False

    def text_may_equal(self, a, b):
        if b == "":
            return not self.nonempty_text(a)
        if a.op == "fmt":
            lits = [x for x in a.args if isinstance(x, str)]
            if isinstance(a.args[0], str) and not b.startswith(a.args[0]):
                return False
            if isinstance(a.args[-1], str) and not b.endswith(a.args[-1]):
                return False
            if sum(map(len, lits)) > len(b) or any(x not in b for x in lits):
                return False
        if a.op in ("str", "format", "m:isoformat") and type(a.args[0]) is Sym and self.types(a.args[0]) == frozenset([int]) and a.op == "str":
            if not _INT_TEXT.match(b):
                return False
        return True

    @staticmethod
    def _overlap(ta, tb):
        if ta & tb:
            return True
        if ta & NUM and tb & NUM:
            return True
        for x in ta:
            for y in tb:
                if x in S.JSON_KINDS and y in S.JSON_KINDS:
                    continue
                if issubclass(x, y) or issubclass(y, x):
                    return True
        return False

    def branch_lt(self, a, b):
        "a < b"
        a, b = self.resolve(a), self.resolve(b)
        if type(a) is not Sym and type(b) is not Sym:
            return a < b
        if a is b:
            return False
        for x in (a, b):
            if type(x) is Sym:
                ts = self.types(x)
                other = b if x is a else a
                to = self.types(other) if type(other) is Sym else frozenset([type(other)])
                if ts is None or to is None:
                    raise Imprecise("ordering of unconstrained values")
                if not (ts <= NUM and to <= NUM) and not (ts == to and len(ts) == 1):
                    if not (ts & NUM and to & NUM) and not (ts & to):
                        raise TypeError(f"'<' not supported between instances of {ts} and {to}")
                    raise Imprecise("ordering of values of mixed kinds")
        for x, y in ((a, b), (b, a)):
            if type(x) is Sym and x.types == frozenset([datetime.timedelta]) and isinstance(y, datetime.timedelta):
                from . import linear

                ps = linear.td_parts(self, x, y)
                for u, v in ps if x is a else [(v, u) for u, v in ps]:
                    if self.branch_lt(u, v):
                        return True
                    if not self.branch_eq(u, v):
                        return False
                return False
        if type(a) is Sym and type(b) in NUM:
            lo, hi = self.bounds.get(a, (-math.inf, math.inf))
            if hi < b:
                return True
            if lo >= b:
                return False
            r = self.branch(mk("lt", a, b, types=frozenset([bool])))
            is_int = self.types(a) == frozenset([int])
            if r:
                self.bounds[a] = (lo, min(hi, (math.ceil(b) - 1) if is_int and math.isfinite(b) else b))
            else:
                self.bounds[a] = (max(lo, math.ceil(b) if is_int and math.isfinite(b) else b), hi)
            self._pin(a)
            return r
        if type(b) is Sym and type(a) in NUM:
            lo, hi = self.bounds.get(b, (-math.inf, math.inf))
            if a < lo:
                return True
            if a >= hi:
                return False
            r = self.branch(mk("lt", a, b, types=frozenset([bool])))
            is_int = self.types(b) == frozenset([int])
            if r:
                self.bounds[b] = (max(lo, (math.floor(a) + 1) if is_int and math.isfinite(a) else a), hi)
            else:
                self.bounds[b] = (lo, min(hi, math.floor(a) if is_int and math.isfinite(a) else a))
            self._pin(b)
            return r
        return self.branch(mk("lt", a, b, types=frozenset([bool])))

    def _pin(self, a):
        lo, hi = self.bounds[a]
        if lo == hi and self.types(a) == frozenset([int]):
            self.eqconst[a] = lo

    def set_bounds(self, s, lo, hi):
        l0, h0 = self.bounds.get(s, (-math.inf, math.inf))
        self.bounds[s] = (max(lo, l0), min(hi, h0))

    def may_raise(self, term, excs):
        "Splits on whether evaluating `term` raises; raises the exception on that branch."
        for exc in excs:
            p = mk("raises", term, exc, types=frozenset([bool]))
            if p in self.memo:
                r = self.memo[p]
            else:
                # explore the normal outcome first
                r = bool(self.choose(2))
                self.memo[p] = r
                self.conds.append((p, r, self.where()))
            if r:
                e = exc.__new__(exc)
                e.args = (mk("excmsg", term, types=frozenset([str])),)
                raise e

    # ---------------------------------------------------------------- lookups
    def check_hashable(self, key):
        if type(key) is Sym:
            if self.types(key) is not None and self.types(key) & {list, dict, set}:
                if self.isinst(key, (list, dict, set)):
                    raise TypeError("unhashable type")
        elif type(key) is tuple:
            for k in key:
                self.check_hashable(k)
        else:
            hash(key)

    def dict_find(self, d, key):
        "Returns (found, stored key)."
        if not has_sym(key):
            if key in d:
                return True, key
            if not any(has_sym(k) for k in d):
                return False, None
        else:
            self.check_hashable(key)
        for k in list(d):
            if k is key:
                return True, k
        for k in list(d):
            if self.eq(k, key):
                return True, k
        return False, None

    def eq(self, a, b):
        if type(a) is Sym or type(b) is Sym:
            return self.branch_eq(a, b)
        if type(a) is tuple and type(b) is tuple:
            if len(a) != len(b):
                return False
            return all(self.eq(x, y) for x, y in zip(a, b))
        return a == b

    def contains(self, container, item):
        t = type(container)
        if type(container) is Sym:
            ts = self.types(container)
            if ts == frozenset([str]):
                item = self.resolve(item)
                if type(item) is str and item == "":
                    return True
                return self.branch(mk("contains", container, item, types=frozenset([bool])))
            raise Imprecise(f"membership test in {S.show(container)}")
        if t is MappingProxyType:
            return self.dict_find(dict(container), item)[0]
        if t is dict or isinstance(container, dict):
            return self.dict_find(container, item)[0]
        if isinstance(container, (set, frozenset)):
            if has_sym(item) or has_sym(container):
                return self.dict_find(dict.fromkeys(container), item)[0]
            return item in container
        if t in (list, tuple):
            if has_sym(item) or has_sym(container):
                for x in container:
                    if x is item or self.eq(x, item):
                        return True
                return False
            return item in container
        if type(item) is Sym and isinstance(container, str):
            return self.branch(mk("contains", container, item, types=frozenset([bool])))
        if type(item) is Sym:
            if isinstance(container, (type({}.keys()), type({}.values()))):
                for x in container:
                    if x is item or self.eq(x, item):
                        return True
                return False
            raise Imprecise(f"membership test in {type(container).__name__}")
        return item in container


BINOPS = {
    "Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "Div": operator.truediv,
    "FloorDiv": operator.floordiv, "Mod": operator.mod, "Pow": operator.pow, "LShift": operator.lshift,
    "RShift": operator.rshift, "BitOr": operator.or_, "BitAnd": operator.and_, "BitXor": operator.xor,
    "MatMult": operator.matmul,
}


def fmt(parts):
    "String concatenation in normal form."
    out = []
    for p in parts:
        if type(p) is Sym and p.op == "fmt":
            out.extend(p.args)
        else:
            out.append(p)
    norm = []
    for p in out:
        if isinstance(p, str):
            if p == "":
                continue
            if norm and isinstance(norm[-1], str):
                norm[-1] += p
                continue
        norm.append(p)
    if not norm:
        return ""
    if len(norm) == 1:
        if isinstance(norm[0], str):
            return norm[0]
        if norm[0].types == frozenset([str]):
            return norm[0]
    return mk("fmt", *norm, types=frozenset([str]))
