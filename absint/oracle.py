"""
Refutation of suspected findings by constant folding of terms.

A trace that seems to break a property is only reported when its branch predicates can
all hold together and its outcome really differs from the allowed one.  Both questions
are answered on the *terms* the analysis derived: atoms are replaced by members of a
fixed alphabet (plus the constants the predicates mention) and the standard-library
functions named by the term are folded.  The analysed package is not involved.
"""

import base64
import datetime
import enum
import ipaddress
import itertools
import math
import operator
import re
import time
import uuid

from . import sym as S
from .engine import BINOPS
from .sym import Kw, Sym

UTC = datetime.timezone.utc
_TZ = datetime.timezone(datetime.timedelta(hours=5, minutes=30))
dt, td = datetime.datetime, datetime.timedelta

TEXT = [
    "", "a", "b", "0", "1", "12", "-5", "1.5", " 7 ", "1_000", "true", "null", "é", "x y", "\n", "a\n", "٣", "９", "²",
    "2020-01-01T00:00:00Z", "2023-07-09T12:34:56.789012Z", "2023-07-09T12:34:56+00:00", "2023-07-09T12:34:56+05:30",
    "2023-07-09T12:34:56.5-03:00", "2020-01-01T00:00:00", "2020-01-01", "2023-07-09", "0001-01-01", "9999-12-31", "2020-02-30",
    "2020-W01-1", "20200101", "20200101T000000Z", "2023-07-09 12:34:56Z", "2023-07-09T12:34Z", "2023-07-09T12Z", "2023-07-09T12:34:56,5Z",
    "2023-07-09T12:34:56z", "2023-07-09T12:34:56ZZ", "2023-07-09T12:34:56+00:00Z", "Z", "2023-07-09Z", "2023-07-09T12:34:56.123456789Z", "2023-07-09T23:59:60Z",
    "23:59:59.999999", "00:00:00", "12:34:56", "12:34", "12:34:56Z", "12:34:56+05:30", "T12:34:56", "25:00:00", "12:34:56z",
    "", "P", "PT", "PT0S", "P1D", "P1W", "P2W3D", "P1DT2H3M4S", "PT5M", "PT1H", "PT1.5S", "PT0.000001S", "PT0.0000001S", "PT0.000000001S", "PT0.123456789S",
    "PT0.123456000S", "PT0.9S", "PT0.000999S", "PT0.1234567890S", "P1DT", "-P1D", "P-1D", "P1Y", "P1M", "p1d", "P1D\n", "PT1H1S", "PT100H", "PT90M", "PT86400S", " P1D", "P1D ", "P" + "9" * 4400 + "D",
    "P99999999999D", "P999999999D", "P99999999999W", "PT" + "9" * 30 + "S", "PT" + "9" * 4400 + "S", "PT" + "9" * 4400 + "M", "PT" + "9" * 4400 + "H",
    "P" + "9" * 4400 + "W", "PT" + "0" * 4400 + "S", "PT0." + "9" * 4400 + "S", "P٣D", "PT0.٣S",
    "QUJD", "QUJDRA==", "QUJDRA", "QUJ D", "QUJD\n", "!!!!", "QQ==", "_-==", "+/==", "-_8=", "+/8=", "QUJDRA==QUJD", "=", "QQ=", "A",
    "f81d4fae-7dec-11d0-a765-00a0c91e6bf6", "F81D4FAE-7DEC-11D0-A765-00A0C91E6BF6", "f81d4fae7dec11d0a76500a0c91e6bf6",
    "{f81d4fae-7dec-11d0-a765-00a0c91e6bf6}", "urn:uuid:f81d4fae-7dec-11d0-a765-00a0c91e6bf6", "f81d4fae-7dec-11d0-a765-00a0c91e6bf",
    "192.0.2.1", "0.0.0.0", "192.0.2.256", "192.0.2", "192.0.2.01", "2001:db8::1", "::", "2001:DB8::1", "2001:db8::g", "fe80::1%eth0", "::ffff:192.0.2.1",
    "192.0.2.1/24", "192.0.2.1\n", "Infinity", "nan", "1e5", "0x10", "None", "from", "class", "from_", "_",
    "a\r\nb", "\r", "\t", "\xa0", "e\u0301", "\u212b", "\ufb01", "\xdf", "\u0130", "A", "aB", "a ", "a  b", "\ufeffa", "\x00", "\ud800", "\U0001f600", "&lt;", "%20", "\\n", "'", '"', "a,b", "{}", "[]", "${a}",
]
TEXT = list(dict.fromkeys(TEXT))

POOL = {
    type(None): [None],
    bool: [True, False],
    int: [0, 1, -1, 2, 7, 12, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**32, 2**53 + 1, 2**63 - 1, 2**63, 2**64, -2**31, -2**63, 10**18, 10**400, -10**400],
    float: [0.0, 1.0, -1.0, 1.5, -2.25, 0.1, 2.0**53, 1e300, -1e300, 5e-324, math.inf, -math.inf, math.nan],
    str: TEXT,
    list: [[], ["a"], [1], [[]]],
    dict: [{}, {"a": 1}, {"b": None}],
    tuple: [(), ("a",)],
    bytes: [b"", b"ABC", b"\x00\xff", b"\xfb\xff\xfe", bytes(range(100))],
    datetime.datetime: [dt(2023, 7, 9, 12, 34, 56, tzinfo=UTC), dt(2023, 7, 9, 12, 34, 56, 789012, tzinfo=UTC), dt(2023, 7, 9, 12, 34, 56, tzinfo=_TZ),
                        dt(2023, 7, 9, 0, 0, tzinfo=UTC), dt(1, 1, 1, tzinfo=UTC), dt(9999, 12, 31, 23, 59, 59, 999999, tzinfo=UTC),
                        dt(2023, 7, 9, 12, 34, 56, 500, tzinfo=datetime.timezone(td(hours=-3))), dt(2023, 7, 9, 12, 34, 56, 1000, tzinfo=UTC),
                        dt(2023, 7, 9, 12, 34, 56, tzinfo=datetime.timezone(td(seconds=1))), dt(2023, 7, 9, 12, 34, 56), dt(2023, 7, 9, 12, 34, 56, fold=1)],
    datetime.date: [datetime.date(2023, 7, 9), datetime.date(1, 1, 1), datetime.date(9999, 12, 31)],
    datetime.time: [datetime.time(0), datetime.time(12, 34), datetime.time(12, 34, 56), datetime.time(23, 59, 59, 999999), datetime.time(1, 2, 3, 5000),
                    datetime.time(12, 34, 56, tzinfo=UTC), datetime.time(12, 34, 56, tzinfo=_TZ)],
    datetime.timedelta: [td(0), td(days=1), td(seconds=1), td(minutes=1), td(hours=1), td(microseconds=1), td(milliseconds=1), td(milliseconds=10), td(milliseconds=120),
                         td(microseconds=1001), td(microseconds=100000), td(microseconds=999999), td(days=6), td(days=7), td(days=8), td(days=14, hours=3),
                         td(days=999999999), td(days=999999999, hours=23, minutes=59, seconds=59, microseconds=999999), td(hours=23, minutes=59, seconds=59),
                         td(seconds=59), td(seconds=60), td(seconds=61), td(seconds=3599), td(seconds=3600), td(seconds=3601), td(seconds=3660), td(days=1, seconds=60),
                         td(days=2, microseconds=7), td(hours=1, microseconds=5000), td(days=1, hours=2, minutes=3, seconds=4, milliseconds=50), td(minutes=90), td(days=400),
                         td(minutes=1, seconds=1), td(hours=1, seconds=1), td(hours=1, minutes=1), td(minutes=1, microseconds=10000), td(days=1, microseconds=1), td(hours=10), td(minutes=10), td(seconds=10), td(days=10), td(hours=20, minutes=30, seconds=40, microseconds=120034),
                         td(seconds=-1), td(days=-1), td(microseconds=-1),
                         # every combination of vanishing and non-vanishing components
                         *(td(days=d, hours=h, minutes=m, seconds=s, microseconds=u) for d in (0, 8) for h in (0, 2) for m in (0, 3) for s in (0, 4) for u in (0, 5, 6000) if bool(d) + bool(h) + bool(m) + bool(s) + bool(u) > 1)],
    uuid.UUID: [uuid.UUID("f81d4fae-7dec-11d0-a765-00a0c91e6bf6"), uuid.UUID(int=0), uuid.UUID(int=2**128 - 1)],
    ipaddress.IPv4Address: [ipaddress.IPv4Address("192.0.2.1"), ipaddress.IPv4Address(0)],
    ipaddress.IPv6Address: [ipaddress.IPv6Address("2001:db8::1"), ipaddress.IPv6Address(0), ipaddress.IPv6Address("fe80::1%eth0"), ipaddress.IPv6Address("::ffff:192.0.2.1")],
    datetime.tzinfo: [UTC, _TZ],
}
_REVERSED = operator.sub


class Unknown(Exception):
    "The term cannot be folded."


class Raised(Exception):
    def __init__(self, e):
        super().__init__(repr(e))
        self.e = e


def _do(f, *a, **k):
    try:
        return f(*a, **k)
    except (Unknown, Raised):
        raise
    except Exception as e:
        raise Raised(e)


class Uninterpreted:
    """Value of an opaque input or of an analysis hook: different from every constant and from every
    value made of other arguments, as its interpretation is free.  Nothing else is known about it."""

    __slots__ = ("key", "term")

    def __init__(self, key, term):
        self.key, self.term = key, term

    def __eq__(self, other):
        return type(other) is Uninterpreted and self.key == other.key

    def __hash__(self):
        return hash(str(self.term.op))

    def __repr__(self):
        return S.show(self.term)

    def _unknown(self, *a, **k):
        raise Unknown("operation on an opaque value")

    __str__ = __format__ = __bool__ = __len__ = __iter__ = __int__ = __float__ = __index__ = __call__ = __getitem__ = __contains__ = _unknown
    __lt__ = __le__ = __gt__ = __ge__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __mod__ = __rmod__ = _unknown

    def __getattr__(self, name):
        raise Unknown("attribute of an opaque value")


class Valuation:
    "Folds terms under an assignment of alphabet members to atoms."

    def __init__(self, env, pinned=()):
        self.env = env
        self.cache = {}
        self.pinned = pinned

    def _key(self, v, depth=0):
        "Image of a hook argument that compares by class and value."
        if depth > 20:
            raise Unknown("argument of a hook")
        if type(v) is Sym:
            v = self.ev(v)
            if type(v) is Uninterpreted:
                return v.key
        if type(v) in (list, tuple) or type(v) is Kw:
            return (type(v),) + tuple(self._key(x, depth + 1) for x in v)
        if type(v) is dict:
            return (dict,) + tuple((self._key(k, depth + 1), self._key(x, depth + 1)) for k, x in v.items())
        if isinstance(v, (type, enum.Enum)) or callable(v):
            return v
        if type(v).__name__ == "Obj" and hasattr(v, "cls") and hasattr(v, "values"):
            return ("obj", v.cls, self._key(dict(sorted(v.values.items())), depth + 1))
        if type(v).__module__.startswith("absint_"):
            return ("obj", type(v), self._key(dict(sorted(S.state(v).items())), depth + 1))
        return (type(v), v)

    def ev(self, t):
        if type(t) is not Sym:
            if type(t) in (list, tuple) or type(t) is Kw:
                return type(t)(self.ev(x) for x in t) if type(t) is not list else [self.ev(x) for x in t]
            if type(t) is dict:
                return {self.ev(k): self.ev(v) for k, v in t.items()}
            return t
        if t in self.cache:
            r = self.cache[t]
            if isinstance(r, (Raised, Unknown)):
                raise r
            return r
        try:
            r = self._ev(t)
        except (Raised, Unknown) as e:
            self.cache[t] = e
            raise
        self.cache[t] = r
        return r

    def _ev(self, t):
        op, a = t.op, t.args
        if t in self.env:
            return self.env[t]
        if op == "hook" or op == "in" and _opaque(t):
            if t in self.pinned:
                raise Unknown("the trace says more about an opaque value")
            return Uninterpreted(t if op == "in" else self._key((op,) + a), t)
        if op == "in":
            raise Unknown(a[0])
        if op == "call":
            f = a[0]
            if isinstance(f, str):
                raise Unknown(f)
            args = [self.ev(x) for x in a[1:] if type(x) is not Kw]
            kw = {k: self.ev(v) for x in a[1:] if type(x) is Kw for k, v in x}
            return _do(f, *args, **kw)
        if op.startswith("m:"):
            o = self.ev(a[0])
            args = [self.ev(x) for x in a[1:] if type(x) is not Kw]
            kw = {k: self.ev(v) for x in a[1:] if type(x) is Kw for k, v in x}
            return _do(lambda: getattr(o, op[2:])(*args, **kw))
        if op == "attr":
            return _do(getattr, self.ev(a[0]), a[1])
        if op in BINOPS:
            return _do(BINOPS[op], self.ev(a[0]), self.ev(a[1]))
        if op in ("lin", "td"):
            n = a[0] + sum(c * self.ev(x) for x, c in a[1:])
            return n if op == "lin" else _do(td, microseconds=n)
        if op == "fmt":
            return "".join(self.ev(x) for x in a)
        if op == "str":
            return _do(str, self.ev(a[0]))
        if op == "repr":
            if type(self.ev(a[0])) is Uninterpreted:
                raise Unknown("text of an opaque value")
            return _do(repr, self.ev(a[0]))
        if op == "format":
            return _do(format, self.ev(a[0]), self.ev(a[1]))
        if op == "len":
            return _do(len, self.ev(a[0]))
        if op == "slice":
            return _do(lambda: self.ev(a[0])[self.ev(a[1]):self.ev(a[2]):self.ev(a[3])])
        if op == "index":
            return _do(lambda: self.ev(a[0])[self.ev(a[1])])
        if op == "part":
            return _do(lambda: getattr(self.ev(a[0]), a[1])(self.ev(a[2]))[a[3]])
        if op == "match":
            return _do(lambda: getattr(a[1], a[0])(self.ev(a[2])))
        if op == "matches":
            return _do(lambda: getattr(a[1], a[0])(self.ev(a[2])) is not None)
        if op == "group":
            return _do(lambda: self.ev(a[0])[a[1]])
        if op == "resub":
            return _do(lambda: a[0].sub(self.ev(a[1]), self.ev(a[2])))
        if op in ("isinst", "typeis"):
            v = self.ev(a[0])
            if type(v) is Uninterpreted:
                raise Unknown("class of an opaque value")
            return isinstance(v, a[1]) if op == "isinst" else type(v) is a[1]
        if op == "eq":
            x, y = self.ev(a[0]), self.ev(a[1])
            if (type(x) is Uninterpreted or type(y) is Uninterpreted) and not x == y:
                raise Unknown("equality with an opaque value")
            return bool(_do(operator.eq, x, y))
        if op == "lt":
            return bool(_do(operator.lt, self.ev(a[0]), self.ev(a[1])))
        if op == "contains":
            return _do(operator.contains, self.ev(a[0]), self.ev(a[1]))
        if op == "truth":
            return bool(self.ev(a[0]))
        if op == "neg":
            return _do(operator.neg, self.ev(a[0]))
        if op == "raises":
            try:
                self.ev(a[0])
            except Raised as r:
                return isinstance(r.e, a[1])
            return False
        if op == "excmsg":
            return ""
        raise Unknown(op)

    def holds(self, conds):
        for p, want, _ in conds:
            try:
                if bool(self.ev(p)) != want:
                    return False
            except Raised:
                return False
        return True


def constants(conds):
    "Constants mentioned by predicates, by kind, with neighbours."
    out = {}

    def add(v):
        out.setdefault(type(v), []).append(v)

    def walk(t):
        if type(t) is Sym:
            for x in t.args:
                walk(x)
        elif isinstance(t, enum.Enum):
            walk(t.value)
        elif isinstance(t, bool):
            pass
        elif isinstance(t, int):
            for d in (-1, 0, 1):
                add(t + d)
            add(float(t)) if abs(t) < 2**60 else None
        elif isinstance(t, str):
            if len(t) < 60:
                add(t)
                add(t + "x")
        elif isinstance(t, (float, bytes)):
            add(t)
        elif type(t) in (tuple, list, Kw):
            for x in t:
                walk(x)

    for p, _, _ in conds:
        walk(p)
    return out


def _free(p):
    "Predicates on opaque elements and analysis hooks, which user code may answer either way."
    op = p.op
    if op == "raises" or op == "truth" or op == "isinst" or op == "typeis":
        t = p.args[0]
    elif op == "eq":
        t = p.args[0] if type(p.args[0]) is Sym else p.args[1]
    else:
        return False
    return _opaque(t) or any(_opaque(x) for x in p.args if type(x) is Sym)


def _opaque(t):
    "Inputs of opaque classes and results of hooks."
    if type(t) is not Sym:
        return False
    if t.op == "hook":
        return True
    ts = t.types
    return t.op == "in" and ts is not None and all(getattr(c, "__absint_opaque__", False) for c in ts)


SPENT = [0.0]


def witnesses(outcome, extra=None, limit=100000, terms=()):
    """Yields valuations of the trace's scalar atoms under which all its predicates hold."""
    conds = [c for c in outcome.conds if not _free(c[0])]
    pinned = set()
    for p, want, _ in outcome.conds:
        # facts about opaque values that may tie them to constants
        if _free(p) and p.op != "raises" and (want if p.op != "truth" else not want):
            pinned.update(x for x in p.args if _opaque(x) and not (p.op == "truth" and x.op == "hook" and x.types is None))
    for t in outcome.typefacts or ():
        if _opaque(t) and outcome.typefacts[t] != t.types:
            pinned.add(t)
    ats = []
    for p, _, _ in conds:
        S.atoms(p, ats)
    for t in terms:
        S.atoms(t, ats)
    ats = [a for a in ats if not _opaque(a)]
    consts = constants(conds)
    pools = []
    for a in ats:
        ts = outcome.typefacts.get(a, a.types) if outcome.typefacts else a.types
        if extra and a in extra:
            pool = list(extra[a])
        else:
            if ts is None:
                ts = frozenset(POOL)
            pool = []
            for t in sorted(ts, key=lambda c: c.__name__):
                got = POOL.get(t)
                if got is None and isinstance(t, type) and issubclass(t, enum.Enum):
                    got = list(t)
                if got is None:
                    return  # no alphabet for this class
                if t in (int, float, str, bytes):
                    got = list(got) + consts.get(t, [])
                pool += got
        pools.append(pool)
    # restrict each atom first by the predicates about it alone
    single = []
    for a, pool in zip(ats, pools):
        mine = [c for c in conds if [x is a for x in S.atoms(c[0])] == [True]]
        keep = []
        for w in pool:
            v = Valuation({a: w}, pinned)
            try:
                if v.holds(mine):
                    keep.append(w)
            except Unknown:
                keep.append(w)
        single.append(keep)
    # depth-first search; a predicate is evaluated as soon as the atoms it mentions are bound
    ready = [[] for _ in range(len(ats) + 1)]
    pos = {a: i + 1 for i, a in enumerate(ats)}
    for c in conds:
        ready[max((pos.get(x, 0) for x in S.atoms(c[0])), default=0)].append(c)
    # 20 s for one search; all searches of a process together get 150 s, from then on 0.3 s each
    start = time.time()
    left, until = [limit], start + max(0.3, min(20, 150 - SPENT[0]))

    def search(i, env):
        if left[0] <= 0 or time.time() > until:
            return
        left[0] -= 1
        v = Valuation(env, pinned)
        try:
            if not v.holds(ready[i]):
                return
        except Unknown:
            return
        if i == len(ats):
            yield v
            return
        for w in single[i]:
            yield from search(i + 1, {**env, ats[i]: w})

    try:
        yield from search(0, {})
    finally:
        SPENT[0] += time.time() - start


def feasible(outcome, **k):
    for v in witnesses(outcome, **k):
        return v
    return None


def same(x, y):
    "Equality of folded results: same class, same value (NaN equals itself)."
    if type(x) is not type(y):
        return False
    if isinstance(x, float) and x != x:
        return y != y
    if isinstance(x, (list, tuple)):
        return len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    if isinstance(x, dict):
        return list(x) == list(y) and all(same(x[k], y[k]) for k in x)
    if isinstance(x, datetime.datetime) or isinstance(x, datetime.time):
        return x == y and x.utcoffset() == y.utcoffset() and x.isoformat() == y.isoformat()
    return x == y
