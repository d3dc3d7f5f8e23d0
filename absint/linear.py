"""
Linear integer arithmetic with division by constants, durations, and decimal text.

Integer terms are kept in the normal form  c0 + sum(ci * atom)  where an atom is an input,
an attribute, or floor(t / k) with t again in normal form; `t % k` is t - k * floor(t / k).
Equalities known on the trace are used by elimination over the rationals.  Durations are
numbers of microseconds in the same form.  Text made of literals and zero-padded decimal
numbers is matched against regular expressions that treat all digits alike, so that the
result depends only on the number of digits, which the interval of the number bounds.
"""

import datetime
import itertools
import math
import re
from fractions import Fraction
from math import gcd

from . import sym as S
from .sym import Imprecise, Sym, mk

try:
    from re import _constants as K, _parser as P
except ImportError:
    import sre_constants as K
    import sre_parse as P

INT, STR, TD = frozenset([int]), frozenset([str]), frozenset([datetime.timedelta])
UNITS = {"days": 86400000000, "seconds": 1000000, "microseconds": 1, "milliseconds": 1000, "minutes": 60000000, "hours": 3600000000, "weeks": 7 * 86400000000}
TD_MIN, TD_MAX = -999999999 * UNITS["days"], 1000000000 * UNITS["days"] - 1


# ------------------------------------------------------------------------- integers
def form(t):
    if type(t) is not Sym:
        return {}, int(t)
    if t.op in ("lin", "td"):
        return dict(t.args[1:]), t.args[0]
    return {t: 1}, 0


def term(coefs, const=0, op="lin"):
    coefs = {a: c for a, c in coefs.items() if c}
    if op == "lin":
        if not coefs:
            return const
        if len(coefs) == 1 and const == 0:
            ((a, c),) = coefs.items()
            if c == 1:
                return a
    return mk(op, const, *sorted(coefs.items(), key=lambda x: S.show(x[0], 20)), types=INT if op == "lin" else TD)


def add(x, y, k=1):
    c = dict(x[0])
    for a, n in y[0].items():
        c[a] = c.get(a, 0) + k * n
    return {a: n for a, n in c.items() if n}, x[1] + k * y[1]


def scale(x, k):
    return {a: n * k for a, n in x[0].items()}, x[1] * k


def interval(E, x):
    lo = hi = x[1]
    for a, c in x[0].items():
        l, h = E.bounds.get(a, (-math.inf, math.inf))
        l, h = (l * c, h * c) if c > 0 else (h * c, l * c)
        lo, hi = lo + l, hi + h
    return lo, hi


def make(E, x):
    t = term(*x)
    if type(t) is Sym:
        E.set_bounds(t, *interval(E, x))
    return t


def floordiv(E, x, k):
    q, r = {}, {}
    for a, c in x[0].items():
        n = int(c / k) if abs(c) < 2**50 else (abs(c) // k) * (1 if c > 0 else -1)
        if n:
            q[a] = n
        if c - n * k:
            r[a] = c - n * k
    q0, r0 = divmod(x[1], k)
    g = k
    for c in r.values():
        g = gcd(g, c)
    if g > 1:
        r, r0, k = {a: c // g for a, c in r.items()}, r0 // g, k // g
    if k == 1:
        return add((q, q0), (r, r0))
    lo, hi = interval(E, (r, r0))
    if math.isfinite(lo) and math.isfinite(hi) and lo // k == hi // k:
        return q, q0 + int(lo // k)
    if r0 == 0 and len(r) == 1:
        ((a, c),) = r.items()
        if c == 1 and a.op == "FloorDiv" and type(a.args[1]) is int:
            at = mk("FloorDiv", a.args[0], a.args[1] * k, types=INT)
        else:
            at = mk("FloorDiv", term(r, r0), k, types=INT)
    else:
        at = mk("FloorDiv", term(r, r0), k, types=INT)
    E.set_bounds(at, lo // k if lo > -math.inf else lo, hi // k if hi < math.inf else hi)
    return add((q, q0), ({at: 1}, 0))


def limits(E, t):
    if type(t) is not Sym:
        return t, t
    return E.bounds.get(t, (-math.inf, math.inf))


def arith(E, op, a, b):
    "Normal form of an operation on integers, or None when it is not linear."
    fa, fb = form(a), form(b)
    (al, ah), (bl, bh) = limits(E, a), limits(E, b)
    lo, hi = -math.inf, math.inf
    if op == "Add":
        x, lo, hi = add(fa, fb), al + bl, ah + bh
    elif op == "Sub":
        x, lo, hi = add(fa, fb, -1), al - bh, ah - bl
    elif op == "Mult":
        if not fa[0]:
            fa, fb, al, ah = fb, fa, bl, bh
        if fb[0]:
            return None
        k = fb[1]
        x = scale(fa, k)
        if k:
            lo, hi = (al * k, ah * k) if k > 0 else (ah * k, al * k)
    else:
        if fb[0] or fb[1] <= 0 or op not in ("FloorDiv", "Mod"):
            return None
        k = fb[1]
        x = floordiv(E, fa, k)
        if op == "FloorDiv":
            lo, hi = al // k if al > -math.inf else al, ah // k if ah < math.inf else ah
        else:
            x = add(fa, x, -k)
            lo, hi = 0, k - 1
            if 0 <= al and ah < k:
                x, lo, hi = fa, al, ah
    t = make(E, x)
    if type(t) is Sym:
        E.set_bounds(t, lo, hi)
        l, h = E.bounds[t]
        if l == h:
            return int(l)
    return t


def reduce(E, x):
    "Form modulo the equalities known on this trace."
    rows = []
    for s, v in E.eqconst.items():
        if s.types == INT and type(v) is int:
            c, k = form(s)
            row = {a: Fraction(n) for a, n in c.items()}, Fraction(k - v)
            rows.append(row)
    x = {a: Fraction(n) for a, n in x[0].items()}, Fraction(x[1])
    basis = []
    for row in rows:
        for p, b in basis:
            if p in row[0]:
                row = add(row, b, -row[0][p])
        if row[0]:
            p = min(row[0], key=lambda s: (s.op != "FloorDiv", S.show(s, 20)))
            row = scale(row, 1 / row[0][p])
            basis = [(q, add(b, row, -b[0][p]) if p in b[0] else b) for q, b in basis]
            basis.append((p, row))
    for p, b in basis:
        if p in x[0]:
            x = add(x, b, -x[0][p])
    return x


def same(E, a, b):
    "Do two integer or duration terms agree on this trace?  True / None."
    if total_kind(a) or total_kind(b):
        fa, fb = total(E, a), total(E, b)
        if fa is None or fb is None:
            return None
    else:
        fa, fb = form(a), form(b)
    d = reduce(E, add(fa, fb, -1))
    return True if not d[0] and d[1] == 0 else None


def canonical_eq(E, a, b):
    """Equation a = b in primitive form: (term, constant), or True/False when decided."""
    x = add(form(a), ({}, b), -1)
    r = reduce(E, x)
    if not r[0]:
        return r[1] == 0
    lo, hi = interval(E, x)
    if lo > 0 or hi < 0:
        return False
    g = 0
    for c in x[0].values():
        g = gcd(g, c)
    if x[1] % g:
        return False
    items = sorted(x[0].items(), key=lambda i: S.show(i[0], 20))
    if items[0][1] < 0:
        g = -g
    return term({k: c // g for k, c in items}), -x[1] // g


# ------------------------------------------------------------------------ durations
def total_kind(t):
    return isinstance(t, datetime.timedelta) or type(t) is Sym and t.types == TD


def total(E, t):
    "Microseconds of a duration."
    if isinstance(t, datetime.timedelta):
        return {}, t.days * UNITS["days"] + t.seconds * 1000000 + t.microseconds
    if t.op == "td":
        return form(t)
    if t.op == "call":
        return None
    r = ({}, 0)
    for n, lo, hi in (("days", -999999999, 999999999), ("seconds", 0, 86399), ("microseconds", 0, 999999)):
        a = mk("attr", t, n, types=INT)
        E.set_bounds(a, lo, hi)
        r = add(r, ({a: UNITS[n]}, 0))
    return r


def td_parts(E, t, c):
    "Pairs of numbers, most significant first, that compare as abstract duration t and constant c do."
    if t.op == "td":
        return [(make(E, form(t)), total(E, c)[1])]
    if t.op == "call":
        raise Imprecise("comparison of durations")
    total(E, t)
    return [(mk("attr", t, n, types=INT), getattr(c, n)) for n in ("days", "seconds", "microseconds")]


def duration(E, x):
    "Duration of a number of microseconds; splits on overflow unless the interval excludes it."
    if not x[0]:
        return datetime.timedelta(microseconds=x[1])
    t = term(*x, op="td")
    lo, hi = interval(E, x)
    if lo < TD_MIN or hi > TD_MAX:
        E.may_raise(t, (OverflowError,))
    return t


def timedelta(E, kwargs):
    x = ({}, 0)
    for k, v in kwargs.items():
        if k not in UNITS or not (type(v) in (int, bool) or type(v) is Sym and E.types(v) == INT):
            return None
        x = add(x, scale(form(v), UNITS[k]))
    return duration(E, x)


def td_arith(E, op, a, b):
    if op in ("Add", "Sub") and total_kind(a) and total_kind(b):
        x, y = total(E, a), total(E, b)
        if x is not None and y is not None:
            return duration(E, add(x, y, 1 if op == "Add" else -1))
    if op in ("FloorDiv", "Mod") and total_kind(a) and isinstance(b, datetime.timedelta) and b > datetime.timedelta(0):
        x, k = total(E, a), total(E, b)[1]
        if x is None:
            return None
        q = floordiv(E, x, k)
        if op == "FloorDiv":
            return make(E, q)
        return duration(E, add(x, q, -k))
    if op == "Mult":
        if total_kind(b):
            a, b = b, a
        x = total(E, a)
        if x is None or type(b) is not int and not (type(b) is Sym and E.types(b) == INT):
            return None
        if type(b) is int:
            return duration(E, scale(x, b))
        if not x[0]:
            return duration(E, scale(form(b), x[1]))
    return None


# ----------------------------------------------------------------------- decimal text
_SPEC = re.compile(r"(0?)(\d*)d?$")


def run(E, t):
    "(number, fewest digits, most digits or None) of a decimal text, or None."
    if type(t) is not Sym or t.op not in ("str", "format") or type(t.args[0]) is not Sym:
        return None
    v = t.args[0]
    if E.types(v) != INT:
        return None
    lo, hi = E.bounds.get(v, (-math.inf, math.inf))
    if lo < 0:
        return None
    width = 0
    if t.op == "format":
        m = _SPEC.match(t.args[1]) if isinstance(t.args[1], str) else None
        if not m:
            return None
        width = int(m.group(2) or 0)
        if not m.group(1) and width > len(str(int(lo))):
            return None
    return v, max(width, len(str(int(lo)))), max(width, len(str(int(hi)))) if hi < math.inf else None


def pieces(E, t):
    "Literals and decimal numbers a text consists of, or None."
    out = []
    for p in (t.args if type(t) is Sym and t.op == "fmt" else (t,)):
        if isinstance(p, str):
            out.append(p)
            continue
        r = run(E, p)
        if r is None:
            return None
        out.append((p, *r))
    return out


def size(ps):
    "Number of characters when it is fixed."
    n = 0
    for p in ps:
        if isinstance(p, str):
            n += len(p)
        elif p[2] == p[3]:
            n += p[2]
        else:
            return None
    return n


def number(E, t):
    "int(t) of decimal text, or None."
    ps = pieces(E, t)
    if not ps:
        return None
    x, tail = ({}, 0), 0
    for i, p in reversed(list(enumerate(ps))):
        if isinstance(p, str):
            if not (p.isascii() and p.isdigit()):
                return None
            x = add(x, ({}, int(p) * 10**tail))
            tail += len(p)
        else:
            x = add(x, scale(form(p[1]), 10**tail))
            if p[3] is None or (i and p[2] != p[3]):
                return None
            tail += p[3]
    if tail > 4000:
        return None
    return make(E, x)


def digits(E, v, width):
    if type(v) is not Sym:
        return format(v, f"0{width}d")
    return mk("format", v, f"0{width}d", types=STR)


def normal(E, v, spec):
    "A format specification of a non-negative integer, brought to one form where it is plain padding with zeros."
    if E.types(v) == INT and E.bounds.get(v, (-1, 0))[0] >= 0:
        m = re.fullmatch(r"(?:0[>=])?0?(\d*)d?", spec)
        if m and (m.group(1) == "" or spec.startswith("0")):
            return int(m.group(1) or 0)
    return None


def padded(E, t, width):
    "Decimal text t filled with zeros on the left, or None."
    r = run(E, t)
    if r is None:
        return None
    if t.op == "format":
        m = _SPEC.match(t.args[1])
        if not m.group(1) and m.group(2):
            return None
        width = max(width, int(m.group(2) or 0))
    return digits(E, r[0], width) if width > 1 else t


def cut(E, t, i, j):
    "Characters i..j of a text of fixed size, as a list of parts, or None."
    ps = pieces(E, t)
    if ps is None or size(ps) is None:
        return None
    i, j, _ = slice(i, j).indices(size(ps))
    out, at = [], 0
    for p in ps:
        n = len(p) if isinstance(p, str) else p[2]
        a, b = max(i - at, 0), min(j - at, n)
        if a < b:
            if isinstance(p, str):
                out.append(p[a:b])
            elif (a, b) == (0, n):
                out.append(p[0])
            else:
                x = floordiv(E, form(p[1]), 10 ** (n - b))
                if a:
                    x = add(x, floordiv(E, x, 10 ** (b - a)), -(10 ** (b - a)))
                v = make(E, x)
                if type(v) is Sym:
                    E.set_bounds(v, 0, 10 ** (b - a) - 1)
                out.append(digits(E, v, b - a))
        at += n
    return out


# -------------------------------------------------------------- regular expressions
_UNIFORM = {}
_DIGITS = [ord(c) for c in "0123456789"]


def _in_set(items, c):
    neg = False
    hit = False
    for op, av in items:
        if op is K.NEGATE:
            neg = True
        elif op is K.LITERAL:
            hit |= c == av
        elif op is K.RANGE:
            hit |= av[0] <= c <= av[1]
        elif op is K.CATEGORY:
            name = str(av)
            yes = "DIGIT" in name or "WORD" in name
            hit |= (not yes) if "NOT" in name else yes
    return hit != neg


def uniform(pat):
    "Does the expression treat all ten digits alike?"

    def ok(seq):
        for op, av in seq:
            if op is K.LITERAL or op is K.NOT_LITERAL:
                if av in _DIGITS:
                    return False
            elif op is K.IN:
                if len({_in_set(av, c) for c in _DIGITS}) > 1:
                    return False
            elif op in (K.MAX_REPEAT, K.MIN_REPEAT, getattr(K, "POSSESSIVE_REPEAT", None)):
                if not ok(av[2]):
                    return False
            elif op is K.SUBPATTERN:
                if not ok(av[3]):
                    return False
            elif op is K.BRANCH:
                if not all(ok(x) for x in av[1]):
                    return False
            elif op in (K.ASSERT, K.ASSERT_NOT):
                if not ok(av[1]):
                    return False
            elif op in (K.ANY, K.AT):
                pass
            else:
                return False
        return True

    if pat not in _UNIFORM:
        try:
            _UNIFORM[pat] = isinstance(pat.pattern, str) and ok(P.parse(pat.pattern, pat.flags & ~re.UNICODE if pat.flags & re.ASCII else pat.flags))
        except Exception:
            _UNIFORM[pat] = False
    return _UNIFORM[pat]


def match(E, pat, name, t):
    "False: no match; list of groups (parts or None); None: depends on more than the structure."
    ps = pieces(E, t)
    if ps is None or not uniform(pat):
        return None
    spans = []
    for p in ps:
        if isinstance(p, str):
            spans.append([len(p)])
        elif p[3] is None or p[3] - p[2] > 40:
            return None
        else:
            spans.append(range(p[2], p[3] + 1))
    if math.prod(map(len, spans)) > 5000:
        return None
    seen = set()
    for lens in itertools.product(*spans):
        text = "".join(p if isinstance(p, str) else "5" * n for p, n in zip(ps, lens))
        m = getattr(pat, name)(text)
        if m is None:
            seen.add(False)
        else:
            gs = []
            for k in range(pat.groups + 1):
                i, j = m.span(k)
                if i < 0:
                    gs.append(None)
                    continue
                at, g = 0, []
                for x, (p, n) in enumerate(zip(ps, lens)):
                    a, b = max(i - at, 0), min(j - at, n)
                    if a < b:
                        if isinstance(p, str):
                            g.append((x, a, b))
                        elif (a, b) == (0, n):
                            g.append((x, 0, None))
                        else:
                            return None
                    at += n
                gs.append(tuple(g))
            seen.add(tuple(gs))
        if len(seen) > 1:
            return None
    (r,) = seen
    if r is False:
        return False
    return [None if g is None else [ps[x][a:b] if b is not None else ps[x][0] for x, a, b in g] for g in r]
