"""
Durations.  The encoder is analysed on one abstract non-negative timedelta whose days, seconds
and microseconds range over their whole intervals; the text it yields is a template of
literals and decimal numbers, which is read by the ISO 8601 grammar and, separately, handed to
the decoder.  The decoder is analysed on every structure of the grammar with abstract digits.
"""

import datetime
import itertools

from absint.engine import fmt
from absint.sym import mk

from .interchange import *

TD = datetime.timedelta
DIGITS = "0123456789"


class C12(InterchangeCheck):
    ID = "C12"
    RULE = ("(a) the text the encoder yields for an abstract timedelta (days 0..999999999, any seconds and microseconds) is a duration of the ISO 8601 grammar and denotes that timedelta; (b) decoding that text yields the timedelta again; (c) for every structure of the "
            "grammar and digit strings of every listed length, the decoder yields the timedelta the grammar denotes, or JsonValueError if it is finer than a microsecond or out of range; (d) texts outside the grammar are rejected with JsonValueError. "
            "Equality is decided in linear integer arithmetic with division by constants.")
    MIN_DECIDED = 150

    def run(self):
        self.setup()
        E = self.A.E
        d = inp("d", TD)

        def days(lo, hi):
            n = mk("attr", d, "days", types=frozenset([int]))
            E.set_bounds(n, lo, hi)
            E.conds += [(mk("lt", n, lo, types=frozenset([bool])), False, "assumed"), (mk("lt", hi, n, types=frozenset([bool])), False, "assumed")]
            if lo == hi:
                E.eqconst[n] = lo
            return d

        for name, lo, hi in (("any number of days", 0, 999999999), ("no full day", 0, 0), ("a full day", 1, 1), ("a week or more", 7, 999999999)):
            self.encode(f"encode: {name}", lambda: days(lo, hi))
            self.encode(f"encode by type: {name}", lambda: days(lo, hi), TD)
            self.encode(f"encode in list: {name}", lambda: [days(lo, hi)], typing.List[TD])
            box = {}

            def both():
                box["v"] = days(lo, hi)
                return self.A.call(self.json_to_object, TD, self.A.call(self.object_to_json, box["v"]))

            self.compare(f"round trip: {name}", both, lambda: box["v"])

        lens = (1, 2, 3, 5, 8, 12) if not self.thorough else (1, 2, 3, 4, 5, 6, 8, 10, 12, 20, 40)
        comps = []
        for w, dd in itertools.product((0, 1), repeat=2):
            for h, m, s in itertools.product((0, 1), (0, 1), (0, 1, 2)):
                if w or dd or h or m or s:
                    comps.append((w, dd, h, m, s))
        for c in comps:
            names = self.names(c)
            for n in lens[:4] if not self.thorough else lens:
                for f in ((1, 2, 3, 4, 5, 6, 7, 8, 9) if c[4] == 2 and (n == 1 or self.thorough) else (6,)):
                    self.grammar(names, {x: n for x in names}, f)
            for x in names:
                for n in lens[4:]:
                    if x != "f":
                        self.grammar(names, {y: n if y == x else 2 for y in names}, 3)
        for n in (10, 11, 12, 15):
            self.grammar("sf", {"s": 1}, n)
            self.grammar("DHMsf", {"s": 2, "D": 1, "H": 1, "M": 1}, n)
        # structures outside the grammar, with abstract digits where there are any
        bad = [["W", "P1"], ["P", 1], ["P", 1, "D", 1, "W"], ["P", 1, "DT", 1, "S", 1, "M"], ["PT", 1, "M", 1, "H"], ["P", 1, "H"], ["P", 1, "S"], ["PT", 1, "D"], ["PT", 1, "W"], ["P", 1, "Y"], ["P", 1, "M"], ["PT", 1], ["P", 1, "DT", 1], ["PT", 1, ".", 2, "M"],
               ["PT", 1, ".", 2, "H"], ["P", 1, ".", 1, "D"], ["PT", 1, ".S"], ["PT.", 1, "S"], ["PT", 1, ",", 1, "S"], ["P", 1, "D", 1, "D"], ["PT", 1, "S", 1, "S"], ["PT", 1, "H", 1, "H"], ["PP", 1, "D"], ["PTT", 1, "S"], ["P", 1, "DT", 1, "HT", 1, "S"],
               [1, "D"], ["T", 1, "S"], ["-P", 1, "D"], ["P-", 1, "D"], ["+P", 1, "D"], ["P+", 1, "D"], ["PT-", 1, "S"], ["p", 1, "D"], ["P", 1, "d"], ["Pt", 1, "S"], ["PT", 1, "s"], ["PT", 1, "h"], ["PT", 1, "m"], [" P", 1, "D"], ["P ", 1, "D"], ["P", 1, " D"], ["P", 1, "D "],
               ["P", 1, "DX"], ["XP", 1, "D"], ["\nP", 1, "D"], ["P", 1, "D\n\n"], ["P", 1, "D\nP", 1, "D"], ["P", 1, "_", 1, "D"], ["P", 1, "D/P", 1, "D"], [4], ["P", 2, "-", 2, "-", 2, "T", 2, ":", 2, ":", 2], ["P٣D"], ["PT٣S"], ["PT1.٣S"], ["PT²S"], [""], ["D"], ["S"], ["T"],
               ["PW"], ["PD"], ["PTS"], ["PTH"], ["PT.S"], ["a"], ["PT1e3S"], ["P0x1D"], ["PT1.S"], ["P1.5W"], ["PT1..5S"], ["PT1.5.5S"]]
        for i, t in enumerate(bad):
            self.raw(t)
        for v in (None, True, 0, 1.5, [], {}, ["P1D"], {"P1D": 1}):
            self.decode(f"not text: {v!r}", TD, lambda: v)
        self.decode("not text: scalars", TD, inp("x", NoneType, bool, int, float))

    @staticmethod
    def names(c):
        w, d, h, m, s = c
        return "W" * w + "D" * d + "H" * h + "M" * m + ("s" if s else "") + ("f" if s == 2 else "")

    def num(self, name, n):
        v = inp(name, int)
        self.A.E.set_bounds(v, 0, 10**n - 1)
        self.A.E.conds += [(mk("lt", v, 0, types=frozenset([bool])), False, "assumed"), (mk("lt", 10**n - 1, v, types=frozenset([bool])), False, "assumed")]
        return mk("format", v, f"0{n}d", types=frozenset([str]))

    def grammar(self, names, lens, f):
        def build():
            parts, time = ["P"], False
            for x in names:
                if x in "HMs" and not time:
                    parts.append("T")
                    time = True
                if x == "f":
                    parts.append(".")
                parts.append(self.num(x, f if x == "f" else lens[x]))
                if x in "WDHM":
                    parts.append(x)
            if "s" in names:
                parts.append("S")
            return fmt(parts)

        self.decode(f"decode P{names} with {','.join(str(f if x == 'f' else lens[x]) for x in names)} digits", TD, build)

    def raw(self, t):
        def build():
            return fmt([x if isinstance(x, str) else self.num(f"n{i}", x) for i, x in enumerate(t)])

        self.decode("outside the grammar: " + repr("".join(x if isinstance(x, str) else "#" * x for x in t)), TD, build)
