"""
Running obligations: enumerate the trace partitions of an abstract call.
"""

import gc
import sys
import threading
import time
import types

from . import sym as S
from .engine import Engine
from .interp import Divergence, Frame, Env, Interp
from .sym import Imprecise, Sym, mk

sys.setrecursionlimit(200000)
threading.stack_size(512 * 1024 * 1024)


class Outcome:
    """One trace: what it returned or raised, and what is known on it."""

    __slots__ = ("value", "exc", "imprecise", "conds", "events", "loc", "typefacts", "eqconst", "neconst", "bounds", "extra")

    def __init__(self):
        self.value = self.exc = self.imprecise = self.loc = self.extra = None
        self.conds, self.events = [], []

    @property
    def kind(self):
        return "imprecise" if self.imprecise else ("raise" if self.exc is not None else "return")

    def describe(self):
        if self.imprecise:
            return f"undecided ({self.imprecise})"
        if self.exc is not None:
            loc = f" at {self.loc[0]} in {self.loc[1]}" if self.loc else ""
            return f"raises {type(self.exc).__name__}{loc}"
        return f"returns {S.show(self.value)}"

    def path(self):
        return [f"{S.show(p)} is {v} [{w}]" for p, v, w in self.conds]


class _SchemaError(Exception):
    pass


class _ValidationError(Exception):
    pass


def jsonschema_stub():
    """The jsonschema package as far as it is used: validation is a black box that records what it is
    asked (js.asked) and fails as the analysis tells it (js.reject, js.invalid)."""
    js = types.ModuleType("jsonschema")
    js.asked, js.reject, js.invalid = [], False, False

    def mkv(n, i):
        class V:
            META_SCHEMA = {"$id": i}

            @hook
            def __init__(self, schema=None, *a, format_checker=None, **k):
                self.schema, self.format_checker = schema, format_checker

            @staticmethod
            @hook
            def check_schema(s, *a, **k):
                js.asked.append(("check", i, s))
                if js.reject:
                    raise _SchemaError("rejected")

            @hook
            def validate(self, instance, *a, **k):
                js.asked.append(("validate", instance, self.schema, self.format_checker, i))
                if js.invalid:
                    raise _ValidationError("invalid")

        V.__name__ = V.__qualname__ = n
        V.__absint_hook__ = True
        return V

    js.Draft7Validator = mkv("Draft7Validator", "http://json-schema.org/draft-07/schema#")
    js.Draft201909Validator = mkv("Draft201909Validator", "https://json-schema.org/draft/2019-09/schema")
    js.Draft202012Validator = mkv("Draft202012Validator", "https://json-schema.org/draft/2020-12/schema")
    js.exceptions = types.SimpleNamespace(SchemaError=_SchemaError, ValidationError=_ValidationError)
    js.SchemaError, js.ValidationError = _SchemaError, _ValidationError

    @hook
    def checker(*a, **k):
        return ("format-checker", a, tuple(k.items()))

    @hook
    def validate(instance, schema, cls=None, *a, format_checker=None, **k):
        js.asked.append(("validate", instance, schema, format_checker, cls.META_SCHEMA["$id"] if cls else schema.get("$schema") if isinstance(schema, dict) else None))
        if js.invalid:
            raise _ValidationError("invalid")

    js.FormatChecker = checker
    js.validate = validate
    return js


def hook(f):
    "Marks a host function as a callback supplied by the analysis (opaque user code)."
    f.__absint_hook__ = True
    return f


class Analysis:
    "The analysed package plus obligation bookkeeping."

    def __init__(self, repo="/repo", version=None):
        self.I = Interp(repo, version=version)
        self.I.stubs["jsonschema"] = jsonschema_stub()
        self.names = self.I.load_all()
        self.E = self.I.E
        self.funcs = set(self.E.funcs_seen)
        self.sites = set()
        self.paths = 0
        self.M = self.I.modules
        gc.collect()
        gc.freeze()
        gc.set_threshold(50000, 20, 100)

    def mod(self, name):
        return self.M[f"strong_typing.{name}"]

    def traces(self, thunk, max_paths=4000, caller=None, pre=None):
        """Enumerates all trace partitions of thunk(); yields Outcome objects.

        thunk receives nothing; it is an abstract call into the analysed package.
        caller: module object regarded as the calling module."""
        E, I = self.E, self.I
        out = []
        E.prefix = []
        n = 0
        while True:
            if E.deadline is not None and time.time() > E.deadline:
                o = Outcome()
                o.imprecise = "time budget of the check is used up"
                out.append(o)
                break
            I.restore()
            E.reset()
            S.ENGINE = E
            o = Outcome()
            cmod = caller or _DRIVER_MODULE
            env = Env("module", None, cmod.__dict__, f"<{cmod.__name__}>", vars=cmod.__dict__)
            E.frames.append(Frame("<caller>", f"<{cmod.__name__}>", env))
            try:
                if pre:
                    pre()
                o.value = thunk()
            except Imprecise as e:
                o.imprecise = e.reason
            except Exception as e:
                o.exc = e
                o.loc = getattr(e, "_absint_loc", None)
                e.__traceback__ = None
                if isinstance(e, RecursionError) and not isinstance(e, Divergence):
                    o.imprecise = "analysis recursion limit"
            o.conds = E.conds
            o.events = E.events
            o.typefacts, o.eqconst, o.neconst, o.bounds = E.typefacts, E.eqconst, E.neconst, E.bounds
            out.append(o)
            self.funcs |= E.funcs_seen
            self.sites |= E.sites_seen
            self.paths += 1
            n += 1
            nxt = E.next_prefix()
            if nxt is None:
                break
            if n >= max_paths:
                o2 = Outcome()
                o2.imprecise = "too many trace partitions"
                out.append(o2)
                break
            E.prefix = nxt
        E.prefix = []
        E.reset()
        I.restore()
        return out

    # calling into the analysed package from a thunk
    def call(self, f, *a, **k):
        return self.I.call(f, a, k)


_DRIVER_MODULE = types.ModuleType("absint_w_driver")
sys.modules["absint_w_driver"] = _DRIVER_MODULE


def in_big_stack(fn):
    "Runs fn on a thread with a large stack (deep abstract recursion)."
    box = {}

    def run():
        try:
            box["r"] = fn()
        except BaseException as e:
            box["e"] = e

    t = threading.Thread(target=run)
    t.start()
    t.join()
    if "e" in box:
        raise box["e"]
    return box.get("r")
