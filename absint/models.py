"""
Abstract semantics of builtins and standard-library functions.

For every standard-library call that receives abstract data the table below gives the
abstract result (a term) and the exceptions the call may raise.  Calls whose arguments
are all constants (type objects, patterns, names) are folded.
"""

import abc
import base64
import binascii
import builtins
import collections
import collections.abc
import copy
import dataclasses
import datetime
import decimal
import enum
import functools
import inspect
import io
import ipaddress
import itertools
import json
import keyword
import math
import operator
import re
import sys
import threading
import types
import typing
import uuid

from . import linear, sym as S
from .engine import fmt
from .sym import Imprecise, NoneType, Sym, has_sym, is_sym, mk

BOOL = frozenset([bool])
STR = frozenset([str])
INT = frozenset([int])
FLOAT = frozenset([float])
BYTES = frozenset([bytes])


def T(*ts):
    return frozenset(ts)


# value attributes of standard classes: type of attribute
ATTRS = {
    (datetime.datetime, "tzinfo"): T(NoneType, datetime.tzinfo),
    (datetime.time, "tzinfo"): T(NoneType, datetime.tzinfo),
    (datetime.timedelta, "days"): INT, (datetime.timedelta, "seconds"): INT, (datetime.timedelta, "microseconds"): INT,
    (uuid.UUID, "hex"): STR, (uuid.UUID, "int"): INT, (uuid.UUID, "urn"): STR, (uuid.UUID, "bytes"): BYTES,
    (uuid.UUID, "version"): T(NoneType, int),
    (ipaddress.IPv4Address, "exploded"): STR, (ipaddress.IPv4Address, "compressed"): STR,
    (ipaddress.IPv6Address, "exploded"): STR, (ipaddress.IPv6Address, "compressed"): STR,
    (ipaddress.IPv6Address, "scope_id"): T(NoneType, str),
    (ipaddress.IPv4Address, "packed"): BYTES, (ipaddress.IPv6Address, "packed"): BYTES,
    (re.Match, "string"): STR, (re.Match, "lastgroup"): T(NoneType, str), (re.Match, "lastindex"): T(NoneType, int),
}
for _c in (datetime.datetime, datetime.date):
    for _a in ("year", "month", "day"):
        ATTRS[(_c, _a)] = INT
for _c in (datetime.datetime, datetime.time):
    for _a in ("hour", "minute", "second", "microsecond", "fold"):
        ATTRS[(_c, _a)] = INT
ATTR_BOUNDS = {
    (datetime.timedelta, "seconds"): (0, 86399), (datetime.timedelta, "microseconds"): (0, 999999),
    (datetime.timedelta, "days"): (-999999999, 999999999),
    (datetime.datetime, "microsecond"): (0, 999999), (datetime.time, "microsecond"): (0, 999999),
    (datetime.datetime, "second"): (0, 59), (datetime.time, "second"): (0, 59),
    (datetime.datetime, "minute"): (0, 59), (datetime.time, "minute"): (0, 59),
    (datetime.datetime, "hour"): (0, 23), (datetime.time, "hour"): (0, 23),
    (datetime.datetime, "year"): (1, 9999), (datetime.date, "year"): (1, 9999),
}

# methods of abstract values: (class, name) -> (result types, exceptions)
METHODS = {}


def _m(cls, names, types_, *excs):
    for n in names.split():
        METHODS[(cls, n)] = (types_, excs)


_m(str, "startswith endswith isidentifier isdigit isalpha isalnum isspace isupper islower isnumeric isdecimal isascii isprintable istitle", BOOL)
_m(str, "strip lstrip rstrip lower upper replace ljust rjust zfill center title capitalize casefold swapcase removeprefix removesuffix expandtabs translate __str__", STR)
_m(str, "find rfind count", INT)
_m(str, "index rindex", INT, ValueError)
_m(str, "encode", BYTES, UnicodeEncodeError)
_m(bytes, "decode", STR, UnicodeDecodeError)
_m(bytes, "hex", STR)
_m(bytes, "startswith endswith", BOOL)
_m(bytes, "strip lstrip rstrip replace", BYTES)
_m(datetime.datetime, "isoformat strftime ctime __str__", STR)
_m(datetime.date, "isoformat strftime __str__", STR)
_m(datetime.time, "isoformat strftime __str__", STR)
_m(datetime.datetime, "utcoffset", T(NoneType, datetime.timedelta))
_m(datetime.time, "utcoffset", T(NoneType, datetime.timedelta))
_m(datetime.datetime, "replace astimezone", T(datetime.datetime), )
_m(datetime.date, "replace", T(datetime.date))
_m(datetime.time, "replace", T(datetime.time))
_m(datetime.datetime, "date", T(datetime.date))
_m(datetime.datetime, "time timetz", T(datetime.time))
_m(datetime.datetime, "timestamp", FLOAT)
_m(datetime.datetime, "tzname", T(NoneType, str))
_m(datetime.timedelta, "total_seconds", FLOAT)
_m(float, "is_integer", BOOL)
_m(float, "hex", STR)
_m(int, "bit_length", INT)
_m(int, "__str__ __repr__", STR)
_m(re.Match, "end start", INT)
_m(uuid.UUID, "__str__", STR)

# functions applied to abstract arguments: callable -> (result types, exceptions)
FUNCS = {}


def _f(fn, types_, *excs):
    FUNCS[fn] = (types_, excs)


_f(base64.b64decode, BYTES, ValueError)  # binascii.Error is a ValueError; non-ASCII text raises ValueError itself
_f(base64.standard_b64decode, BYTES, ValueError)
_f(base64.urlsafe_b64decode, BYTES, ValueError)
_f(base64.b64encode, BYTES)
_f(base64.standard_b64encode, BYTES)
_f(base64.urlsafe_b64encode, BYTES)
_f(base64.encodebytes, BYTES)
_f(base64.decodebytes, BYTES, ValueError)
_f(base64.b32encode, BYTES)
_f(base64.b16encode, BYTES)
_f(binascii.b2a_base64, BYTES)
_f(binascii.a2b_base64, BYTES, ValueError)
_f(uuid.UUID, T(uuid.UUID), ValueError)
_f(ipaddress.IPv4Address, T(ipaddress.IPv4Address), ipaddress.AddressValueError)
_f(ipaddress.IPv6Address, T(ipaddress.IPv6Address), ipaddress.AddressValueError)
_f(ipaddress.ip_address, T(ipaddress.IPv4Address, ipaddress.IPv6Address), ValueError)
_f(datetime.timedelta, T(datetime.timedelta), OverflowError)
_f(decimal.Decimal, T(decimal.Decimal), decimal.InvalidOperation)
_f(keyword.iskeyword, BOOL)
_f(re.escape, STR)
_f(inspect.cleandoc, STR)
_f(math.isnan, BOOL)
_f(math.isinf, BOOL)
_f(math.isfinite, BOOL, OverflowError)
_f(math.floor, INT, OverflowError, ValueError)
_f(math.ceil, INT, OverflowError, ValueError)
_f(math.log10, FLOAT, ValueError)
_f(round, INT)
_f(abs, None)
_f(ord, INT, TypeError)
_f(json.dumps, STR)
_f(json.loads, None, ValueError)
_f(sys.intern, STR)
_f(hash, INT)
_f(divmod, None)
_f(id, INT)
_f(inspect.isawaitable, BOOL)
_ASCII_BYTES = {base64.b64encode, base64.standard_b64encode, base64.urlsafe_b64encode, base64.encodebytes, base64.b32encode, base64.b16encode, binascii.b2a_base64, binascii.hexlify}
_B64 = {base64.standard_b64encode: base64.b64encode, base64.standard_b64decode: base64.b64decode}
# class-level constructors are bound methods; recognised by (class, name)
CLASSMETHODS = {
    (datetime.datetime, "fromisoformat"): (T(datetime.datetime), (ValueError,)),
    (datetime.datetime, "strptime"): (T(datetime.datetime), (ValueError,)),
    (datetime.datetime, "fromtimestamp"): (T(datetime.datetime), (ValueError, OverflowError, OSError)),
    (datetime.datetime, "combine"): (T(datetime.datetime), ()),
    (datetime.date, "fromisoformat"): (T(datetime.date), (ValueError,)),
    (datetime.time, "fromisoformat"): (T(datetime.time), (ValueError,)),
    (bytes, "fromhex"): (BYTES, (ValueError,)),
    (float, "fromhex"): (FLOAT, (ValueError,)),
    (int, "from_bytes"): (INT, ()),
}

# host callables that only move values around (safe with abstract elements)
PASS_THROUGH = {
    list, tuple, set, frozenset, dict, zip, enumerate, map, filter, reversed, any, all, typing.cast, copy.copy, copy.deepcopy,
    itertools.chain, itertools.islice, itertools.zip_longest, itertools.chain.from_iterable, itertools.starmap, itertools.repeat,
    functools.partial, collections.OrderedDict, collections.deque, collections.defaultdict, collections.ChainMap,
    operator.itemgetter, operator.attrgetter, types.SimpleNamespace, types.MappingProxyType, functools.reduce, object.__new__,
    dataclasses.field, dataclasses.replace, dataclasses.asdict, itertools.count, itertools.takewhile, itertools.dropwhile,
    itertools.filterfalse, itertools.tee, itertools.product, dict.fromkeys, object.__setattr__, object, operator.setitem,
    types.MethodType,
}
CONTAINER_METHODS = {
    list: {"append", "extend", "insert", "copy", "clear", "reverse", "pop", "__iter__", "__len__", "__getitem__"},
    dict: {"items", "values", "keys", "copy", "update", "clear", "popitem", "__iter__", "__len__"},
    set: {"copy", "clear", "__len__", "__iter__", "pop"},
    tuple: {"__len__", "__iter__", "__getitem__"},
    collections.deque: {"append", "appendleft", "extend", "pop", "popleft", "copy", "clear"},
    io.StringIO: set(),
}
MUTATORS = {"append", "extend", "insert", "clear", "reverse", "pop", "update", "popitem", "setdefault", "add", "discard", "remove",
            "sort", "difference_update", "intersection_update", "symmetric_difference_update", "__setitem__", "__delitem__",
            "appendleft", "popleft", "move_to_end"}

IMPURE = {open, print, input, exec, compile, __import__, breakpoint, exit, quit}


class Marker:
    def __init__(self, name):
        self.name = name

    def __call__(self, *a, **k):
        raise Imprecise(f"indirect call of {self.name}()")


class Proxy(types.ModuleType):
    pass


FUNC_INTERNALS = {"_interp", "_node", "_env", "_defaults", "_kwdefaults", "_file", "__name__", "__qualname__", "__module__", "__doc__", "__annotations__", "__globals__",
                  "__type_params__", "__wrapped__", "cache"}


class StringIOModel:
    def __init__(self, initial="", newline=None):
        self.parts = [initial]

    def write(self, s):
        if not is_sym(s) and not isinstance(s, str):
            raise TypeError("string argument expected")
        self.parts.append(s)
        return 0

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def getvalue(self):
        return fmt(self.parts)

    def close(self):
        self.closed = True

    closed = False

    def tell(self):
        v = self.getvalue()
        if is_sym(v):
            return mk("len", v, types=frozenset([int]))
        return len(v)

    def flush(self):
        pass

    def __getattr__(self, name):
        if hasattr(io.StringIO, name) and not name.startswith("__"):
            raise Imprecise(f"text buffer: {name}")
        raise AttributeError(f"'_io.StringIO' object has no attribute {name!r}")

    def __iter__(self):
        v = self.getvalue()
        if is_sym(v):
            raise Imprecise("lines of an unknown text")
        return iter(v.splitlines(keepends=True))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


class Models:
    def __init__(self, interp):
        self.I = interp
        self.E = interp.E
        self.E.edge = lambda y, text, end: self.call_symmethod(self.SymMethod(y, "endswith" if end else "startswith", str), (text,), {})
        self.proxies = {}
        self.stdout = StringIOModel()
        from .interp import Func, FrameView, LockModel, LruModel, SymMethod

        self.Func, self.FrameView, self.LruModel, self.LockModel, self.SymMethod = Func, FrameView, LruModel, LockModel, SymMethod
        self.super_marker = Marker("super")
        self.locals_marker = Marker("locals")
        self.globals_marker = Marker("globals")
        self.vars_marker = self._vars
        self.dir_marker = self._dir
        self.eval_marker = Marker("eval")
        I = interp
        self.builtins = {
            "super": self.super_marker, "locals": self.locals_marker, "globals": self.globals_marker,
            "vars": self.vars_marker, "dir": self.dir_marker, "eval": self.eval_marker,
            "isinstance": I.isinstance, "len": self.len_, "getattr": I.getattr,
            "hasattr": self.hasattr_, "setattr": I.setattr, "callable": self.callable_, "repr": self.repr_,
            "format": self.format_, "sum": self.sum_, "max": self.max_, "min": self.min_, "sorted": self.sorted_,
            "iter": self.iter_, "ascii": self.ascii_, "print": self.print_, "delattr": self.delattr_,
            "open": Marker("open"), "exec": Marker("exec"), "compile": Marker("compile"), "__import__": Marker("__import__"),
            "input": Marker("input"), "breakpoint": Marker("breakpoint"), "issubclass": issubclass,
        }
        self.own = {I.isinstance, I.getattr, I.setattr, self.len_, self.hasattr_, self.callable_, self.repr_, self.format_,
                    self.sum_, self.max_, self.min_, self.sorted_, self.iter_, self._vars, self._dir, self.print_, self.delattr_}
        self._replace = {
            builtins.isinstance: I.isinstance, builtins.len: self.len_, builtins.getattr: I.getattr,
            builtins.hasattr: self.hasattr_, builtins.setattr: I.setattr, builtins.callable: self.callable_,
            builtins.repr: self.repr_, builtins.eval: self.eval_marker,
            functools.lru_cache: self.lru_cache, functools.cache: self.cache,
            threading.Lock: self.lock, threading.RLock: self.rlock, threading.local: self.threadlocal,
            inspect.currentframe: self.currentframe, sys._getframe: self.getframe, inspect.stack: Marker("inspect.stack"),
            inspect.isfunction: self.isfunction, inspect.isroutine: self.isroutine, io.StringIO: StringIOModel,
            inspect.signature: self.signature, inspect.ismethod: self.ismethod, inspect.isgeneratorfunction: self.isgenfunc,
            inspect.getsource: Marker("inspect.getsource"), inspect.getdoc: inspect.getdoc, json.dump: self.json_dump,
            functools.cmp_to_key: self.cmp_to_key, functools.update_wrapper: self.update_wrapper, functools.wraps: self.wraps,
        }

    # ---------------------------------------------------------------- proxies
    def proxy(self, name):
        if name in self.proxies:
            return self.proxies[name]
        import importlib

        real = importlib.import_module(name)
        p = Proxy(name)
        for k in dir(real):
            try:
                p.__dict__[k] = self.replace(getattr(real, k))
            except Exception:
                pass
        if name == "sys":
            p.__dict__["version_info"] = self.I.version
            p.__dict__["modules"] = sys.modules
            p.__dict__["stdout"] = self.stdout
        self.proxies[name] = p
        return p

    def replace(self, v):
        try:
            r = self._replace.get(v)
        except TypeError:
            return v
        except Imprecise:
            return v
        return v if r is None or type(v) is Sym else r

    def lru_cache(self, maxsize=128, typed=False):
        if isinstance(maxsize, self.Func):
            return self.LruModel(self.I, maxsize)
        return lambda f: self.LruModel(self.I, f)

    def cache(self, f):
        return self.LruModel(self.I, f)

    def update_wrapper(self, wrapper, wrapped, assigned=functools.WRAPPER_ASSIGNMENTS, updated=functools.WRAPPER_UPDATES):
        if not isinstance(wrapper, (self.Func, self.LruModel)) and not isinstance(wrapped, (self.Func, self.LruModel)):
            return functools.update_wrapper(wrapper, wrapped, assigned, updated)
        for n in assigned:
            try:
                v = getattr(wrapped, n)
            except AttributeError:
                continue
            setattr(wrapper, n, v)
        for n in updated:
            if n == "__dict__":
                for k, v in getattr(wrapped, n, {}).items():
                    if not isinstance(wrapped, (self.Func, self.LruModel)) or k not in FUNC_INTERNALS:
                        wrapper.__dict__[k] = v
            else:
                getattr(wrapper, n).update(getattr(wrapped, n, {}))
        wrapper.__wrapped__ = wrapped
        return wrapper

    def cmp_to_key(self, fn):
        call = self.call

        class K:
            def __init__(self, obj):
                self.obj = obj

            def __lt__(self, other):
                return call(fn, (self.obj, other.obj), {}) < 0

            def __gt__(self, other):
                return call(fn, (self.obj, other.obj), {}) > 0

            def __eq__(self, other):
                return call(fn, (self.obj, other.obj), {}) == 0

            __hash__ = None

        return lambda obj: K(obj)

    def wraps(self, wrapped, assigned=functools.WRAPPER_ASSIGNMENTS, updated=functools.WRAPPER_UPDATES):
        return lambda wrapper: self.update_wrapper(wrapper, wrapped, assigned, updated)

    def lock(self):
        return self.LockModel(self.I, False)

    def threadlocal(self):
        return ThreadLocal()

    def rlock(self):
        return self.LockModel(self.I, True)

    def currentframe(self):
        return self.FrameView(list(self.E.frames), len(self.E.frames) - 1)

    def getframe(self, depth=0):
        i = len(self.E.frames) - 1 - depth
        if i < 0:
            raise ValueError("call stack is not deep enough")
        return self.FrameView(list(self.E.frames), i)

    def isfunction(self, o):
        return isinstance(o, (self.Func, types.FunctionType))

    def isroutine(self, o):
        if is_sym(o):
            return False
        return isinstance(o, self.Func) or inspect.isroutine(o)

    def ismethod(self, o):
        if is_sym(o):
            return False
        if type(o) is self.SymMethod:
            return True
        return isinstance(o, types.MethodType)

    def isgenfunc(self, o):
        return isinstance(o, self.Func) and False

    def signature(self, o, *, eval_str=False, **k):
        if isinstance(o, types.MethodType) and isinstance(o.__func__, self.Func):
            s = o.__func__.__signature__
            return s.replace(parameters=list(s.parameters.values())[1:])
        return inspect.signature(o, eval_str=eval_str, **k)

    def json_dump(self, obj, f, **k):
        f.write(self.call(json.dumps, (obj,), k))

    # --------------------------------------------------------------- builtins
    def print_(self, *a, sep=" ", end="\n", file=None, flush=False):
        out = self.stdout if file is None else file
        for i, x in enumerate(a):
            if i:
                out.write(sep)
            out.write(self.str_(x))
        out.write(end)

    def _vars(self, o):
        if is_sym(o):
            raise Imprecise("vars() of abstract value")
        return vars(o)

    def _dir(self, o):
        if is_sym(o):
            return dir(self.E.type_of(o))
        return dir(o)

    def delattr_(self, o, n):
        self.E.event("attr", o, n)
        delattr(o, n)

    def len_(self, v):
        v = self.E.resolve(v)
        if self.E.listener is not None and isinstance(v, (dict, list, set)):
            self.E.read(v, None)
        if is_sym(v):
            ts = self.E.types(v)
            if ts is not None and not any(hasattr(t, "__len__") for t in ts):
                raise TypeError(f"object {S.show(v)} has no len()")
            if ts is not None and all(hasattr(t, "__len__") for t in ts):
                if v.op in ("fmt", "str", "format"):
                    ps = linear.pieces(self.E, v)
                    if ps is not None and linear.size(ps) is not None:
                        return linear.size(ps)
                r = mk("len", v, types=INT)
                self.E.set_bounds(r, 0, math.inf)
                return r
            raise Imprecise(f"len of {S.show(v)}")
        return len(v)

    def hasattr_(self, o, n):
        try:
            self.I.getattr(o, n)
            return True
        except AttributeError:
            return False

    def callable_(self, v):
        if is_sym(v):
            ts = self.E.types(v)
            if ts is None:
                raise Imprecise("callable() of unconstrained value")
            return False
        if type(v) is self.SymMethod:
            return True
        return callable(v)

    def iter_(self, v, *a):
        return self.I.iterate(v) if not a else iter(v, *a)

    def sum_(self, it, start=0):
        for x in it:
            start = self.I.binop("Add", start, x)
        return start

    def max_(self, *a, key=None, default=None):
        return self._extreme(a, key, default, lambda x, y: self.E.branch_lt(y, x) if (is_sym(x) or is_sym(y)) else x > y)

    def min_(self, *a, key=None, default=None):
        return self._extreme(a, key, default, lambda x, y: self.E.branch_lt(x, y) if (is_sym(x) or is_sym(y)) else x < y)

    def _extreme(self, a, key, default, better):
        items = list(self.I.iterate(a[0])) if len(a) == 1 else list(a)
        if not items:
            if default is None:
                raise ValueError("max() iterable argument is empty")
            return default
        best = items[0]
        kb = self.call(key, (best,), {}) if key else best
        for x in items[1:]:
            kx = self.call(key, (x,), {}) if key else x
            if better(kx, kb):
                best, kb = x, kx
        return best

    def less(self, a, b):
        E = self.E
        a, b = E.resolve(a), E.resolve(b)
        if isinstance(a, (tuple, list)) and type(a) is type(b):
            for x, y in zip(a, b):
                if self.less(x, y):
                    return True
                if not E.branch_eq(x, y):
                    return False
            return len(a) < len(b)
        if is_sym(a) or is_sym(b):
            return E.branch_lt(a, b)
        return a < b

    def sorted_(self, it, *, key=None, reverse=False):
        items = list(self.I.iterate(it))
        ks = [self.call(key, (x,), {}) if key else x for x in items]
        if has_sym(ks, 3):
            if len(items) > 5:
                raise Imprecise("sorting abstract values")
            out = []
            for p in zip(ks, items):
                i = len(out)
                while i and (self.less(out[i - 1][0], p[0]) if reverse else self.less(p[0], out[i - 1][0])):
                    i -= 1
                out.insert(i, p)
            return [x for _, x in out]
        if key:
            return [x for _, x in sorted(zip(ks, items), key=lambda p: p[0], reverse=reverse)]
        return sorted(items, key=(lambda x: self.call(key, (x,), {})) if key else None, reverse=reverse)

    def repr_(self, v):
        v = self.E.resolve(v)
        if is_sym(v) or has_sym(v):
            return mk("repr", v if is_sym(v) else S._freeze(v) and _hold(v), types=STR)
        m = inspect.getattr_static(type(v), "__repr__", None)
        if type(m) is self.Func:
            return m(v)
        return repr(v)

    def ascii_(self, v):
        r = self.repr_(v)
        return r.encode("ascii", "backslashreplace").decode("ascii") if isinstance(r, str) else mk("ascii", r, types=STR)

    def str_(self, v=""):
        v = self.E.resolve(v)
        if is_sym(v):
            ts = self.E.types(v)
            if ts == STR:
                return v
            if ts is not None and str in ts and self.E.isinst(v, str):
                return v
            return mk("str", v, types=STR)
        if has_sym(v):
            return mk("str", _hold(v), types=STR)
        m = inspect.getattr_static(type(v), "__str__", None)
        if m is object.__str__:
            m = inspect.getattr_static(type(v), "__repr__", None)
        if type(m) is self.Func:
            return m(v)
        return str(v)

    def format_(self, v, spec=""):
        v = self.E.resolve(v)
        spec = self.E.resolve(spec)
        if is_sym(v):
            if spec == "" or spec is None:
                return self.str_(v)
            if isinstance(spec, str):
                m = re.fullmatch(r"(?:(.)?([<>]))?(0?)([1-9]\d*)s?", spec, re.S)
                if m and self.E.types(v) == STR:
                    fill = m.group(1) or ("0" if m.group(3) else " ")
                    return self.call_symmethod(self.SymMethod(v, "rjust" if m.group(2) == ">" else "ljust", str), (int(m.group(4)), fill), {})
                w = linear.normal(self.E, v, spec)
                if w is not None:
                    return linear.digits(self.E, v, w) if w > 1 else self.str_(v)
            return mk("format", v, spec, types=STR)
        if has_sym(v):
            return mk("str", _hold(v), types=STR)
        if is_sym(spec):
            return mk("format", v, spec, types=STR)
        if spec == "" and type(inspect.getattr_static(type(v), "__str__", None)) is self.Func:
            return self.str_(v)
        return format(v, spec)

    def percent(self, tmpl, arg):
        arg = arg if isinstance(arg, tuple) else (arg,)
        parts, i, n = [], 0, 0
        for m in re.finditer(r"%(%|([-#0 +]*)(\d*)(?:\.(\d+))?([sdrfiu]))", tmpl):
            parts.append(tmpl[i:m.start()])
            i = m.end()
            if m.group(1) == "%":
                parts.append("%")
                continue
            v = arg[n]
            n += 1
            flags, width, prec, conv = m.group(2), m.group(3), m.group(4), m.group(5)
            if conv == "r":
                parts.append(self.repr_(v))
            elif not flags and not width and prec is None:
                parts.append(self.str_(v) if conv == "s" else self.format_(v, "d" if not is_sym(v) else ""))
            else:
                parts.append(self.format_(v, f"{flags}{width}" + (f".{prec}" if prec else "") + ("d" if conv in "diu" else conv)))
        parts.append(tmpl[i:])
        return fmt(parts)

    def str_format(self, tmpl, args, kwargs):
        import string

        parts, auto = [], 0
        for lit, field, spec, conv in string.Formatter().parse(tmpl):
            parts.append(lit)
            if field is None:
                continue
            if field == "":
                v = args[auto]
                auto += 1
            elif field.isdigit():
                v = args[int(field)]
            elif field.isidentifier():
                v = kwargs[field]
            else:
                raise Imprecise("complex format field")
            if conv == "r":
                v = self.repr_(v)
            elif conv == "s":
                v = self.str_(v)
            parts.append(self.format_(v, spec or ""))
        return fmt(parts)

    # -------------------------------------------------------- abstract objects
    def sym_attr(self, o, name):
        E = self.E
        c = E.type_of(o)
        if name == "__class__":
            return c
        if (c, name) in ATTRS:
            r = mk("attr", o, name, types=ATTRS[(c, name)])
            b = ATTR_BOUNDS.get((c, name))
            if b:
                E.set_bounds(r, *b)
            return r
        for k in c.__mro__:
            if (k, name) in ATTRS:
                return mk("attr", o, name, types=ATTRS[(k, name)])
        if not hasattr(c, name):
            fields = getattr(c, "__absint_fields__", None)
            if fields and name in fields:
                return mk("attr", o, name, types=fields[name])
            raise AttributeError(f"{c.__name__!r} object has no attribute {name!r}")
        a = inspect.getattr_static(c, name)
        if isinstance(a, types.FunctionType) and getattr(a, "__absint_hook__", False):
            return types.MethodType(a, o)
        if isinstance(a, property) or inspect.isdatadescriptor(a):
            return mk("attr", o, name, types=None)
        if callable(getattr(c, name)):
            if isinstance(a, (classmethod, staticmethod)):
                return getattr(c, name)
            return self.SymMethod(o, name, c)
        return getattr(c, name)

    def sym_getitem(self, o, k):
        E = self.E
        c = E.type_of(o)
        if c is str:
            if isinstance(k, slice):
                if o.op == "fmt" and k.step is None and not is_sym(k.start) and not is_sym(k.stop):
                    if k.start in (None, 0) and isinstance(k.stop, int) and k.stop < 0 and isinstance(o.args[-1], str) and len(o.args[-1]) >= -k.stop:
                        return fmt(list(o.args[:-1]) + [o.args[-1][:k.stop]])
                    if k.stop is None and isinstance(k.start, int) and k.start < 0 and isinstance(o.args[-1], str) and len(o.args[-1]) >= -k.start:
                        return o.args[-1][k.start:]
                    if k.start in (None, 0) and isinstance(k.stop, int) and k.stop >= 0 and isinstance(o.args[0], str) and len(o.args[0]) >= k.stop:
                        return o.args[0][:k.stop]
                    if k.stop is None and isinstance(k.start, int) and k.start >= 0 and isinstance(o.args[0], str) and len(o.args[0]) >= k.start:
                        return fmt([o.args[0][k.start:]] + list(o.args[1:]))
                if k.step == 1 or type(k.start) is int and k.start == 0 and k.step is None:
                    k = slice(k.start if k.start != 0 else None, k.stop, None)
                if any(is_sym(x) for x in (k.start, k.stop, k.step)):
                    return mk("slice", o, k.start, k.stop, k.step, types=STR)
                if k.step in (None, 1) and o.op in ("fmt", "format", "str"):
                    parts = linear.cut(E, o, k.start, k.stop)
                    if parts is not None:
                        return fmt(parts)
                return mk("slice", o, k.start, k.stop, k.step, types=STR)
            if o.op == "fmt" and type(k) is int and isinstance(o.args[-1 if k < 0 else 0], str) and -len(o.args[-1]) <= k < (0 if k < 0 else len(o.args[0])):
                return o.args[-1 if k < 0 else 0][k]
            r = mk("index", o, k, types=STR)
            E.may_raise(r, (IndexError,))
            return r
        if c is bytes and isinstance(k, slice):
            return mk("slice", o, k.start, k.stop, k.step, types=BYTES)
        if c is re.Match:
            return self.match_group(o, (k,))
        if not hasattr(c, "__getitem__"):
            raise TypeError(f"{c.__name__!r} object is not subscriptable")
        raise Imprecise(f"subscript of {S.show(o)}")

    def text_end(self, o, lit, end):
        "Does text o end (start) with lit?  None when unknown."
        if o.op == "fmt":
            p = o.args[-1 if end else 0]
            if isinstance(p, str):
                n = min(len(p), len(lit))
                if (p[-n:] != lit[-n:]) if end else (p[:n] != lit[:n]):
                    return False
                return True if len(p) >= len(lit) else None
            return self.text_end(p, lit, end) if is_sym(p) and not end else (False if self.text_end(p, lit, end) is False and self.E.nonempty_text(p) else None)
        numeric = o.op in ("m:isoformat", "str", "format") and is_sym(o.args[0])
        if numeric:
            ts = self.E.types(o.args[0])
            if ts is not None and ts <= frozenset([datetime.datetime, datetime.date, datetime.time]) and o.op == "m:isoformat" and len(o.args) == 1 or ts == INT and o.op == "str":
                c = lit[-1] if end else lit[0]
                if not c.isdigit() and (end or c not in "-0123456789"):
                    return False
        return None

    def match_group(self, m, keys):
        def one(k):
            pat = m.args[1]
            if m in self.E.groups:
                k = pat.groupindex[k] if isinstance(k, str) and k in pat.groupindex else k
                if not isinstance(k, int) or k > pat.groups:
                    raise IndexError("no such group")
                return self.E.groups[m][k]
            if k == 0:
                return mk("group", m, 0, types=STR)
            if isinstance(k, str):
                if k not in pat.groupindex:
                    raise IndexError("no such group")
                k = pat.groupindex[k]
            if k > pat.groups:
                raise IndexError("no such group")
            return mk("group", m, k, types=T(NoneType, str))

        rs = [one(k) for k in keys or (0,)]
        return rs[0] if len(rs) == 1 else tuple(rs)

    def sym_binop(self, op, a, b):
        E = self.E
        ta = E.types(a) if is_sym(a) else T(type(a))
        tb = E.types(b) if is_sym(b) else T(type(b))
        if ta is None or tb is None:
            raise Imprecise(f"arithmetic on unconstrained value ({op})")
        if len(ta) > 1:
            ta = T(E.type_of(a))
        if len(tb) > 1:
            tb = T(E.type_of(b))
        (x,), (y,) = ta, tb
        num = (bool, int, float)
        if x in num and y in num:
            if op in ("Div", "FloorDiv", "Mod"):
                if is_sym(b):
                    if E.branch_eq(b, 0):
                        raise ZeroDivisionError("division by zero")
                elif b == 0:
                    raise ZeroDivisionError("division by zero")
            if x is int and y is int and op in ("Add", "Sub", "Mult", "FloorDiv", "Mod"):
                r = linear.arith(E, op, a, b)
                if r is not None:
                    return r
            rt = FLOAT if (float in (x, y) or op == "Div") else INT
            if op in ("BitOr", "BitAnd", "BitXor") and x is bool and y is bool:
                rt = BOOL
            r = mk(op, a, b, types=rt)
            if op == "Mod" and not is_sym(b) and b > 0 and rt == INT:
                E.set_bounds(r, 0, b - 1)
            if op == "FloorDiv" and not is_sym(b) and b > 0 and rt == INT and is_sym(a):
                lo, hi = E.bounds.get(a, (-math.inf, math.inf))
                E.set_bounds(r, lo // b if lo > -math.inf else lo, hi // b if hi < math.inf else hi)
            return r
        if op == "Add" and x is str and y is str:
            return fmt([a, b])
        if op == "Mod" and x is str:
            if not is_sym(a):
                return self.percent(a, b)
            raise Imprecise("abstract format template")
        if op == "Mult" and {x, y} == {str, int}:
            return mk("Mult", a, b, types=STR)
        if op == "Add" and x is bytes and y is bytes:
            return mk("Add", a, b, types=BYTES)
        if {x, y} <= {datetime.timedelta, int, float, datetime.datetime, datetime.date}:
            td = datetime.timedelta
            if td in (x, y) and datetime.datetime not in (x, y) and datetime.date not in (x, y):
                r = linear.td_arith(E, op, a, b)
                if r is not None:
                    return r
            if x is td and y is td:
                rt = {"Add": td, "Sub": td, "Div": float, "FloorDiv": int, "Mod": td}.get(op)
            elif op == "Mult" and td in (x, y):
                rt = td
            elif x is td and op in ("Div", "FloorDiv"):
                rt = td
            elif op in ("Add", "Sub") and td in (x, y):
                rt = x if x is not td else y
            elif op == "Sub" and x is y:
                rt = td
            else:
                rt = None
            if rt:
                r = mk(op, a, b, types=T(rt))
                E.may_raise(r, (OverflowError,) if rt is not float else ())
                return r
        try:
            has = getattr(x, {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__"}.get(op, "__or__"), None)
        except Exception:
            has = None
        if x in S.JSON_KINDS and y in S.JSON_KINDS:
            raise TypeError(f"unsupported operand type(s) for {op}: {x.__name__!r} and {y.__name__!r}")
        raise Imprecise(f"operator {op} on {x.__name__} and {y.__name__}")

    # -------------------------------------------------------------------- calls
    def call(self, f, args, kwargs):
        E, I = self.E, self.I
        if type(f) is Sym:
            f = E.resolve(f)
            if type(f) is Sym:
                ts = E.types(f)
                if ts is not None and not any(hasattr(t, "__call__") for t in ts):
                    raise TypeError("object is not callable")
                raise Imprecise(f"call of abstract value {S.show(f)}")
        t = type(f)
        if t is self.Func or t is self.LruModel:
            return f(*args, **kwargs)
        if t is types.MethodType:
            if I.mask is not None and isinstance(f.__self__, typing.ForwardRef):
                I.mask.check_call(f, args, kwargs)
                if I.mask.v > sys.version_info[:2]:
                    # a parameter that this method does not have yet in the analysing interpreter
                    kwargs = {k: v for k, v in kwargs.items() if k != "type_params"}
            return f(*args, **kwargs) if getattr(f.__func__, "__absint_hook__", False) or not has_sym(args, 2) else self.call_method(f, args, kwargs)
        if t is Marker:
            raise Imprecise(f"call of {f.name}")
        if f is type and len(args) == 1 and not kwargs:
            v = E.resolve(args[0])
            return E.type_of(v) if type(v) is Sym else type(v)
        args = tuple(E.resolve(a) for a in args)
        kwargs = {k: E.resolve(v) for k, v in kwargs.items()}
        if I.mask is not None:
            I.mask.check_call(f, args, kwargs)
            if I.mask.alias_is_type and args and type(args[0]) is types.GenericAlias and (f is inspect.isclass or f is issubclass):
                if f is inspect.isclass:
                    return True
                if any(isinstance(c, abc.ABCMeta) for c in (args[1] if isinstance(args[1], tuple) else (args[1],))):
                    raise TypeError("issubclass() arg 1 must be a class")
                return False
        if t is self.SymMethod:
            return self.call_symmethod(f, args, kwargs)
        if getattr(f, "__absint_hook__", False):
            return f(*args, **kwargs)
        if f is str:
            if len(args) == 1 and not kwargs:
                return self.str_(args[0])
            if len(args) > 1 and is_sym(E.resolve(args[0])) and E.types(E.resolve(args[0])) == BYTES and not kwargs:
                return self.call_symmethod(self.SymMethod(E.resolve(args[0]), "decode", bytes), args[1:], {})
        elif f is bool:
            return E.truth(args[0]) if args else False
        elif f is int or f is float:
            if args and is_sym(args[0]):
                return self.num(f, args, kwargs)
        elif f is re.compile:
            return f(*args, **kwargs)
        try:
            in_own = f in self.own
        except TypeError:
            in_own = False
        if in_own:
            return f(*args, **kwargs)
        # mutation of host containers
        slf = getattr(f, "__self__", None)
        name = getattr(f, "__name__", None)
        if isinstance(slf, (str, list, set, frozenset, dict)) and args and any(isinstance(x, collections.abc.Iterator) for x in args):
            args = tuple(list(I.iterate(x)) if isinstance(x, collections.abc.Iterator) else x for x in args)
        if slf is not None and name in MUTATORS and isinstance(slf, (list, dict, set, collections.deque)):
            E.event("item", slf, name, args[1] if len(args) > 1 else (args[0] if args else None))
        elif E.listener is not None and slf is not None and isinstance(slf, (list, dict, set)):
            E.read(slf, args[0] if args and name in ("get", "__getitem__", "__contains__") else None)
        if type(slf) is types.MappingProxyType and name in ("get", "__getitem__", "__contains__") and has_sym(args):
            return self.dict_method(dict(slf), name, args)
        if slf is not None and isinstance(slf, dict) and name in ("get", "pop", "setdefault", "__getitem__", "__contains__", "__setitem__"):
            return self.dict_method(slf, name, args)
        if slf is not None and isinstance(slf, (set, frozenset)) and (has_sym(args) or has_sym(slf)):
            return self.set_method(slf, name, args)
        if isinstance(f, type) and issubclass(f, enum.Enum) and len(args) == 1 and not kwargs:
            return self.enum_call(f, args[0])
        if f is dict and (has_sym(args) or kwargs):
            out = {}
            if args:
                src = args[0]
                items = src.items() if isinstance(src, dict) else I.iterate(src)
                for kv in items:
                    k, v = kv
                    E.check_hashable(k)
                    out[k] = v
            out.update(kwargs)
            return out
        if f in (set, frozenset) and args:
            items = list(I.iterate(args[0]))
            for x in items:
                E.check_hashable(x)
            return f(items)
        if f in (list, tuple) and args:
            return f(I.iterate(args[0]))
        if not (has_sym(args) or has_sym(list(kwargs.values()))):
            return self.fold(f, args, kwargs)
        return self.call_abstract(f, args, kwargs)

    def call_method(self, f, args, kwargs):
        fn = f.__func__
        if isinstance(fn, (self.Func, self.LruModel)):
            return f(*args, **kwargs)
        slf = f.__self__
        if getattr(slf, "__class__", None) in (Models,) or isinstance(slf, (StringIOModel, self.LockModel)) or slf is self or slf is self.I:
            return f(*args, **kwargs)
        if self.is_open_class(slf if isinstance(slf, type) else type(slf)):
            return f(*args, **kwargs)
        if type(slf).__module__ in ("functools", "contextlib", "collections", "weakref"):
            return f(*args, **kwargs)
        if isinstance(slf, Exception) or isinstance(slf, type) and issubclass(slf, tuple):
            return f(*args, **kwargs)
        raise Imprecise(f"method {S.fname(fn)} with abstract argument")

    def is_open_class(self, c):
        "Class of the analysed package, or witness class made by the analysis."
        return c in self.I.own_classes or getattr(c, "__module__", "").startswith(self.I.package) or getattr(c, "__absint_witness__", False) or getattr(c, "__module__", "").startswith("absint_w")

    PURE_MODULES = None

    def fold(self, f, args, kwargs):
        "Call with constant arguments only."
        try:
            if f in IMPURE:
                raise Imprecise(f"call of {f.__name__}")
        except TypeError:
            pass
        mod = getattr(f, "__module__", None) or getattr(type(getattr(f, "__self__", None)), "__module__", "")
        top = str(mod).split(".")[0]
        if top in ("os", "posix", "subprocess", "socket", "shutil", "tempfile", "pathlib", "signal", "ctypes", "random", "secrets", "time", "_socket", "_random"):
            raise Imprecise(f"call of {S.fname(f)}")
        r = f(*args, **kwargs)
        if r is NotImplemented:
            return r
        return r

    def dict_method(self, d, name, args):
        E = self.E
        key = args[0]
        if not has_sym(key) and not any(has_sym(k) for k in d):
            return getattr(d, name)(*args)
        if name == "__setitem__":
            return self.I.setitem(d, key, args[1])
        found, k = E.dict_find(d, key)
        if name == "__contains__":
            return found
        if name == "get":
            return d[k] if found else (args[1] if len(args) > 1 else None)
        if name == "__getitem__":
            if not found:
                raise KeyError(key)
            return d[k]
        if name == "pop":
            if found:
                return d.pop(k)
            if len(args) > 1:
                return args[1]
            raise KeyError(key)
        if found:
            return d[k]
        d[key] = args[1] if len(args) > 1 else None
        return d[key]

    def set_method(self, s, name, args):
        E = self.E
        if name == "add":
            E.check_hashable(args[0])
            s.add(args[0])
            return None
        if name in ("__contains__",):
            return E.contains(s, args[0])
        if name in ("issuperset", "__ge__"):
            return all(E.contains(s, x) for x in self.I.iterate(args[0]))
        if name in ("issubset", "__le__"):
            o = list(self.I.iterate(args[0]))
            return all(E.contains(o, x) for x in s)
        if name in ("update",):
            for a in args:
                for x in self.I.iterate(a):
                    E.check_hashable(x)
                    s.add(x)
            return None
        if name in ("union", "__or__"):
            out = set(s)
            for a in args:
                out.update(a)
            return out
        if name in ("difference", "__sub__"):
            o = [x for a in args for x in self.I.iterate(a)]
            return {x for x in s if not E.contains(o, x)}
        if name in ("intersection", "__and__"):
            o = [x for a in args for x in self.I.iterate(a)]
            return {x for x in s if E.contains(o, x)}
        if name == "isdisjoint":
            o = list(self.I.iterate(args[0]))
            return not any(E.contains(o, x) for x in s)
        if name in ("copy", "clear", "pop", "__len__"):
            return getattr(s, name)(*args)
        if name in ("discard", "remove"):
            for x in list(s):
                if x is args[0] or E.eq(x, args[0]):
                    s.remove(x)
                    return None
            if name == "remove":
                raise KeyError(args[0])
            return None
        raise Imprecise(f"set.{name} with abstract values")

    def enum_call(self, cls, v):
        E = self.E
        if isinstance(v, cls):
            return v
        if not is_sym(v):
            if has_sym(v):
                for m in cls:
                    if isinstance(m.value, type(v)) and E.eq(m.value, v):
                        return m
                raise ValueError(f"{S.show(v)} is not a valid {cls.__name__}")
            return cls(v)
        for m in cls:
            if E.branch_eq(v, m.value):
                return m
        for al in cls.__members__.values():
            pass
        raise ValueError(f"value is not a valid {cls.__name__}")

    def num(self, f, args, kwargs):
        E = self.E
        v = args[0]
        if len(args) > 1 or kwargs:
            if f is int:
                r = mk("call", int, *args, types=INT)
                E.may_raise(r, (ValueError,))
                return r
            raise Imprecise("float() arguments")
        c = E.type_of(v)
        if c is f:
            return v
        if f is int and c is str:
            n = linear.number(E, v)
            if n is not None:
                return n
        tt = T(f)
        r = mk("call", f, v, types=tt)
        if c is bool:
            return r
        if c in (int, float):
            if f is float:
                E.may_raise(r, (OverflowError,))
            else:
                E.may_raise(r, (OverflowError, ValueError))
            return r
        if c in (str, bytes):
            E.may_raise(r, (ValueError,))
            return r
        if c is NoneType or c in (list, dict):
            raise TypeError(f"{f.__name__}() argument must be a string or a real number, not {c.__name__!r}")
        if hasattr(c, "__int__" if f is int else "__float__"):
            return r
        raise TypeError(f"{f.__name__}() argument must be a string or a real number, not {c.__name__!r}")

    def call_symmethod(self, f, args, kwargs):
        E = self.E
        c, o, n = f.cls, f.obj, f.name
        if c is str:
            if n == "format":
                raise Imprecise("abstract format template")
            if n == "join":
                raise Imprecise("abstract separator")
            if n in ("startswith", "endswith"):
                ps = args[0]
                if isinstance(ps, tuple):
                    return any(self.call_symmethod(f, (p,), {}) for p in ps)
                if ps == "":
                    return True
                known = self.text_end(o, ps, n == "endswith") if isinstance(ps, str) and len(args) == 1 else None
                if known is not None:
                    return known
                r = mk("m:" + n, o, *args, types=BOOL)
                return E.branch(r)
        if c is re.Match:
            pat = o.args[1]
            if o in E.groups and n in ("groupdict", "groups"):
                gs = E.groups[o]
                d = args[0] if args else kwargs.get("default")
                gs = [d if g is None else g for g in gs]
                if n == "groups":
                    return tuple(gs[1:])
                return {g: gs[i] for g, i in sorted(pat.groupindex.items(), key=lambda x: x[1])}
            if n == "groupdict":
                inv = {i: g for g, i in pat.groupindex.items()}
                d = args[0] if args else kwargs.get("default")
                out = {g: mk("group", o, i, types=T(NoneType, str)) for i, g in sorted(inv.items())}
                if d is not None:
                    out = {k: (d if E.isinst(v, NoneType) else v) for k, v in out.items()}
                return out
            if n == "groups":
                d = args[0] if args else kwargs.get("default")
                out = tuple(mk("group", o, i, types=T(NoneType, str)) for i in range(1, pat.groups + 1))
                if d is not None:
                    out = tuple(d if E.isinst(v, NoneType) else v for v in out)
                return out
            if n in ("group", "__getitem__"):
                return self.match_group(o, args)
        if c is str and n in ("ljust", "rjust", "zfill") and args and isinstance(args[0], int):
            if n == "zfill" or n == "rjust" and args[1:] == ("0",):
                r = linear.padded(E, o, args[0])
                if r is not None:
                    return r
            ps = linear.pieces(E, o)
            k = linear.size(ps) if ps is not None else None
            if k is not None:
                fill = ("0" if n == "zfill" else args[1] if len(args) > 1 else " ") * max(0, args[0] - k)
                return fmt([o, fill] if n == "ljust" else [fill, o])
        if c is str and n in ("removesuffix", "removeprefix") and len(args) == 1 and isinstance(args[0], str):
            end = n == "removesuffix"
            if not args[0] or not self.call_symmethod(self.SymMethod(o, "endswith" if end else "startswith", str), args, {}):
                return o
            k = len(args[0])
            return self.sym_getitem(o, slice(None, -k, None) if end else slice(k, None, None))
        if c is str and n in ("isdigit", "isdecimal"):
            if linear.run(E, o) is not None:
                return True
        if c is str and n in ("split", "rsplit", "partition", "rpartition", "splitlines"):
            if n in ("partition", "rpartition"):
                lit = args[0]
                if isinstance(lit, str) and lit:
                    # the last (first) occurrence is known when the text ends (starts) with the separator
                    if n == "rpartition" and self.call_symmethod(self.SymMethod(o, "endswith", str), (lit,), {}):
                        return (self.sym_getitem(o, slice(None, -len(lit), None)), lit, "")
                    if n == "partition" and self.call_symmethod(self.SymMethod(o, "startswith", str), (lit,), {}):
                        return ("", lit, self.sym_getitem(o, slice(len(lit), None, None)))
                    if not E.contains(o, lit):
                        return ("", "", o) if n == "rpartition" else (o, "", "")
                    head, _, tail = (mk("part", o, n, lit, i, types=STR) for i in range(3))
                    E.neconst.setdefault(tail if n == "rpartition" else head, []).append("")
                    return (head, lit, tail)
                return tuple(mk("part", o, n, args[0], i, types=STR) for i in range(3))
            raise Imprecise(f"str.{n} of abstract string")
        if c is dict and n == "get" or c in (list, dict):
            raise Imprecise(f"method {n} of opaque {c.__name__}")
        for k in c.__mro__:
            if (k, n) in METHODS:
                ts, excs = METHODS[(k, n)]
                if c is bytes and n == "decode" and o.op == "call" and o.args[0] in _ASCII_BYTES and (not args or str(args[0]).lower().replace("_", "-") in ("ascii", "utf-8", "utf8", "us-ascii", "latin-1", "latin1", "iso-8859-1")):
                    excs = ()
                    args, kwargs = ("ascii",), {}
                if c is str and n == "encode" and o.op == "m:decode" and o.args[1:] == ("ascii",) and is_sym(o.args[0]) and o.args[0].op == "call" and o.args[0].args[0] in _ASCII_BYTES:
                    return o.args[0]
                if c is str and n == "encode" and len(args) + len(kwargs) == 1 and not S.has_sym(kwargs) and str((args + tuple(kwargs.values()))[0]).lower() in ("ascii", "us-ascii", "646"):
                    args, kwargs = ("ascii",), {}
                r = mk("m:" + n, o, *args, *S.kw(kwargs), types=ts)
                E.may_raise(r, excs)
                if ts == BOOL:
                    return E.branch(r)
                return r
        raise Imprecise(f"method {c.__name__}.{n} of abstract value")

    def call_abstract(self, f, args, kwargs):
        E = self.E
        slf = getattr(f, "__self__", None)
        name = getattr(f, "__name__", None)
        # regular expressions
        if isinstance(slf, re.Pattern) or f in (re.match, re.search, re.fullmatch, re.sub, re.split, re.findall, re.finditer, re.subn):
            return self.regex(f, slf, name, args, kwargs)
        if slf is not None and isinstance(slf, type) and (slf, name) in CLASSMETHODS:
            ts, excs = CLASSMETHODS[(slf, name)]
            r = mk("call", _cm(slf, name), *args, *S.kw(kwargs), types=ts)
            self.arg_kinds(f, args, STR if name != "combine" else None)
            E.may_raise(r, excs)
            return r
        if isinstance(slf, str):
            if name == "join":
                parts = []
                for i, x in enumerate(self.I.iterate(args[0])):
                    if not isinstance(x, str) and not (is_sym(x) and E.types(x) == STR):
                        if is_sym(x) and (E.types(x) is None or str in E.types(x)):
                            if not E.isinst(x, str):
                                raise TypeError("sequence item: expected str instance")
                        else:
                            raise TypeError("sequence item: expected str instance")
                    if i:
                        parts.append(slf)
                    parts.append(x)
                return fmt(parts)
            if name == "format":
                return self.str_format(slf, args, kwargs)
            if name in ("startswith", "endswith", "replace", "removeprefix", "removesuffix", "count", "find"):
                ts, _ = METHODS[(str, name)]
                r = mk("m:" + name, slf, *args, types=ts)
                return E.branch(r) if ts == BOOL else r
        if isinstance(slf, (list, dict, tuple, collections.deque)):
            if name in ("index", "count", "remove") and isinstance(slf, (list, tuple)):
                for i, x in enumerate(slf):
                    if x is args[0] or E.eq(x, args[0]):
                        if name == "index":
                            return i
                        if name == "remove":
                            slf.remove(x)
                            return None
                if name == "count":
                    raise Imprecise("count of abstract value")
                raise ValueError("value not in list")
            return f(*args, **kwargs)
        if isinstance(slf, (StringIOModel, self.LockModel)):
            return f(*args, **kwargs)
        if isinstance(slf, super):
            return f(*args, **kwargs)
        try:
            hashable = True
            hash(f)
        except TypeError:
            hashable = False
        if hashable:
            if f in PASS_THROUGH:
                if f in (map, filter, functools.reduce):
                    g = args[0]
                    if g is not None and not isinstance(g, (self.Func, types.MethodType, self.LruModel)):
                        fn = g
                        args = ((lambda *a: self.call(fn, a, {})),) + tuple(args[1:])
                if f in (zip, enumerate, map, filter, list, tuple, reversed):
                    args = tuple(self.I.iterate(a) if is_sym(a) else a for a in args)
                return f(*args, **kwargs)
            if f is divmod and len(args) == 2:
                return self.I.binop("FloorDiv", *args), self.I.binop("Mod", *args)
            if f in FUNCS:
                ts, excs = FUNCS[f]
                if f in (round, abs):
                    if any(E.type_of(a) not in (int, float, bool) for a in args if is_sym(a)):
                        raise TypeError("bad operand type")
                    ts = INT if f is round and len(args) == 1 else T(E.type_of(args[0]))
                    excs = (OverflowError, ValueError) if f is round and E.type_of(args[0]) is float else ()
                if f in (uuid.UUID,) and args and is_sym(args[0]) and E.type_of(args[0]) is not str:
                    raise AttributeError(f"{E.type_of(args[0]).__name__!r} object has no attribute 'replace'")
                if f in (base64.b64decode,) and args and is_sym(args[0]) and E.type_of(args[0]) not in (str, bytes):
                    raise TypeError("argument should be a bytes-like object or ASCII string")
                if f in (ipaddress.IPv4Address, ipaddress.IPv6Address) and args and is_sym(args[0]) and E.type_of(args[0]) not in (str,):
                    pass
                if f in (json.dumps,):
                    args = tuple(_hold(a) for a in args)
                if f in _B64:
                    f = _B64[f]
                if f is base64.b64decode and args and is_sym(args[0]):
                    x = args[0]
                    if E.type_of(x) is str:
                        try:
                            x = self.call_symmethod(self.SymMethod(x, "encode", str), ("ascii",), {})
                        except UnicodeEncodeError as e:
                            raise ValueError(*e.args) from None
                    if is_sym(x) and x.op == "call" and x.args[0] is base64.b64encode and len(x.args) == 2 and kwargs.get("altchars") is None and (len(args) < 2 or args[1] is None):
                        return x.args[1]
                    args = (x,) + args[1:]
                    excs = (binascii.Error,)
                if ts is None:
                    raise Imprecise(f"{S.fname(f)} of abstract value")
                nargs, nkw = self.canon(f, args, kwargs)
                if f is datetime.timedelta:
                    r = linear.timedelta(E, nkw)
                    if r is not None:
                        return r
                r = mk("call", f, *nargs, *S.kw(nkw), types=ts)
                E.may_raise(r, excs)
                if ts == BOOL:
                    return E.branch(r)
                return r
        if isinstance(f, type):
            if issubclass(f, BaseException):
                return f(*args, **kwargs)
            if self.is_open_class(f):
                return f(*args, **kwargs)
            if issubclass(f, tuple) and hasattr(f, "_fields"):
                return f(*args, **kwargs)
        if isinstance(f, types.MethodWrapperType) or isinstance(f, types.MethodDescriptorType) or isinstance(f, types.WrapperDescriptorType):
            # e.g. object.__setattr__(obj, name, value), list.append(lst, v), str.strip(s), datetime.isoformat(d)
            oc = getattr(f, "__objclass__", None)
            if name in ("__setattr__", "__init__", "__delattr__"):
                if slf is None and args:
                    E.event("attr", args[0], args[1] if len(args) > 1 else None)
                return f(*args, **kwargs)
            if oc is not None and args:
                if is_sym(args[0]):
                    return self.call_symmethod(self.SymMethod(args[0], name, E.type_of(args[0])), args[1:], kwargs)
                return self.call(getattr(args[0], name), args[1:], kwargs)
        if isinstance(f, operator.itemgetter) or isinstance(f, operator.attrgetter):
            return f(*args)
        if isinstance(f, functools.partial):
            return self.call(f.func, tuple(f.args) + tuple(args), {**f.keywords, **kwargs})
        if f is typing.get_origin or f is typing.get_args or f is inspect.isclass or f is dataclasses.is_dataclass or f is inspect.ismodule or f is inspect.isbuiltin:
            a = args[0]
            if is_sym(a):
                if f is typing.get_origin:
                    return None
                if f is typing.get_args:
                    return ()
                if f is dataclasses.is_dataclass:
                    return dataclasses.is_dataclass(E.type_of(a))
                return False
            return f(*args)
        if isinstance(f, types.FunctionType) and getattr(f, "__module__", None) in ("typing", "dataclasses", "abc", "functools", "enum", "copy", "contextlib"):
            return f(*args, **kwargs)
        if isinstance(f, (types.FunctionType,)) and f.__module__.startswith("absint"):
            return f(*args, **kwargs)
        if hasattr(f, "__wrapped__") and getattr(f, "__absint_hook__", False):
            return f(*args, **kwargs)
        oper = _OPERATOR.get(f) if hashable else None
        if oper:
            if oper[0] == "cmp":
                return self.I.compare(oper[1], *args)
            if oper[0] == "bin":
                return self.I.binop(oper[1], *args)
            if oper[0] == "getitem":
                return self.I.getitem(*args)
        raise Imprecise(f"call of {S.fname(f)} with abstract argument")

    def arg_kinds(self, f, args, want):
        if want is None:
            return
        for a in args[:1]:
            if is_sym(a):
                c = self.E.type_of(a)
                if c not in want:
                    raise TypeError(f"argument must be str, not {c.__name__}")

    def canon(self, f, args, kwargs):
        "Positional/keyword normal form of modelled calls."
        if f is datetime.timedelta:
            names = ["days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"]
            kw = dict(zip(names, args))
            kw.update(kwargs)
            return (), kw
        if f in (base64.b64decode, ):
            kw = dict(zip(["altchars", "validate"], args[1:]))
            kw.update(kwargs)
            kw = {k: v for k, v in kw.items() if not (k == "altchars" and v is None) and not (k == "validate" and v is False)}
            return args[:1], kw
        if f is base64.b64encode:
            kw = dict(zip(["altchars"], args[1:]))
            kw.update(kwargs)
            return args[:1], {k: v for k, v in kw.items() if v is not None}
        return args, kwargs

    def regex(self, f, slf, name, args, kwargs):
        E = self.E
        if isinstance(slf, re.Pattern):
            pat = slf
            rest = args
        else:
            name = f.__name__
            flags = kwargs.pop("flags", 0)
            p = args[0]
            rest = args[1:]
            if is_sym(p):
                raise Imprecise("abstract regular expression")
            if name in ("match", "search", "fullmatch", "findall", "finditer") and len(rest) > 1:
                flags = rest[1]
                rest = rest[:1]
            pat = re.compile(p, flags) if isinstance(p, str) else p
        if name in ("match", "search", "fullmatch"):
            s = rest[0]
            if is_sym(s) and E.type_of(s) is not str:
                raise TypeError("expected string or bytes-like object")
            if not is_sym(s):
                return getattr(pat, name)(s)
            known = linear.match(E, pat, name, s)
            if known is False:
                return None
            m = mk("match", name, pat, s, types=T(re.Match))
            if known is not None:
                E.groups[m] = [None if g is None else fmt(g) for g in known]
                return m
            if E.branch(mk("matches", name, pat, s, types=BOOL)):
                return m
            return None
        if name == "sub":
            if is_sym(rest[1]) and not callable(rest[0]):
                return mk("resub", pat, rest[0], rest[1], types=STR)
        raise Imprecise(f"re.{name} on abstract string")


def _hold(v):
    if isinstance(v, list):
        return tuple(_hold(x) for x in v)
    if isinstance(v, (dict, set)):
        return v
    return v


_CM = {}


def _cm(cls, name):
    k = (cls, name)
    if k not in _CM:
        _CM[k] = getattr(cls, name)
        CM_NAMES[id(_CM[k])] = (cls, name)
    return _CM[k]


CM_NAMES = {}

_OPERATOR = {
    operator.eq: ("cmp", "Eq"), operator.ne: ("cmp", "NotEq"), operator.lt: ("cmp", "Lt"), operator.le: ("cmp", "LtE"),
    operator.gt: ("cmp", "Gt"), operator.ge: ("cmp", "GtE"), operator.is_: ("cmp", "Is"), operator.is_not: ("cmp", "IsNot"),
    operator.add: ("bin", "Add"), operator.sub: ("bin", "Sub"), operator.mul: ("bin", "Mult"), operator.floordiv: ("bin", "FloorDiv"),
    operator.mod: ("bin", "Mod"), operator.truediv: ("bin", "Div"), operator.getitem: ("getitem", None),
}


class ThreadLocal:
    "threading.local: state of one thread, never shared."
