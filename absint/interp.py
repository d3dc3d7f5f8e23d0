"""
Abstract evaluation of the syntax trees of the analysed package.

The object model (classes, methods, descriptors, MRO) of the analysed program is
represented by host class objects whose functions are `Func` values, i.e. syntax trees
evaluated here.  Nothing of the analysed package is compiled or executed by Python.
"""

import ast
import builtins
import enum
import inspect
import operator
import os
import sys
import types

from . import sym as S
from .engine import BINOPS, Engine, fmt
from .sym import Imprecise, NoneType, Sym, has_sym, is_sym, mk

MAX_DEPTH = 140
MAX_LOOP = 5000


_IS = operator.is_


class Divergence(RecursionError):
    "Unbounded recursion of the analysed program."


# ------------------------------------------------------------------ environments
class Env:
    __slots__ = ("vars", "parent", "locals", "globals", "kind", "module", "globaldecl", "nonlocaldecl", "__weakref__")

    def __init__(self, kind, parent, globals_, module, locals_=frozenset(), globaldecl=frozenset(), nonlocaldecl=frozenset(), vars=None):
        self.kind = kind  # module, class, function, comp
        self.parent = parent
        self.globals = globals_
        self.module = module
        self.locals = locals_
        self.globaldecl = globaldecl
        self.nonlocaldecl = nonlocaldecl
        self.vars = {} if vars is None else vars


class Frame:
    __slots__ = ("name", "file", "lineno", "env", "func", "args")

    def __init__(self, name, file, env, func=None, args=None):
        self.name, self.file, self.env, self.func, self.args = name, file, env, func, args
        self.lineno = 0


class FrameView:
    "What the analysed program sees as a frame object."

    def __init__(self, frames, index):
        self._frames, self._index = frames, index

    @property
    def f_back(self):
        return FrameView(self._frames, self._index - 1) if self._index > 0 else None

    @property
    def f_globals(self):
        return self._frames[self._index].env.globals

    @property
    def f_locals(self):
        return self._frames[self._index].env.vars

    @property
    def f_lineno(self):
        return self._frames[self._index].lineno

    @property
    def f_code(self):
        fr = self._frames[self._index]
        return types.SimpleNamespace(co_name=fr.name, co_filename=fr.file)

    def clear(self):
        pass


# ------------------------------------------------------------- static scope facts
class _Scope(ast.NodeVisitor):
    def __init__(self):
        self.names, self.glob, self.nonl = set(), set(), set()
        self.is_gen = False

    def bind_target(self, t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.names.add(n.id)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_FunctionDef(self, n):
        self.names.add(n.name)
        for d in n.decorator_list:
            self.visit(d)
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.names.add(n.name)
        for d in n.decorator_list + n.bases:
            self.visit(d)

    def visit_Lambda(self, n):
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)

    def _comp(self, n):
        # comprehension targets are local to it; walrus targets leak; first iterable evaluated outside
        for g in n.generators:
            for x in ast.walk(g):
                if isinstance(x, ast.NamedExpr):
                    self.names.add(x.target.id)
        for f in ("elt", "key", "value"):
            if hasattr(n, f):
                for x in ast.walk(getattr(n, f)):
                    if isinstance(x, ast.NamedExpr):
                        self.names.add(x.target.id)

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_Import(self, n):
        for a in n.names:
            self.names.add((a.asname or a.name).split(".")[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.names.add(a.asname or a.name)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def visit_Global(self, n):
        self.glob.update(n.names)

    def visit_Nonlocal(self, n):
        self.nonl.update(n.names)

    def visit_MatchAs(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def visit_MatchStar(self, n):
        if n.name:
            self.names.add(n.name)

    def visit_MatchMapping(self, n):
        if n.rest:
            self.names.add(n.rest)
        self.generic_visit(n)

    def visit_Yield(self, n):
        self.is_gen = True
        self.generic_visit(n)

    visit_YieldFrom = visit_Yield


def scope_of(node):
    info = getattr(node, "_scope", None)
    if info is None:
        v = _Scope()
        body = node.body if isinstance(node.body, list) else [node.body]
        for st in body:
            v.visit(st)
        args = node.args
        params = [a.arg for a in args.posonlyargs + args.args + args.kwonlyargs]
        if args.vararg:
            params.append(args.vararg.arg)
        if args.kwarg:
            params.append(args.kwarg.arg)
        v.names.update(params)
        info = (frozenset(v.names - v.glob - v.nonl), frozenset(v.glob), frozenset(v.nonl), v.is_gen)
        node._scope = info
    return info


# --------------------------------------------------------------------- functions
class Func:
    "A function of the analysed program."

    def __init__(self, interp, node, env, name, qualname, defaults, kwdefaults, annotations):
        self._interp = interp
        self._node = node
        self._env = env
        self.__name__ = name
        self.__qualname__ = qualname
        self.__module__ = env.globals.get("__name__")
        self.__doc__ = ast.get_docstring(node, clean=False) if not isinstance(node, ast.Lambda) else None
        self._defaults = defaults
        self._kwdefaults = kwdefaults
        self.__annotations__ = annotations
        self.__globals__ = env.globals
        self._file = env.module
        self.__type_params__ = ()

    def __get__(self, obj, owner=None):
        return self if obj is None else types.MethodType(self, obj)

    def __call__(self, *args, **kwargs):
        return self._interp.call_func(self, args, kwargs)

    def __repr__(self):
        return f"<function {self.__qualname__}>"

    @property
    def __defaults__(self):
        return self._defaults or None

    @property
    def __kwdefaults__(self):
        return self._kwdefaults or None

    @property
    def __signature__(self):
        a = self._node.args
        P = inspect.Parameter
        ps = []
        pos = a.posonlyargs + a.args
        nd = len(pos) - len(self._defaults)
        for i, p in enumerate(pos):
            ps.append(P(p.arg, P.POSITIONAL_ONLY if i < len(a.posonlyargs) else P.POSITIONAL_OR_KEYWORD,
                        default=self._defaults[i - nd] if i >= nd else P.empty,
                        annotation=self.__annotations__.get(p.arg, P.empty)))
        if a.vararg:
            ps.append(P(a.vararg.arg, P.VAR_POSITIONAL))
        for p in a.kwonlyargs:
            ps.append(P(p.arg, P.KEYWORD_ONLY, default=self._kwdefaults.get(p.arg, P.empty),
                        annotation=self.__annotations__.get(p.arg, P.empty)))
        if a.kwarg:
            ps.append(P(a.kwarg.arg, P.VAR_KEYWORD))
        return inspect.Signature(ps, return_annotation=self.__annotations__.get("return", inspect.Signature.empty))


class LruModel:
    "functools.lru_cache / functools.cache."

    def __init__(self, interp, fn):
        self._interp = interp
        self.__wrapped__ = fn
        self.cache = {}
        for a in ("__name__", "__qualname__", "__module__", "__doc__", "__annotations__"):
            if hasattr(fn, a):
                setattr(self, a, getattr(fn, a))
        interp.shared_caches.append(self)

    def __get__(self, obj, owner=None):
        return self if obj is None else types.MethodType(self, obj)

    def __call__(self, *args, **kwargs):
        key = (args, tuple(sorted(kwargs.items())))
        E = self._interp.E
        found, k = E.dict_find(self.cache, key)
        if found:
            E.event("cache-read", self.cache, key)
            return self.cache[k]
        v = self.__wrapped__(*args, **kwargs)
        self.cache[key] = v
        E.event("publish", self.cache, key, v)
        return v

    def cache_clear(self):
        self.cache.clear()

    def cache_info(self):
        return (0, 0, None, len(self.cache))


class LockModel:
    def __init__(self, interp, reentrant):
        self._i, self._re, self._n = interp, reentrant, 0
        self._epoch = 0

    def acquire(self, blocking=True, timeout=-1):
        if self._n and not self._re:
            raise Divergence("deadlock: non-reentrant lock acquired twice by one thread")
        if not self._n:
            self._epoch += 1
        self._n += 1
        self._i.E.locks.append((id(self), self._epoch))
        return True

    def release(self):
        if not self._n:
            raise RuntimeError("release unlocked lock")
        self._n -= 1
        lk = self._i.E.locks
        for i in range(len(lk) - 1, -1, -1):
            if lk[i][0] == id(self):
                del lk[i]
                break

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._n > 0


class SymMethod:
    __slots__ = ("obj", "name", "cls")

    def __init__(self, obj, name, cls):
        self.obj, self.name, self.cls = obj, name, cls


class SuperModel:
    pass


class Stub:
    "An unmodelled third-party object: reading is fine, using it is imprecise."

    def __init__(self, name):
        self._name = name

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        return Stub(f"{self._name}.{n}")

    def __call__(self, *a, **k):
        raise Imprecise(f"call of third-party {self._name}")

    def __repr__(self):
        return f"<{self._name}>"


RETURN, BREAK, CONTINUE = "return", "break", "continue"


class Interp:
    def __init__(self, repo="/repo", package="strong_typing", version=None, overlay=None):
        self.repo = repo
        self.package = package
        self.E = Engine()
        S.ENGINE = self.E
        from . import pyversion

        self.version = pyversion.version_info(version) if version else sys.version_info
        self.mask = pyversion.Mask(version) if version else None
        self.modules = {}
        self.sources = {}
        self.trees = {}
        self.shared_caches = []
        self.stubs = {}
        self.defined = []  # all Func nodes of the package
        self.own_classes = set()
        self.init_errors = []
        from . import models

        self.M = models.Models(self)
        self.snapshot_data = None

    # ---------------------------------------------------------------- modules
    def load_all(self):
        root = os.path.join(self.repo, self.package)
        names = []
        for dp, dn, fn in os.walk(root):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if f.endswith(".py"):
                    rel = os.path.relpath(os.path.join(dp, f), self.repo)[:-3].replace(os.sep, ".")
                    names.append(rel[: -len(".__init__")] if rel.endswith(".__init__") else rel)
        for n in names:
            self.import_module(n)
        self.snapshot()
        return names

    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(self.repo, *name.split("."))
        is_pkg = os.path.isdir(path)
        file = os.path.join(path, "__init__.py") if is_pkg else path + ".py"
        if not os.path.exists(file):
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        if "." in name:
            parent = self.import_module(name.rpartition(".")[0])
        else:
            parent = None
        with open(file, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src, file, feature_version=self.version[:2] if self.mask else None)
        rel = os.path.relpath(file, self.repo)
        self.sources[rel], self.trees[rel] = src, tree
        mod = types.ModuleType(name)
        mod.__file__ = rel
        mod.__package__ = name if is_pkg else name.rpartition(".")[0]
        if is_pkg:
            mod.__path__ = [path]
        self.modules[name] = mod
        sys.modules[name] = mod
        mod.__dict__["__builtins__"] = vars(builtins)
        env = Env("module", None, mod.__dict__, rel, vars=mod.__dict__)
        fr = Frame("<module>", rel, env)
        future = any(isinstance(s, ast.ImportFrom) and s.module == "__future__" and any(a.name == "annotations" for a in s.names) for s in tree.body)
        mod.__dict__["__absint_future__"] = future
        doc = ast.get_docstring(tree, clean=False)
        mod.__doc__ = doc
        self.E.frames.append(fr)
        try:
            for _ in self.exec_block(tree.body, env, fr):
                pass
        except BaseException:
            del self.modules[name]
            sys.modules.pop(name, None)
            raise
        finally:
            self.E.frames.pop()
        if parent is not None:
            setattr(parent, name.rpartition(".")[2], mod)
        return mod

    # --------------------------------------------------------------- snapshots
    def _reach(self):
        "All mutable objects reachable from the analysed modules."
        seen, out, work = set(), [], [m.__dict__ for m in self.modules.values()]
        while work:
            o = work.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            t = type(o)
            if t is dict:
                out.append(o)
                work.extend(o.keys())
                work.extend(o.values())
            elif t in (list, set):
                out.append(o)
                work.extend(o)
            elif t in (tuple, frozenset):
                work.extend(o)
            elif isinstance(o, type):
                if o.__module__ in self.modules:
                    out.append(o)
                    work.extend(o.__dict__.values())
            elif isinstance(o, (Func,)):
                work.append(o._env)
                work.append(o.__dict__)
                work.extend(o._defaults)
            elif isinstance(o, Env):
                work.append(o.vars)
                if o.parent is not None:
                    work.append(o.parent)
            elif isinstance(o, LruModel):
                work.append(o.cache)
                work.append(o.__wrapped__)
            elif isinstance(o, types.MethodType):
                work.extend([o.__func__, o.__self__])
            elif isinstance(o, (staticmethod, classmethod)):
                work.append(o.__func__)
            elif isinstance(o, property):
                work.extend(x for x in (o.fget, o.fset, o.fdel) if x)
            elif isinstance(o, LockModel):
                out.append(o)
            elif type(o).__module__ in self.modules or type(o).__module__ in ("types", "collections", "weakref", "functools", "absint.models"):
                d = getattr(o, "__dict__", None)
                if isinstance(o, (dict,)):
                    out.append(o)
                    work.extend(o.values())
                elif isinstance(d, dict) and not isinstance(o, types.ModuleType):
                    work.append(d)
        return out

    def snapshot(self):
        data = []
        for o in self._reach():
            if isinstance(o, type):
                data.append((o, dict(o.__dict__)))
            elif isinstance(o, LockModel):
                data.append((o, 0))
            elif isinstance(o, list):
                data.append((o, list(o)))
            elif isinstance(o, set):
                data.append((o, set(o)))
            else:
                data.append((o, dict(o)))
        self.snapshot_data = data
        self.sys_modules = set(sys.modules)
        self.shared_ids = {id(o): o for o, _ in data}

    def restore(self):
        for o, c in self.snapshot_data:
            t = type(o)
            if t is dict:
                if not (len(o) == len(c) and all(map(_IS, o.values(), c.values())) and all(map(_IS, o, c))):
                    o.clear()
                    o.update(c)
            elif isinstance(o, type):
                cur = o.__dict__
                if len(cur) == len(c) and all(map(_IS, cur.values(), c.values())):
                    continue
                for k in [k for k in cur if k not in c and k not in _CLASS_SKIP]:
                    try:
                        type.__delattr__(o, k)
                    except (AttributeError, TypeError):
                        pass
                for k, v in c.items():
                    if k not in _CLASS_SKIP and cur.get(k) is not v:
                        try:
                            type.__setattr__(o, k, v)
                        except (AttributeError, TypeError):
                            pass
            elif isinstance(o, LockModel):
                o._n = 0
            elif isinstance(o, list):
                if len(o) != len(c) or any(a is not b for a, b in zip(o, c)):
                    o[:] = c
            elif isinstance(o, set):
                if len(o) != len(c) or any(x not in o for x in c):
                    o.clear()
                    o.update(c)
            else:
                if len(o) != len(c) or any(a is not b for a, b in zip(o, c)) or any(o[k] is not v for k, v in c.items()):
                    o.clear()
                    o.update(c)
        for n in [n for n in sys.modules if n not in self.sys_modules and n not in self.keep_modules]:
            if getattr(sys.modules[n], "__absint_temp__", False) or getattr(sys.modules[n], "__spec__", 1) is None or n.startswith("absint_w"):
                del sys.modules[n]
        for c in self.shared_caches:
            pass

    keep_modules = set()

    # -------------------------------------------------------------- statements
    def exec_block(self, body, env, fr):
        for st in body:
            fr.lineno = st.lineno
            sig = yield from self.exec_stmt(st, env, fr)
            if sig is not None:
                return sig
        return None

    def exec_stmt(self, st, env, fr):
        t = type(st)
        if t is ast.Expr:
            v = st.value
            if isinstance(v, (ast.Yield, ast.YieldFrom)):
                yield from self.do_yield(v, env, fr)
            else:
                self.ev(v, env, fr)
            return None
        if t is ast.Assign:
            if isinstance(st.value, (ast.Yield, ast.YieldFrom)):
                v = yield from self.do_yield(st.value, env, fr)
            else:
                v = self.ev(st.value, env, fr)
            for tg in st.targets:
                self.assign(tg, v, env, fr)
            return None
        if t is ast.Return:
            if st.value is None:
                return (RETURN, None)
            if isinstance(st.value, (ast.Yield, ast.YieldFrom)):
                return (RETURN, (yield from self.do_yield(st.value, env, fr)))
            return (RETURN, self.ev(st.value, env, fr))
        if t is ast.If:
            if self.cond(st.test, env, fr):
                return (yield from self.exec_block(st.body, env, fr))
            return (yield from self.exec_block(st.orelse, env, fr))
        if t is ast.For:
            it = self.iterate(self.ev(st.iter, env, fr))
            n = 0
            while True:
                fr.lineno = st.lineno
                try:
                    v = next(it)
                except StopIteration:
                    break
                n += 1
                if n > MAX_LOOP:
                    raise Imprecise("loop bound exceeded")
                self.assign(st.target, v, env, fr)
                sig = yield from self.exec_block(st.body, env, fr)
                if sig is not None:
                    if sig[0] == BREAK:
                        return None
                    if sig[0] == CONTINUE:
                        continue
                    return sig
            return (yield from self.exec_block(st.orelse, env, fr))
        if t is ast.While:
            n = 0
            while self.cond(st.test, env, fr):
                n += 1
                if n > MAX_LOOP:
                    raise Imprecise("loop bound exceeded")
                sig = yield from self.exec_block(st.body, env, fr)
                if sig is not None:
                    if sig[0] == BREAK:
                        return None
                    if sig[0] == CONTINUE:
                        continue
                    return sig
            return (yield from self.exec_block(st.orelse, env, fr))
        if t is ast.Raise:
            if st.exc is None:
                cur = fr.env.vars.get("@exc") or sys.exc_info()[1]
                for f in reversed(self.E.frames):
                    if "@exc" in f.env.vars and f.env.vars["@exc"]:
                        cur = f.env.vars["@exc"][-1]
                        break
                if cur is None:
                    raise RuntimeError("No active exception to reraise")
                raise cur
            e = self.ev(st.exc, env, fr)
            if isinstance(e, type):
                e = self.call(e, (), {})
            if is_sym(e):
                raise Imprecise("raise of abstract value")
            if not isinstance(e, BaseException):
                raise TypeError("exceptions must derive from BaseException")
            cause = self.ev(st.cause, env, fr) if st.cause is not None else None
            mark(e, f"{fr.file}:{st.lineno}", fr.name, force=True)
            if st.cause is not None:
                raise e from cause
            raise e
        if t is ast.Pass:
            return None
        if t is ast.AnnAssign:
            simple = isinstance(st.target, ast.Name) and st.simple
            if env.kind in ("module", "class") and simple:
                if env.globals.get("__absint_future__"):
                    ann = ast.unparse(st.annotation)
                else:
                    ann = self.ev(st.annotation, env, fr)
                env.vars.setdefault("__annotations__", {})
                env.vars["__annotations__"][st.target.id] = ann
            if st.value is not None:
                self.assign(st.target, self.ev(st.value, env, fr), env, fr)
            return None
        if t is ast.AugAssign:
            op = type(st.op).__name__
            tg = st.target
            if isinstance(tg, ast.Name):
                old = self.load(tg.id, env)
                self.store(tg.id, self.inplace(op, old, self.ev(st.value, env, fr)), env)
            elif isinstance(tg, ast.Attribute):
                o = self.ev(tg.value, env, fr)
                old = self.getattr(o, tg.attr)
                self.setattr(o, tg.attr, self.inplace(op, old, self.ev(st.value, env, fr)))
            else:
                o = self.ev(tg.value, env, fr)
                k = self.ev(tg.slice, env, fr)
                old = self.getitem(o, k)
                self.setitem(o, k, self.inplace(op, old, self.ev(st.value, env, fr)))
            return None
        if t is ast.FunctionDef:
            f = self.make_func(st, env, fr)
            for d in reversed(st.decorator_list):
                dec = self.ev(d, env, fr)
                fr.lineno = st.lineno
                f = self.call(dec, (f,), {})
            self.store(st.name, f, env)
            return None
        if t is ast.ClassDef:
            self.store(st.name, self.make_class(st, env, fr), env)
            return None
        if t is ast.Try or t.__name__ == "TryStar":
            return (yield from self.exec_try(st, env, fr))
        if t is ast.With:
            return (yield from self.exec_with(st, 0, env, fr))
        if t is ast.Import:
            for a in st.names:
                m = self.import_name(a.name)
                if a.asname:
                    self.store(a.asname, m, env)
                else:
                    self.store(a.name.split(".")[0], self.import_name(a.name.split(".")[0]), env)
            return None
        if t is ast.ImportFrom:
            self.import_from(st, env)
            return None
        if t is ast.Assert:
            if not self.cond(st.test, env, fr):
                raise AssertionError(self.ev(st.msg, env, fr) if st.msg else None)
            return None
        if t is ast.Delete:
            for tg in st.targets:
                if isinstance(tg, ast.Name):
                    self.delname(tg.id, env)
                elif isinstance(tg, ast.Attribute):
                    o = self.ev(tg.value, env, fr)
                    self.E.event("attr", o, tg.attr)
                    delattr(o, tg.attr)
                else:
                    o = self.ev(tg.value, env, fr)
                    k = self.ev(tg.slice, env, fr)
                    self.E.event("item", o, k)
                    if has_sym(k):
                        found, k2 = self.E.dict_find(o, k)
                        if not found:
                            raise KeyError(k)
                        k = k2
                    del o[k]
            return None
        if t is ast.Break:
            return (BREAK,)
        if t is ast.Continue:
            return (CONTINUE,)
        if t in (ast.Global, ast.Nonlocal):
            return None
        if t is ast.Match:
            subj = self.ev(st.subject, env, fr)
            for case in st.cases:
                if self.match(case.pattern, subj, env, fr) and (case.guard is None or self.cond(case.guard, env, fr)):
                    return (yield from self.exec_block(case.body, env, fr))
            return None
        if t.__name__ == "TypeAlias":
            self.store(st.name.id, self.ev(st.value, env, fr), env)
            return None
        raise Imprecise(f"statement {t.__name__}")

    def do_yield(self, v, env, fr):
        if isinstance(v, ast.Yield):
            val = self.ev(v.value, env, fr) if v.value is not None else None
            return (yield ("@yield", val))
        it = self.iterate(self.ev(v.value, env, fr))
        sent = None
        while True:
            try:
                x = it.send(sent) if sent is not None else next(it)
            except StopIteration as s:
                return s.value
            except RuntimeError as e:
                if (s := stop_of(e)) is not None:
                    return s.value
                raise
            try:
                sent = yield ("@yield", x)
            except GeneratorExit:
                if hasattr(it, "close"):
                    it.close()
                raise
            except Exception as e:
                if not hasattr(it, "throw"):
                    raise
                try:
                    sent = yield ("@yield", it.throw(e))
                except StopIteration as s:
                    return s.value

    def exec_try(self, st, env, fr):
        sig = None
        depth = len(self.E.frames)
        try:
            try:
                sig = yield from self.exec_block(st.body, env, fr)
            except Exception as e:
                e = stop_of(e) or e
                del self.E.frames[depth:]
                mark(e, f"{fr.file}:{fr.lineno}", fr.name)
                for h in st.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        ht = self.ev(h.type, env, fr)
                        ok = isinstance(e, ht)
                    if ok:
                        if h.name:
                            self.store(h.name, e, env)
                        env.vars.setdefault("@exc", []).append(e)
                        try:
                            try:
                                sig = yield from self.exec_block(h.body, env, fr)
                            except Exception as e2:
                                if e2 is not e and e2.__context__ is None:
                                    e2.__context__ = e
                                raise
                        finally:
                            env.vars["@exc"].pop()
                            if h.name:
                                env.vars.pop(h.name, None)
                        break
                else:
                    raise
            else:
                if sig is None:
                    sig = yield from self.exec_block(st.orelse, env, fr)
        finally:
            if st.finalbody:
                d2 = len(self.E.frames)
                if d2 > depth:
                    del self.E.frames[depth:]
                s2 = yield from self.exec_block(st.finalbody, env, fr)
                if s2 is not None:
                    return s2
        return sig

    def exec_with(self, st, i, env, fr):
        if i == len(st.items):
            return (yield from self.exec_block(st.body, env, fr))
        it = st.items[i]
        cm = self.ev(it.context_expr, env, fr)
        if is_sym(cm):
            raise Imprecise("with on abstract value")
        cls = type(cm)
        enter, exit_ = cls.__enter__, cls.__exit__
        v = self.call(enter, (cm,), {})
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env, fr)
        depth = len(self.E.frames)
        try:
            sig = yield from self.exec_with(st, i + 1, env, fr)
        except Exception as e:
            del self.E.frames[depth:]
            mark(e, f"{fr.file}:{fr.lineno}", fr.name)
            if self.E.truth(self.call(exit_, (cm, type(e), e, None), {})):
                return None
            raise
        except BaseException:
            raise
        else:
            self.call(exit_, (cm, None, None, None), {})
            return sig

    def match(self, p, v, env, fr):
        t = type(p)
        if t is ast.MatchValue:
            return self.compare("Eq", v, self.ev(p.value, env, fr))
        if t is ast.MatchSingleton:
            return self.compare("Is", v, p.value)
        if t is ast.MatchAs:
            if p.pattern is not None and not self.match(p.pattern, v, env, fr):
                return False
            if p.name:
                self.store(p.name, v, env)
            return True
        if t is ast.MatchOr:
            return any(self.match(q, v, env, fr) for q in p.patterns)
        if t is ast.MatchClass:
            cls = self.ev(p.cls, env, fr)
            if not self.isinstance(v, cls):
                return False
            attrs = list(zip(getattr(cls, "__match_args__", ()), p.patterns))
            if p.patterns and cls in (bool, int, float, str, bytes, list, dict, set, tuple, frozenset):
                return self.match(p.patterns[0], v, env, fr)
            attrs += list(zip(p.kwd_attrs, p.kwd_patterns))
            for a, q in attrs:
                try:
                    x = self.getattr(v, a)
                except AttributeError:
                    return False
                if not self.match(q, x, env, fr):
                    return False
            return True
        if t is ast.MatchSequence:
            if is_sym(v):
                raise Imprecise("sequence pattern on abstract value")
            if not isinstance(v, (list, tuple)):
                return False
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if not star:
                return len(v) == len(p.patterns) and all(self.match(q, x, env, fr) for q, x in zip(p.patterns, v))
            i = star[0]
            after = len(p.patterns) - i - 1
            if len(v) < i + after:
                return False
            if not all(self.match(q, x, env, fr) for q, x in zip(p.patterns[:i], v[:i])):
                return False
            if p.patterns[i].name:
                self.store(p.patterns[i].name, list(v[i: len(v) - after]), env)
            return all(self.match(q, x, env, fr) for q, x in zip(p.patterns[i + 1:], v[len(v) - after:]))
        if t is ast.MatchMapping:
            if is_sym(v):
                if not self.E.isinst(v, dict):
                    return False
                raise Imprecise("mapping pattern on abstract value")
            if not isinstance(v, dict):
                return False
            used = []
            for k, q in zip(p.keys, p.patterns):
                kk = self.ev(k, env, fr)
                found, k2 = self.E.dict_find(v, kk)
                if not found or not self.match(q, v[k2], env, fr):
                    return False
                used.append(k2)
            if p.rest:
                self.store(p.rest, {k: x for k, x in v.items() if not any(k is u for u in used)}, env)
            return True
        raise Imprecise(f"pattern {t.__name__}")

    # ------------------------------------------------------------------ imports
    ALLOWED = {
        "abc", "base64", "builtins", "collections", "contextlib", "contextvars", "copy", "dataclasses", "datetime",
        "decimal", "enum", "fractions", "functools", "importlib", "inspect", "io", "ipaddress", "itertools", "json",
        "difflib", "fnmatch", "shlex", "hashlib", "zlib", "array", "errno", "statistics", "cmath", "locale", "traceback", "keyword", "logging", "math", "numbers", "operator", "re", "string", "sys", "textwrap", "threading", "types",
        "typing", "unicodedata", "uuid", "warnings", "weakref", "binascii", "calendar", "time", "zoneinfo", "ast",
        "__future__", "bisect", "heapq", "graphlib", "struct", "token", "tokenize", "html", "pprint", "reprlib", "_thread",
    }

    def import_name(self, name):
        top = name.split(".")[0]
        if top == self.package:
            return self.import_module(name)
        if top in self.stubs:
            m = self.stubs[top]
            for part in name.split(".")[1:]:
                m = getattr(m, part)
            return m
        if self.mask is not None and self.mask.module_missing(name):
            raise ModuleNotFoundError(f"No module named {name!r} in Python {self.version[0]}.{self.version[1]}", name=name)
        if name in ("sys", "inspect", "functools", "threading", "_thread"):
            return self.M.proxy(name)
        if top in self.ALLOWED:
            import importlib

            return importlib.import_module(name)
        if top == "typing_extensions":
            if self.mask is None:
                raise Imprecise("typing_extensions imported")
            if self.version[:2] >= (3, 11):
                raise ModuleNotFoundError("No module named 'typing_extensions'", name=name)
            from . import pyversion

            return pyversion.extensions()
        return Stub(name)

    def import_from(self, st, env):
        if st.level:
            pkg = env.globals["__package__"].split(".")
            base = ".".join(pkg[: len(pkg) - st.level + 1])
            modname = f"{base}.{st.module}" if st.module else base
        else:
            modname = st.module
        if modname == "__future__":
            return
        mod = self.import_name(modname)
        for a in st.names:
            if a.name == "*":
                names = getattr(mod, "__all__", None) or [n for n in vars(mod) if not n.startswith("_")]
                for n in names:
                    self.store(n, getattr(mod, n), env)
                continue
            try:
                if self.mask is not None:
                    self.mask.check_attr(mod, a.name)
                v = getattr(mod, a.name)
            except AttributeError:
                if modname.split(".")[0] == self.package:
                    try:
                        v = self.import_module(f"{modname}.{a.name}")
                    except ModuleNotFoundError:
                        raise ImportError(f"cannot import name {a.name!r} from {modname!r}") from None
                else:
                    raise ImportError(f"cannot import name {a.name!r} from {modname!r}") from None
            v = self.M.replace(v)
            self.store(a.asname or a.name, v, env)

    # -------------------------------------------------------- functions/classes
    def make_func(self, node, env, fr, name=None):
        a = node.args
        defaults = tuple(self.ev(d, env, fr) for d in a.defaults)
        kwd = {p.arg: self.ev(d, env, fr) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        ann = {}
        if not isinstance(node, ast.Lambda):
            fut = env.globals.get("__absint_future__")
            for p in a.posonlyargs + a.args + [x for x in (a.vararg,) if x] + a.kwonlyargs + [x for x in (a.kwarg,) if x]:
                if p.annotation is not None:
                    ann[p.arg] = ast.unparse(p.annotation) if fut else self.annotation(p.annotation, env, fr)
            if node.returns is not None:
                ann["return"] = ast.unparse(node.returns) if fut else self.annotation(node.returns, env, fr)
        nm = name or (node.name if not isinstance(node, ast.Lambda) else "<lambda>")
        prefix = env.vars.get("__qualname__") if env.kind == "class" else None
        qual = f"{prefix}.{nm}" if prefix else (nm if env.kind == "module" else f"{fr.name}.<locals>.{nm}")
        f = Func(self, node, env, nm, qual, defaults, kwd, ann)
        scope_of(node)
        return f

    def annotation(self, node, env, fr):
        return self.ev(node, env, fr)

    def make_class(self, st, env, fr):
        bases = []
        for b in st.bases:
            if isinstance(b, ast.Starred):
                bases.extend(self.iterate(self.ev(b.value, env, fr)))
            else:
                bases.append(self.ev(b, env, fr))
        kwds = {k.arg: self.ev(k.value, env, fr) for k in st.keywords}
        prefix = env.vars.get("__qualname__") if env.kind == "class" else (None if env.kind == "module" else f"{fr.name}.<locals>")
        qual = f"{prefix}.{st.name}" if prefix else st.name
        cell = Env("function", env if env.kind != "class" else env, env.globals, env.module, frozenset(["__class__"]))

        def body(ns):
            ns["__module__"] = env.globals["__name__"]
            ns["__qualname__"] = qual
            doc = ast.get_docstring(st, clean=False)
            if doc is not None:
                ns["__doc__"] = doc
            cenv = Env("class", cell, env.globals, env.module, vars=ns)
            for _ in self.exec_block(st.body, cenv, fr):
                raise Imprecise("yield in class body")

            for n in ("__init_subclass__", "__class_getitem__"):
                if isinstance(ns.get(n), Func):
                    ns[n] = classmethod(ns[n])

        cls = types.new_class(st.name, tuple(bases), kwds, body)
        cell.vars["__class__"] = cls
        self.own_classes.add(cls)
        for d in reversed(st.decorator_list):
            cls = self.call(self.ev(d, env, fr), (cls,), {})
        return cls

    def bind(self, f, args, kwargs):
        a = f._node.args
        pos = a.posonlyargs + a.args
        vars_ = {}
        n = len(pos)
        args = list(args)
        for i, p in enumerate(pos[: len(args)]):
            vars_[p.arg] = args[i]
        extra = args[n:]
        if extra:
            if not a.vararg:
                raise TypeError(f"{f.__qualname__}() takes {n} positional arguments but {len(args)} were given")
        if a.vararg:
            vars_[a.vararg.arg] = tuple(extra)
        kw = dict(kwargs)
        posonly = {p.arg for p in a.posonlyargs}
        for p in pos + a.kwonlyargs:
            if p.arg in kw and p.arg not in posonly:
                if p.arg in vars_:
                    raise TypeError(f"{f.__qualname__}() got multiple values for argument {p.arg!r}")
                vars_[p.arg] = kw.pop(p.arg)
        if kw:
            if not a.kwarg:
                raise TypeError(f"{f.__qualname__}() got an unexpected keyword argument {next(iter(kw))!r}")
        if a.kwarg:
            vars_[a.kwarg.arg] = kw
        nd = n - len(f._defaults)
        for i, p in enumerate(pos):
            if p.arg not in vars_:
                if i >= nd:
                    vars_[p.arg] = f._defaults[i - nd]
                else:
                    raise TypeError(f"{f.__qualname__}() missing required argument: {p.arg!r}")
        for p in a.kwonlyargs:
            if p.arg not in vars_:
                if p.arg in f._kwdefaults:
                    vars_[p.arg] = f._kwdefaults[p.arg]
                else:
                    raise TypeError(f"{f.__qualname__}() missing required keyword-only argument: {p.arg!r}")
        return vars_

    def call_func(self, f, args, kwargs):
        vars_ = self.bind(f, args, kwargs)
        loc, glob, nonl, is_gen = scope_of(f._node)
        env = Env("function", f._env, f.__globals__, f._file, loc, glob, nonl, vars_)
        E = self.E
        E.funcs_seen.add((f._file, f.__qualname__))
        if is_gen:
            return self.run_generator(f, env)
        fr = Frame(f.__qualname__, f._file, env, f, args)
        depth = len(E.frames)
        if depth > MAX_DEPTH:
            e = Divergence(f"unbounded recursion through {f.__qualname__}")
            mark(e, f"{f._file}:{f._node.lineno}", f.__qualname__)
            raise e
        E.frames.append(fr)
        try:
            if isinstance(f._node, ast.Lambda):
                fr.lineno = f._node.lineno
                return self.ev(f._node.body, env, fr)
            for _ in (g := self.exec_block_value(f._node.body, env, fr)):
                raise Imprecise("unexpected yield")
            return fr.args
        except Exception as e:
            stop = stop_of(e)
            mark(stop or e, f"{fr.file}:{fr.lineno}", fr.name)
            if stop is not None:
                raise stop from None
            raise
        finally:
            del E.frames[depth:]

    def exec_block_value(self, body, env, fr):
        sig = yield from self.exec_block(body, env, fr)
        fr.args = sig[1] if sig is not None and sig[0] == RETURN else None

    def run_generator(self, f, env):
        fr = Frame(f.__qualname__, f._file, env, f, None)
        E = self.E
        g = self.exec_block(f._node.body, env, fr)

        def gen():
            sent = None
            exc = None
            while True:
                depth = len(E.frames)
                E.frames.append(fr)
                try:
                    if exc is not None:
                        e, exc = exc, None
                        item = g.throw(e)
                    else:
                        item = g.send(sent)
                except StopIteration as s:
                    sig = s.value
                    return sig[1] if sig is not None and sig[0] == RETURN else None
                except RuntimeError as e:
                    if stop_of(e) is not None:
                        e._absint_real = True
                    raise
                finally:
                    del E.frames[depth:]
                try:
                    sent = yield item[1]
                except GeneratorExit:
                    g.close()
                    raise
                except Exception as e:
                    exc = e

        return gen()

    # ------------------------------------------------------------------- names
    def load(self, name, env):
        e = env
        first = True
        while e is not None:
            k = e.kind
            if k == "module":
                break
            if name in e.globaldecl:
                break
            if k == "class":
                if first and name in e.vars:
                    return e.vars[name]
            elif name in e.vars and name[0] != "@":
                return e.vars[name]
            elif name in e.locals:
                if first:
                    raise UnboundLocalError(f"cannot access local variable {name!r} where it is not associated with a value")
                raise NameError(f"cannot access free variable {name!r}")
            if k != "comp":
                first = False
            e = e.parent
        g = env.globals
        if name in g:
            return g[name]
        sp = self.M.builtins.get(name)
        if sp is not None:
            return sp
        try:
            return getattr(builtins, name)
        except AttributeError:
            raise NameError(f"name {name!r} is not defined") from None

    def store(self, name, v, env):
        e = env
        while e.kind == "comp":
            e = e.parent
        if name in e.globaldecl:
            self.E.event("global", e.globals, name, v)
            e.globals[name] = v
            return
        if name in e.nonlocaldecl:
            p = e.parent
            while p is not None:
                if p.kind in ("function",) and name in p.vars:
                    p.vars[name] = v
                    return
                p = p.parent
            raise NameError(name)
        e.vars[name] = v

    def delname(self, name, env):
        e = env
        while e.kind == "comp":
            e = e.parent
        if name in e.globaldecl:
            del e.globals[name]
            return
        if name not in e.vars:
            raise NameError(f"name {name!r} is not defined")
        del e.vars[name]

    def assign(self, tg, v, env, fr):
        t = type(tg)
        if t is ast.Name:
            self.store(tg.id, v, env)
        elif t in (ast.Tuple, ast.List):
            star = [i for i, x in enumerate(tg.elts) if isinstance(x, ast.Starred)]
            vals = list(self.iterate(v))
            n = len(tg.elts)
            if star:
                i = star[0]
                after = n - i - 1
                if len(vals) < n - 1:
                    raise ValueError(f"not enough values to unpack (expected at least {n - 1}, got {len(vals)})")
                vals = vals[:i] + [vals[i: len(vals) - after]] + vals[len(vals) - after:]
            elif len(vals) != n:
                raise ValueError(f"{'too many' if len(vals) > n else 'not enough'} values to unpack (expected {n})")
            for x, y in zip(tg.elts, vals):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, env, fr)
        elif t is ast.Attribute:
            self.setattr(self.ev(tg.value, env, fr), tg.attr, v)
        elif t is ast.Subscript:
            self.setitem(self.ev(tg.value, env, fr), self.ev(tg.slice, env, fr), v)
        else:
            raise Imprecise(f"assignment target {t.__name__}")

    # ------------------------------------------------------------- expressions
    def cond(self, node, env, fr):
        return self.E.truth(self.ev(node, env, fr))

    def ev(self, n, env, fr):
        t = type(n)
        if t is ast.Name:
            return self.load(n.id, env)
        if t is ast.Constant:
            return n.value
        if t is ast.Attribute:
            return self.getattr(self.ev(n.value, env, fr), n.attr)
        if t is ast.Call:
            return self.ev_call(n, env, fr)
        if t is ast.Compare:
            left = self.ev(n.left, env, fr)
            for op, r in zip(n.ops, n.comparators):
                right = self.ev(r, env, fr)
                res = self.compare(type(op).__name__, left, right)
                if not self.E.truth(res):
                    return res
                left = right
            return res
        if t is ast.BoolOp:
            isand = isinstance(n.op, ast.And)
            for x in n.values[:-1]:
                v = self.ev(x, env, fr)
                tv = self.E.truth(v)
                if tv != isand:
                    return v
            return self.ev(n.values[-1], env, fr)
        if t is ast.UnaryOp:
            v = self.ev(n.operand, env, fr)
            if isinstance(n.op, ast.Not):
                return not self.E.truth(v)
            if is_sym(v):
                v = self.E.resolve(v)
            if is_sym(v):
                op = type(n.op).__name__
                if op == "UAdd":
                    return v
                return mk("un" + op, v, types=self.E.types(v))
            return {ast.USub: lambda x: -x, ast.UAdd: lambda x: +x, ast.Invert: lambda x: ~x}[type(n.op)](v)
        if t is ast.BinOp:
            return self.binop(type(n.op).__name__, self.ev(n.left, env, fr), self.ev(n.right, env, fr))
        if t is ast.JoinedStr:
            parts = []
            for p in n.values:
                if isinstance(p, ast.Constant):
                    parts.append(p.value)
                else:
                    v = self.ev(p.value, env, fr)
                    spec = self.ev(p.format_spec, env, fr) if p.format_spec is not None else ""
                    if p.conversion == 114:
                        v = self.M.repr_(v)
                    elif p.conversion == 115:
                        v = self.M.str_(v)
                    elif p.conversion == 97:
                        v = self.M.repr_(v)
                    parts.append(self.M.format_(v, spec))
            return fmt(parts)
        if t is ast.FormattedValue:
            return self.M.format_(self.ev(n.value, env, fr), self.ev(n.format_spec, env, fr) if n.format_spec else "")
        if t is ast.IfExp:
            return self.ev(n.body if self.cond(n.test, env, fr) else n.orelse, env, fr)
        if t is ast.Subscript:
            o = self.ev(n.value, env, fr)
            return self.getitem(o, self.ev(n.slice, env, fr))
        if t is ast.Slice:
            return slice(*(self.ev(x, env, fr) if x is not None else None for x in (n.lower, n.upper, n.step)))
        if t is ast.Tuple:
            return tuple(self.elts(n.elts, env, fr))
        if t is ast.List:
            return list(self.elts(n.elts, env, fr))
        if t is ast.Set:
            out = set()
            for x in self.elts(n.elts, env, fr):
                self.E.check_hashable(x)
                out.add(x)
            return out
        if t is ast.Dict:
            d = {}
            for k, v in zip(n.keys, n.values):
                if k is None:
                    d.update(self.ev(v, env, fr))
                else:
                    kk = self.ev(k, env, fr)
                    self.E.check_hashable(kk)
                    d[kk] = self.ev(v, env, fr)
            return d
        if t is ast.Lambda:
            return self.make_func(n, env, fr)
        if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            return self.comp(n, t, env, fr)
        if t is ast.NamedExpr:
            v = self.ev(n.value, env, fr)
            self.store(n.target.id, v, env)
            return v
        if t is ast.Starred:
            raise Imprecise("starred")
        raise Imprecise(f"expression {t.__name__}")

    def elts(self, elts, env, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, env, fr)))
            else:
                out.append(self.ev(x, env, fr))
        return out

    def comp(self, n, t, env, fr):
        first = self.iterate(self.ev(n.generators[0].iter, env, fr))
        cenv = Env("comp", env, env.globals, env.module)
        names = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)

        def bindt(tg, v):
            # bind comprehension variables in the comprehension scope
            if isinstance(tg, ast.Name):
                cenv.vars[tg.id] = v
            elif isinstance(tg, (ast.Tuple, ast.List)):
                tmp = Env("function", cenv, env.globals, env.module)
                self.assign(tg, v, tmp, fr)
                cenv.vars.update(tmp.vars)
            else:
                self.assign(tg, v, cenv, fr)

        def rec(i):
            if i == len(n.generators):
                if t is ast.DictComp:
                    k = self.ev(n.key, cenv, fr)
                    yield k, self.ev(n.value, cenv, fr)
                else:
                    yield self.ev(n.elt, cenv, fr)
                return
            g = n.generators[i]
            it = first if i == 0 else self.iterate(self.ev(g.iter, cenv, fr))
            c = 0
            for v in it:
                c += 1
                if c > MAX_LOOP:
                    raise Imprecise("loop bound exceeded")
                bindt(g.target, v)
                if all(self.cond(x, cenv, fr) for x in g.ifs):
                    yield from rec(i + 1)

        if t is ast.ListComp:
            return list(rec(0))
        if t is ast.SetComp:
            out = set()
            for x in rec(0):
                self.E.check_hashable(x)
                out.add(x)
            return out
        if t is ast.DictComp:
            d = {}
            for k, v in rec(0):
                self.E.check_hashable(k)
                d[k] = v
            return d
        E = self.E

        def lazy():
            g = rec(0)
            while True:
                depth = len(E.frames)
                try:
                    E.frames.append(fr)
                    v = next(g)
                except StopIteration:
                    return
                finally:
                    del E.frames[depth:]
                yield v

        return lazy()

    def ev_call(self, n, env, fr):
        f = self.ev(n.func, env, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value, env, fr)))
            else:
                args.append(self.ev(a, env, fr))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                m = self.ev(k.value, env, fr)
                if is_sym(m):
                    raise Imprecise("** of abstract value")
                for kk in m:
                    if kk in kwargs:
                        raise TypeError(f"got multiple values for keyword argument {kk!r}")
                kwargs.update(m)
            else:
                kwargs[k.arg] = self.ev(k.value, env, fr)
        fr.lineno = n.lineno
        self.E.sites_seen.add((fr.file, n.lineno, n.col_offset))
        if f is self.M.super_marker:
            return self.do_super(args, env, fr)
        if f is self.M.locals_marker:
            return {k: v for k, v in env.vars.items() if k[0] != "@"}
        if f is self.M.globals_marker:
            return env.globals
        if f is self.M.vars_marker and not args:
            return env.vars
        if f is self.M.dir_marker and not args:
            return sorted(env.vars)
        if f is self.M.eval_marker:
            g = args[1] if len(args) > 1 else env.globals
            l = args[2] if len(args) > 2 else (g if len(args) > 1 else env.vars)
            return self.do_eval(args[0], g, l, env, fr)
        try:
            return self.call(f, tuple(args), kwargs)
        except Exception as e:
            mark(e, f"{fr.file}:{n.lineno}", fr.name)
            raise

    def do_eval(self, src, g, l, env, fr):
        if is_sym(src):
            raise Imprecise("eval of abstract string")
        if isinstance(src, types.CodeType):
            # only type expressions of witness types reach this point
            return eval(src, g, l)
        if isinstance(src, ast.AST):
            raise Imprecise("eval of syntax tree")
        tree = ast.parse(src.lstrip(), "<annotation>", "eval")
        e = Env("function", Env("module", None, g, env.module, vars=g), g, env.module, vars=dict(l))
        return self.ev(tree.body, e, fr)

    def do_super(self, args, env, fr):
        if args:
            return super(*args)
        cls = self.load("__class__", env)
        f = fr.func
        a = f._node.args
        first = (a.posonlyargs + a.args)[0].arg
        e = env
        while first not in e.vars and e.parent is not None:
            e = e.parent
        return super(cls, e.vars[first])

    # ---------------------------------------------------------------- protocols
    def iterate(self, v):
        if type(v) is Sym:
            v = self.E.resolve(v)
        if type(v) is Sym:
            ts = self.E.types(v)
            if ts is not None and not any(hasattr(t, "__iter__") for t in ts):
                raise TypeError(f"{S.show(v)} object is not iterable")
            raise Imprecise(f"iteration over {S.show(v)}")
        if v is None:
            raise TypeError("'NoneType' object is not iterable")
        if self.E.listener is not None and isinstance(v, (dict, list, set)):
            self.E.read(v, None)
        return iter(v)

    def isinstance(self, v, cls):
        if type(v) is Sym:
            v2 = self.E.resolve(v)
            if type(v2) is not Sym:
                return isinstance(v2, self.flat(cls))
            return self.E.isinst(v, self.flat(cls))
        if isinstance(v, Func):
            if cls is types.FunctionType or (isinstance(cls, tuple) and types.FunctionType in cls):
                return True
        if isinstance(v, SymMethod):
            return False
        if self.mask is not None and self.mask.alias_is_type and type(v) is types.GenericAlias and (cls is type or isinstance(cls, tuple) and type in cls):
            return True
        return isinstance(v, cls)

    def flat(self, cls):
        if isinstance(cls, types.UnionType):
            return cls.__args__
        if isinstance(cls, tuple):
            out = []
            for c in cls:
                r = self.flat(c)
                out.extend(r if isinstance(r, tuple) else (r,))
            return tuple(out)
        return cls

    def getattr(self, o, name, *default):
        if type(o) is Sym:
            o = self.E.resolve(o)
        if type(o) is Sym:
            try:
                return self.M.sym_attr(o, name)
            except AttributeError:
                if default:
                    return default[0]
                raise
        if type(o) is SymMethod:
            if default:
                return default[0]
            raise Imprecise(f"attribute {name} of method of abstract value")
        if self.E.listener is not None and not isinstance(o, (types.ModuleType, list, dict, set, tuple, str)):
            self.E.read(o, name)
        try:
            if self.mask is not None:
                self.mask.check_attr(o, name)
            v = getattr(o, name)
        except AttributeError:
            if default:
                return default[0]
            raise
        return self.M.replace(v)

    def setattr(self, o, name, v):
        if is_sym(o):
            raise Imprecise(f"attribute store on abstract value {S.show(o)}")
        self.E.event("attr", o, name, v)
        setattr(o, name, v)

    def getitem(self, o, k):
        E = self.E
        if type(o) is Sym:
            o = E.resolve(o)
        if type(o) is Sym:
            return self.M.sym_getitem(o, k)
        if E.listener is not None and isinstance(o, (dict, list)):
            E.read(o, k)
        if type(o) is types.MappingProxyType and has_sym(k):
            o = dict(o)
        if type(o) is dict or (isinstance(o, dict)):
            if has_sym(k) or any(type(x) is Sym for x in o):
                found, k2 = E.dict_find(o, k)
                if not found:
                    raise KeyError(k)
                return o[k2]
            return o[k]
        if has_sym(k):
            if isinstance(o, (list, tuple)):
                k2 = E.resolve(k)
                if not is_sym(k2):
                    return o[k2]
                raise Imprecise("abstract index")
            if isinstance(o, type) and issubclass(o, __import__("enum").Enum):
                found, name = E.dict_find(dict(o.__members__), k)
                if not found:
                    raise KeyError(k)
                return o.__members__[name]
            if isinstance(o, str):
                raise Imprecise("abstract index")
        return o[k]

    def setitem(self, o, k, v):
        if is_sym(o):
            raise Imprecise(f"item store on abstract value {S.show(o)}")
        E = self.E
        E.event("item", o, k, v)
        if isinstance(o, dict) and (has_sym(k) or any(type(x) is Sym for x in o)):
            E.check_hashable(k)
            found, k2 = E.dict_find(o, k)
            o[k2 if found else k] = v
            return
        o[k] = v

    def compare(self, op, a, b):
        E = self.E
        if op in ("Is", "IsNot"):
            r = self.is_(a, b)
            return r if op == "Is" else not r
        if op in ("In", "NotIn"):
            if E.listener is not None and isinstance(b, (dict, list, set)):
                E.read(b, a)
            if self.mask is not None and not is_sym(b):
                self.mask.member(b, lambda: E.isinst(a, enum.Enum))
            if isinstance(b, (types.GeneratorType,)) or hasattr(b, "__next__"):
                b = list(b)
            r = E.contains(E.resolve(b) if is_sym(b) else b, a) if is_sym(b) or not _own_contains(b) else E.truth(type(b).__contains__(b, a))
            return r if op == "In" else not r
        if not (is_sym(a) or is_sym(b)):
            return {"Eq": lambda: a == b, "NotEq": lambda: a != b, "Lt": lambda: a < b, "LtE": lambda: a <= b,
                    "Gt": lambda: a > b, "GtE": lambda: a >= b}[op]()
        if op == "Eq":
            return E.branch_eq(a, b)
        if op == "NotEq":
            return not E.branch_eq(a, b)
        if op == "Lt":
            return E.branch_lt(a, b)
        if op == "Gt":
            return E.branch_lt(b, a)
        if op == "LtE":
            return not E.branch_lt(b, a)
        if op == "GtE":
            return not E.branch_lt(a, b)

    def is_(self, a, b):
        E = self.E
        a, b = E.resolve(a), E.resolve(b)
        if not (is_sym(a) or is_sym(b)):
            return a is b
        if a is b:
            return True
        if is_sym(b) and not is_sym(a):
            a, b = b, a
        if is_sym(b):
            ta, tb = E.types(a), E.types(b)
            if ta is not None and tb is not None and not (ta & tb):
                return False
            raise Imprecise(f"identity of {S.show(a)} and {S.show(b)}")
        if b is None:
            return E.isinst(a, NoneType)
        if b is True or b is False:
            ts = E.types(a)
            if ts is not None and bool not in ts:
                return False
            if not E.isinst(a, bool):
                return False
            return E.branch_eq(a, b)
        ts = E.types(a)
        if ts is not None and not any(isinstance(b, t) for t in ts):
            return False
        import enum

        if isinstance(b, enum.Enum):
            return E.branch_eq(a, b)
        if b is Ellipsis or b is NotImplemented or isinstance(b, type):
            if ts is not None:
                return False
        raise Imprecise(f"identity of {S.show(a)} with {S.show(b)}")

    def inplace(self, op, a, b):
        if op in ("Add", "BitOr", "BitAnd", "Sub") and isinstance(a, (list, set, dict)):
            self.E.event("item", a, op, b)
            import operator

            return {"Add": operator.iadd, "BitOr": operator.ior, "BitAnd": operator.iand, "Sub": operator.isub}[op](a, b)
        return self.binop(op, a, b)

    def binop(self, op, a, b):
        E = self.E
        a, b = E.resolve(a), E.resolve(b)
        if not (is_sym(a) or is_sym(b)):
            if op == "Mod" and isinstance(a, str) and has_sym(b):
                return self.M.percent(a, b)
            if self.mask is not None and op == "BitOr":
                self.mask.union_operator(a, b)
            return BINOPS[op](a, b)
        return self.M.sym_binop(op, a, b)

    def call(self, f, args, kwargs):
        return self.M.call(f, args, kwargs)


_CLASS_SKIP = {"__dict__", "__weakref__", "__abstractmethods__", "_abc_impl", "__doc__"}


def _own_contains(b):
    c = getattr(type(b), "__contains__", None)
    return isinstance(c, (Func, types.FunctionType))


def stop_of(e):
    "The StopIteration of the analysed program which Python turned into a RuntimeError on its way through the generators of this interpreter."
    if type(e) is RuntimeError and type(e.__cause__) is StopIteration and e.args == ("generator raised StopIteration",) and not getattr(e, "_absint_real", False):
        return e.__cause__
    return None


def mark(e, loc, func, force=False):
    try:
        if force or not hasattr(e, "_absint_loc"):
            e._absint_loc = (loc, func)
    except Exception:
        pass
