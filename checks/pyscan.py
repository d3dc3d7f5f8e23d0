"""
Which standard-library names, parameters and syntax a module needs on a given Python version,
considering only code that is live on that version.

Conditions that depend on nothing but module-level values (sys.version_info, constants computed
from it, hasattr on a module, parameterless helper functions) are decided by the abstract
interpreter running with that version; every other condition is open, i.e. both branches are live.
"""

import ast
import builtins
import io
import re
import tokenize
import types
import typing

from absint.sym import Imprecise, is_sym

UNKNOWN = object()
TOLERANT = {
    "attribute": {"AttributeError", "Exception", "BaseException"},
    "import": {"ImportError", "ModuleNotFoundError", "Exception", "BaseException"},
    "name": {"NameError", "Exception", "BaseException"},
    "type": {"TypeError", "Exception", "BaseException"},
    "regex": {"error", "PatternError", "Exception", "BaseException"},
}


class Scope:
    def __init__(self, parent, kind, bound=()):
        self.parent, self.kind = parent, kind
        self.bound = set(bound)
        self.single = {}  # name -> expression it is assigned exactly once
        self.types = {}  # name -> host class the value is known to be of
        self.known = {}  # name -> value (imports inside functions)


def bound_names(body, args=None):
    "names bound in a function or comprehension body, not looking into nested scopes"
    out, single = {}, {}

    def target(t, value=None):
        if isinstance(t, ast.Name):
            out[t.id] = out.get(t.id, 0) + 1
            if value is not None:
                single[t.id] = value
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                target(x)
        elif isinstance(t, ast.Starred):
            target(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out[n.name] = out.get(n.name, 0) + 1
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    target(c.target)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                target(t, n.value if len(n.targets) == 1 else None)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            target(n.target, n.value if isinstance(n, ast.AnnAssign) else None)
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                out[n.target.id] += 1
        elif isinstance(n, ast.NamedExpr):
            target(n.target)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            target(n.target)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                if i.optional_vars is not None:
                    target(i.optional_vars)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out[n.name] = 2
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                nm = a.asname or a.name.split(".")[0]
                out[nm] = out.get(nm, 0) + 1
        elif hasattr(ast, "Match") and isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out[n.name] = 2
        elif hasattr(ast, "Match") and isinstance(n, ast.MatchMapping) and n.rest:
            out[n.rest] = 2
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            for x in n.names:
                out[x] = -1000
        for c in ast.iter_child_nodes(n):
            walk(c)

    for st in body:
        walk(st)
    if args is not None:
        for a in args.posonlyargs + args.args + args.kwonlyargs + [x for x in (args.vararg, args.kwarg) if x]:
            out[a.arg] = out.get(a.arg, 0) + 1
            single.pop(a.arg, None)
    names = {n for n, c in out.items() if c > 0}
    return names, {n: e for n, e in single.items() if out.get(n) == 1}


class Scan:
    def __init__(self, interp, rel, tree, source, mod):
        self.I, self.rel, self.tree, self.source, self.mod = interp, rel, tree, source, mod
        self.mask = interp.mask
        self.ns = mod.__dict__
        self.future = bool(self.ns.get("__absint_future__"))
        self.problems = []  # (qualname, kind, text)
        self.where = "<module>"
        self.tolerated = []
        self.stats = {"functions": 0, "names": 0, "attributes": 0, "calls": 0, "conditions": 0, "dead": 0, "patterns": 0}
        self.dead = []

    def problem(self, node, kind, text):
        if any(t & TOLERANT.get(kind, set()) for t in self.tolerated):
            return
        self.problems.append((self.where, kind, text, getattr(node, "lineno", 0)))

    # ------------------------------------------------------------- evaluation
    def lookup(self, name, scope):
        s = scope
        first = True
        while s is not None:
            if name in s.bound and (s.kind != "class" or first):
                return s, True
            first = False
            s = s.parent
        return None, False

    def resolve(self, e, scope, depth=0):
        "the module-level object an expression denotes on this version, or UNKNOWN"
        if depth > 6:
            return UNKNOWN
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            s, local = self.lookup(e.id, scope)
            if local:
                if e.id in s.known:
                    return s.known[e.id]
                x = s.single.get(e.id)
                return self.resolve(x, s, depth + 1) if x is not None and isinstance(x, (ast.Name, ast.Attribute)) else UNKNOWN
            if e.id in self.ns:
                return self.ns[e.id]
            return getattr(builtins, e.id, UNKNOWN)
        if isinstance(e, ast.Attribute):
            b = self.resolve(e.value, scope, depth + 1)
            if b is UNKNOWN or not isinstance(b, (types.ModuleType, type)):
                return UNKNOWN
            if self.mask.status(b, e.attr) == "absent":
                return UNKNOWN
            try:
                return getattr(b, e.attr)
            except Exception:
                return UNKNOWN
        return UNKNOWN

    def pure(self, e, scope, depth=0):
        "expression over module-level values only, with locals assigned exactly once replaced; None if there is none"
        if depth > 6:
            return None
        if isinstance(e, ast.Name):
            s, local = self.lookup(e.id, scope)
            if not local:
                return e
            x = s.single.get(e.id)
            return self.pure(x, s, depth + 1) if x is not None else None
        if isinstance(e, ast.Constant):
            return e
        if isinstance(e, ast.Attribute):
            v = self.pure(e.value, scope, depth)
            return v and ast.copy_location(ast.Attribute(v, e.attr, ast.Load()), e)
        if isinstance(e, (ast.Tuple, ast.List)):
            xs = [self.pure(x, scope, depth) for x in e.elts]
            return None if None in xs else ast.copy_location(type(e)(xs, ast.Load()), e)
        if isinstance(e, ast.Subscript):
            v, i = self.pure(e.value, scope, depth), self.pure(e.slice, scope, depth)
            return v and i and ast.copy_location(ast.Subscript(v, i, ast.Load()), e)
        if isinstance(e, ast.Slice):
            return e if all(x is None or isinstance(x, (ast.Constant, ast.UnaryOp)) for x in (e.lower, e.upper, e.step)) else None
        if isinstance(e, ast.Compare):
            xs = [self.pure(x, scope, depth) for x in [e.left, *e.comparators]]
            return None if None in xs else ast.copy_location(ast.Compare(xs[0], e.ops, xs[1:]), e)
        if isinstance(e, ast.BoolOp):
            xs = [self.pure(x, scope, depth) for x in e.values]
            return None if None in xs else ast.copy_location(ast.BoolOp(e.op, xs), e)
        if isinstance(e, ast.UnaryOp):
            v = self.pure(e.operand, scope, depth)
            return v and ast.copy_location(ast.UnaryOp(e.op, v), e)
        if isinstance(e, ast.BinOp):
            a, b = self.pure(e.left, scope, depth), self.pure(e.right, scope, depth)
            return a and b and ast.copy_location(ast.BinOp(a, e.op, b), e)
        if isinstance(e, ast.Call) and not e.keywords:
            f = self.resolve(e.func, scope)
            fn = self.pure(e.func, scope, depth)
            xs = [self.pure(x, scope, depth) for x in e.args]
            if fn is None or None in xs:
                return None
            if f in (hasattr, getattr, tuple, bool, int) and not isinstance(f, bool) or (not e.args and type(f).__name__ == "Func"):
                return ast.copy_location(ast.Call(fn, xs, []), e)
        return None

    def decide(self, e, scope):
        "True or False if the condition is the same in every run on this version, else None"
        self.stats["conditions"] += 1
        if isinstance(e, ast.BoolOp):
            rs = [self.decide(x, scope) for x in e.values]
            stop = isinstance(e.op, ast.Or)
            if stop in rs:
                return stop
            return None if None in rs else not stop
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            r = self.decide(e.operand, scope)
            return None if r is None else not r
        if isinstance(e, ast.Name) and e.id == "TYPE_CHECKING" or isinstance(e, ast.Attribute) and e.attr == "TYPE_CHECKING":
            return False
        if isinstance(e, ast.Constant):
            return bool(e.value)
        p = self.pure(e, scope)
        if p is None:
            return None
        if not mentions_version(self, p, scope):
            return None
        try:
            v = self.evaluate(p)
        except Exception:
            return None
        if is_sym(v) or not isinstance(v, (bool, int, tuple, str, type(None), list)):
            return None
        return bool(v)

    def evaluate(self, p):
        from absint.interp import Env, Frame

        env = Env("module", None, self.ns, self.rel, vars=self.ns)
        fr = Frame("<condition>", self.rel, env)
        E = self.I.E
        E.frames.append(fr)
        try:
            return self.I.ev(p, env, fr)
        finally:
            E.frames.pop()

    # ------------------------------------------------------------- statements
    def run(self):
        self.block(self.tree.body, None)
        return self.problems

    def block(self, body, scope):
        "True if the end of the block is never reached"
        for i, st in enumerate(body):
            if self.stmt(st, scope):
                if body[i + 1 :]:
                    self.stats["dead"] += 1
                return True
        return False

    def stmt(self, st, scope):
        t = type(st)
        if t is ast.If:
            r = self.cond(st.test, scope)
            a = b = True
            if r is not False:
                with self.narrow(st.test, scope, True):
                    a = self.block(st.body, scope)
            else:
                self.stats["dead"] += 1
            if r is not True:
                with self.narrow(st.test, scope, False):
                    b = self.block(st.orelse, scope)
            else:
                self.stats["dead"] += bool(st.orelse)
            return a and b
        if t is ast.While:
            r = self.cond(st.test, scope)
            if r is not False:
                self.block(st.body, scope)
            self.block(st.orelse, scope)
            return r is True and not any(isinstance(x, (ast.Break,)) for x in ast.walk(st))
        if t in (ast.For, ast.AsyncFor):
            self.expr(st.iter, scope)
            self.expr(st.target, scope)
            self.block(st.body, scope)
            self.block(st.orelse, scope)
            return False
        if t is ast.Try or t.__name__ == "TryStar":
            if t.__name__ == "TryStar" and self.mask.v < (3, 11):
                self.problem(st, "syntax", "except* needs Python 3.11")
            caught = set()
            for h in st.handlers:
                if h.type is None:
                    caught.add("BaseException")
                else:
                    for x in h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]:
                        caught.add(x.attr if isinstance(x, ast.Attribute) else getattr(x, "id", "?"))
                    self.expr(h.type, scope)
            self.tolerated.append(caught)
            ended = self.block(st.body, scope)
            if not ended:
                ended = self.block(st.orelse, scope)
            self.tolerated.pop()
            for h in st.handlers:
                e = self.block(h.body, scope)
                ended = ended and e
            f = self.block(st.finalbody, scope)
            return ended or f
        if t in (ast.With, ast.AsyncWith):
            for i in st.items:
                self.expr(i.context_expr, scope)
                if i.optional_vars is not None:
                    self.expr(i.optional_vars, scope)
            self.block(st.body, scope)
            return False
        if t in (ast.FunctionDef, ast.AsyncFunctionDef):
            self.function(st, scope)
            return False
        if t is ast.ClassDef:
            for d in st.decorator_list:
                self.expr(d, scope)
            for b in st.bases:
                self.expr(b, scope)
            for k in st.keywords:
                self.expr(k.value, scope)
            saved = self.where
            self.where = st.name if saved == "<module>" else f"{saved}.{st.name}"
            names, single = bound_names(st.body)
            s = Scope(scope, "class", names)
            self.block(st.body, s)
            self.where = saved
            return False
        if t in (ast.Import, ast.ImportFrom):
            self.imports(st, scope)
            return False
        if t is ast.AnnAssign:
            if st.value is not None:
                self.expr(st.value, scope)
            local = scope is not None and scope.kind == "function"
            if not local and not self.future and self.mask.v < (3, 14):
                self.expr(st.annotation, scope)
            return False
        if t is ast.Assert:
            self.cond(st.test, scope)
            return False
        if t.__name__ == "Match":
            if self.mask.v < (3, 10):
                self.problem(st, "syntax", "match needs Python 3.10")
            self.expr(st.subject, scope)
            for c in st.cases:
                for n in ast.walk(c.pattern):
                    if isinstance(n, ast.MatchValue):
                        self.expr(n.value, scope)
                    elif isinstance(n, ast.MatchClass):
                        self.expr(n.cls, scope)
                if c.guard is not None:
                    self.expr(c.guard, scope)
                self.block(c.body, scope)
            return False
        if t.__name__ == "TypeAlias" and self.mask.v < (3, 12):
            self.problem(st, "syntax", "type statement needs Python 3.12")
            return False
        for f, v in ast.iter_fields(st):
            for x in v if isinstance(v, list) else [v]:
                if isinstance(x, ast.expr):
                    self.expr(x, scope)
        return t in (ast.Return, ast.Raise, ast.Continue, ast.Break)

    def imports(self, st, scope):
        for a in st.names:
            v = UNKNOWN
            try:
                if isinstance(st, ast.Import):
                    v = self.I.import_name(a.name)
                    if not a.asname and "." in a.name:
                        v = self.I.import_name(a.name.split(".")[0])
                elif not st.level and st.module and st.module != "__future__":
                    m = self.I.import_name(st.module)
                    if a.name != "*" and isinstance(m, types.ModuleType):
                        v = UNKNOWN
                        self.mask.check_attr(m, a.name)
                        v = getattr(m, a.name, UNKNOWN)
            except Imprecise:
                v = UNKNOWN
            except (ImportError, AttributeError) as e:
                self.problem(st, "import", f"{ast.unparse(st)}: {e}")
            if scope is not None and scope.kind == "function" and v is not UNKNOWN:
                scope.known[a.asname or a.name.split(".")[0]] = v

    def function(self, st, scope):
        self.stats["functions"] += 1
        a = st.args
        if not isinstance(st, ast.Lambda):
            if getattr(st, "type_params", None) and self.mask.v < (3, 12):
                self.problem(st, "syntax", f"type parameters of {st.name} need Python 3.12")
            for d in st.decorator_list:
                self.expr(d, scope)
            if not self.future and self.mask.v < (3, 14):
                for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]:
                    if p.annotation is not None:
                        self.expr(p.annotation, scope)
                if st.returns is not None:
                    self.expr(st.returns, scope)
        for d in [*a.defaults, *a.kw_defaults]:
            if d is not None:
                self.expr(d, scope)
        body = [ast.copy_location(ast.Return(st.body), st)] if isinstance(st, ast.Lambda) else st.body
        names, single = bound_names(body, a)
        s = Scope(scope, "function", names)
        s.single = single
        counts = {}
        for n in ast.walk(ast.Module(body, [])):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                counts[n.id] = counts.get(n.id, 0) + 1
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            if p.annotation is not None and p.arg not in counts:
                c = self.resolve(p.annotation, scope)
                if isinstance(c, type) and c is not object:
                    s.types[p.arg] = c
        for n, e in single.items():
            if isinstance(e, ast.Call):
                c = self.resolve(e.func, scope)
                if isinstance(c, type) and c is not type:
                    s.types[n] = c
        s.counts = counts
        saved, held = self.where, self.tolerated
        name = "<lambda>" if isinstance(st, ast.Lambda) else st.name
        self.where = name if saved == "<module>" else f"{saved}.{name}"
        self.tolerated = []
        self.block(body, s)
        self.where, self.tolerated = saved, held

    # ------------------------------------------------------------ expressions
    def cond(self, e, scope):
        "visits a condition with short circuits; returns its decided value"
        if isinstance(e, ast.BoolOp):
            stop = isinstance(e.op, ast.Or)
            res = not stop
            undo = []
            for x in e.values:
                r = self.cond(x, scope)
                if r is stop:
                    res = stop
                    break
                if r is None:
                    res = None
                if not stop:
                    m = self.narrow(x, scope, True)
                    m.__enter__()
                    undo.append(m)
            for m in reversed(undo):
                m.__exit__()
            return res
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            r = self.cond(e.operand, scope)
            return None if r is None else not r
        r = self.decide(e, scope)
        if r is None:
            self.expr(e, scope)
        elif not (isinstance(e, ast.Name) or isinstance(e, ast.Constant)):
            self.expr(e, scope)
        return r

    def narrow(self, test, scope, value):
        scan = self

        class N:
            def __enter__(n):
                n.undo = []
                if scope is None or scope.kind != "function":
                    return
                for x in test.values if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) and value else [test]:
                    if value and isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "isinstance" and len(x.args) == 2 and isinstance(x.args[0], ast.Name):
                        c = scan.resolve(x.args[1], scope)
                        v = x.args[0].id
                        if isinstance(c, type) and v in scope.bound and not getattr(scope, "counts", {}).get(v):
                            n.undo.append((v, scope.types.get(v)))
                            scope.types[v] = c

            def __exit__(n, *a):
                for v, c in reversed(n.undo):
                    if c is None:
                        scope.types.pop(v, None)
                    else:
                        scope.types[v] = c

        return N()

    def union(self, e, scope):
        "whether | combines types here: the object the operand denotes, if it is one"
        if isinstance(e, ast.Subscript):
            b = self.resolve(e.value, scope)
            return b if isinstance(b, type) or getattr(type(b), "__module__", None) == "typing" else UNKNOWN
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            a = self.union(e.left, scope)
            return a if a is not UNKNOWN else self.union(e.right, scope)
        return self.resolve(e, scope)

    def expr(self, e, scope):
        t = type(e)
        if t is ast.BoolOp:
            self.cond(e, scope)
            return
        if t is ast.IfExp:
            r = self.cond(e.test, scope)
            if r is not False:
                with self.narrow(e.test, scope, True):
                    self.expr(e.body, scope)
            if r is not True:
                self.expr(e.orelse, scope)
            return
        if t is ast.Lambda:
            self.function(e, scope)
            return
        if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            names = set()
            for g in e.generators:
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        names.add(n.id)
            s = Scope(scope, "function", names)
            s.counts = {n: 1 for n in names}
            for i, g in enumerate(e.generators):
                self.expr(g.iter, s if i else scope)
                for c in g.ifs:
                    if self.cond(c, s) is False:
                        return
            for x in [e.key, e.value] if t is ast.DictComp else [e.elt]:
                self.expr(x, s)
            return
        if t is ast.Name:
            if isinstance(e.ctx, ast.Load):
                self.stats["names"] += 1
                s, local = self.lookup(e.id, scope)
                if not local and e.id not in self.ns:
                    st = self.mask.status(builtins, e.id)
                    if e.id in ("__class__", "__module__", "__qualname__", "__file__", "__name__", "__builtins__", "reveal_type"):
                        return
                    if st == "absent":
                        self.problem(e, "name", f"{e.id} is not a builtin in this version ({self.mask.why(builtins, e.id)})")
                    elif st is None and not hasattr(builtins, e.id):
                        self.problem(e, "name", f"name {e.id} is not defined in module {self.mod.__name__} on this version")
            return
        if t is ast.Attribute:
            self.stats["attributes"] += 1
            self.expr(e.value, scope)
            self.attribute(e, e.value, e.attr, scope)
            return
        if t is ast.Call:
            self.stats["calls"] += 1
            self.call(e, scope)
            return
        if t is ast.BinOp and isinstance(e.op, ast.BitOr) and self.mask.v < (3, 10):
            from absint.pyversion import typelike

            a, b = self.union(e.left, scope), self.union(e.right, scope)
            if UNKNOWN not in (a, b) and not is_sym(a) and not is_sym(b) and typelike(a, b) or a is not UNKNOWN and isinstance(a, type) and not is_sym(a) and typelike(a, int) or b is not UNKNOWN and isinstance(b, type) and typelike(b, int):
                self.problem(e, "type", f"the union operator in {ast.unparse(e)} needs Python 3.10")
        if t is ast.Subscript and isinstance(e.slice, ast.Tuple) and self.mask.v < (3, 11):
            sl = e.slice
            first = sl.elts[0] if sl.elts else None
            if any(isinstance(x, ast.Starred) for x in sl.elts) and (first.lineno, first.col_offset) == (sl.lineno, sl.col_offset):
                self.problem(e, "syntax", f"unpacking in the subscript {ast.unparse(e)} needs Python 3.11")
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.expr(c, scope)
            elif isinstance(c, ast.keyword):
                self.expr(c.value, scope)
            elif isinstance(c, (ast.slice if hasattr(ast, "slice") else ())):
                self.expr(c, scope)

    def attribute(self, node, value, attr, scope):
        b = self.resolve(value, scope)
        if b is UNKNOWN and isinstance(value, ast.Name):
            s, local = self.lookup(value.id, scope)
            if local:
                b = s.types.get(value.id, UNKNOWN)
        elif b is not UNKNOWN and not isinstance(b, (types.ModuleType, type)):
            b = type(b) if isinstance(b, (str, bytes, int, float, tuple)) else UNKNOWN
        if b is UNKNOWN or not isinstance(b, (types.ModuleType, type)):
            return
        st = self.mask.status(b, attr)
        if st == "absent":
            self.problem(node, "attribute", f"{ast.unparse(value)}.{attr} does not exist in this version ({self.mask.why(b, attr)})")
        elif st is None and isinstance(b, types.ModuleType) and not b.__name__.startswith("absint") and type(b) is types.ModuleType:
            own = b.__name__.split(".")[0] == self.I.package
            if not hasattr(b, attr) and not (own and f"{b.__name__}.{attr}" in self.I.modules) and b.__name__ not in self.I.stubs and not own:
                self.problem(node, "attribute", f"{ast.unparse(value)}.{attr} does not exist")

    def call(self, e, scope):
        f = self.resolve(e.func, scope)
        if f is UNKNOWN and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name):
            s, local = self.lookup(e.func.value.id, scope)
            c = s.types.get(e.func.value.id) if local else None
            if c is not None:
                f = getattr(c, e.func.attr, UNKNOWN)
        self.expr(e.func, scope)
        if f in (hasattr, getattr) and not isinstance(f, (bool, int)) and len(e.args) == 2 and f is getattr and isinstance(e.args[1], ast.Constant) and isinstance(e.args[1].value, str):
            self.attribute(e, e.args[0], e.args[1].value, scope)
        if f is not UNKNOWN and callable(f) and not is_sym(f):
            try:
                new = self.mask.new_params(f, [k.arg for k in e.keywords if k.arg])
            except Exception:
                new = []
            for n in new:
                self.problem(e, "type", f"{ast.unparse(e.func)}() has no parameter {n!r} in this version")
            if getattr(f, "__module__", None) == "re" and e.args and isinstance(e.args[0], ast.Constant) and isinstance(e.args[0].value, str):
                self.stats["patterns"] += 1
                if self.mask.v < (3, 11) and newer_pattern(e.args[0].value):
                    self.problem(e, "regex", f"the regular expression {e.args[0].value!r} uses a construct of Python 3.11")
            if self.mask.v < (3, 10) and f is isinstance:
                pass
        for x in e.args:
            self.expr(x, scope)
        for k in e.keywords:
            self.expr(k.value, scope)


def mentions_version(scan, p, scope):
    """Only conditions that tell versions apart are decided; others (configuration constants,
    debug switches) stay open, because a caller may change them."""
    for n in ast.walk(p):
        if isinstance(n, ast.Attribute) and n.attr in ("version_info", "hexversion"):
            return True
        if isinstance(n, ast.Call):
            return True
        if isinstance(n, ast.Name):
            v = scan.ns.get(n.id, UNKNOWN)
            if isinstance(v, (bool, tuple)) or v is None:
                return n.id not in scan.changed
            if type(v).__name__ == "Func":
                return True
    return False


def newer_pattern(p):
    from re import _parser

    try:
        tree = _parser.parse(p)
    except re.error:
        return False

    def walk(t):
        for op, av in t:
            if str(op) in ("POSSESSIVE_REPEAT", "ATOMIC_GROUP"):
                return True
            for x in av if isinstance(av, (tuple, list)) else [av]:
                if isinstance(x, _parser.SubPattern) and walk(x):
                    return True
                if isinstance(x, list) and any(isinstance(y, _parser.SubPattern) and walk(y) for y in x):
                    return True
        return False

    return walk(tree)


def nested_quotes(source):
    "lines of f-strings that need the grammar of Python 3.12: (line, what)"
    out, stack = [], []
    depth = []
    for tok in tokenize.generate_tokens(io.StringIO(source).readline):
        name = tokenize.tok_name[tok.type]
        if name == "FSTRING_START":
            q = tok.string.lstrip("rRfFbBuU")
            for outer in stack:
                if q[0] == outer[0] and len(q) == len(outer) or (len(outer) == 1 and len(q) == 3) or outer[0] == q[0] and len(outer) == 1:
                    out.append((tok.start[0], "a nested f-string with the same quotes"))
                    break
            stack.append(q)
        elif name == "FSTRING_END":
            stack.pop()
        elif stack and name == "STRING":
            body = tok.string.lstrip("rRfFbBuU")
            for outer in stack:
                if outer in tok.string:
                    out.append((tok.start[0], "the same quotes within a replacement field"))
                    break
            if "\\" in tok.string:
                out.append((tok.start[0], "a backslash within a replacement field"))
        elif stack and name == "COMMENT":
            out.append((tok.start[0], "a comment within a replacement field"))
        elif stack and name in ("NL", "NEWLINE") and len(stack[-1]) == 1:
            out.append((tok.start[0], "a line break within a replacement field"))
    return out


def changed_names(tree):
    "module-level names assigned more than once or declared global in a function"
    n, out = {}, set()
    for x in ast.walk(tree):
        if isinstance(x, ast.Global):
            out |= set(x.names)
    return out
