"""
Writes checks/stdlib_versions.json: for names, class members and parameters of the standard
library the first version that has them and the first that lacks them, read from the type stubs
bundled with pyright (conditions on sys.version_info, 3.10 to 3.14) and a list of 3.10 additions.
"""

import ast
import glob
import json
import os
import sys

ROOT = glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages/pyright/dist/dist/typeshed-fallback/stdlib")[0]
VERSIONS = [(3, n) for n in range(10, 15)]
MODULES = sys.argv[1:] or None


def holds(test, v):
    if isinstance(test, ast.BoolOp):
        rs = [holds(x, v) for x in test.values]
        return all(rs) if isinstance(test.op, ast.And) else any(rs)
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return not holds(test.operand, v)
    if isinstance(test, ast.Compare) and ast.unparse(test.left) == "sys.version_info":
        c = ast.literal_eval(test.comparators[0])
        return {ast.GtE: lambda: v >= c, ast.Lt: lambda: v < c, ast.Gt: lambda: v > c, ast.LtE: lambda: v <= c}[type(test.ops[0])]()
    if isinstance(test, ast.Compare) and ast.unparse(test.left) == "sys.platform":
        eq = ast.literal_eval(test.comparators[0]) == "linux"
        return eq if isinstance(test.ops[0], ast.Eq) else not eq
    if isinstance(test, ast.Call) and "startswith" in ast.unparse(test.func):
        return False
    if isinstance(test, ast.Name) and test.id == "TYPE_CHECKING":
        return True
    return True


def names(body, v, prefix, out, params):
    for st in body:
        if isinstance(st, ast.If):
            names(st.body if holds(st.test, v) else st.orelse, v, prefix, out, params)
        elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            out.add(prefix + st.name)
            a = st.args
            ps = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs}
            if a.kwarg:
                ps.add("**")
            params.setdefault(prefix + st.name, set()).update(ps)
        elif isinstance(st, ast.ClassDef):
            out.add(prefix + st.name)
            names(st.body, v, prefix + st.name + ".", out, params)
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
            out.add(prefix + st.target.id)
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    out.add(prefix + t.id)
        elif isinstance(st, (ast.Import, ast.ImportFrom)):
            for a in st.names:
                # counted as present even if the stub does not re-export it: that only weakens the table
                if a.name != "*":
                    out.add(prefix + (a.asname or a.name.split(".")[0]))
                if a.name == "*" and isinstance(st, ast.ImportFrom) and st.module and prefix == "":
                    sub = os.path.join(ROOT, st.module.replace(".", "/") + ".pyi") if not st.level else None
                    if sub and os.path.exists(sub):
                        names(ast.parse(open(sub).read()).body, v, "", out, params)


def main():
    mods = {}
    for f in sorted(glob.glob(ROOT + "/**/*.pyi", recursive=True)):
        rel = os.path.relpath(f, ROOT)[:-4].replace("/", ".")
        mods[rel.removesuffix(".__init__")] = f
    avail = {}
    for line in open(os.path.join(ROOT, "VERSIONS")):
        line = line.split("#")[0].strip()
        if line:
            m, r = line.split(":")
            lo, _, hi = r.strip().partition("-")
            avail[m] = (tuple(map(int, lo.split("."))), tuple(map(int, hi.strip().split("."))) if hi.strip() else None)
    table = {"modules": {}, "names": {}, "params": {}}
    for m, (lo, hi) in avail.items():
        if lo > (3, 10) or hi and hi < (3, 14):
            table["modules"][m] = [list(lo) if lo > (3, 10) else None, [hi[0], hi[1] + 1] if hi and hi < (3, 14) else None]
    for m, f in mods.items():
        if m.startswith(("distutils", "lib2to3", "tkinter", "idlelib", "asyncio.", "encodings")) or m == "typing_extensions":
            continue
        tree = ast.parse(open(f).read())
        per, pp = [], []
        for v in VERSIONS:
            out, params = set(), {}
            names(tree.body, v, "", out, params)
            per.append(out)
            pp.append(params)
        for n in sorted(set().union(*per)):
            has = [n in s for s in per]
            if all(has):
                # parameters
                for p in sorted(set().union(*[x.get(n, set()) for x in pp])):
                    hp = [p in x.get(n, set()) for x in pp]
                    if not hp[0] and hp[-1] and p != "**" and not p.startswith("__"):
                        table["params"].setdefault(f"{m}.{n}", {})[p] = list(VERSIONS[hp.index(True)])
                continue
            added = None if has[0] else list(VERSIONS[has.index(True)])
            after = has[has.index(True):]
            removed = list(VERSIONS[has.index(True) + after.index(False)]) if False in after else None
            if "." in n and (n.rsplit(".", 1)[1].startswith("__")):
                continue
            table["names"][f"{m}.{n}"] = [added, removed]
    N = [3, 10]
    for n in """typing.ParamSpec typing.Concatenate typing.TypeAlias typing.TypeGuard typing.is_typeddict typing.ParamSpecArgs typing.ParamSpecKwargs types.UnionType types.NoneType types.EllipsisType types.NotImplementedType
        inspect.get_annotations dataclasses.KW_ONLY itertools.pairwise builtins.aiter builtins.anext builtins.EncodingWarning builtins.int.bit_count builtins.bool.bit_count contextlib.aclosing contextlib.AsyncContextDecorator
        statistics.covariance statistics.correlation statistics.linear_regression sys.orig_argv sys.stdlib_module_names collections.Counter.total base64.b32hexencode base64.b32hexdecode codecs.unregister threading.gettrace threading.getprofile
        ast.match_case ast.Match ast.MatchAs ast.MatchClass ast.MatchMapping ast.MatchOr ast.MatchSequence ast.MatchSingleton ast.MatchStar ast.MatchValue ast.pattern platform.freedesktop_os_release pathlib.Path.hardlink_to os.path.ALLOW_MISSING""".split():
        if n != "os.path.ALLOW_MISSING":
            table["names"][n] = [N, table["names"].get(n, [None, None])[1]]
    for f, ps in {"inspect.signature": "globals locals eval_str", "inspect.Signature.from_callable": "globals locals eval_str", "dataclasses.dataclass": "match_args kw_only slots", "dataclasses.field": "kw_only", "dataclasses.make_dataclass": "match_args kw_only slots",
                  "builtins.zip": "strict", "bisect.bisect": "key", "bisect.bisect_left": "key", "bisect.bisect_right": "key", "bisect.insort": "key", "bisect.insort_left": "key", "bisect.insort_right": "key", "glob.glob": "root_dir dir_fd", "glob.iglob": "root_dir dir_fd"}.items():
        for p in ps.split():
            table["params"].setdefault(f, {})[p] = N
    # classes whose constructor parameters are listed under __init__/__new__
    for k in list(table["params"]):
        for suffix in (".__init__", ".__new__"):
            if k.endswith(suffix):
                table["params"].setdefault(k[: -len(suffix)], {}).update(table["params"].pop(k))
    # what the pinned interpreter itself contradicts, or cannot confirm at all, is not used
    import importlib
    import inspect
    import warnings

    warnings.simplefilter("ignore")
    host = sys.version_info[:2]

    def lookup(key):
        parts = key.split(".")
        for i in range(len(parts) - 1, 0, -1):
            try:
                o = importlib.import_module(".".join(parts[:i]))
            except Exception:
                continue
            for p in parts[i:-1]:
                o = getattr(o, p, None)
            return o, parts[-1], i
        return None, None, None

    for k, (a, r) in list(table["names"].items()):
        o, n, depth = lookup(k)
        present = o is not None and hasattr(o, n)
        member = isinstance(o, type)
        expect = (a is None or tuple(a) <= host) and (r is None or tuple(r) > host)
        drop = o is None or present != expect or n.startswith("_") or n in ("bin", "main")
        drop = drop or member and (r is not None or any(n in b.__dict__ for b in o.__mro__[1:]))
        if drop:
            del table["names"][k]
    for k, ps in list(table["params"].items()):
        o, n, depth = lookup(k)
        f = getattr(o, n, None) if o is not None else None
        for p, a in list(ps.items()):
            try:
                has = p in inspect.signature(f).parameters
            except Exception:
                has = None
            if f is None or has is not None and has != (tuple(a) <= host):
                del ps[p]
        if not ps:
            del table["params"][k]
    # private but used widely, with signatures that differ
    table["names"]["typing.ForwardRef._evaluate"] = [None, [3, 14]]
    table["names"]["typing._eval_type"] = [None, None]
    table["names"]["typing.evaluate_forward_ref"] = [[3, 14], None]
    table["params"]["typing.ForwardRef._evaluate"] = {"type_params": [3, 13]}  # 3.12.4, but not 3.12.0
    table["names"] = {k: v for k, v in table["names"].items() if v != [None, None]}
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks", "stdlib_versions.json")
    with open(path, "w") as fh:
        fh.write("{\n")
        for i, sec in enumerate(sorted(table)):
            fh.write((",\n" if i else "") + json.dumps(sec) + ": {\n")
            fh.write(",\n".join(json.dumps(k) + ": " + json.dumps(v) for k, v in sorted(table[sec].items())))
            fh.write("\n}")
        fh.write("\n}\n")
    print({k: len(v) for k, v in table.items()}, os.path.getsize(path))


main()
