"""
Obligation bookkeeping, reporting, known findings and evidence.
"""

import json
import os
import pickle
import re
import sys
import time
import types

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

from absint import oracle, sym as S  # noqa: E402
from absint.driver import Analysis, Outcome, hook, in_big_stack  # noqa: E402
from absint.engine import fmt  # noqa: E402
from absint.interp import Interp  # noqa: E402
from absint.sym import JSON_KINDS, Imprecise, Sym, inp, is_sym, mk  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.txt")


class Broken(Exception):
    "The analysis itself cannot run (vanished public entry point, unparsable source)."


def load_known():
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=\[(.*?)\] (.*)", line.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


class Check:
    """One property.  Subclasses define ID, RULE, MIN_DECIDED and run()."""

    ID = None
    RULE = ""
    MIN_DECIDED = 1
    VERSION = None
    SHARD = True  # obligations are independent and may be decided in separate processes

    def __init__(self, tier="quick"):
        self.tier = tier
        self.thorough = tier == "thorough"
        self.known = load_known()
        self.obligations = 0
        self.decided = 0
        self.undecided = []
        self.violations = []  # (key, text)
        self.known_hit = {}
        self.samples = []
        self.extra = {}
        self.t0 = time.time()
        self.A = None
        self.shard, self.shards, self.turn = 0, 1, 0

    def mine(self):
        "Whether the next obligation belongs to this process."
        self.turn += 1
        return self.turn % self.shards == self.shard

    # ------------------------------------------------------------------ set-up
    def analysis(self, **k):
        A = Analysis(REPO, **k)
        A.E.deadline = self.t0 + (600 if not self.thorough else 7200)
        if self.A is None:
            self.A = A
        return A

    def api(self, module, name):
        "A public entry point of the analysed package; its disappearance breaks the analysis."
        try:
            m = self.A.mod(module)
        except KeyError:
            raise Broken(f"module strong_typing.{module} is gone")
        v = m.__dict__.get(name)
        if v is None:
            raise Broken(f"public entry point strong_typing.{module}.{name} is gone")
        return v

    # --------------------------------------------------------------- reporting
    def ok(self, name):
        self.obligations += 1
        self.decided += 1
        if len(self.samples) < 12:
            self.samples.append(name)

    def open_(self, name, reason):
        self.obligations += 1
        self.undecided.append(f"{name}: {reason}")

    def bad(self, key, text, outcome=None, witness=None):
        """A violation; key identifies the construct and the case, never a line number."""
        self.obligations += 1
        self.decided += 1
        if (self.ID, key) in self.known:
            self.known_hit.setdefault(key, text)
            return
        if any(k == key for k, _ in self.violations):
            return
        lines = [text]
        if witness is not None:
            lines.append("  alphabet member showing the path is feasible: " + ", ".join(f"{S.show(a)} = {w!r}"[:200] for a, w in witness.env.items()))
        if outcome is not None:
            if outcome.loc:
                lines.append(f"  at {outcome.loc[0]} in {outcome.loc[1]}")
            for p in outcome.path()[-14:]:
                lines.append("  branch: " + p[:300])
        self.violations.append((key, "\n".join(lines)))

    # ------------------------------------------------------------- obligations
    def traces(self, thunk, **k):
        return self.A.traces(thunk, **k)

    def oblige(self, name, thunk, accept, concrete=None, terms=None, **k):
        """Every trace of thunk must be accepted.

        accept(outcome) -> None if the trace is allowed for structural reasons, else text
        saying what was expected.  concrete(outcome, valuation) -> None/text re-examines
        a suspicious trace on a member of the alphabet; without it the trace only has to be
        feasible."""
        if not self.mine():
            return []
        k.setdefault("max_paths", 20000 if self.thorough else 4000)
        outs = self.traces(thunk, **k)
        undecided, bad = [], False
        n = 0
        for o in outs:
            if o.imprecise:
                undecided.append(o.imprecise)
                continue
            n += 1
            try:
                why = accept(o)
            except Imprecise as e:
                undecided.append(e.reason)
                continue
            if not why:
                continue
            S.ENGINE = None
            verdict = self.refute(o, concrete, why)
            if verdict is None:
                continue
            if verdict is False:
                undecided.append(f"not refutable: {o.describe()[:200]}")
                continue
            w, why = verdict
            bad = True
            self.bad(f"{name}", f"{name}: {why}", o, w)
        if bad:
            return outs
        if undecided:
            self.open_(name, "; ".join(dict.fromkeys(undecided))[:300])
        elif n == 0:
            self.open_(name, "no trace")
        else:
            self.ok(f"{name}: {n} trace(s)")
        return outs

    def refute(self, o, concrete, why):
        "None: infeasible or fine after folding; False: cannot tell; (valuation, text): confirmed."
        terms = [o.value] if o.exc is None else []
        if concrete is None:
            w = oracle.feasible(o)
            return (w, why) if w is not None else False
        unknown = found = False
        for w in oracle.witnesses(o, terms=terms):
            found = True
            try:
                r = concrete(o, w)
            except oracle.Unknown:
                unknown = True
                continue
            if r:
                return (w, r)
        if not found:
            # predicates cannot be made true together by any member of the alphabet
            return False
        return False

    # ------------------------------------------------------------------ processes
    counts = (set(), set(), 0)

    def count(self):
        if self.counts[2] == 0 and isinstance(self.A, Analysis):
            self.counts = (set(self.A.funcs), set(self.A.sites), self.A.paths)

    def run_all(self):
        n = int(os.environ.get("VERIF_JOBS", "0") or 0) or min(8, os.cpu_count() or 1)
        if not self.SHARD or n <= 1:
            in_big_stack(self.run)
            return
        procs = []
        for i in range(n):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    self.shard, self.shards = i, n
                    err = None
                    try:
                        in_big_stack(self.run)
                    except BaseException as e:
                        import traceback

                        tb = traceback.extract_tb(e.__traceback__)[-3:]
                        err = (type(e).__name__, str(e), "; ".join(f"{os.path.basename(t.filename)}:{t.lineno}" for t in tb))
                    self.count()
                    data = pickle.dumps((self.obligations, self.decided, self.undecided, self.violations, self.known_hit, self.samples, self.extra, self.counts, err))
                    with os.fdopen(w, "wb") as f:
                        f.write(data)
                    code = 0
                finally:
                    os._exit(code)
            os.close(w)
            procs.append((pid, r))
        self.A, errs, funcs, sites, paths = True, [], set(), set(), 0
        parts = []
        for pid, r in procs:
            with os.fdopen(r, "rb") as f:
                parts.append(f.read())
            os.waitpid(pid, 0)
        for i, data in enumerate(parts):
            if not data:
                errs.append(("Broken", f"analysis process {i} ended without a result", ""))
                continue
            ob, de, un, vi, kn, sa, ex, co, err = pickle.loads(data)
            self.obligations += ob
            self.decided += de
            self.undecided += un
            for k, t in vi:
                if not any(k == k2 for k2, _ in self.violations):
                    self.violations.append((k, t))
            self.known_hit.update(kn)
            self.samples += sa[:2]
            self.extra.update(ex)
            funcs |= co[0]
            sites |= co[1]
            paths += co[2]
            if err:
                errs.append(err)
        self.counts = (funcs, sites, paths)
        if errs:
            raise Broken(": ".join(x for x in errs[0] if x))

    # ------------------------------------------------------------------ output
    def run(self):
        raise NotImplementedError

    def finish(self):
        A = self.A
        cov = {
            "explanation": self.RULE,
            "obligations": self.obligations,
            "discharged": self.decided - len(self.violations) - len(self.known_hit),
            "undecided": len(self.undecided),
            "known_findings": len(self.known_hit),
            "samples": self.samples[:12],
            "undecided_samples": self.undecided[:20],
        }
        if A is not None:
            self.count()
            cov["functions_analysed"] = len(self.counts[0])
            cov["call_sites_analysed"] = len(self.counts[1])
            cov["trace_partitions"] = self.counts[2]
        cov.update(self.extra)
        ev = {
            "property": self.ID,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": cov,
            "assumptions": self.assumptions(),
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        path = os.path.join(HERE, "evidence", f"{self.ID}.json")
        with open(path, "w") as f:
            json.dump(ev, f, indent=1)
        rep = os.path.join(HERE, "evidence", f"{self.ID}.violations.txt")
        if self.violations:
            with open(rep, "w") as f:
                for key, text in self.violations:
                    f.write(f"[{key}]\n{text}\n\n")
        elif os.path.exists(rep):
            os.remove(rep)
        return rep

    def assumptions(self):
        return [
            "standard-library calls behave as in the table of absint/models.py (result class, exceptions they may raise)",
            "type shapes are represented by the witness types listed in DESIGN.md; element, field and key values are arbitrary",
        ]

    def main(self):
        code = 0
        err = None
        try:
            self.run_all()
            if self.decided < self.MIN_DECIDED and not self.violations:
                raise Broken(f"only {self.decided} obligations decided, {self.MIN_DECIDED} expected; undecided: {self.undecided[:3]}")
        except Broken as e:
            err = str(e)
        except SyntaxError as e:
            err = f"source cannot be parsed: {e}"
        except Exception as e:
            import traceback

            tb = traceback.extract_tb(e.__traceback__)[-3:]
            err = f"internal: {type(e).__name__}: {e} ({'; '.join(f'{os.path.basename(t.filename)}:{t.lineno}' for t in tb)})"
        rep = self.finish()
        for key in sorted(self.known_hit):
            print(f"KNOWN-FINDING: property={self.ID} {self.known[(self.ID, key)]}")
        if self.violations:
            for key, text in self.violations[:12]:
                print(f"[{key}] {text}"[:2500])
            if len(self.violations) > 12:
                print(f"... and {len(self.violations) - 12} more")
            print(f"VIOLATION property={self.ID} replay={rep}")
            code = 1
        elif err:
            print(f"ANALYSIS-BROKEN property={self.ID}: {err}")
            code = 2
        else:
            print(f"ok property={self.ID} obligations={self.obligations} decided={self.decided} undecided={len(self.undecided)} "
                  f"functions={len(self.counts[0])} traces={self.counts[2]} wall={time.time() - self.t0:.1f}s")
        return code


# --------------------------------------------------------------------- witness types
_COUNT = [0]


def module(name, **members):
    "Module in which witness types live."
    m = types.ModuleType("absint_w_" + name)
    m.__file__ = f"<{m.__name__}>"
    m.__dict__.update(members)
    sys.modules[m.__name__] = m
    Interp.keep_modules.add(m.__name__)
    return m


def define(mod, source):
    "Declares witness types (type declarations only) in a witness module."
    code = compile(source, f"<{mod.__name__}>", "exec", dont_inherit=True)
    exec(code, mod.__dict__)
    return mod
