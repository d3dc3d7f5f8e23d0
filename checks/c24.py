import itertools

from absint.driver import hook

from .c20 import C20, sys_module
from .interchange import *


def order_bad(graph, res):
    if not isinstance(res, (list, tuple)):
        return f"a list is required, got {S.show(res)[:100]}"
    if len(res) != len(set(res)) or set(res) != set(graph):
        return f"every node must occur exactly once: expected {sorted(map(str, graph))}, got {[str(x) for x in res]}"
    pos = {n: i for i, n in enumerate(res)}
    for n, es in graph.items():
        for e in es:
            if e != n and pos[e] > pos[n]:
                return f"{n} comes before {e}, to which it points, in {[str(x) for x in res]}"


def fresh(n):
    "An equal object that is not the same one, where there is one."
    return "".join(list(n)) if type(n) is str else tuple(list(n)) if type(n) is tuple else n


def cyclic(graph):
    state = {}

    def visit(n):
        state[n] = 1
        for m in graph[n]:
            if m != n and (state.get(m) == 1 or m not in state and visit(m)):
                return True
        state[n] = 2
        return False

    return any(visit(n) for n in graph if n not in state)


class C24(C20):
    ID = "C24"
    RULE = ("topological_sort interpreted on every directed graph with up to three nodes (self loops included) and every loop-free graph with four nodes, in different orders of keys: each node once, after all its successors, RuntimeError iff a cycle of two or "
            "more nodes exists; type_topological_sort on witness types (all reference positions, chains, diamonds, inherited and enumerated types), with lists, tuples, sets, iterators and generators as arguments and dependency functions of every "
            "shape, against the closure of references and dependencies.")
    MIN_DECIDED = 300

    def run(self):
        self.setup()
        self.graphs()
        self.types_()

    def graphs(self):
        f = self.api("topological", "topological_sort")
        call = self.A.call

        def one(graphs, name):
            "A family of graphs as one obligation; the first failing graph is the report."
            def thunk():
                for g in graphs():
                    arg = {n: {fresh(x) for x in e} for n, e in g.items()}
                    try:
                        r = call(f, arg)
                    except Imprecise:
                        raise
                    except RuntimeError as e:
                        if type(e) is not RuntimeError:
                            raise
                        if not cyclic(g):
                            return f"RuntimeError on the acyclic graph {g}"
                        continue
                    if cyclic(g):
                        return f"no RuntimeError on the cyclic graph {g}: {r}"
                    b = order_bad(g, r)
                    if b:
                        return f"graph {g}: {b}"
                    if arg != {n: set(e) for n, e in g.items()} or list(arg) != list(g):
                        return f"graph {g} was modified"

            def acc(o):
                return f"{o.describe()}" if o.exc is not None else o.value

            self.oblige(name, thunk, acc, concrete=lambda o, w: acc(o))

        def subsets(nodes):
            return [s for k in range(len(nodes) + 1) for s in itertools.combinations(nodes, k)]

        for n in (0, 1, 2, 3):
            for perm in itertools.permutations(range(n)):
                def fam():
                    for edges in itertools.product(subsets(range(n)), repeat=n):
                        yield {k: edges[k] for k in perm}
                one(fam, f"all graphs with {n} nodes, keys in order {perm}")
        for perm in (list(itertools.permutations(range(4))) if self.thorough else [(0, 1, 2, 3), (3, 2, 1, 0), (1, 3, 0, 2)]):
            for first in subsets([1, 2, 3]):
                def fam4():
                    for edges in itertools.product(*[subsets([x for x in range(4) if x != k]) for k in (1, 2, 3)]):
                        e = {0: first, 1: edges[0], 2: edges[1], 3: edges[2]}
                        yield {k: e[k] for k in perm}
                one(fam4, f"all loop-free graphs with 4 nodes, keys in order {perm}, node 0 pointing to {first}")
        # longer shapes, nodes of other types
        L = "abcdefghij"
        shapes = {
            "chain": {L[i]: ({L[i + 1]} if i < 9 else set()) for i in range(10)}, "reverse chain": {L[i]: ({L[i - 1]} if i else set()) for i in range(10)}, "long cycle": {L[i]: {L[(i + 1) % 10]} for i in range(10)},
            "chain with loops": {L[i]: ({L[i], L[i + 1]} if i < 9 else {L[i]}) for i in range(10)}, "cycle at the end": {**{L[i]: {L[i + 1]} for i in range(9)}, "j": {"i"}}, "tree": {L[i]: {L[j] for j in (2 * i + 1, 2 * i + 2) if j < 10} for i in range(10)},
            "complete": {L[i]: set(L[i + 1:]) for i in range(10)}, "layers": {L[i]: set(L[(i // 2 + 1) * 2:(i // 2 + 2) * 2]) for i in range(10)}, "two components": {"a": {"b"}, "b": set(), "c": {"d"}, "d": {"c"}}, "falsy nodes": {0: {"", None}, "": {None}, None: set()}, "frozen": {(1, 2): {(3,)}, (3,): set()},
            "loop and cycle": {"a": {"a", "b"}, "b": {"b", "a"}}, "equal numbers": {1: {2.0}, 2: {3}, 3: set()},
        }
        pair = lambda g: {("node", k): {("node", x) for x in e} for k, e in g.items()}
        text = lambda g: {f"node {k}": {f"node {x}" for x in e} for k, e in g.items()}
        # nodes are the same when they are equal; the objects are distinct
        for n in ("chain", "chain with loops", "long cycle", "loop and cycle", "tree", "complete"):
            shapes[f"{n} of pairs"], shapes[f"{n} of texts"] = pair(shapes[n]), text(shapes[n])
        shapes["loops of equal objects"] = {("a", 1): {("a", 1)}, "some text": {"some text", ("a", 1)}, 1: {True}, 2: {2.0, 1.0}}
        for n, g in shapes.items():
            one(lambda: [g, dict(reversed(list(g.items())))], f"graph {n}")

    def types_(self):
        f = self.api("topological", "type_topological_sort")
        call = self.A.call
        m = self.wmod("types", '''
class En(Enum):
    A = "a"

@dataclass
class Leaf:
    v: int

@dataclass
class Other:
    w: str

@dataclass
class Mid:
    l: Leaf
    o: Optional[Other]
    s: List["Mid"]

@dataclass
class Top:
    m: List[Mid]
    e: Dict[str, En]
    u: Union[Leaf, bytes]
    p: "Other | None"

class Plain:
    t: Top
    x: uuid.UUID

class NT(NamedTuple):
    a: Leaf
    b: Plain

@dataclass
class Child(Mid):
    c: datetime.date

@dataclass
class CycA:
    b: "Optional[CycB]"

@dataclass
class CycB:
    a: List[CycA]

@dataclass
class Extra:
    q: datetime.time

class NoHints:
    pass
''')
        T = typing
        sets = {"Top": [m.Top], "Plain": [m.Plain], "NT": [m.NT], "several": [m.Child, m.Leaf, m.Top], "reversed": [m.Top, m.Mid, m.Leaf], "scalars": [int, str], "empty": [], "repeated": [m.Mid, m.Mid], "enum": [m.En], "cycle": [m.CycA], "cycle and others": [m.Leaf, m.CycB], "no hints": [m.NoHints, m.Leaf], "Child": [m.Child]}
        deps = {
            "none": None, "empty": lambda t: [], "leaf to extra": lambda t: [m.Extra] if t is m.Leaf else [], "to plain class": lambda t: [m.NoHints] if t is m.Mid else [], "to type in graph": lambda t: [m.Other] if t is m.Leaf else [], "to self": lambda t: [t] if t is m.Leaf else [],
            "to referencing type": lambda t: [m.Mid] if t is m.Other else [], "to dependent class": lambda t: [m.Child] if t is m.En else [], "chain": lambda t: [m.Extra] if t is m.Leaf else [m.NoHints] if t is m.Extra else [], "two": lambda t: [m.Extra, m.NoHints] if t in (m.Leaf, m.Other) else [],
            "to parents": lambda t: [m.Leaf, m.Other] if t is m.NoHints else [m.NoHints] if t is m.En else [], "reference back": lambda t: [m.Top] if t is m.Extra else [], "to class with references": lambda t: [m.Mid] if t is m.En else [],
            "of built-in types": lambda t: [m.NoHints] if t is int else [m.Extra, float] if t is str else [], "to built-in types": lambda t: [complex] if t is m.Leaf else [bytes] if t is complex else [], "of all to one": lambda t: [m.NoHints] if t is not m.NoHints else [],
        }

        def closure(ts, dep):
            g, todo = {}, list(ts)
            while todo:
                t = todo.pop()
                if t in g:
                    continue
                direct = set()
                for h in (self.spec.hints(t) if t.__module__.startswith("absint_w") else {}).values():
                    self.direct(h, direct)
                if dep:
                    direct |= set(dep(t))
                g[t] = direct
                todo += direct
            return g

        Collector = self.A.mod("inspection").__dict__.get("TypeCollector")
        for sn, ts in sets.items() if Collector else ():
            for rev in (False, True):
                for twice in (False, True):
                    args = list(reversed(ts)) if rev else list(ts)
                    want = closure([t for t in args if t.__module__.startswith("absint_w")], None)

                    def collect():
                        c = call(Collector)
                        for _ in range(1 + twice):
                            call(self.A.I.getattr(c, "traverse_all"), args)
                        if not hasattr(c, "graph"):
                            raise Imprecise("no graph is kept")
                        return self.A.I.getattr(c, "graph"), self.A.I.getattr(c, "references")

                    def edges(o):
                        if o.exc is not None:
                            return o.describe()
                        g, refs = o.value
                        for n, e in want.items():
                            if n not in g or set(g[n]) != e:
                                return f"edges of {n}: {sorted(map(str, e))} required, got {sorted(map(str, g.get(n, ())))}"
                        if set(refs) != set(args) | {x for e in want.values() for x in e}:
                            return f"references: got {sorted(map(str, refs))}"

                    self.oblige(f"type graph of {sn}{', reversed' if rev else ''}{', again' if twice else ''}", collect, edges, concrete=lambda o, w: edges(o))
        forms = {"list": list, "tuple": tuple, "iterator": iter, "generator": lambda x: (i for i in x), "dict keys": lambda x: dict.fromkeys(x).keys(), "set": set}
        outs = {"list": list, "tuple": tuple, "set": set, "generator": lambda x: (i for i in x), "iterator": iter}
        for sn, ts in sets.items():
            for dn, dep in deps.items():
                for fn, form in forms.items():
                    if fn != "list" and dn not in ("none", "leaf to extra") and not self.thorough:
                        continue
                    for on, out in outs.items():
                        if on != "list" and (fn != "list" or dep is None):
                            continue
                        want = closure(ts, dep)

                        def thunk():
                            args = [form(ts)]
                            if dep is not None:
                                args.append(hook(lambda t: out(dep(t))))
                            return call(f, *args)

                        def acc(o):
                            if cyclic(want):
                                if o.exc is None or type(o.exc) is not RuntimeError:
                                    return f"RuntimeError is required for mutually dependent types; {o.describe()}"
                                return None
                            if o.exc is not None:
                                return o.describe()
                            return order_bad(want, o.value)

                        self.oblige(f"types {sn} as {fn}, dependencies {dn} as {on}", thunk, acc, concrete=lambda o, w: acc(o))


    def direct(self, tp, out):
        from .spec import strip
        tp = strip(tp)
        if tp is NoneType or tp is typing.Any or typing.get_origin(tp) is typing.Literal:
            return
        if typing.get_origin(tp) is not None:
            for a in typing.get_args(tp):
                self.direct(a, out)
            return
        out.add(tp)
