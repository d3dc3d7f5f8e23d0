from .interchange import *
from .c09 import outcome
import types as _types


class C10(InterchangeCheck):
    ID = "C10"
    SHARD = False
    RULE = ("Publication and lockset analysis on the write/read events of abstract first and later uses of decoders, serializers and schema generators: an object stored into a container that "
            "outlives the call (module, class or cached state) may be written afterwards only while the lock under which it was stored is still held and all reads of that container hold the "
            "lock, or if every access of the written location holds one lock, or if the location already had a value and is written once; a location of call-surviving state written more than "
            "once per call needs one lock on all its accesses, in one critical section.")
    MIN_DECIDED = 60

    def run(self):
        self.setup()
        call, getattr_ = self.A.call, self.A.I.getattr
        T = typing
        m = self.wmod("types", '''
@dataclass
class Flat:
    a: int
    b: Optional[str] = None

@dataclass(frozen=True)
class Frozen:
    a: int
    f: Flat

@dataclass
class Tree:
    value: int
    left: Optional["Tree"] = None
    kids: List["Tree"] = field(default_factory=list)

@dataclass
class Ping:
    n: int
    pong: Optional["Pong"] = None

@dataclass
class Pong:
    s: str
    pings: Dict[str, "Ping"] = field(default_factory=dict)

class NT(NamedTuple):
    x: int
    f: Flat

class Plain:
    v: int
    t: Optional[Tree]

class Color(Enum):
    RED = "r"

@dataclass
class TagA:
    kind: Literal["a"]
    inner: Optional[Flat]

@dataclass
class TagB:
    kind: Literal["b"]

@dataclass
class Everything:
    a: List[Flat]
    b: Dict[str, Tree]
    c: Tuple[int, NT]
    d: Union[TagA, TagB]
    e: Union[int, Flat]
    f: Annotated[Optional[Color], 1]
    g: Dict[Color, int]
    h: Set[int]
    i: Literal["x", "y"]

@dataclass
class Bad:
    good: Flat
    tree: Tree
    lit: Literal[1, "x"]

Names = List["Flat"]
''')
        I = self.instance
        flat = lambda: I(m.Flat, a=1, b=None)
        tree = lambda d=1: I(m.Tree, value=1, left=tree(d - 1) if d else None, kids=[tree(d - 1)] if d else [])
        x = inp("x", int, str)
        jt = {"value": 1, "left": {"value": 2}, "kids": [{"value": x}]}
        every = {"a": [{"a": x}], "b": {"k": jt}, "c": [1, {"x": 1, "f": {"a": 1}}], "d": {"kind": "b"}, "e": x, "f": "r", "g": {"r": 1}, "h": [1], "i": "x"}
        dec = lambda tp, d, skip=None: (lambda: call(self.json_to_object, tp, d, **({} if skip is None else {"options": call(self.options, skip_unassigned=skip)})))
        enc = lambda v, tp=None: (lambda: call(getattr_(call(self.create_serializer, tp), "generate"), v()) if tp is not None else call(self.object_to_json, v()))
        schema = self.api("schema", "classdef_to_schema")
        sch = lambda tp: (lambda: call(schema, tp))
        ops = {
            "decode Flat": dec(m.Flat, {"a": x}), "decode Flat skip": dec(m.Flat, {"a": x, "z": 1}, True), "decode Tree": dec(m.Tree, jt), "decode Ping": dec(m.Ping, {"n": 1, "pong": {"s": "t", "pings": {"k": {"n": x}}}}),
            "decode Pong": dec(m.Pong, {"s": "t", "pings": {"k": {"n": x}}}), "decode NT": dec(m.NT, {"x": 1, "f": {"a": x}}), "decode Plain": dec(m.Plain, {"v": x, "t": None}), "decode Color": dec(m.Color, x),
            "decode Frozen": dec(m.Frozen, {"a": 1, "f": {"a": x}}), "decode Everything": dec(m.Everything, every), "decode Bad": dec(m.Bad, {}), "decode union": dec(T.Union[m.TagA, m.TagB], {"kind": "a", "inner": {"a": x}}),
            "decode by name": lambda: call(getattr_(call(self.create_deserializer, "Flat", m), "parse"), {"a": x}), "decode alias": lambda: call(getattr_(call(self.create_deserializer, "Names", m), "parse"), [{"a": x}]),
            "decode list[Tree]": dec(T.List[m.Tree], [jt]), "decode int": dec(int, x), "decode wrong": dec(m.Tree, {"value": "s"}),
            "encode Flat": enc(flat), "encode Tree": enc(tree), "encode list[Tree]": enc(lambda: [tree()], T.List[m.Tree]), "encode Ping": enc(lambda: I(m.Ping, n=1, pong=I(m.Pong, s="t", pings={}))), "encode NT": enc(lambda: m.NT(1, flat())),
            "encode Plain": enc(lambda: I(m.Plain, v=1, t=tree()), m.Plain), "encode Bad": enc(lambda: I(m.Bad, good=flat(), tree=tree(), lit=1)), "encode Color": enc(lambda: m.Color.RED), "encode list": enc(lambda: [1, flat()]),
            "encode Everything": enc(lambda: I(m.Everything, a=[flat()], b={"k": tree()}, c=(1, m.NT(1, flat())), d=I(m.TagB, kind="b"), e=flat(), f=m.Color.RED, g={m.Color.RED: 1}, h={1}, i="x")),
            "schema Flat": sch(m.Flat), "schema Everything": sch(m.Everything), "schema JsonType": sch(self.A.mod("core").JsonType), "schema Tree": sch(m.Tree),
        }
        # reads of each container are collected over all operations before judging writes
        self.reads = {}
        recs = {}
        for n, op in ops.items():
            recs[n] = self.record([op], n)
        pairs = [(a, b) for a in ops for b in ops if a.split()[0] == b.split()[0]] if self.thorough else [(a, a) for a in ops] + [("decode Everything", "decode Flat"), ("decode Bad", "decode Tree"), ("encode Bad", "encode Tree"), ("decode Flat", "decode Frozen"), ("decode Ping", "decode Pong"), ("encode Flat", "encode Everything")]
        for a, b in pairs:
            n = f"{b} after {a}"
            recs[n] = self.record([ops[a], ops[b]], n)
        for n, traces in recs.items():
            self.judge(n, traces)
        self.extra["containers_read"] = len(self.reads)

    # ------------------------------------------------------------------ record
    def record(self, ops, name):
        out = []
        E = self.A.E

        def thunk():
            r = Recorder(self.A)
            E.listener = r
            try:
                for op in ops:
                    r.step()
                    outcome(op)
            finally:
                E.listener = None
            return r

        for o in self.traces(thunk, max_paths=3000):
            if o.imprecise:
                out.append(o.imprecise)
                continue
            if o.exc is not None:
                out.append(f"{type(o.exc).__name__}")
                continue
            r = o.value
            for k, ls in r.reads.items():
                self.reads.setdefault(k, []).extend(ls)
            out.append(r)
        return out

    # ------------------------------------------------------------------- judge
    def judge(self, name, traces):
        found = None
        und = None
        n = 0
        for r in traces:
            if isinstance(r, str):
                und = r
                continue
            n += 1
            found = found or self.race(r)
        if found:
            self.bad(f"{name}: {found[0]}", f"{name}: {found[1]}")
        elif und:
            self.open_(name, und)
        else:
            self.ok(f"{name}: {n} trace(s)")

    def race(self, r):
        names = lambda ls: frozenset(i for i, _ in ls)
        # every location: (object key, sub key)
        for loc, ws in r.writes.items():
            first = ws[0]
            root = first.root
            common = frozenset.intersection(*[names(w.locks) for w in ws])
            reads = [names(ls) for ls in self.reads.get(first.okey, [])] if first.okey is not None else []
            reads += [names(ls) for ls in r.local_reads.get(loc, [])]
            by_step = {}
            for w in ws:
                by_step.setdefault(w.step, []).append(frozenset(w.locks))
            one_section = all(len(x) == 1 or frozenset.intersection(*x) for x in by_step.values())
            if common and one_section and all(common & x for x in reads):
                continue
            if root is None:
                # a location of state that existed before the call
                if len(ws) == 1 and not first.grows:
                    continue
                steps = {w.step for w in ws}
                if len(ws) == len(steps) and not first.grows and all(w.kind == "publish" for w in ws):
                    continue
                return (f"{first.what}", f"shared location {first.what} is written {len(ws)} time(s) in one call without one lock covering all of its accesses: "
                        + "; ".join(f"{w.func} ({w.where})" for w in ws[:4]))
            # part of an object published earlier
            pub = r.published[root]
            for w in ws:
                if w.existed and len(ws) == 1 and not w.grows:
                    continue
                keep = [l for l in w.locks if l in pub.locks]
                creads = [names(ls) for ls in self.reads.get(pub.ckey, [])]
                if any(all(l[0] in x for x in creads) for l in keep):
                    continue
                return (f"{first.what}", f"{w.func} ({w.where}) writes {w.what} after the object became reachable from shared state at {pub.where} ({pub.func}); another thread can obtain it there while it is unfinished"
                        + ("" if not keep else ", because the shared container is also read without the lock"))
        return None


class W:
    __slots__ = ("root", "okey", "what", "locks", "where", "func", "existed", "grows", "kind", "step")


class Pub:
    __slots__ = ("locks", "where", "func", "ckey")


class Recorder:
    "Listener of events on one trace."

    def __init__(self, A):
        self.A = A
        self.shared = A.I.shared_ids
        self.roots = {}  # id -> published root id
        self.keep = []
        self.published = {}
        self.writes = {}
        self.reads = {}
        self.local_reads = {}
        self.n = 0
        self.had = {}

    def step(self):
        self.n += 1

    def okey(self, o):
        "Stable name of a root container."
        return id(o) if id(o) in self.shared else None

    def describe(self, o, key):
        t = type(o)
        if isinstance(o, type):
            return f"{o.__name__}.{key}"
        if t.__module__ in self.A.I.modules:
            return f"{t.__name__}.{key}"
        for m in self.A.I.modules.values():
            for n, v in list(m.__dict__.items()):
                if v is o:
                    return f"{m.__name__}.{n}"
                if getattr(v, "cache", None) is o:
                    return f"cache of {m.__name__}.{n}"
                if isinstance(v, type) and v.__module__ == m.__name__:
                    for n2, v2 in v.__dict__.items():
                        if v2 is o:
                            return f"{v.__name__}.{n2}"
        return f"{t.__name__} object"

    def __call__(self, ev):
        o = ev.obj
        if type(o).__name__ == "ThreadLocal":
            return
        i = id(o)
        is_root = i in self.shared or (ev.kind == "global")
        if not is_root:
            d = getattr(o, "__dict__", None)
            if d is not None and id(d) in self.shared and not isinstance(o, type):
                is_root = True
        pubroot = self.roots.get(i)
        if not is_root and pubroot is None:
            return
        container = isinstance(o, (list, dict, set))
        if ev.kind == "read" or ev.kind == "cache-read":
            if is_root and ev.kind == "read":
                self.reads.setdefault(i, []).append(ev.locks)
            elif pubroot is not None:
                k = (i, None) if container else (i, ev.key)
                self.local_reads.setdefault(k, []).append(ev.locks)
            return
        if isinstance(o, type(typing)):
            return
        w = W()
        w.kind, w.step = ev.kind, self.n
        w.root = None if is_root else pubroot
        w.okey = i if is_root else None
        w.locks, w.where, w.func = ev.locks, ev.loc, ev.func
        whole = not isinstance(o, dict) and container
        w.grows = whole
        key = ev.key
        if isinstance(o, dict) and key in ("popitem", "clear", "update", "setdefault", "pop", "discard"):
            key = "*" + str(key)
        k = (i, None) if (container and not is_root) or whole else (i, S.show(key) if not isinstance(key, str) else key)
        w.existed = (not container) and ev.key is not None and isinstance(ev.key, str) and ev.key in getattr(o, "__dict__", ())
        w.what = self.describe(o, key if not container else "")
        self.writes.setdefault(k, []).append(w)
        self.keep.append(o)
        self.publish(ev, i if is_root else None, pubroot)

    def publish(self, ev, ckey, pubroot):
        v = ev.value
        work = [v]
        if pubroot is None:
            p = Pub()
            p.locks, p.where, p.func, p.ckey = ev.locks, ev.loc, ev.func, ckey
        while work:
            x = work.pop()
            if x is None or isinstance(x, (str, int, float, bytes, type)) or is_sym(x) or type(x) is type(typing):
                continue
            if id(x) in self.roots or id(x) in self.shared:
                continue
            if isinstance(x, (list, tuple, set, frozenset)):
                work.extend(x)
            elif isinstance(x, dict):
                work.extend(x.values())
            elif type(x).__module__ in self.A.I.modules:
                work.extend(S.state(x).values())
            else:
                continue
            if pubroot is None:
                self.published.setdefault(id(x), p)
                self.roots[id(x)] = id(x)
            else:
                self.roots[id(x)] = pubroot
            self.keep.append(x)
