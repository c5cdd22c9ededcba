"""C27: EventedObjectProxy is transparent and announces exactly what it changes."""

from __future__ import annotations

import gc
import operator
import weakref

from psygnal.containers import EventedCallableObjectProxy, EventedObjectProxy

from ..base import Scenario
from ..core import Sim
from ..lib import attempt, weighted
from .contain import Boom

MISSING = object()


class V:
    """A value equal to others of the same number."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, V) and self.n % 3 == other.n % 3

    def __hash__(self):
        return self.n % 3

    def __repr__(self):
        return f"V{self.n}"


VALUES = [None, 0, False, 1, 1.0, "x", V(0), V(3), V(1), (), float("nan")]


class Plain:
    cls_attr = VALUES[6]

    def __init__(self):
        self.a = None
        self.b = VALUES[7]

    def state(self):
        return dict(self.__dict__)

    def method(self, x):
        self.a = x
        return x

    def __call__(self, *args, **kwargs):
        if args and args[0] is None:
            raise Boom("call")
        self.b = args[0] if args else len(kwargs)
        return self.b


class Props:
    __slots__ = ("__weakref__", "_p", "log", "q")

    def __init__(self):
        self._p = VALUES[6]
        self.log = 0

    def state(self):
        return [getattr(self, k, MISSING) for k in ("_p", "q", "log")]

    @property
    def a(self):  # refuses some values
        return self._p

    @a.setter
    def a(self, v):
        self.log += 1
        if v is None:
            raise ValueError("a")
        self._p = v

    @a.deleter
    def a(self):
        self.log += 1
        self._p = None

    @property
    def b(self):  # coerces
        return self.log if self._p is None else 5

    @b.setter
    def b(self, v):
        self._p = None if not v else VALUES[8]

    @property
    def cls_attr(self):  # can't be read
        raise RuntimeError("write only")

    @cls_attr.setter
    def cls_attr(self, v):
        self._p = v


class Dict(dict):
    def state(self):
        return list(self.items())


class List(list):
    def state(self):
        return list(self)


class WriteOnly:
    def __init__(self):
        self.items = []

    def state(self):
        return list(self.items)

    def __setitem__(self, k, v):
        if k == "k2":
            raise Boom("item")
        self.items.append((k, v))


class Coerce(dict):
    """Stores something else than it is given."""

    def state(self):
        return list(self.items())

    def __setitem__(self, k, v):
        if v is None:
            self.pop(k, None)
        elif isinstance(v, V):
            super().__setitem__(k, VALUES[6])
        elif k != "k3":
            super().__setitem__(k, v or 0)

    def __missing__(self, k):
        return VALUES[8] if k == "k2" else None

    def __delitem__(self, k):
        self.pop(k, None)


class InPlace:
    """Supports every in-place operator; refuses None, answers NotImplemented to str."""

    def __init__(self):
        self.ops = []

    def state(self):
        return list(self.ops)


def _in_place(name, fresh):
    def op(self, other):
        if other is None:
            raise Boom(name)
        if isinstance(other, str):
            return NotImplemented
        if fresh and other == 1:
            new = type(self)()
            new.ops = [*self.ops, (name, other)]
            return new
        self.ops.append((name, other))
        return self

    return op


NAMES = ["add", "sub", "mul", "matmul", "truediv", "floordiv", "mod", "pow", "lshift", "rshift",
         "and", "xor", "or"]
for _n in NAMES:
    setattr(InPlace, f"__i{_n}__", _in_place(_n, _n in ("add", "matmul", "or")))

KINDS = {"plain": Plain, "props": Props, "dict": Dict, "list": List, "write": WriteOnly, "coerce": Coerce,
         "inplace": InPlace}
READS = {
    "len": len, "bool": bool, "iter": lambda o: list(o), "str": str, "repr": repr,
    "call0": lambda o: o.method(7), "hash": lambda o: isinstance(hash(o), int),
    "isinst": lambda o: [isinstance(o, c) for c in KINDS.values()],
    "cls": lambda o: o.__class__, "doc": lambda o: o.__doc__, "add": lambda o: o + [1],
    "reversed": lambda o: list(reversed(o)), "in": lambda o: VALUES[3] in o,
    "eq": lambda o: o == [1, 2],
    "mod": lambda o: o.__module__, "dir": lambda o: sorted(set(dir(o)) - {"events"}),
    "vars": lambda o: o.__dict__, "int": int, "sub": lambda o: o - 1, "radd": lambda o: [1] + o,
}


class World:
    def __init__(self, sim: Sim, plan: dict):
        self.sim = sim
        self.plan = plan
        self.proxies: list = []
        self.hooks = plan["hooks"]
        self.counts: dict = {}
        self.depth = 0
        self.ops: list = []
        for i, spec in enumerate(plan["objs"]):
            self.proxies.append(None)
            self.make(i, spec)

    def fail(self, kind, msg):
        self.sim.fail(kind, f"{self.ops}: {msg}")

    def make(self, i, spec):
        kind, via, rec = spec
        target, twin = KINDS[kind](), KINDS[kind]()
        if kind in ("dict", "list", "coerce"):
            init = {"k1": VALUES[6], "k3": None} if kind != "list" else [1, VALUES[6], None]
            (target.update if kind != "list" else target.extend)(init)
            (twin.update if kind != "list" else twin.extend)(init)
        calls = via == "call"
        p = (EventedCallableObjectProxy if calls else EventedObjectProxy)(target)
        got: list = []
        for name in p.events:
            n = len(p.events[name])
            if n:
                self.fail("inherited", f"new proxy {i} has {n} connections to {name}")
        if rec == "group":
            p.events.connect(lambda info: self.heard(i, got, info.signal.name, info.args))
        elif rec == "each":
            for name in p.events:
                p.events[name].connect(
                    lambda *a, _n=name: self.heard(i, got, _n, a)
                )
        self.proxies[i] = [p, twin, got, calls, rec, weakref.ref(p.events), weakref.ref(target)]

    def heard(self, i, got, name, args):
        got.append((name, args))
        n = self.counts[i] = self.counts.get(i, 0) + 1
        for h in self.hooks:
            if h["obj"] == i and h["n"] == n and self.depth < 4:
                if h["act"][0] == "raise":
                    self.sim.fault("listener-fails")
                    raise Boom(name)
                self.sim.fault("listener-reenters")
                self.do(h["act"][1])

    def same_state(self, where, i):
        p, twin = self.proxies[i][:2]
        w = p.__wrapped__
        a, b = w.state(), twin.state()
        if repr(a) != repr(b) or not ident(a, b):
            self.fail("state", f"object {i} is {a} {where}, not {b}")

    def do(self, op):
        i = op[1] % len(self.proxies)
        if self.proxies[i] is None:
            return
        self.depth += 1
        self.ops.append(op)
        outer = {}
        for j, e in enumerate(self.proxies):
            if e is not None:
                outer[j] = list(e[2])
                e[2].clear()
        e = None
        if op[0] == "drop":
            self.drop(i)
        else:
            self.act(op, i)
        for j, e in enumerate(self.proxies):
            if e is not None:
                if j != i and e[2]:
                    self.fail("shared", f"proxy {j} announced {e[2]}")
                e[2][:] = outer.get(j, [])
        self.ops.pop()
        self.depth -= 1
        if not self.depth:
            for j, e in enumerate(self.proxies):
                if e is not None:
                    self.same_state("afterwards", j)

    def drop(self, i):
        if self.depth > 1:
            return
        p, twin, got, calls, rec, ev, tgt = self.proxies[i]
        self.proxies[i] = None
        del p
        self.sim.fault("proxy-dropped")
        if tgt() is not None:
            gc.collect()
            if tgt() is not None:
                self.fail("kept-object", f"object {i} is kept alive by its dropped proxy")
        if ev() is not None:
            gc.collect()
            if ev() is not None:
                self.fail("kept-events", f"events of proxy {i} outlive it")
        k = self.ops[-1][2]
        if k is not None:
            self.make(i, k)

    def act(self, op, i):
        p, twin, got, calls = self.proxies[i][:4]
        k = op[0]
        want: list = []
        val = VALUES[op[3] % len(VALUES)] if len(op) > 3 and isinstance(op[3], int) else None
        if k == "call":
            args = tuple(VALUES[j % len(VALUES)] for j in op[2])
            kw = {"z": 1} if op[3] % 2 else {}
            if calls:
                e, r = attempt(p, *args, **kw)
                if e == "EmitLoopError":
                    return
                e2, r2 = attempt(twin, *args, **kw)
                want = [("called", (args, kw))]
            else:
                e2, r2 = attempt(twin.__call__ if callable(twin) else lambda: MISSING, *args, **kw)
                if r2 is MISSING:
                    return
                # not callable through this proxy class: done on the object itself
                e, r = attempt(p.__wrapped__, *args, **kw)
            self.compare(op, e, r, e2, r2, want, got)
            return
        if k == "read":
            f = READS[op[2]]
            if op[2] in ("str", "repr") and not isinstance(twin, (dict, list)):
                return  # contains an address
            e2, r2 = attempt(f, twin)
            e, r = attempt(f, p)
            self.compare(op, e, r, e2, r2, [], got)
            return
        if k == "get":
            e2, r2 = attempt(getattr, twin, op[2])
            e, r = attempt(getattr, p, op[2])
        elif k == "getitem":
            e2, r2 = attempt(operator.getitem, twin, op[2])
            e, r = attempt(operator.getitem, p, op[2])
        elif k == "set":
            b = read(getattr, twin, op[2])
            e2, r2 = attempt(setattr, twin, op[2], val)
            a = read(getattr, twin, op[2])
            if e2 is None and a is not b:
                want = [("attribute_set", (op[2], a))]
            e, r = attempt(setattr, p, op[2], val)
        elif k == "del":
            e2, r2 = attempt(delattr, twin, op[2])
            if e2 is None:
                want = [("attribute_deleted", (op[2],))]
            e, r = attempt(delattr, p, op[2])
        elif k == "setitem":
            b = read(operator.getitem, twin, op[2])
            e2, r2 = attempt(operator.setitem, twin, op[2], val)
            a = read(operator.getitem, twin, op[2])
            if e2 is None and a is not b:
                want = [("item_set", (op[2], a))]
            e, r = attempt(operator.setitem, p, op[2], val)
        elif k == "delitem":
            e2, r2 = attempt(operator.delitem, twin, op[2])
            if e2 is None:
                want = [("item_deleted", (op[2],))]
            e, r = attempt(operator.delitem, p, op[2])
        else:  # in place
            f = getattr(operator, f"i{op[2]}", None) or getattr(operator, f"__i{op[2]}__")
            if not hasattr(type(twin), f"__i{op[2]}__"):
                return
            if op[4] and isinstance(twin, list):
                val = [val]
            e2, r2 = attempt(f, twin, val)
            if e2 is None:
                want = [("in_place", (op[2], val))]
                self.proxies[i][1] = r2
            e, r = attempt(f, p, val)
            if e is None and r is not p:
                self.fail("in-place-result", f"{op[2]} returned {type(r)} {r!r}")
            r = r2
            if e2 is None and e == "EmitLoopError":
                e = None
        if e == "EmitLoopError" and e2 is None:
            self.sim.stat("listener-error")
            e, r = None, r2
        self.compare(op, e, r, e2, r2, want, got)

    def compare(self, op, e, r, e2, r2, want, got):
        self.sim.log(op[0], e or "ok")
        if e != e2:
            self.fail("outcome", f"{e or 'succeeded'}, on the object itself "
                      f"{e2 or 'it succeeds'}: {r!r} / {r2!r}")
        if e is None and r is not r2 and type(r) is not type(r2):
            self.fail("result", f"{r!r}, on the object itself {r2!r}")
        if e is None and not same(r, r2):
            self.fail("result", f"{r!r}, on the object itself {r2!r}")
        if self.hooks:
            got = got[:]
        i = self.ops[-1][1] % len(self.proxies)
        if self.proxies[i] is None or not self.proxies[i][4]:
            return
        if op[0] in ("setitem",) and isinstance(op[2], slice):
            return
        if want and want[0][1][-1] is MISSING:
            return  # set, but cannot be read: what is announced is not specified
        n = [g for g in got]
        if len(n) != len(want) or any(
            a[0] != b[0] or not ident(a[1], b[1]) for a, b in zip(n, want)
        ):
            self.fail("events", f"announced {n}, not {want}")


def read(f, o, k):
    e, r = attempt(f, o, k)
    return r if e is None else MISSING


def same(a, b):
    if a is b or type(a) is V:
        return a is b
    if callable(a) and callable(b):
        return getattr(a, "__name__", 0) == getattr(b, "__name__", 0)
    return repr(a) == repr(b)


def ident(a, b):
    """The same objects in the same places."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(map(ident, a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(ident(a[k], b[k]) for k in a)
    return same(a, b)


ATTRS = ["a", "b", "q", "cls_attr", "new", "log"]
KEYS = ["k1", "k2", "k3", 0, 1, -1, 5]


def gen_op(rng, n):
    k = weighted(rng, {"set": 10, "del": 4, "setitem": 8, "delitem": 3, "inplace": 8, "get": 2,
                       "getitem": 2, "read": 3, "call": 3, "drop": 0.8})
    i = rng.randrange(n)
    if k in ("get", "del"):
        return [k, i, rng.choice(ATTRS)]
    if k == "set":
        return [k, i, rng.choice(ATTRS), rng.randrange(len(VALUES))]
    if k == "setitem":
        return [k, i, rng.choice(KEYS), rng.randrange(len(VALUES))]
    if k in ("getitem", "delitem"):
        return [k, i, rng.choice(KEYS)]
    if k == "read":
        return [k, i, rng.choice(list(READS))]
    if k == "call":
        return [k, i, [rng.randrange(len(VALUES)) for _ in range(rng.choice([0, 1, 1, 2]))],
                rng.randrange(2)]
    if k == "drop":
        return [k, i, gen_obj(rng) if rng.random() < 0.8 else None]
    return [k, i, rng.choice(NAMES), rng.randrange(len(VALUES)), rng.random() < 0.7]


def gen_obj(rng):
    return [weighted(rng, {"plain": 3, "props": 2, "dict": 2, "list": 2, "write": 1, "coerce": 2,
                           "inplace": 3}),
            rng.choice(["obj", "obj", "call"]), rng.choice(["each", "each", "group", ""])]


class Proxies(Scenario):
    """C27."""

    name = "proxies"
    threaded = False
    shrink_keys = ("ops", "hooks")

    def gen(self, rng, tier):
        n = rng.choice([1, 1, 2, 3])
        hooks = []
        if rng.random() < 0.5:
            hooks = [
                {"obj": rng.randrange(n), "n": rng.choice([1, 1, 2, 3, 4]),
                 "act": ["raise"] if rng.random() < 0.4 else ["op", gen_op(rng, n)]}
                for _ in range(rng.choice([1, 2, 3]))
            ]
        return {
            "objs": [gen_obj(rng) for _ in range(n)],
            "ops": [gen_op(rng, n) for _ in range(rng.choice([3, 6, 12, 20]))],
            "hooks": hooks,
        }

    def run(self, sim, plan):
        w = World(sim, plan)
        for op in plan["ops"]:
            w.do(op)
        for i in range(len(w.proxies)):
            if w.proxies[i] is not None:
                w.do(["drop", i, None])

    def nontrivial(self, sim, plan):
        return len(sim.log_) > 1
