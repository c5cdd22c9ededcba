"""C21: EventedModel events mirror the values of its fields and properties."""

from __future__ import annotations

import operator
from typing import Any, Optional

import numpy as np
from pydantic import Field, field_validator

from psygnal import EmissionInfo, EventedModel

from ..base import Scenario
from ..core import Sim
from ..lib import attempt, weighted
from .contain import Boom
from .fields import V

INTS = [0, 1, 2, 10, 15, 25, 13]
ANYS = [None, V(0), V(3), V(1), "x", float("nan"), 13]
COERCED = ["1", "2", 1, 2, 10, "no", 13, None]
PAIRS = [[1, 2], [1, 1], [2, 1], [10, 13], [13, 1], [1], "ab", [15, 15]]
ARRAYS = [np.zeros(2), np.zeros(2), np.ones(2)]


def refuse13(v):
    if isinstance(v, int) and v == 13:
        raise ValueError("13")
    return v


class Plain(EventedModel):
    x: int = 0
    y: Any = None
    z: float = float("nan")


class Arrays(EventedModel):
    model_config = {"arbitrary_types_allowed": True}
    x: np.ndarray = Field(default_factory=lambda: ARRAYS[0])
    l: list = Field(default_factory=list)


class Checked(EventedModel):
    model_config = {"validate_assignment": True}
    x: int = 1
    y: Any = None
    z: float = float("nan")

    @field_validator("y", "z")
    @classmethod
    def check(cls, v):
        return refuse13(v)


class Queued(EventedModel):
    model_config = {"reemission": "queued"}
    x: int = 0
    y: Any = None


class Immediate(EventedModel):
    model_config = {"reemission": {"x": "immediate", "y": "immediate"}}
    x: int = 0
    y: Any = None


class Props(EventedModel):
    model_config = {
        "allow_property_setters": True,
        "field_dependencies": {"c": ["a", "b"], "d": ["a"]},
    }
    a: Any = 1
    b: Any = 2

    @property
    def c(self):
        return [self.a, self.b]

    @c.setter
    def c(self, v):
        self.a, self.b = v

    @property
    def d(self):
        return self.a // 10 if isinstance(self.a, int) else self.a

    @d.setter
    def d(self, v):
        self.a = v * 10


class Child(Props):
    model_config = {"field_dependencies": {"c": ["a", "b"], "d": ["a"], "f": ["a", "e"]}}
    e: Any = 3

    @property
    def f(self):
        return self.a == self.e

    @f.setter
    def f(self, v):
        self.e = self.a if v else None


class Heir(Props):
    """Adds nothing."""


class Guess(EventedModel):
    model_config = {
        "allow_property_setters": True,
        "guess_property_dependencies": True,
        "validate_assignment": True,
    }
    a: int = 1
    b: Any = 2

    @field_validator("b")
    @classmethod
    def check(cls, v):
        return refuse13(v)

    @property
    def c(self):
        return [self.a, self.b]

    @c.setter
    def c(self, v):
        self.a, self.b = v  # may fail half way

    @property
    def d(self):
        if self.a == 13:
            return None
        return self.a * 2

    @d.setter
    def d(self, v):
        self.a = v // 2


class Lone(EventedModel):
    """A property without declared dependencies."""

    model_config = {"allow_property_setters": True}
    a: Any = 1

    @property
    def p(self):
        return str(self.a)

    @p.setter
    def p(self, v):
        self.a = refuse13(v)


class Fails(EventedModel):
    """A property that can't always be read."""

    model_config = {"allow_property_setters": True, "field_dependencies": {"c": ["a"]}}
    a: Any = 1
    b: Any = 0

    @property
    def c(self):
        if self.a == 13:
            raise RuntimeError("13")
        return [self.a]

    @c.setter
    def c(self, v):
        self.a = v[0]


class Frozen(EventedModel):
    k: int = Field(default=5, frozen=True)
    x: int = 0
    h: int = Field(default=1, exclude=True)


class Required(EventedModel):
    r: Any
    x: int = 0


class Sub(EventedModel):
    model_config = {"allow_property_setters": True, "field_dependencies": {"c": ["x", "y"]}}
    x: Any = 1
    y: Any = 2

    @property
    def c(self):
        return [self.x, self.y]

    @c.setter
    def c(self, v):
        self.x, self.y = v


class Special(Sub):
    z: Any = 3


class Nested(EventedModel):
    s: Sub = Field(default_factory=lambda: Sub(x=5))
    o: Optional[Sub] = Sub(y=7)
    x: int = 0


class Clamped(EventedModel):
    """What is stored is not what is assigned."""

    model_config = {"validate_assignment": True}
    x: int = 1
    y: Any = Field(default=None, frozen=False)
    l: list = Field(default_factory=list, frozen=False)

    @field_validator("x")
    @classmethod
    def clamp(cls, v):
        return min(refuse13(v), 10)

    @field_validator("l")
    @classmethod
    def order(cls, v):
        return sorted(v)


class Wide(EventedModel):
    """A setter that assigns to several fields, of which others depend."""

    model_config = {
        "allow_property_setters": True,
        "guess_property_dependencies": True,
        "field_dependencies": {"c": ["a"], "d": ["b"], "g": ["a", "e"]},
    }
    a: Any = 1
    b: Any = 2
    e: Any = 3

    @property
    def c(self):
        return self.total()[0]

    @c.setter
    def c(self, v):
        self.a = v

    @property
    def d(self):
        return [self.total()[1]]  # (a nan is equal to itself in a list)

    @d.setter
    def d(self, v):
        self.b = v

    @property
    def g(self):
        return [self.total()[0], self.total()[2]]

    @g.setter
    def g(self, v):
        self.e, self.a = v

    @property
    def p(self):
        return [self.a, self.b]

    @p.setter
    def p(self, v):
        self.a, self.b = v

    def total(self):
        return self.a, self.b, self.e


KINDS = {
    "clamped": (Clamped, {"x": INTS, "y": ANYS, "l": PAIRS}),
    "wide": (Wide, {"a": INTS, "b": ANYS, "e": INTS, "c": INTS, "d": INTS, "g": PAIRS,
                    "p": PAIRS}),
    "plain": (Plain, {"x": INTS, "y": ANYS, "z": ANYS}),
    "arrays": (Arrays, {"x": ARRAYS, "l": PAIRS}),
    "checked": (Checked, {"x": COERCED, "y": ANYS, "z": [*INTS, float("nan"), "q"]}),
    "queued": (Queued, {"x": INTS, "y": ANYS}),
    "immediate": (Immediate, {"x": INTS, "y": ANYS}),
    "props": (Props, {"a": INTS, "b": ANYS, "c": PAIRS, "d": INTS}),
    "child": (Child, {"a": INTS, "b": ANYS, "c": PAIRS, "d": INTS, "e": INTS,
                      "f": [True, False]}),
    "heir": (Heir, {"a": INTS, "b": ANYS, "c": PAIRS, "d": INTS}),
    "guess": (Guess, {"a": COERCED, "b": ANYS, "c": PAIRS, "d": INTS}),
    "lone": (Lone, {"a": INTS, "p": INTS}),
    "fails": (Fails, {"a": INTS, "b": INTS, "c": PAIRS}),
    "frozen": (Frozen, {"k": INTS, "x": INTS, "h": INTS}),
    "required": (Required, {"r": ANYS, "x": INTS}),
    "nested": (Nested, {"s": None, "o": None, "x": INTS}),
}
SUB = {"x": INTS, "y": ANYS, "c": PAIRS}
DEPS = {
    "Wide": {"c": "a", "d": "b", "g": "ae", "p": "ab"},
    "Props": {"c": "ab", "d": "a"}, "Heir": {"c": "ab", "d": "a"},
    "Child": {"c": "ab", "d": "a", "f": "ae"}, "Guess": {"c": "ab", "d": "a"},
    "Fails": {"c": "a"}, "Sub": {"c": "xy"}, "Special": {"c": "xy"},
}
NONE = object()


def get(m, n):
    e, r = attempt(getattr, m, n)
    return NONE if e is not None else r


def eq(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return bool(np.array_equal(a, b))
    return bool(operator.eq(a, b))


class Node:
    """A model, its twin without listeners, and its recorders."""

    def __init__(self, m, twin):
        self.m = m
        self.twin = twin
        self.names = list(m.events)
        self.rec: set = set()
        self.got: list = []  # (name, value) heard by signal
        self.group_got: list = []
        self.group = False
        self.want: dict = {n: [] for n in self.names}
        self.slots: dict = {}
        self.late = False

    def state(self, m=None):
        return {n: get(m or self.m, n) for n in self.names}


class World:
    def __init__(self, sim: Sim, plan: dict):
        self.sim = sim
        self.plan = plan
        self.kind = plan["kind"]
        cls, self.values = KINDS[self.kind]
        kw = {"r": ANYS[1]} if self.kind == "required" else {}
        self.cls = cls
        self.kw = kw
        m, twin = cls(**kw), cls(**kw)
        self.sync(m, twin)
        self.top = Node(m, twin)
        silent = [n for n in self.values if n not in m.events and n != "k"]
        if silent:
            sim.fail("no-signal", f"{self.kind}: no signals for {silent}")
        self.subs: dict = {}
        self.resub()
        self.depth = 0
        self.ops: list = []
        self.nested = False
        self.failed = False
        self.hooks = 0
        self.updating = False

    def fail(self, kind, msg):
        self.sim.fail(kind, f"{self.kind} {self.ops}: {msg}")

    def sync(self, m, twin):
        """Give the twin the values of the model."""
        for n in type(m).model_fields:
            v = m.__dict__[n]
            if isinstance(v, EventedModel):
                if type(twin.__dict__[n]) is not type(v):
                    twin.__dict__[n] = type(v)()
                self.sync(v, twin.__dict__[n])
            else:
                twin.__dict__[n] = v

    def resub(self):
        if self.kind != "nested":
            return
        for n in ("s", "o"):
            v, t = getattr(self.top.m, n), getattr(self.top.twin, n)
            if not isinstance(v, EventedModel):
                self.subs.pop(n, None)
            elif n not in self.subs or self.subs[n].m is not v:
                self.subs[n] = Node(v, t)
            else:
                self.subs[n].twin = t

    def nodes(self):
        return [self.top, *self.subs.values()]

    def node(self, i):
        ns = self.nodes()
        return ns[i % len(ns)]

    def vals(self, node):
        return self.values if node is self.top else SUB

    # -- expectations, found by doing each step on the twin ----------------
    def step(self, node, name, value):
        """Assign on the twin and note which signals have to report what."""
        before = node.state(node.twin)
        e, r = attempt(setattr, node.twin, name, value)
        after = node.state(node.twin)
        fields = type(node.m).model_fields
        deps = DEPS.get(type(node.m).__name__, {})
        for n in node.names:
            if after[n] is NONE:
                node.want[n].append(None)  # unreadable: not specified
            elif before[n] is NONE or not eq(after[n], before[n]):
                # (nan is not equal to itself: a nan that is assigned again is
                # announced, one that nobody touched isn't)
                if after[n] is before[n] and (n != name or e is not None):
                    continue
                if n == name or n in fields or n in deps:
                    node.want[n].append(after[n])
        return e, r

    def value(self, node, name, i):
        vals = self.vals(node)[name]
        if vals is None:
            v = [Sub(), Sub(x=5), Sub(y=7), Sub(x=2), Special(x=5, z=4), Special(y=7),
                 None][i % (7 if name == "o" else 6)]
            return v, self.clone(v)
        v = vals[i % len(vals)]
        return v, v

    def clone(self, m):
        return m and type(m)(**{n: getattr(m, n) for n in type(m).model_fields})

    # -- operations ---------------------------------------------------------
    def do(self, op):
        self.depth += 1
        self.ops.append(op)
        try:
            self.apply(op)
        finally:
            self.ops.pop()
            self.depth -= 1

    def apply(self, op):
        k = op[0]
        node = self.node(op[1])
        names = list(self.vals(node))
        if k == "record":
            if op[2] == "group":
                self.record_group(node)
            else:
                self.record(node, node.names[op[3] % len(node.names)])
            return
        if k == "unrecord":
            n = node.names[op[2] % len(node.names)]
            if n in node.rec and self.depth == 1:
                node.rec.discard(n)
                node.m.events[n].disconnect(node.slots.pop(n))
            return
        if k == "hook":
            self.hook(node, node.names[op[2] % len(node.names)], op[3], op[4])
            return
        if self.depth > 1:
            self.nested = True
            if k == "set":
                n = names[op[2] % len(names)]
                e, r = attempt(setattr, node.m, n, self.value(node, n, op[3])[0])
            elif k == "update":
                e, r = attempt(node.m.update, self.mapping(node, op[2])[0])
            else:
                e, r = attempt(node.m.reset)
            if e == "EmitLoopError":
                raise Boom("nested")
            return
        self.nested = self.failed = False
        for nd in self.nodes():
            nd.got, nd.group_got = [], []
            nd.want = {n: [] for n in nd.names}
            nd.before = nd.state()
            nd.listening = set(nd.rec)
            nd.had_group = nd.group
        nodes = self.nodes()
        if k == "set":
            n = names[op[2] % len(names)]
            v, t = self.value(node, n, op[3])
            e2, r2 = self.step(node, n, t)
            e, r = attempt(setattr, node.m, n, v)
        elif k == "update":
            vals, tvals, steps = self.mapping(node, op[2])
            e2, r2 = self.updated(node, steps)
            self.updating = True
            if op[3]:
                src = self.source(node, vals)
                if src is not None:
                    vals = src
            e, r = attempt(node.m.update, vals)
            self.updating = False
        else:  # reset
            e2, r2 = attempt(node.twin.reset)
            e, r = attempt(node.m.reset)
        self.sim.log(k, e or "ok", e2 or "ok", len(node.got))
        if e2 is not None:
            self.sim.fault("value-refused")
        if e == "EmitLoopError" or self.failed:
            self.sim.stat("failed-emission")
        elif (e != e2) and not self.nested and not (e == "RuntimeError"):
            self.fail("outcome", f"{e} {r}, without listeners {e2} {r2}")
        loose = e == "EmitLoopError" or self.failed or e == "RuntimeError"
        if not loose:
            for nd in nodes:
                self.check(nd, op, k)
        self.resub()
        if self.nested or loose:
            self.sync(self.top.m, self.top.twin)
            self.resub()

    def mapping(self, node, items):
        """(values, values for the twin, [(path, value for the twin)])."""
        out, tout, steps = {}, {}, []
        names = list(self.vals(node))
        for j, i, sub in items:
            n = names[j % len(names)]
            if self.vals(node)[n] is None and sub:
                sn = {x: SUB[x][y % len(SUB[x])] for x, y in sub}
                out[n], tout[n] = dict(sn), dict(sn)
            else:
                out[n], tout[n] = self.value(node, n, i)
        for n, t in tout.items():
            steps.append((n, t))
        return out, tout, steps

    def source(self, node, vals):
        """A model to update from, if the values are those of one."""
        if node is not self.top or self.kind not in ("plain", "queued", "immediate"):
            return None
        return None

    def updated(self, node, steps):
        for n, t in steps:
            e, cur = attempt(getattr, node.twin, n)
            if e is not None:
                return e, cur
            if isinstance(cur, EventedModel):
                sub = next(s for s in self.subs.values() if s.twin is cur)
                if isinstance(t, EventedModel):
                    t = {n: getattr(t, n) for n in type(t).model_fields}
                if not isinstance(t, dict):
                    return "TypeError", None
                e, r = self.updated(sub, list(t.items()))
            else:
                e, r = self.step(node, n, t)
            if e is not None:
                return e, r
        return None, None

    def record(self, node, n):
        if n in node.rec:
            return

        def slot(v, _n=n):
            node.got.append((_n, v))

        node.m.events[n].connect(slot, priority=9)
        node.slots[n] = slot
        node.rec.add(n)

    def record_group(self, node):
        if node.group:
            return
        node.group = True

        def slot(info):
            if not isinstance(info, EmissionInfo):
                self.fail("info", repr(info))
            node.group_got.append((info.signal.name, info.args[0]))
            if self.kind == "fails":
                return  # update() may end early
            if self.updating and node is self.top and not self.nested and not self.failed:
                now, final = node.state(), node.state(node.twin)
                for x in now:
                    if x in self.values and not self.alike(now[x], final[x]):
                        self.fail("early", f"group told of {info.signal.name} when {x} was "
                                  f"{now[x]!r}, not {final[x]!r}")

        node.m.events.connect(slot)

    def alike(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if isinstance(a, EventedModel):
            return all(self.alike(a.__dict__[n], b.__dict__[n]) for n in type(a).model_fields)
        if isinstance(a, list):
            return len(a) == len(b) and all(map(self.alike, a, b))
        return eq(a, b) if not isinstance(a, float) else repr(a) == repr(b)

    def hook(self, node, n, at, act):
        if self.hooks > 5:
            return
        self.hooks += 1
        calls = [0]

        def slot(v):
            calls[0] += 1
            if calls[0] == at and self.depth < 4:
                if act[0] == "raise":
                    self.sim.fault("listener-fails")
                    self.failed = True
                    raise Boom(n)
                self.sim.fault("listener-reenters")
                self.do(act[1])

        node.m.events[n].connect(slot)

    # -- oracle ---------------------------------------------------------------
    def check(self, node, op, k):
        now = node.state()
        tw = node.state(node.twin)
        strict = not self.nested
        if strict:
            for n in node.names:
                if not self.alike(now[n], tw[n]):
                    self.fail("state", f"{n} is {now[n]!r}, without listeners {tw[n]!r}")
        if k == "reset" and strict and node is self.node(op[1]):
            self.check_reset(node, now)
        fields = type(node.m).model_fields
        deps = DEPS.get(type(node.m).__name__, {})
        for n in node.names:
            for got, on in ((node.got, n in node.listening), (node.group_got, node.had_group)):
                vals = [v for x, v in got if x == n]
                if not on:
                    if got is node.got and n not in node.rec and vals:
                        self.fail("unknown", f"{n} announced {vals}")
                    continue
                if got is node.group_got and self.nested and self.kind == "immediate":
                    continue
                if now[n] is NONE:
                    continue
                if strict and k != "reset":
                    self.exact(n, vals, node.want[n], now, n in fields)
                elif n in fields or n in deps:
                    self.mirror(n, vals, node.before[n], now[n])
                if strict and k == "reset" and n in fields and len(vals) > 1:
                    self.fail("repeated", f"reset announced {n} {len(vals)} times")

    def exact(self, n, vals, want, now, is_field):
        if any(w is None for w in want) and None not in [now[n]]:
            return
        if len(vals) != len(want):
            self.fail("silent" if len(vals) < len(want) else "spurious",
                      f"{n} announced {vals}, not {want}")
        for v, w in zip(vals, want):
            if not self.alike(v, w):
                self.fail("value", f"{n} announced {vals}, not {want}")
        if vals and is_field and vals[-1] is not now[n] and not self.alike(vals[-1], now[n]):
            self.fail("value", f"{n} announced {vals[-1]!r} but is {now[n]!r}")

    def mirror(self, n, vals, before, now):
        if isinstance(now, EventedModel):
            return  # replaced by an equal one, then changed in place: no event of this field
        if vals:
            if not self.alike(vals[-1], now) and not eq(vals[-1], now):
                self.fail("mirror", f"{n} last announced {vals[-1]!r} but is {now!r}")
        elif before is not NONE and not eq(before, now) and before is not now:
            self.fail("silent", f"{n} changed from {before!r} to {now!r} unannounced")

    def check_reset(self, node, now):
        fresh = self.cls(**self.kw) if node is self.top else type(node.m)()
        for n, f in type(node.m).model_fields.items():
            if not f.is_required() and not f.frozen and not self.alike(
                getattr(node.m, n), getattr(fresh, n)
            ):
                self.fail("reset", f"{n} is {getattr(node.m, n)!r} after reset(), its default is "
                          f"{getattr(fresh, n)!r}")


def gen_op(rng, depth):
    k = weighted(rng, {"set": 14, "update": 5, "reset": 2, "record": 5,
                       "hook": 2 if depth < 2 else 0, "unrecord": 1})
    i = rng.choice([0, 0, 1, 2])
    if k == "set":
        return [k, i, rng.randrange(12), rng.randrange(60)]
    if k == "update":
        items = []
        for _ in range(rng.choice([0, 1, 2, 2, 3])):
            sub = [[rng.choice(["x", "y", "c"]), rng.randrange(60)]
                   for _ in range(rng.choice([1, 2]))] if rng.random() < 0.7 else []
            items.append([rng.randrange(12), rng.randrange(60), sub])
        return [k, i, items, rng.random() < 0.2]
    if k == "record":
        return [k, i, rng.choice(["signal", "signal", "group"]), rng.randrange(12)]
    if k == "hook":
        act = ["raise"] if rng.random() < 0.25 else ["op", gen_op(rng, depth + 1)]
        return [k, i, rng.randrange(12), rng.choice([1, 1, 2, 3]), act]
    return [k, i, rng.randrange(12)]


class Models(Scenario):
    """C21."""

    name = "models"
    threaded = False
    shrink_keys = ("ops",)

    def gen(self, rng, tier):
        return {
            "kind": rng.choice(list(KINDS)),
            "ops": [gen_op(rng, 0) for _ in range(rng.choice([4, 8, 14, 20]))],
        }

    def run(self, sim, plan):
        w = World(sim, plan)
        for op in plan["ops"]:
            try:
                w.do(op)
            except Boom:
                w.fail("harness", "uncaught")

    def nontrivial(self, sim, plan):
        return any(isinstance(x[-1], int) and x[-1] for x in sim.log_ if isinstance(x, tuple))
