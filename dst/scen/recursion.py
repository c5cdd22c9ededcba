"""C10: runaway re-emission ends with RecursionError and does no lasting harm.

The oracle is a second world built from the same plan that never runs away: whatever
the first went through, emissions that re-emit a bounded number of times must be
delivered as in the second.
"""

from __future__ import annotations

import sys
from dataclasses import dataclass, field
from functools import partial
from typing import Any

from psygnal import (
    EventedModel,
    Signal,
    SignalGroup,
    SignalGroupDescriptor,
    SignalInstance,
)
from psygnal.containers import EventedDict, EventedList, EventedSet, Selection

from ..base import Scenario
from ..core import Sim
from ..lib import attempt, weighted
from .contain import Boom

MODES = ["immediate", "queued", "latest-only"]
BOUND = 400_000


class RunsOn(BaseException):
    """More deliveries than any cut-off may allow."""


class Members(SignalGroup):
    sig = Signal(object)
    other = Signal(object)


class Queued(SignalGroup):
    sig = Signal(object, reemission="queued")


class Latest(SignalGroup):
    sig = Signal(object, reemission="latest-only")


@dataclass
class Data:
    x: Any = 0
    y: int = 0
    events = SignalGroupDescriptor()


class Model(EventedModel):
    x: Any = 0


class Dependent(EventedModel):
    model_config = {
        "allow_property_setters": True,
        "field_dependencies": {"twice": ["x"]},
    }
    x: int = 0

    @property
    def twice(self):
        return self.x * 2

    @twice.setter
    def twice(self, v):
        self.x = v // 2


class Holder:
    """Binds the methods that are connected."""

    def __init__(self, fn):
        self.fn = fn

    def method(self, *a):
        self.fn(*a)

    def more(self, _extra, *a):
        self.fn(*a)


class Node:
    """Something that emits, reduced to emit/fast/listen."""

    direct = None  # its SignalInstance, if values pass through unchanged

    def __init__(self, kind, mode, name):
        self.kind = kind
        self.n = 0
        self.group = None
        self.heard = False  # by its group
        if kind == "signal":
            self.sig = SignalInstance((object,), name=name, reemission=mode)
            self.direct = self.sig
        elif kind == "member":
            cls = {"immediate": Members, "queued": Queued, "latest-only": Latest}[mode]
            self.group = cls()
            self.sig = self.group["sig"]
            self.direct = self.sig
        elif kind == "data":
            self.obj = Data()
            self.group = self.obj.events
            self.sig = self.group["x"]
        elif kind in ("model", "dependent"):
            self.obj = Model() if kind == "model" else Dependent()
            self.group = self.obj.events
            self.sig = self.group["x"]
        elif kind == "list":
            self.obj = EventedList()
            self.group = self.obj.events
            self.sig = self.group["inserted"]
        elif kind == "dict":
            self.obj = EventedDict()
            self.group = self.obj.events
            self.sig = self.group["added"]
        elif kind == "set":
            self.obj = EventedSet()
            self.group = self.obj.events
            self.sig = self.group["items_changed"]
        elif kind == "selection":
            self.obj = Selection()
            self.group = self.obj.events
            self.sig = self.group["active"]

    def emit(self, fast=False):
        self.n += 1
        k = self.kind
        if k in ("signal", "member"):
            fast = fast and not self.heard  # (emit_fast does not tell groups)
            (self.sig.emit_fast if fast else self.sig.emit)(self.n)
        elif k in ("data", "model", "dependent"):
            if k == "dependent" and fast:
                self.obj.twice = self.n * 2
            else:
                self.obj.x = self.n
        elif k == "list":
            if fast:
                self.obj.insert(0, self.n)
            else:
                self.obj.append(self.n)
        elif k == "dict":
            if fast:
                self.obj.update({self.n: 1})
            else:
                self.obj[self.n] = 1
        elif k == "set":
            if fast:
                self.obj |= {self.n}
            else:
                self.obj.add(self.n)
        else:
            self.obj.active = self.n

    def repeatable(self):
        """Make the state of a fresh node again (no listener is called)."""
        if self.kind in ("list", "dict", "set"):
            with self.obj.events.all.blocked():
                self.obj.clear()
        elif self.kind == "selection":
            with self.obj.events.all.blocked():
                self.obj.clear()
                self.obj.active = None
        elif self.kind in ("data", "model", "dependent"):
            with self.group.all.blocked():
                with self.sig.blocked():
                    if self.kind == "dependent":
                        with self.group["twice"].blocked():
                            self.obj.x = 0
                    else:
                        self.obj.x = 0
        self.n = 0


class World:
    def __init__(self, sim, plan, fresh):
        self.sim = sim
        self.plan = plan
        self.keep: list = []
        self.log: list = []
        self.left: int | None = 0
        self.boom = 0
        self.catch = 0
        self.depth = 0
        self.count = 0
        self.nodes = [
            Node(k, m, f"s{i}") for i, (k, m) in enumerate(plan["nodes"])
        ]
        for i, node in enumerate(self.nodes):
            self.listen(node, i, "rec-first", 5)
        for src, dst, how, prio in plan["edges"]:
            self.edge(src % len(self.nodes), dst % len(self.nodes), how, prio)
        for i, node in enumerate(self.nodes):
            self.listen(node, i, "rec-last", -5)

    def listen(self, node, i, tag, prio):
        def record(*a):
            self.count += 1
            if self.count > BOUND:
                raise RunsOn
            if len(self.log) < 4000:
                # what a container announces besides the value does not matter
                self.log.append((tag, i, len(a)))
            if self.boom and self.count == self.boom:
                raise Boom("listener")

        node.sig.connect(record, priority=prio)

    def edge(self, src, dst, how, prio):
        a, b = self.nodes[src], self.nodes[dst]
        if how == "direct" and (dst <= src or a.direct is None or b.direct is None):
            how = "function"

        def again(*args):
            self.count += 1
            if self.count > BOUND:
                raise RunsOn
            if self.left is not None:
                if self.left <= 0:
                    return
                self.left -= 1
            self.depth += 1
            try:
                b.emit(how == "fast")
            except RecursionError:
                if self.catch and self.depth == self.catch:
                    self.catch = 0
                    self.left = 0
                    return
                raise
            finally:
                self.depth -= 1

        if how == "direct":
            a.sig.connect(b.direct.emit, priority=prio)
        elif how == "method":
            h = Holder(again)
            self.keep.append(h)
            a.sig.connect(h.method, priority=prio)
        elif how == "partial":
            h = Holder(again)
            self.keep.append(h)
            a.sig.connect(partial(h.more, 1), priority=prio)
        elif how == "group" and a.group is not None:
            a.heard = True
            a.group.connect(again, priority=prio)
        else:
            a.sig.connect(again, priority=prio)

    def emit(self, i, fast, base):
        """One emission, `base` frames further down the stack."""
        if base > 0:
            return self.emit(i, fast, base - 1)
        self.nodes[i % len(self.nodes)].emit(fast)

    def bounded(self, i, fast, base, left, boom):
        for node in self.nodes:
            node.repeatable()
        self.log, self.count = [], 0
        self.left, self.boom = left, boom
        e, r = attempt(self.emit, i, fast, base)
        out = list(self.log)
        self.left, self.boom = 0, 0
        return e, r, out


class Runaway(Scenario):
    """C10."""

    name = "runaway"
    max_steps = 10_000_000
    run_limit = 60.0
    threaded = False
    shrink_keys = ("ops", "edges")

    def gen(self, rng, tier):
        n = rng.choice([1, 1, 2, 2, 3])
        nodes = []
        for _ in range(n):
            kind = weighted(rng, {"signal": 12, "member": 6, "data": 2, "model": 2,
                                  "dependent": 2, "list": 2, "dict": 1, "set": 1,
                                  "selection": 1})
            nodes.append([kind, rng.choice(MODES)])
        hows = ["function", "function", "fast", "method", "partial", "group", "direct"]
        edges = [[i, (i + 1) % n, rng.choice(hows), rng.choice([0, 0, 1])] for i in range(n)]
        for _ in range(rng.choice([0, 0, 1, 2])):
            edges.append([rng.randrange(n), rng.randrange(n), rng.choice(hows),
                          rng.choice([0, 0, -1, 1])])
        ops = []
        for _ in range(rng.choice([2, 3, 5, 7])):
            k = weighted(rng, {"run": 4, "bounded": 4, "repeat": 1 if n < 3 else 0})
            i, fast = rng.randrange(n), rng.random() < 0.25
            limit = rng.choice([1000, 1000, 1000, 1700, 3000])
            if k == "run":
                ops.append([k, i, fast, rng.choice([0, 10, 100, 400, 800, rng.randrange(860)]),
                            limit, rng.choice([0, 0, 0, 1, 2, 5, 20])])
            elif k == "bounded":
                ops.append([k, i, fast, rng.choice([0, 0, 30, 200]),
                            rng.choice([0, 1, 3, 8, 14]), rng.choice([0, 0, 0, 1, 3])])
            else:
                ops.append([k, i, fast, rng.choice([1, 3]), rng.choice([0, 0, 1, 2, 4])])
        return {"nodes": nodes, "edges": edges, "ops": ops}

    def run(self, sim: Sim, plan: dict) -> None:
        w = World(sim, plan, False)
        old = sys.getrecursionlimit()
        try:
            for op in plan["ops"]:
                self.op(sim, plan, w, op)
                sys.setrecursionlimit(old)
                self.settled(sim, w, op)
        finally:
            sys.setrecursionlimit(old)

    def op(self, sim, plan, w, op):
        k, i, fast = op[0], op[1], op[2]
        if k == "run":
            base, limit, catch = op[3:]
            w.log, w.count = [], 0
            w.left, w.catch, w.boom = None, catch, 0
            sys.setrecursionlimit(limit)
            sim.fault(f"runaway-limit-{limit}")
            e, r = attempt(w.emit, i, fast, base)
            sys.setrecursionlimit(1000)
            caught = catch and not w.catch
            w.left, w.catch = 0, 0
            sim.log("run", e or "none", w.count)
            if e == "RunsOn":
                sim.fail("endless", f"more than {BOUND} deliveries: {plan['nodes']} "
                         f"{plan['edges']} {op}")
            cyclic = self.cyclic(plan, i)
            if e is None and (caught or not cyclic):
                return
            if e == "EmitLoopError" and not cyclic:
                return
            if e != "RecursionError":
                sim.fail("no-cut-off", f"outcome {e} {r} after {w.count} deliveries: "
                         f"{plan['nodes']} {plan['edges']} {op}")
        elif k == "bounded":
            self.compare(sim, plan, w, i, fast, *op[3:])
        else:
            for _ in range(320):
                w.bounded(i, fast, 0, op[3], op[4])
            self.compare(sim, plan, w, i, fast, 0, op[3], op[4])

    def cyclic(self, plan, start):
        """Can the edges lead on for ever from here?"""
        n = len(plan["nodes"])
        nxt = {}
        for s, d, *_ in plan["edges"]:
            nxt.setdefault(s % n, set()).add(d % n)
        seen, todo = set(), [start % n]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo.extend(nxt.get(x, ()))

        def back(x):
            got, todo = set(), list(nxt.get(x, ()))
            while todo:
                y = todo.pop()
                if y == x:
                    return True
                if y not in got:
                    got.add(y)
                    todo.extend(nxt.get(y, ()))
            return False

        return any(back(x) for x in seen)

    def compare(self, sim, plan, w, i, fast, base, left, boom):
        e, r, got = w.bounded(i, fast, base, left, boom)
        f = World(sim, plan, True)
        e2, r2, want = f.bounded(i, fast, base, left, boom)
        sim.log("bounded", e or "none", len(got))
        where = f"{plan['nodes']} {plan['edges']} {plan['ops']}"
        if e2 == "RecursionError" or (e2 and not boom):
            sim.fail("cut-short", f"{left} re-emissions ended with {e2}: {r2}: {where}")
        if e != e2 or got != want:
            sim.fail("harm", f"after what happened before, an emission re-emitted {left} times "
                     f"({e} {r}) delivered {got[:30]}, on new signals ({e2}) {want[:30]}: {where}")

    def settled(self, sim, w, op):
        if Signal.current_emitter() is not None:
            sim.fail("emitter", f"current_emitter() is {Signal.current_emitter()} after {op}")

    def nontrivial(self, sim, plan):
        return any(isinstance(x, tuple) and x[1] == "run" and x[2] == "RecursionError"
                   for x in sim.log_)
