"""C26: an EventedList relays the events of exactly the children it holds."""

from __future__ import annotations

import dataclasses
import gc

from psygnal import EmissionInfo, Signal, SignalGroup, evented
from psygnal.containers import (
    EventedDict,
    EventedList,
    EventedObjectProxy,
    EventedSet,
    SelectableEventedList,
)
from psygnal.utils import iter_signal_instances

from ..base import Scenario
from ..core import Sim
from ..lib import attempt, raw, weighted
from .contain import Boom


class E:
    s = Signal(int)
    t = Signal(int, int)


class Same(E):
    """Equal to every other one."""

    def __eq__(self, other):
        return isinstance(other, Same)

    def __hash__(self):
        return 7


class G(SignalGroup):
    a = Signal(int)
    b = Signal(int)


class Holder:
    def __init__(self):
        self.ev = G()


class Raises(E):
    @property
    def broken(self):
        raise AttributeError("broken")


@evented
@dataclasses.dataclass
class D:
    x: int = 0


@evented
@dataclasses.dataclass(eq=True)
class DEq:
    x: int = 0

    def __eq__(self, other):
        return isinstance(other, DEq)

    def __hash__(self):
        return 3


class Target:
    pass


def ping_sig(o, k):
    if k % 2:
        o.s.emit(k)
        return [("s", (k,))]
    o.t.emit(k, k + 1)
    return [("t", (k, k + 1))]


def ping_grp(o, k):
    o.a.emit(k)
    return [("a", (k,))]


def ping_holder(o, k):
    o.ev.b.emit(k)
    return [("b", (k,))]


def ping_dc(o, k):
    old = o.x
    o.x = k
    return [("x", (k, old))]


def ping_list(o, k):
    o.append(k)
    return [("inserting", (len(o) - 1,)), ("inserted", (len(o) - 1, k))]


def ping_dict(o, k):
    o[k] = 1
    return [("adding", (k,)), ("added", (k, 1))]


def ping_set(o, k):
    o.add(k)
    return [("items_changed", ((k,), ()))]


def ping_proxy(o, k):
    o.q = k
    return [("attribute_set", ("q", k))]


class Passes:
    """Passes on what it learns of other emissions."""

    s = Signal(object)
    t = Signal(object, int)


def ping_info(o, k):
    info = EmissionInfo(o.t, (k,))
    if k % 2:
        o.s.emit(info)
        return [("s", (info,))]
    o.t.emit(info, k)
    return [("t", (info, k))]


def ping_none(o, k):
    return []


KINDS = {
    "sig": (E, ping_sig), "same": (Same, ping_sig), "raises": (Raises, ping_sig),
    "grp": (G, ping_grp), "holder": (Holder, ping_holder), "dc": (D, ping_dc),
    "dceq": (DEq, ping_dc), "list": (EventedList, ping_list), "dict": (EventedDict, ping_dict),
    "set": (EventedSet, ping_set),
    "proxy": (lambda: EventedObjectProxy(Target()), ping_proxy),
    "info": (Passes, ping_info),
    "int": (lambda: 3, ping_none), "str": (lambda: "s", ping_none),
}


class World:
    def __init__(self, sim: Sim, plan: dict):
        self.sim = sim
        self.plan = plan
        self.kids = []
        for kind in plan["kids"]:
            make, ping = KINDS[kind]
            self.kids.append((make(), ping))
        self.lists = []
        self.got: list = []
        self.k = 1000
        self.hooks = plan["hooks"]
        self.counts: dict = {}
        self.depth = 0
        self.dropped = False
        self.ops: list = []
        for i, init in enumerate(plan["lists"]):
            cls = SelectableEventedList if plan["cls"] == "selectable" else EventedList
            hold = [self.kids[j][0] for j in init]
            lst = cls(hold, child_events=True)
            self.lists.append(lst)
            lst.events.child_event.connect(
                lambda *a, _i=i: self.got.append((_i, *a)), priority=3
            )
            for name in {h["ev"] for h in self.hooks if h["list"] == i}:
                lst.events[name].connect(lambda *a, _i=i, _n=name: self.hooked(_i, _n))

    def fail(self, kind, msg):
        self.sim.fail(kind, f"{self.ops}: {msg}")

    def hooked(self, i, name):
        n = self.counts[i, name] = self.counts.get((i, name), 0) + 1
        for h in self.hooks:
            if h["list"] == i and h["ev"] == name and h["n"] == n and self.depth < 4:
                act = h["act"]
                if act[0] == "raise":
                    self.sim.fault("callback-fails")
                    raise Boom(name)
                if act[0] == "ping":
                    self.ping(act[1])
                else:
                    self.sim.fault("callback-reenters")
                    self.do(act[1])

    def ping(self, j):
        kid, ping = self.kids[j % len(self.kids)]
        self.k += 1
        outer, self.got = self.got, []
        e, want = attempt(ping, kid, self.k)
        got, self.got = self.got, outer
        if e == "EmitLoopError":
            return  # a hook of another list failed
        if e is not None:
            self.fail("unexpected", f"{e} {want!r}")
            return
        for i, lst in enumerate(self.lists):
            if lst is None:
                continue
            held = sum(x is kid for x in raw(lst))
            mine = [g[1:] for g in got if g[0] == i]
            if not want:
                continue
            if not held:
                if mine:
                    self.fail("relayed-removed", f"list {i} relayed {mine} of a child not in it")
                continue
            seen = {}
            for idx, obj, emitter, args in mine:
                if obj is not kid:
                    self.fail("attribution", f"event of {kid!r} reported for {obj!r}")
                if not 0 <= idx < len(lst) or raw(lst)[idx] is not kid:
                    self.fail("index", f"event of the child at {raw(lst)} reported at {idx}")
                key = (emitter.name, args)
                seen[repr(key)] = seen.get(repr(key), 0) + 1
                if key not in want:
                    self.fail("event", f"{key} instead of {want}")
            for key in want:
                n = seen.get(repr(key), 0)
                if not 1 <= n <= held:
                    self.fail("not-relayed" if not n else "repeated",
                              f"{key} relayed {n} times by list {i} holding the child {held} "
                              "times")

    def check(self):
        for j in range(len(self.kids)):
            self.ping(j)
        for j, (kid, _) in enumerate(self.kids):
            holders = sum(
                any(x is kid for x in raw(lst)) for lst in self.lists if lst is not None
            )
            if not holders:
                n = sum(len(s) for s in iter_signal_instances(kid))
                if n:
                    self.fail("left-connected", f"child {self.plan['kids'][j]} in no list "
                              f"has {n} connections")

    def do(self, op):
        self.depth += 1
        self.ops.append(op)
        i = op[1] % len(self.lists)
        lst = self.lists[i]
        if lst is not None:
            e, r = attempt(self.apply, op, i, lst)
            del r
            if e not in (None, "IndexError", "ValueError", "EmitLoopError"):
                self.fail("unexpected", f"{e}")
            self.sim.log(op[0], e or "ok", len(lst))
        self.depth -= 1
        if not self.depth:
            del lst
            if self.dropped:
                self.dropped = False
                if self.hooks or self.plan["cls"] == "selectable":
                    gc.collect()  # failures and selections leave cycles
            self.check()
        self.ops.pop()

    def kid(self, j):
        return self.kids[j % len(self.kids)][0]

    def apply(self, op, i, lst):
        k = op[0]
        if k == "append":
            lst.append(self.kid(op[2]))
        elif k == "insert":
            lst.insert(op[3], self.kid(op[2]))
        elif k == "set":
            lst[op[3]] = self.kid(op[2])
        elif k == "setslice":
            lst[slice(*op[2])] = [self.kid(j) for j in op[3]]
        elif k == "del":
            del lst[op[2]]
        elif k == "delslice":
            del lst[slice(*op[2])]
        elif k == "pop":
            lst.pop()
        elif k == "remove":
            lst.remove(self.kid(op[2]))
        elif k == "clear":
            lst.clear()
        elif k == "reverse":
            lst.reverse(emit_individual_events=op[2])
        elif k == "move":
            if lst:
                lst.move(op[2] % len(lst), op[3] % (len(lst) + 1))
        elif k == "moves":
            if lst:
                lst.move_multiple([j % len(lst) for j in op[2]], op[3] % (len(lst) + 1))
        elif k == "copy":
            new = lst.copy()
            new.append(self.kid(op[2]))
            del lst[:0]
        elif k == "slice":
            part = lst[slice(*op[2])]
            if part:
                part.pop()
        elif k == "droplist":
            if self.depth == 1:
                self.lists[i] = None
                self.sim.fault("list-dropped")
                self.dropped = True


def kid_op(rng, nk, nl):
    k = weighted(rng, {
        "append": 8, "insert": 5, "set": 8, "setslice": 7, "del": 6, "delslice": 3, "pop": 3,
        "remove": 4, "clear": 1, "reverse": 2, "move": 2, "moves": 1, "copy": 1, "slice": 1,
        "droplist": 0.7,
    })
    i = rng.randrange(nl)
    j = rng.randrange(nk)

    def sl():
        def end():
            return None if rng.random() < 0.3 else rng.randrange(-6, 7)

        return [end(), end(), rng.choice([None, None, None, 2, -1])]

    if k in ("append", "remove", "copy"):
        return [k, i, j]
    if k in ("insert", "set"):
        return [k, i, j, rng.randrange(-5, 6)]
    if k == "setslice":
        return [k, i, sl(), [rng.randrange(nk) for _ in range(rng.choice([0, 1, 2, 2, 3]))]]
    if k == "del":
        return [k, i, rng.randrange(-5, 6)]
    if k in ("delslice", "slice"):
        return [k, i, sl()]
    if k == "reverse":
        return [k, i, rng.random() < 0.6]
    if k == "move":
        return [k, i, rng.randrange(20), rng.randrange(20)]
    if k == "moves":
        return [k, i, [rng.randrange(20) for _ in range(rng.choice([1, 2, 3]))],
                rng.randrange(20)]
    return [k, i]


class Children(Scenario):
    """C26."""

    name = "children"
    threaded = False
    shrink_keys = ("ops", "hooks")

    def gen(self, rng, tier):
        nk = rng.choice([1, 2, 3, 4, 5])
        nl = rng.choice([1, 1, 2])
        cls = rng.choice(["list", "list", "selectable"])
        kinds = list(KINDS)
        if cls == "selectable":
            kinds = [k for k in kinds if k not in ("dict", "set", "proxy", "dc")]
        if rng.random() < 0.3:
            kinds = [rng.choice(kinds)]  # also several of one kind
        hooks = []
        if rng.random() < 0.5:
            for _ in range(rng.choice([1, 1, 2, 3])):
                r = rng.random()
                act = (["raise"] if r < 0.35 else ["ping", rng.randrange(nk)] if r < 0.6
                       else ["op", kid_op(rng, nk, nl)])
                hooks.append({
                    "list": rng.randrange(nl), "n": rng.choice([1, 1, 2, 3, 5]), "act": act,
                    "ev": rng.choice(["inserting", "inserted", "removing", "removed", "changed",
                                      "moved", "reordered"]),
                })
        return {
            "cls": cls,
            "kids": [rng.choice(kinds) for _ in range(nk)],
            "lists": [[rng.randrange(nk) for _ in range(rng.choice([0, 1, 2, 3]))]
                      for _ in range(nl)],
            "ops": [kid_op(rng, nk, nl) for _ in range(rng.choice([2, 4, 8, 14]))],
            "hooks": hooks,
        }

    def run(self, sim, plan):
        w = World(sim, plan)
        w.check()
        for op in plan["ops"]:
            w.do(op)

    def nontrivial(self, sim, plan):
        return len(sim.log_) > 1
