"""C29: what is restored from a pickle, or copied, goes on as the original would.

The oracle rebuilds a subject from scratch by replaying the history that it should have
(the original's up to the checkpoint, then its own) and compares what the next operation
does on both.
"""

from __future__ import annotations

import copy
import gc
import importlib
import pickle
from dataclasses import dataclass, field
from functools import partial
from typing import Any, ClassVar

from psygnal import EventedModel, Signal, SignalGroup, SignalGroupDescriptor, SignalInstance
from psygnal.containers import (
    EventedDict,
    EventedList,
    EventedOrderedSet,
    EventedSet,
    SelectableEventedList,
    Selection,
)

from ..base import Scenario
from ..core import Sim
from ..lib import attempt, weighted
from . import copied as cbs


class Owner:
    a = Signal(int)
    b = Signal(int, reemission="queued", description="b!")
    c = Signal(int, name="cc", reemission="latest-only")
    d = Signal(int, int, check_types_on_connect=True)

    def __init__(self):
        self.val = 0


class Heir(Owner):
    """Sets attributes in its own way."""

    c = Signal(int, reemission="latest-only")

    def __setattr__(self, k, v):
        object.__setattr__(self, k, v)


class Trio(SignalGroup):
    a = Signal(int)
    b = Signal(int, reemission="queued")
    c = Signal(int, reemission="latest-only")


class Member:
    """An item of a list."""

    moved = Signal(int)

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, Member) and other.n == self.n

    def __hash__(self):
        return self.n


@dataclass
class Data:
    a: int = 0
    b: list = field(default_factory=list)
    events: ClassVar[SignalGroupDescriptor] = SignalGroupDescriptor()


@dataclass
class Uncached:
    a: int = 0
    b: list = field(default_factory=list)
    events: ClassVar[SignalGroupDescriptor] = SignalGroupDescriptor(cache_on_instance=False)


class Model(EventedModel):
    a: int = 0
    b: list = []


class Props(EventedModel):
    model_config = {"allow_property_setters": True, "field_dependencies": {"p": ["a"]}}
    a: int = 0
    b: list = []

    @property
    def p(self):
        return self.a // 2

    @p.setter
    def p(self, v):
        self.a = v * 2


class Outer(EventedModel):
    a: int = 0
    inner: Model = Model()


SIGNALS = ("signal", "object", "heir")
GROUPS = ("group",)
LISTS = ("list", "selectable", "members", "smembers")
INSIDE = (*SIGNALS, *GROUPS, "data", "uncached", "model", "props", "outer")
OTHERS = ("dict", "set", "oset", "selection")
EVENTED = ("data", "uncached", "model", "props", "outer")
KINDS = SIGNALS + GROUPS + LISTS + OTHERS + EVENTED
# (a group is copied without listeners)
FRESH = {"deepcopy": GROUPS + LISTS + OTHERS + EVENTED, "pickle": EVENTED,
         "model_copy": EVENTED, "copy": LISTS + OTHERS + EVENTED}


class Weak:
    def __init__(self):
        self.got = 0

    def method(self, *a):
        cbs.note("weak", a)


class Subject:
    def __init__(self, kind, cfg, x=None):
        self.kind = kind
        self.cfg = cfg
        self.x = self.make() if x is None else x
        self.weak: list = []
        self.values: dict = {}

    def make(self):
        k, cfg = self.kind, self.cfg
        if k == "signal":
            return SignalInstance((int,), name=cfg["name"], description=cfg["desc"],
                                  reemission=cfg["mode"],
                                  check_nargs_on_connect=cfg["nargs"],
                                  check_types_on_connect=cfg["types"])
        make = {
            "object": Owner, "heir": Heir, "group": Trio,
            "list": lambda: EventedList([1, 2, 3]),
            "selectable": lambda: SelectableEventedList([1, 2, 3]),
            "members": lambda: EventedList([Member(1), Member(2)], child_events=True),
            "smembers": lambda: SelectableEventedList([Member(1), Member(2)],
                                                      child_events=True),
            "dict": lambda: EventedDict({1: 2}, basetype=(int,)),
            "set": lambda: EventedSet([1, 2]),
            "oset": lambda: EventedOrderedSet([2, 1]),
            "selection": lambda: Selection([1]),
            "data": Data, "uncached": Uncached, "model": Model, "props": Props,
            "outer": Outer,
        }
        return make[k]()

    # -- the signals of a subject -------------------------------------------
    def names(self):
        k = self.kind
        if k == "signal":
            return [""]
        if k in ("object", "heir"):
            return ["a", "b", "c", "d"]
        g = self.group()
        return [*g, "*"]

    def group(self):
        return self.x if self.kind == "group" else self.x.events

    def sig(self, i):
        names = self.names()
        n = names[i % len(names)]
        if self.kind == "signal":
            return self.x
        if self.kind in ("object", "heir"):
            return getattr(self.x, n)
        return self.group().all if n == "*" else self.group()[n]

    # -- operations -----------------------------------------------------------
    def callback(self, how, extra):
        fn = getattr(cbs, how)
        return partial(fn, extra) if how == "f4" else fn

    def do(self, op):
        k = op[0]
        if k == "connect":
            kw = dict(op[4])
            return self.sig(op[1]).connect(self.callback(op[2], op[3]), **kw) and None
        if k == "disconnect":
            return self.sig(op[1]).disconnect(self.callback(op[2], 0))
        if k == "weak":
            w = Weak()
            self.weak.append((op[1], w))
            return self.sig(op[1]).connect(w.method) and None
        if k == "emit":
            sig = self.sig(op[1])
            if isinstance(sig, SignalInstance) and len(sig.signature.parameters) > 1:
                return sig.emit(op[2], 0)
            return sig.emit(op[2])
        if k == "fast":
            sig = self.sig(op[1])
            return sig.emit_fast(*[op[2]] * len(sig.signature.parameters))
        if k == "blocked":
            sig = self.sig(op[1])
            return sig.block() if op[2] else sig.unblock()
        if k == "pause":
            return self.sig(op[1]).pause()
        if k == "resume":
            return self.sig(op[1]).resume()
        if k == "child":
            items = list(self.x)
            return items[op[1] % len(items)].moved.emit(op[2]) if items else None
        return self.mutate(op)

    def item(self, v):
        return Member(v) if self.kind in ("members", "smembers") else v

    def mutate(self, op):
        _, how, i, v = op
        x, k = self.x, self.kind
        if k in ("object", "heir"):
            x.val = v
        elif k in LISTS:
            n = len(x)
            if how == 0:
                x.append(self.item(v))
            elif how == 1 and n:
                x.pop(i % n)
            elif how == 2 and n:
                x[i % n] = self.item(v)
            elif how == 3 and n:
                x.insert(i % n, self.item(v))
            elif how == 4 and n > 1:
                x.move(i % n, v % n)
            elif how == 5 and "s" in k[:1] and n:
                x.selection.active = x[i % n]
            elif how == 6 and n and "s" in k[:1]:
                x.selection.toggle(x[i % n])
        elif k == "dict":
            if how % 2:
                x.pop(i % 4, None)
            else:
                x[i % 4] = v if how else "no"
        elif k in ("set", "oset", "selection"):
            [x.add, x.discard, x.toggle if k == "selection" else x.add][how % 3](v % 6)
            if how == 5:
                x.update([v, v + 1])
        elif k == "outer":
            if how % 3 == 0:
                x.a = v
            elif how % 3 == 1:
                x.inner.a = v
            else:
                x.update({"a": v, "inner": {"a": v}})
        elif k in EVENTED:
            if how == 1:
                x.b = [v]
            elif how == 2 and k == "props":
                x.p = v
            elif how == 3:
                x.b.append(v)
            else:
                x.a = v

    def drop_weak(self):
        for i, w in self.weak:
            self.sig(i).disconnect(w.method)
        self.weak = []

    def reset(self):
        """Make all signals new ones."""
        self.drop_weak()
        for i, _ in enumerate(self.names()):
            sig = self.sig(i)
            for name in ("f0", "f1", "f2", "f3", "f4", "f5"):
                while (fn := self.callback(name, 0)) in sig:
                    sig.disconnect(fn)
            sig.unblock()
            sig.resume()

    # -- what can be seen -------------------------------------------------------
    def look(self):
        k, x = self.kind, self.x
        out: list = []
        if k in LISTS:
            out.append([cbs.plain(getattr(m, "n", m)) for m in x])
            if k[0] == "s":
                sel = x.selection
                out.append(sorted(getattr(m, "n", m) for m in sel))
                out.append(getattr(sel.active, "n", sel.active))
        elif k == "dict":
            out.append(dict(x))
        elif k in ("set", "oset", "selection"):
            out.append(sorted(x) if k != "oset" else list(x))
            if k == "selection":
                out.append(x.active)
        elif k == "outer":
            out.append([x.a, x.inner.a])
        elif k in EVENTED:
            out.append([x.a, list(x.b)])
        elif k in ("object", "heir"):
            out.append(x.val)
        for i, n in enumerate(self.names()):
            sig = self.sig(i)
            out.append([n, sig.name, sig.description, str(sig.signature), len(sig),
                        [f for f in ("f0", "f1", "f2", "f3", "f5")
                         if getattr(cbs, f) in sig]])
        return out

    def check(self, fail):
        """Signals know whose they are."""
        x = self.x
        if self.kind in ("object", "heir"):
            for i, n in enumerate(self.names()):
                if self.sig(i).instance is not x:
                    fail("instance", f"{n}.instance is not the object")
        elif self.kind in EVENTED:
            if self.group().all.instance is not x:
                fail("instance", "events.instance is not the object")
        if self.kind not in SIGNALS:
            for n in self.group():
                if self.group()[n].instance is not self.group():
                    fail("instance", f"{n}.instance is not the group")


class World:
    def __init__(self, sim, plan):
        self.sim = sim
        self.plan = plan
        self.kind = plan["kind"]
        self.subjects = [Subject(self.kind, plan["cfg"])]
        self.hist: list = [[]]
        self.done: list = []
        self.taken: list = []
        self.fresh_group = False

    def fail(self, kind, msg):
        self.sim.fail(kind, f"{self.kind} {self.plan['cfg']} {self.done}: {msg}")

    def twin(self, j):
        """A subject that went through the history of subject j from the start."""
        hook = cbs.STATE.pop("hook", None)
        t = Subject(self.kind, self.plan["cfg"])
        for op in self.hist[j]:
            if op[0] == "drop-weak":
                t.drop_weak()
            elif op[0] == "reset":
                t.reset()
            else:
                attempt(t.do, op)
        cbs.LOG.clear()
        if hook:
            cbs.STATE["hook"] = hook
        return t

    def inherit(self, j, how, upto=None):
        """The history of a copy that was made of subject j."""
        h = list(self.hist[j] if upto is None else upto)
        if self.kind in FRESH[how]:
            h.append(["reset"])
        else:
            h.append(["drop-weak"])
        return h

    def step(self, op):
        k = op[0]
        j = op[1] % len(self.subjects)
        self.done.append(op)
        if k == "checkpoint":
            self.checkpoint(j, op[2], op[3])
            return
        if k == "restart":
            self.restart(j)
            return
        op = op[2]
        if op[0] == "child" and self.kind not in ("members", "smembers"):
            return
        s = self.subjects[j]
        t = self.twin(j)
        self.current = (j, op)
        cbs.LOG.clear()
        cbs.STATE["hook"] = self.snapshot if self.kind in INSIDE else None
        self.at = op
        e, r = attempt(s.do, op)
        got = self.by_level(cbs.LOG)
        cbs.STATE["hook"] = None
        cbs.LOG.clear()
        e2, r2 = attempt(t.do, op)
        want = self.by_level(cbs.LOG)
        cbs.LOG.clear()
        self.hist[j].append(op)
        self.sim.log(op[0], e or "ok", len(got))
        self.compare(j, op, (e, got, s), (e2, want, t))
        for i, other in enumerate(self.subjects):
            if i != j:
                o = self.twin(i)
                a, b = other.look(), o.look()
                if a != b:
                    self.fail("shared", f"after that, subject {i} is {a}, not {b}")
        self.adopt()

    def by_level(self, log):
        """Listeners of a group and of its members are called in any order."""
        if self.kind in SIGNALS:
            return [list(log)]
        infos = [x for x in log if x[1] and isinstance(x[1][0], list) and x[1][0][:1] == ["info"]]
        return [[x for x in log if x not in infos], infos]

    def compare(self, j, op, a, b):
        (e, got, s), (e2, want, t) = a, b
        if got != want:
            self.fail("delivery", f"subject {j}: {op} delivered {got}, not {want}")
        if e != e2:
            self.fail("outcome", f"subject {j}: {op} ended with {e}, not {e2}")
        x, y = s.look(), t.look()
        if x != y:
            self.fail("state", f"subject {j} after {op} is {x}, not {y}")
        s.check(self.fail)

    def checkpoint(self, j, how, drop):
        s = self.subjects[j]
        if how == "model_copy" and self.kind not in ("model", "props", "outer"):
            how = "deepcopy"
        if how == "copy" and self.kind not in LISTS + OTHERS:
            how = "deepcopy"
        if how == "pickle":
            e, r = attempt(pickle.dumps, s.x)
            if e is None:
                e, r = attempt(pickle.loads, r)
            elif self.kind in EVENTED and self.kind != "uncached":
                self.sim.stat("not-picklable")
                return  # documented for groups that are cached on the object
        elif how == "model_copy":
            e, r = attempt(s.x.model_copy, deep=True)
        elif how == "copy":
            e, r = attempt(copy.copy, s.x)
        else:
            e, r = attempt(copy.deepcopy, s.x)
        if e is not None:
            self.fail("no-copy", f"{how} ended with {e}: {r}")
        self.sim.fault(f"checkpoint-{how}")
        self.add(j, how, r)
        if drop:
            self.sim.fault("original-dropped")
            self.forget(j)

    def add(self, j, how, x, upto=None):
        n = Subject(self.kind, self.plan["cfg"], x)
        h = self.inherit(j, how, upto)
        if how == "copy" and self.kind in ("selectable", "smembers", "selection"):
            # (only the items are copied, which are selected anew)
            h = None
        self.subjects.append(n)
        self.hist.append(h)
        if h is None or (how == "copy" and self.kind in ("members", "smembers")):
            # not the same items as those of a twin: only compare the items
            a, b = list(x), list(self.subjects[j].x)
            if a != b and sorted(map(hash, a)) != sorted(map(hash, b)):
                self.fail("state", f"copied {a}, not {b}")
            self.subjects.pop(), self.hist.pop()
            return
        t = self.twin(len(self.hist) - 1)
        a, b = n.look(), t.look()
        if a != b:
            self.fail("state", f"{how} of subject {j} is {a}, not {b}")
        n.check(self.fail)

    def forget(self, j):
        if len(self.subjects) > 1:
            del self.subjects[j], self.hist[j]
            gc.collect()

    def restart(self, j):
        """A new process, with nothing but what was pickled."""
        s = self.subjects[j]
        e, r = attempt(pickle.dumps, s.x)
        if e is not None:
            if self.kind in EVENTED and self.kind != "uncached":
                self.sim.stat("not-picklable")
                return
            self.fail("no-copy", f"pickling ended with {e}: {r}")
        self.sim.fault("crash-restart")
        h = self.inherit(j, "pickle")
        s = None
        self.subjects, self.hist = [], []
        gc.collect()
        importlib.reload(cbs)
        x = pickle.loads(r)
        self.subjects, self.hist = [Subject(self.kind, self.plan["cfg"], x)], [h]
        t = self.twin(0)
        a, b = self.subjects[0].look(), t.look()
        if a != b:
            self.fail("state", f"restored {a}, not {b}")
        self.subjects[0].check(self.fail)

    def snapshot(self):
        """A callback copies the subject that is being used."""
        j, op = self.current
        if op[0] not in ("emit", "fast", "resume", "mutate") or len(self.taken) > 3:
            return
        if self.kind == "outer" and op[1] % 3 == 2:
            return  # only half done
        self.sim.fault("checkpoint-in-callback")
        x = self.subjects[j].x
        how, fn = "deepcopy", copy.deepcopy
        if self.kind in ("model", "props", "outer") and len(self.done) % 2:
            how, fn = "model_copy", lambda x: x.model_copy(deep=True)
        e, r = attempt(fn, x)
        if e is not None:
            self.fail("no-copy", f"{how} in a callback ended with {e}: {r}")
        h = list(self.hist[j])
        self.taken.append((j, how, r, [*h, op] if op[0] in ("resume", "mutate") else h))

    def adopt(self):
        for j, how, x, h in self.taken:
            if len(self.subjects) < 4:
                self.add(j, how, x, h)
        self.taken = []


def gen_op(rng, kind):
    sig = kind in SIGNALS
    # (selectable lists listen to their own signals)
    quiet = 0 if kind in ("selectable", "smembers") else 1
    k = weighted(rng, {
        "connect": 7, "disconnect": 2, "weak": 1, "emit": 6 if sig or kind == "group" else 0,
        "fast": 1 if sig else 0, "blocked": quiet, "pause": 1.5 * quiet, "resume": 1.5 * quiet,
        "child": 3 if "members" in kind else 0,
        "mutate": 0.5 if sig else 0 if kind == "group" else 8,
    })
    i = rng.randrange(8)
    if k == "connect":
        kw = {}
        if rng.random() < 0.35:
            kw["priority"] = rng.choice([-1, 1, 2])
        if rng.random() < 0.1:
            kw["max_args"] = rng.choice([0, 1]) if sig else 1
        if rng.random() < 0.1:
            kw["unique"] = rng.choice([True, "raise"])
        # (whether callbacks of a group are called before those of its members, one of
        # which may fail, isn't specified)
        f = rng.choice(["f0", "f1", "f4", "f5", *(("f2", "f3") if sig else ())])
        return [k, i, f, rng.randrange(3), kw]
    if k == "disconnect":
        return [k, i, rng.choice(["f0", "f1", "f2", "f3", "f5"])]
    if k in ("emit", "fast"):
        return [k, i, rng.choice([1, 2, 3, 7, 13])]
    if k == "blocked":
        return [k, i, rng.random() < 0.5]
    if k == "child":
        return [k, i, rng.choice([1, 2, 13])]
    if k == "mutate":
        return [k, rng.randrange(7), i, rng.choice([1, 2, 3, 7, 13])]
    return [k, i]


def duel(rng, kind):
    """The same signal of several subjects is used at once."""
    i = rng.randrange(8)
    v = [rng.choice([1, 2, 3, 7]) for _ in range(3)]
    if kind in SIGNALS or kind == "group":
        use = [["emit", i, v[0]], ["emit", i, v[1]]]
    else:
        use = [["mutate", rng.randrange(7), i, v[0]], ["mutate", rng.randrange(7), i, v[1]]]
    how = [] if kind in ("selectable", "smembers") else rng.choice(
        ["pause", "pause", "block", "connect", "none"])
    f = ["f0", "f1", "f4"]
    seqs = []
    for _ in range(rng.choice([2, 2, 3])):
        u = use[:rng.choice([1, 2])]
        seqs.append({
            "pause": [["pause", i], *u, ["resume", i]],
            "block": [["blocked", i, True], *u, ["blocked", i, False], u[0]],
            "connect": [["connect", i, rng.choice(f), 1, {}], *u, ["disconnect", i, "f0"], u[0]],
        }.get(how or "none", u))
    out = []
    while any(seqs):
        j = rng.choice([j for j, q in enumerate(seqs) if q])
        out.append(["op", j, seqs[j].pop(0)])
    return out


class Copies(Scenario):
    """C29."""

    name = "copies"
    threaded = False

    def gen(self, rng, tier):
        kind = weighted(rng, {**dict.fromkeys(KINDS, 2), "signal": 6, "object": 8, "group": 5})
        ops = []
        for _ in range(rng.choice([4, 8, 12, 16])):
            r, j = rng.random(), rng.randrange(4)
            if r < 0.13:
                how = rng.choice(["pickle", "pickle", "deepcopy", "deepcopy", "model_copy",
                                  "copy"])
                drop = rng.random() < 0.3
                ops.append(["checkpoint", j, how, drop])
                if not drop and rng.random() < 0.5:
                    ops += duel(rng, kind)
            elif r < 0.18:
                ops.append(["restart", j])
            else:
                ops.append(["op", j, gen_op(rng, kind)])
        return {
            "kind": kind,
            "cfg": {"name": rng.choice(["s", None]), "desc": rng.choice(["", "d"]),
                    "mode": rng.choice(["immediate", "queued", "latest-only"]),
                    "nargs": rng.random() < 0.8, "types": rng.random() < 0.2},
            "ops": ops,
        }

    def run(self, sim: Sim, plan: dict) -> None:
        cbs.LOG.clear()
        cbs.STATE.clear()
        w = World(sim, plan)
        for op in plan["ops"]:
            if len(w.subjects) > 3 and op[0] == "checkpoint":
                continue
            w.step(op)

    def nontrivial(self, sim, plan):
        return bool(sim.faults)
