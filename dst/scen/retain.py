"""C09: nothing that was emitted is kept once it has been delivered."""

from __future__ import annotations

import gc
import weakref
from dataclasses import dataclass
from functools import partial
from typing import Any, ClassVar

from psygnal import (
    EventedModel,
    Signal,
    SignalGroup,
    SignalGroupDescriptor,
    SignalInstance,
    debounced,
    emit_queued,
    throttled,
)
from psygnal.containers import (
    EventedDict,
    EventedList,
    EventedObjectProxy,
    EventedOrderedSet,
    EventedSet,
    SelectableEventedList,
    Selection,
)
from psygnal.utils import monitor_events

from ..base import Scenario
from ..core import Sim, SimAbort
from ..lib import weighted
from .contain import Boom

MODES = ["immediate", "queued", "latest-only"]


def attempt(fn, *a):
    """(None, result) or (exception type name, None); the exception is dropped as it is."""
    try:
        return None, fn(*a)
    except SimAbort:
        raise
    except BaseException as e:
        return type(e).__name__, None


class Token:
    """A value of which nobody else has a copy."""

    __slots__ = ("__weakref__", "label", "left", "mood")

    def __init__(self, label, mood=None, left=0):
        self.label = label
        self.mood = mood
        self.left = left

    def __hash__(self):
        return hash(self.label)  # (the same in every run)

    __eq__ = object.__eq__


class Owner:
    a = Signal(object)
    b = Signal(object, reemission="queued")
    c = Signal(object, reemission="latest-only")


class Group(SignalGroup):
    a = Signal(object)
    b = Signal(object, reemission="queued")


@dataclass
class Data:
    x: Any = None
    y: Any = None
    events: ClassVar[SignalGroupDescriptor] = SignalGroupDescriptor()


class Model(EventedModel):
    x: Any = None
    y: Any = None


class Props(EventedModel):
    model_config = {"allow_property_setters": True, "field_dependencies": {"p": ["x", "y"]}}
    x: Any = None
    y: Any = None

    @property
    def p(self):
        return [self.x, self.y]

    @p.setter
    def p(self, v):
        self.x = v


class Thing:
    """What a proxy stands for."""

    def __init__(self):
        self.x = None


class Receiver:
    val: Any = None

    def __init__(self, fn):
        self.fn = fn

    def method(self, *a):
        self.fn(*a)

    def more(self, _extra, *a):
        self.fn(*a)


HOLDERS = {
    "list": lambda: EventedList(),
    "clist": lambda: EventedList(child_events=True),
    "selectable": lambda: SelectableEventedList(),
    "dict": lambda: EventedDict(),
    "set": lambda: EventedSet(),
    "oset": lambda: EventedOrderedSet(),
    "selection": lambda: Selection(),
    "data": Data,
    "model": Model,
    "props": Props,
    "proxy": lambda: EventedObjectProxy(Thing()),
}

def _ignore(*args):
    pass


for _make in HOLDERS.values():  # (what is done once for each class)
    _made = _make()
    _made.events.connect(_ignore)
    if hasattr(_made, "x"):
        _made.x = "-"
    _made.events.disconnect(_ignore)
emit_queued()
del _made


class World:
    def __init__(self, sim: Sim, plan: dict):
        self.sim = sim
        self.plan = plan
        self.n = 0
        self.tokens: list = []  # (weak reference, description)
        self.keep: list = []
        self.now = ""
        self.calls = 0
        self.runaway = False
        self.mutilated = False  # a logger has kept changes from being emitted
        self.owner = Owner()
        self.group = Group()
        self.lone = SignalInstance((object,), reemission=plan["mode"])
        self.sigs = [self.owner.a, self.owner.b, self.owner.c, self.group.a, self.group.b,
                     self.lone]
        self.hkind = plan["holder"]
        self.holder = HOLDERS[self.hkind]()
        self.hgroup = None if self.hkind == "proxy" else self.holder.events
        if self.hkind == "proxy":
            self.hgroup = self.holder.events
        self.all = [*self.sigs, self.group.all, self.hgroup.all,
                    *(self.hgroup[n] for n in self.hgroup)]
        for c in plan["slots"]:
            attempt(self.connect, *c)

    # -- listeners ------------------------------------------------------------
    def connect(self, i, how, prio):
        sig = self.all[i % len(self.all)]
        sim = self.sim

        def look(*a):
            self.calls += 1
            # (where the token is, alone or in what is emitted with it)
            for x in a:
                x = x.args if hasattr(x, "signal") else x
                for y in x if isinstance(x, (tuple, list)) else (x,):
                    if isinstance(y, Token) and y.mood == "fail" and how == "fail":
                        sim.fault("listener-fails")
                        raise Boom(y.label)
                    if isinstance(y, Token) and y.mood == "again" and how == "again":
                        if y.left > 0 or (self.runaway and self.calls < 5000):
                            sim.fault("listener-reenters")
                            left, y = y.left, None
                            x = a = None
                            self.emit(sig, self.token("again", left - 1), False)
                            return

        if how in ("plain", "again", "fail"):
            sig.connect(look, priority=prio)
        elif how == "method":
            r = Receiver(look)
            self.keep.append(r)
            sig.connect(r.method, priority=prio)
        elif how == "partial":
            r = Receiver(look)
            self.keep.append(r)
            sig.connect(partial(r.more, 1), priority=prio)
        elif how == "noargs":
            sig.connect(look, priority=prio, max_args=0)
        elif how == "chain":
            if sig in self.sigs and sig is not self.lone:
                sig.connect(self.lone.emit, priority=prio)
        elif how == "queued":
            sig.connect(look, priority=prio, thread="main")
        elif how in ("throttled", "debounced"):
            f = {"throttled": throttled, "debounced": debounced}[how](look, timeout=50)
            self.keep.append(f)
            sig.connect(f, priority=prio)
        elif how == "weakdies":
            r = Receiver(look)
            sig.connect(r.method, priority=prio)
        elif how == "once":
            def once(*a):
                sig.disconnect(once)

            sig.connect(once, priority=prio)
        elif how == "dispenser":
            def drop(*a):
                self.keep.clear()  # receivers die during the emission

            sig.connect(drop, priority=prio)

    # -- values -----------------------------------------------------------------
    def token(self, mood=None, left=0):
        self.n += 1
        t = Token(self.n, mood, left)
        self.tokens.append((weakref.ref(t), f"token {self.n} of {self.now}"))
        return t

    def emit(self, sig, t, fast):
        (sig.emit_fast if fast else sig.emit)(t)

    def held(self):
        """What the harness knows to be stored on purpose."""
        h, k = self.holder, self.hkind
        if k == "proxy":
            return {id(h.x)}
        if k in ("data", "model", "props"):
            return {id(h.x), id(h.y)}
        if k == "dict":
            return {id(v) for v in h.values()} | {id(v) for v in h}
        out = {id(v) for v in h}
        # (an item stays the current one when it is deselected)
        if k == "selection":
            out |= {id(h.active), id(h._current)}
        if k == "selectable":
            s = h.selection
            out |= {id(v) for v in s} | {id(s.active), id(s._current)}
        return out

    # -- operations ---------------------------------------------------------------
    def do(self, op):
        k = op[0]
        if k == "emit":
            _, i, fast, mood, left = op
            self.emit(self.sigs[i % len(self.sigs)], self.token(mood, left), fast)
        elif k == "runaway":
            self.runaway = True
            try:
                self.emit(self.sigs[op[1] % len(self.sigs)], self.token("again"), False)
            finally:
                self.runaway = False
        elif k == "checked":
            sig = self.sigs[op[1] % len(self.sigs)]
            if op[2]:
                sig.emit(self.token(), self.token(), check_nargs=True)  # one too many
            else:
                sig.emit(self.token(), check_nargs=True, check_types=True)
        elif k == "paused":
            self.paused(op)
        elif k == "blocked":
            with self.all[op[1] % len(self.all)].blocked():
                self.do(op[2])
        elif k == "monitored":
            self.monitored(op)
        elif k == "thread":
            errs: list = []

            def work():
                e, r = attempt(self.do, op[1])
                errs.append(e)
                r = None

            self.sim.spawn(work, "w")
            self.sim.join_all()
            if errs != [None]:
                self.failed = True
        elif k == "drain":
            emit_queued()
        elif k == "hold":
            self.mutate(*op[1:])

    def paused(self, op):
        _, i, reduce, ops = op
        sig = self.all[i % len(self.all)]
        with_args = {
            "none": (),
            "last": (lambda a, b: b,),
            "one": (lambda all_args: list(all_args)[0],),
            "init": (lambda a, b: b, (None,)),
            "fail": (self.fails,),
        }[reduce]
        if reduce == "fail":
            self.sim.fault("reducer-fails")
        sig.pause()
        try:
            for o in ops:
                e, r = attempt(self.do, o)
                if e is not None:
                    self.failed = True
                r = None
        finally:
            sig.resume(*with_args)

    @staticmethod
    def fails(a, b):
        raise Boom("reducer")

    def monitored(self, op):
        seen = []

        def logger(info):
            seen.append(len(info.args))
            if op[1] == "fail":
                self.sim.fault("logger-fails")
                self.mutilated = True
                raise Boom("logger")

        with monitor_events(None if op[1] != "obj" else self.owner, logger):
            self.do(op[2])

    def mutate(self, how, i, mood):
        h, k = self.holder, self.hkind
        t = self.token(mood)
        if k in ("list", "clist", "selectable"):
            n = len(h)
            if how == 0 or not n:
                h.append(t)
            elif how == 1:
                h.pop(i % n)
            elif how == 2:
                h[i % n] = t
            elif how == 3:
                h[i % n:] = [t, self.token()]
            elif how == 4:
                h.clear()
            elif how == 5:
                h.extend([t, self.token()])
            elif how == 6:
                h.reverse()
            elif how == 7:
                h.move(i % n, 0)
            elif how == 8 and k == "selectable":
                h.selection.active = h[i % n]
            elif how == 9 and k == "selectable":
                h.selection.toggle(h[i % n])
            elif how == 10 and k == "selectable":
                h.remove_selected()
        elif k == "dict":
            if how < 3:
                h[i % 3] = t
            elif how < 5:
                h.pop(i % 3, None)
            elif how == 5:
                h.clear()
            elif how == 6:
                h.update({1: t, 2: self.token()})
            elif how == 7:
                h[t] = t
            elif h:
                h.popitem()
        elif k in ("set", "oset", "selection"):
            if how < 3:
                h.add(t)
            elif how == 3 and h:
                h.discard(next(iter(h)))
            elif how == 4:
                h.clear()
            elif how == 5:
                h.update([t, self.token()])
            elif how == 6:
                h.symmetric_difference_update([t, *list(h)[:1]])
            elif how == 7:
                h.intersection_update(list(h)[:1])
            elif how == 8 and k == "selection":
                h.active = t
            elif how == 9 and k == "selection":
                h.toggle(t)
            elif h:
                h.pop()
        elif k == "proxy":
            if how < 6:
                h.x = t
            else:
                h.x = None
        elif how < 4:
            h.x = t
        elif how < 6:
            h.y = t
        elif how == 6:
            h.x = None
        elif k == "data":
            h.x = h.y = t
        elif how == 7:
            h.update({"x": t, "y": self.token()})
        elif how == 8:
            h.reset()
        elif k == "props":
            h.p = t

    # -- oracle ----------------------------------------------------------------------
    def step(self, op):
        self.now = str(op)
        self.failed = False
        e, r = attempt(self.do, op)
        r = None
        self.sim.log(op[0], e or "ok", self.calls)
        ok = [None, "EmitLoopError", "RecursionError", "TypeError", "Boom"]
        if self.mutilated:  # selections may not have learned of it
            ok.append("ValueError")
        if e not in ok:
            self.sim.fail("outcome", f"{op} ended with {e}")
        emit_failures = 0
        while True:  # what threads have left for this one
            e, r = attempt(emit_queued)
            r = None
            if e is None or (emit_failures := emit_failures + 1) > 100:
                break
        self.sim.sleep(0.2)  # throttled calls
        self.check(op)

    def check(self, op):
        held = self.held()
        alive = [x for x in self.tokens if x[0]() is not None and id(x[0]()) not in held]
        if alive:
            gc.collect()  # (failures leave cycles of frames)
            alive = [x for x in alive if x[0]() is not None]
        if alive:
            ref, what = alive[0]
            self.sim.fail("kept", f"after {op} with {self.plan['slots']} {self.hkind}: {what} is "
                          f"kept by {self.trail(ref())}")
        self.tokens = [x for x in self.tokens if x[0]() is not None]

    def trail(self, obj):
        out = []
        seen = {id(self.tokens)}
        for _ in range(5):
            for r in gc.get_referrers(obj):
                name = type(r).__name__
                if name in ("frame", "list_iterator", "Referrers") or id(r) in seen:
                    continue
                seen.add(id(r))
                out.append(name)
                obj = r
                break
            else:
                break
        return " < ".join(out)


def gen_op(rng, depth=0):
    k = weighted(rng, {
        "emit": 8, "hold": 10, "checked": 0.7, "runaway": 0.4 if depth == 0 else 0,
        "paused": 3 if depth < 2 else 0, "blocked": 1 if depth < 2 else 0,
        "monitored": 1 if depth < 2 else 0, "thread": 2 if depth == 0 else 0, "drain": 0.5,
    })
    i = rng.randrange(24)
    if k == "emit":
        mood = rng.choice([None, None, "fail", "again"])
        return [k, i, rng.random() < 0.25, mood, rng.choice([0, 1, 3])]
    if k == "hold":
        return [k, rng.randrange(11), i, rng.choice([None, None, None, "fail"])]
    if k == "checked":
        return [k, i, rng.random() < 0.5]
    if k == "runaway":
        return [k, i]
    if k == "paused":
        return [k, i, rng.choice(["none", "none", "last", "one", "init", "fail"]),
                [gen_op(rng, depth + 1) for _ in range(rng.choice([1, 2, 3]))]]
    if k == "blocked":
        return [k, i, gen_op(rng, depth + 1)]
    if k == "monitored":
        return [k, rng.choice(["all", "obj", "fail"]), gen_op(rng, depth + 1)]
    if k == "thread":
        return [k, gen_op(rng, depth + 1)]
    return [k]


class Retain(Scenario):
    """C09."""

    name = "retain"
    threaded = False
    uses_gc = "always"

    def gen(self, rng, tier):
        hows = ["plain", "again", "fail", "method", "partial", "noargs", "chain", "queued",
                "throttled", "debounced", "weakdies", "once", "dispenser", "plain", "fail",
                "again"]
        slots = [[rng.randrange(24), rng.choice(hows), rng.choice([0, 0, 1, -1])]
                 for _ in range(rng.choice([1, 3, 6, 10]))]
        ops = [gen_op(rng) for _ in range(rng.choice([4, 8, 12]))]
        if any(o[0] == "runaway" for o in ops):
            # (no timers where there may not be stack enough left to start them)
            slots = [s for s in slots if s[1] not in ("throttled", "debounced")]
        return {
            "mode": rng.choice(MODES),
            "holder": rng.choice(list(HOLDERS)),
            "slots": slots,
            "ops": ops,
        }

    def run(self, sim: Sim, plan: dict) -> None:
        emit_queued()  # (the main thread's queue outlives a run)
        w = World(sim, plan)
        for op in plan["ops"]:
            w.step(op)

    def nontrivial(self, sim, plan):
        return any(x[3] for x in sim.log_)
