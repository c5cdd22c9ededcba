"""C03: signals get their mode from wherever it is declared."""

from __future__ import annotations

from typing import Any

from pydantic import Field

from psygnal import EventedModel, Signal, SignalGroup, SignalInstance
from psygnal._signal import ReemissionMode

from ..base import Scenario

MODES = ("immediate", "queued", "latest-only")


class E:
    i = Signal(object)
    q = Signal(object, reemission="queued")
    l = Signal(object, reemission=ReemissionMode.LATEST)


class Slots:
    __slots__ = ("__weakref__",)
    i = Signal(object, reemission="immediate")
    q = Signal(object, reemission=ReemissionMode.QUEUED)
    l = Signal(object, reemission="latest-only")


class Heir(E):
    """Declares some signals again."""

    i = Signal(object, reemission="queued", name="again")
    q = Signal(object)


class G(SignalGroup):
    i = Signal(object)
    q = Signal(object, reemission="queued")
    l = Signal(object, reemission="latest-only")


class GHeir(G):
    q = Signal(object, reemission="latest-only")
    x = Signal(object, reemission="queued")


class Mapped(EventedModel):
    """Signals of fields that aren't mentioned are latest-only."""

    model_config = {
        "reemission": {"i": "immediate", "q": "queued", "p": "immediate", "r": "queued"},
        "allow_property_setters": True,
    }
    l: Any = 0
    i: Any = 0
    q: Any = 0
    l2: Any = 0

    @property
    def o(self):
        return 1

    @o.setter
    def o(self, v): ...

    @property
    def p(self):
        return 1

    @p.setter
    def p(self, v): ...

    @property
    def r(self):
        return 1

    @r.setter
    def r(self, v): ...


class MappedFields(EventedModel):
    model_config = {"reemission": {"q": ReemissionMode.QUEUED, "i": "immediate"}}
    l: Any = 0
    i: Any = 0
    q: Any = 0


class Aliased(EventedModel):
    """Modes go by the names of fields, not by their aliases."""

    model_config = {
        "reemission": {"q": "queued", "i": "immediate", "l": "latest-only", "z": "queued"},
        "populate_by_name": True,
    }
    l: Any = Field(0, alias="q_")
    i: Any = Field(0, alias="z")
    q: Any = Field(0, alias="Q")
    y: Any = Field(0, validation_alias="i", serialization_alias="q")


class AllQueued(EventedModel):
    model_config = {"reemission": "queued"}
    x: Any = 0
    y: Any = 0


class AllImmediate(AllQueued):
    model_config = {"reemission": ReemissionMode.IMMEDIATE}
    z: Any = 0


_I, _Q, _L = MODES
OWNERS = {
    "class": (E, {"i": _I, "q": _Q, "l": _L}),
    "slots": (Slots, {"i": _I, "q": _Q, "l": _L}),
    "heir": (Heir, {"i": _Q, "q": _I, "l": _L}),
    "group": (G, {"i": _I, "q": _Q, "l": _L}),
    "group-heir": (GHeir, {"i": _I, "q": _L, "l": _L, "x": _Q}),
    "mapped": (Mapped, {"i": _I, "q": _Q, "l": _L, "l2": _L, "o": _L, "p": _I, "r": _Q}),
    "mapped-fields": (MappedFields, {"i": _I, "q": _Q, "l": _L}),
    "aliased": (Aliased, {"i": _I, "q": _Q, "l": _L, "y": _L}),
    "all-queued": (AllQueued, {"x": _Q, "y": _Q}),
    "all-immediate": (AllImmediate, {"x": _I, "y": _I, "z": _I}),
    "alone": (None, {m: m for m in MODES}),
}


def signal_of(owner, name):
    """The signal, and what keeps it alive."""
    cls = OWNERS[owner][0]
    if cls is None:
        s = SignalInstance((object,), reemission=name)
        return s, s
    o = cls()
    if isinstance(o, SignalGroup):
        return o[name], o
    if isinstance(o, EventedModel):
        return o.events[name], o
    return getattr(o, name), o


for _o, (_c, _ns) in OWNERS.items():  # what is set up lazily
    for _n in _ns:
        signal_of(_o, _n)[0].emit(0)


class Declared(Scenario):
    """Re-emissions of signals declared in every way follow their declared mode."""

    name = "declared"
    threaded = False
    shrink_keys = ("sigs", "script")

    def gen(self, rng, tier):
        sigs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            o = rng.choice(sorted(OWNERS))
            sigs.append([o, rng.choice(sorted(OWNERS[o][1]))])
        # what the first callback emits when it gets its n-th emission
        script = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            script.append([rng.randrange(len(sigs)) for _ in range(rng.choice([0, 1, 1, 2]))])
        return {"sigs": sigs, "script": script, "first": rng.random() < 0.5,
                "tops": rng.choice([1, 1, 2])}

    def run(self, sim, plan):
        sigs, keep, modes = [], [], []
        for o, n in plan["sigs"]:
            s, k = signal_of(o, n)
            sigs.append(s)
            keep.append(k)
            modes.append(OWNERS[o][1][n])
        script = plan["script"]
        log: list = []  # what really happened
        model = Model(modes, script)
        count = [0]
        calls = [0]

        def emitter(k):
            def f(v):
                log.append((k, "a", v))
                n = calls[0]
                calls[0] += 1
                for j in script[n] if n < len(script) else ():
                    if count[0] < 12:
                        count[0] += 1
                        sigs[j].emit(count[0])

            return f

        def recorder(k):
            return lambda v: log.append((k, "b", v))

        for k, s in enumerate(sigs):
            fs = [emitter(k), recorder(k)]
            for f in fs:
                s.connect(f, check_nargs=False)
        for t in range(plan["tops"]):
            count[0] += 1
            v = count[0]
            sigs[0].emit(v)
            model.count = v
            model.emit(0, v)
        sim.log(*log)
        if log != model.log:
            sim.fail(
                "order",
                f"{plan['sigs']} ({modes}) with {script}: callbacks got {log} instead of "
                f"{model.log}",
            )

    def nontrivial(self, sim, plan):
        return any(plan["script"])


class Model:
    """How emissions of signals of given modes are processed."""

    def __init__(self, modes, script):
        self.modes = modes
        self.script = script
        self.log: list = []
        self.count = 0
        self.calls = 0
        self.queues: list = [[] for _ in modes]
        self.busy = [False] * len(modes)
        self.last = [0] * len(modes)

    def emit(self, k, v):
        mode = self.modes[k]
        if mode == "immediate":
            self.deliver(k, v)
            return
        if mode == "latest-only":
            # a nested emission takes the place of what is left of outer ones
            self.last[k] += 1
            mine = self.last[k]
            self.first(k, v)
            if self.last[k] == mine:
                self.log.append((k, "b", v))
            return
        self.queues[k].append(v)
        if self.busy[k]:
            return
        self.busy[k] = True
        while self.queues[k]:
            self.deliver(k, self.queues[k].pop(0))
        self.busy[k] = False

    def deliver(self, k, v):
        self.first(k, v)
        self.log.append((k, "b", v))

    def first(self, k, v):
        self.log.append((k, "a", v))
        n = self.calls
        self.calls += 1
        for j in self.script[n] if n < len(self.script) else ():
            if self.count < 12:
                self.count += 1
                self.emit(j, self.count)
