"""C28: monitor_events logs every emission once and leaves nothing connected."""

from __future__ import annotations

import dataclasses

from psygnal import EmissionInfo, EventedModel, Signal, SignalGroup, SignalInstance, evented
from psygnal.containers import EventedList
from psygnal.utils import monitor_events

from ..base import Scenario
from ..core import Sim
from ..lib import attempt, weighted
from .contain import Boom

MODES = ["immediate", "queued", "latest-only"]


class Sig:
    a = Signal(int)
    b = Signal(int, reemission="queued")
    _c = Signal(int)


class Alias:
    a = Signal(int)
    _b = Signal(int)

    @property
    def again(self):
        return self.a

    @property
    def _private_again(self):
        return self.a


class BadProp:
    a = Signal(int)
    z = Signal(int)

    @property
    def broken(self):
        raise ValueError("broken")

    @property
    def missing(self):
        raise AttributeError("missing")


class Group(SignalGroup):
    a = Signal(int)
    b = Signal(int)


class Holder:
    own = Signal(int)

    def __init__(self):
        self.ev = Group()
        self._same = self.ev


class Names:
    """Different signals of the same name."""

    a = Signal(int, name="s")
    b = Signal(int, name="s", reemission="queued")
    _c = Signal(int, name="s")


class Pair:
    """Two groups of the same class."""

    def __init__(self):
        self.ev = Group()
        self.ev2 = Group()


class Loose:
    """Not the class has the signals, but the object."""

    def __init__(self):
        self.a = SignalInstance((int,))
        self.b = SignalInstance((int,))
        self.sig = Sig()
        self.items = [self.a, self.sig.a]


@evented
@dataclasses.dataclass
class DC:
    x: int = 0
    y: int = 0


class Model(EventedModel):
    x: int = 0
    y: int = 0


# kind -> (make, {signal: (is it private, the signal, how to emit)}, logged through a group)
def direct(name):
    return lambda o: getattr(o, name), lambda o, k: getattr(o, name).emit(k)


def member(attr, name):
    return (lambda o: getattr(o, attr)[name] if attr else o[name],
            lambda o, k: (getattr(o, attr)[name] if attr else o[name]).emit(k))


def field(name):
    return lambda o: o.events[name], lambda o, k: setattr(o, name, k)


KINDS = {
    "sig": (Sig, {"a": direct("a"), "b": direct("b"), "_c": direct("_c")}, False),
    "alias": (Alias, {"a": direct("a"), "_b": direct("_b")}, False),
    "bad": (BadProp, {"a": direct("a"), "z": direct("z")}, False),
    "group": (Group, {"a": member("", "a"), "b": member("", "b")}, False),
    "holder": (Holder, {"own": direct("own"), "a": member("ev", "a"), "b": member("ev", "b")},
               True),
    "names": (Names, {"a": direct("a"), "b": direct("b"), "_c": direct("_c")}, False),
    "pair": (Pair, {"a": member("ev", "a"), "b": member("ev", "b"), "a2": member("ev2", "a"),
                    "b2": member("ev2", "b")}, True),
    "loose": (Loose, {"a": direct("a"), "b": direct("b")}, False),
    "dc": (DC, {"x": field("x"), "y": field("y")}, True),
    "model": (Model, {"x": field("x"), "y": field("y")}, True),
    "list": (EventedList, {
        "removing": (lambda o: o.events.removing, lambda o, k: o.events.removing.emit(k)),
        "reordered": (lambda o: o.events.changed, lambda o, k: o.events.changed.emit(k, 0, 1)),
    }, True),
}


def leaf(args):
    """The value that identifies an emission."""
    a = args[0]
    return leaf(a.args) if isinstance(a, EmissionInfo) else a


class Monitor:
    def __init__(self, w, i, spec):
        self.w = w
        self.i = i
        self.spec = spec
        self.logs: dict = {}
        self.calls = 0
        self.lost: set = set()
        logger = self.old if spec["old"] else self.new
        if spec["old"]:
            def logger(name, args, _f=self.old):
                return _f(name, args)
        self.cm = monitor_events(None if i is None else w.objs[i], logger, spec["private"])

    def covers(self, i, name):
        if self.i is None:
            return True
        return self.i == i and (self.spec["private"] or not name.startswith("_"))

    def new(self, info):
        w = self.w
        if not isinstance(info, EmissionInfo):
            w.fail("info", f"logger called with {info!r}")
        k = leaf(info.args)
        i, name = w.emitted[k]
        s = w.signal(i, name)
        if self.i is not None and w.kind(i)[2] and name != "own":
            inner = info.args[0]
            if not isinstance(inner, EmissionInfo) or inner.signal is not s:
                w.fail("info", f"group emission of {s} logged as {info!r}")
        elif info.signal is not s:
            w.fail("info", f"emission of {s} logged as {info!r}")
        self.called(k)

    def old(self, name, args):
        self.called(leaf(args))

    def called(self, k):
        self.logs[k] = self.logs.get(k, 0) + 1
        self.calls += 1
        for n, act in self.spec["acts"]:
            if n == self.calls:
                self.w.act(act)


class World:
    def __init__(self, sim: Sim, plan: dict):
        self.sim = sim
        self.plan = plan
        self.objs = [KINDS[k][0]() for k in plan["objs"]]
        self.emitted: dict = {}
        self.k = 100
        self.depth = 0
        self.emitting = 0
        self.mons: list = []  # active ones
        self.all: list = []
        self.window: list = []  # values of the outermost emission in progress
        self.dirty = False
        self.touched: set = set()  # monitors not active throughout
        self.user: dict = {}  # (obj, signal) -> [(priority, slot id)]
        self.slots: dict = {}
        self.heard: list = []
        self.n = 0
        self.held: list = []  # pauses and blocks
        self.base = self.lens()

    def fail(self, kind, msg):
        self.sim.fail(kind, msg)

    def kind(self, i):
        return KINDS[self.plan["objs"][i]]

    def signal(self, i, name):
        return self.kind(i)[1][name][0](self.objs[i])

    def lens(self):
        out = {}
        for i, o in enumerate(self.objs):
            for name in self.kind(i)[1]:
                out[i, name] = len(self.signal(i, name))
            g = o if isinstance(o, SignalGroup) else getattr(o, "ev", getattr(o, "events", None))
            if (relay := getattr(g, "all", None)) is not None:
                out[i, "relay"] = len(relay)
            if isinstance(o, Pair):
                out[i, "relay2"] = len(o.ev2.all)
        return out

    # operations -------------------------------------------------------
    def target(self, op):
        i = op[1] % len(self.objs)
        names = list(self.kind(i)[1])
        return i, names[op[2] % len(names)]

    def act(self, act):
        if act[0] == "raise":
            self.sim.fault("callback-fails")
            raise Boom("act")
        if self.depth < 5:
            self.sim.fault("callback-reenters")
            self.do(act[1])

    def do(self, op):
        self.depth += 1
        try:
            self.apply(op)
        finally:
            self.depth -= 1

    def apply(self, op):
        k = op[0]
        self.sim.log(k)
        if k == "emit":
            self.emit(*self.target(op))
        elif k == "connect":
            self.connect(*self.target(op), op[3], op[4])
        elif k == "disconnect":
            self.disconnect(*self.target(op), op[3])
        elif k == "discall":
            self.discall(*self.target(op))
        elif k == "monitor":
            self.monitor(op[1], op[2])
        elif k == "enter":
            if len(self.mons) < 5:
                self.enter(op[1])
        elif k == "exit":
            free = [m for m in self.mons if not m.held]
            if free:
                self.exit(free[op[1] % len(free)])
        elif k == "hold":
            self.hold(op)

    def enter(self, spec):
        i = None if spec["obj"] is None else spec["obj"] % len(self.objs)
        m = Monitor(self, i, spec)
        before = self.lens()
        e, r = attempt(m.cm.__enter__)
        if e is not None:
            if self.lens() != before:
                self.fail("left-connected", f"failed with {e}, leaving connections")
            self.fail("entry", f"monitor_events of a {self.plan['objs'][i]} object: {r!r}")
        m.held = False
        self.mons.append(m)
        self.all.append(m)
        if self.emitting:
            self.touched.add(id(m))
        return m

    def exit(self, m, exc=None):
        if m.i is None:
            if [x for x in self.mons if x.i is None][-1] is not m:
                return  # global ones end in reverse order
        self.mons.remove(m)
        if self.emitting:
            self.touched.add(id(m))
        if exc is None:
            e, r = attempt(m.cm.__exit__, None, None, None)
            if e is not None:
                self.fail("exit", f"{e} {r}")
        else:
            e, r = attempt(m.cm.__exit__, type(exc), exc, None)
            if r is not exc and r:
                self.fail("exit", f"the error of the body was replaced by {e} {r}")

    def monitor(self, spec, body):
        if len(self.mons) >= 5:
            return
        m = self.enter(spec)
        m.held = True
        exc = None
        for op in body:
            if op[0] == "raise":
                self.sim.fault("body-fails")
                exc = Boom("body")
                break
            try:
                self.do(op)
            except Boom as err:
                exc = err
                break
        m.held = False
        if m.i is None:
            # those entered inside it end before it
            mine = [x for x in self.mons if x.i is None]
            for x in reversed(mine[mine.index(m) + 1:]):
                self.exit(x)
        if m in self.mons:
            self.exit(m, exc)
        if exc is not None and self.emitting:
            raise exc

    def hold(self, op):
        i, name = self.target(op)
        what = op[3]
        s = self.signal(i, name)
        if (i, name) in [h[:2] for h in self.held]:
            return
        inside: list = []
        self.held.append((i, name, what, inside))
        with_ = s.blocked() if what == "block" else s.paused()
        with_.__enter__()
        err = None
        for o in op[4]:
            try:
                self.do(o)
            except Boom as e:
                err = e
                break
        self.held = [h for h in self.held if h[:2] != (i, name)]
        if what == "pause":
            self.emission(lambda: with_.__exit__(None, None, None), inside)
        else:
            with_.__exit__(None, None, None)
        if err is not None and self.emitting:
            raise err

    def emit(self, i, name):
        self.k += 1
        k = self.k
        self.emitted[k] = (i, name)
        emit = self.kind(i)[1][name][1]
        if self.emitting and self.plan["objs"][i] == "model":
            # a field set again by its callbacks: only the last one need reach all
            self.loose = {*self.loose, k, *self.window}
        h = next((h for h in self.held if h[:2] == (i, name)), None)
        if h is None:
            self.emission(lambda: emit(self.objs[i], k), [k])
            return
        counts = [(m, dict(m.logs)) for m in self.all]
        e, r = attempt(emit, self.objs[i], k)
        if e is not None and h[2] == "block":
            self.fail("unexpected", f"{e} {r}")
        if h[2] == "pause" and not self.emitting:
            h[3].append(k)
        for m, c in counts:
            if m.logs.get(k) and not (h[2] == "pause" and m.i is None):
                self.fail("logged-early", f"emission of a {h[2]}ed signal was logged")
        if h[2] == "pause" and (self.emitting or self.plan["objs"][i] in ("dc", "model")):
            self.loose = {*self.loose, k}

    loose: set = frozenset()

    def emission(self, fn, keys):
        """Run an emission; afterwards each monitor has logged each value once."""
        self.window += keys
        self.emitting += 1
        e, r = attempt(fn)
        self.emitting -= 1
        if e is not None:
            self.dirty = True
            if e != "EmitLoopError":
                # a global logger's own error
                if not (e == "Boom" and any(m.i is None for m in self.all)):
                    self.fail("unexpected", f"{e} {r}")
            else:
                self.sim.stat("failed-emission")
        if self.emitting:
            if e is not None:
                raise Boom("nested")
            return
        window, self.window = self.window, []
        dirty, self.dirty = self.dirty, False
        touched, self.touched = self.touched, set()
        shadowed = any(m.i is None and id(m) in touched for m in self.all)
        for m in self.all:
            for k in window:
                n = m.logs.get(k, 0)
                i, name = self.emitted[k]
                hi = 1
                lo = 0 if dirty or k in self.loose or (i, name) in m.lost else 1
                if m.i is None and (
                    shadowed or k in self.paused_ever or self.plan["objs"][i] in ("dc", "model")
                ):
                    lo = 0  # not emitted at all without listeners
                if id(m) in touched:
                    lo = 0
                elif m not in self.mons:
                    lo = hi = 0
                if m.i is None and m in self.mons and len(
                    [x for x in self.mons if x.i is None]
                ) > 1:
                    lo = 0  # the innermost global monitor replaces the others
                    if m is not [x for x in self.mons if x.i is None][-1] and not touched:
                        hi = 0
                if not m.covers(i, name):
                    lo = hi = 0
                if not lo <= n <= hi:
                    self.fail("not-logged" if n < lo else "logged-twice" if hi else "logged",
                              f"emission of {name} of a {self.plan['objs'][i]} object logged {n} "
                              f"times by the monitor of "
                              f"{'everything' if m.i is None else self.plan['objs'][m.i]}"
                              f"{' incl. private' if m.spec['private'] else ''}")

    @property
    def paused_ever(self):
        return self.emitted if self.had_pause else ()

    had_pause = False

    # user connections ---------------------------------------------------
    def connect(self, i, name, prio, acts):
        self.n += 1
        n = self.n
        calls = [0]

        def slot(*args):
            self.heard.append((n, args[0]))
            calls[0] += 1
            for c, act in acts:
                if c == calls[0]:
                    self.act(act)

        s = self.signal(i, name)
        s.connect(slot, priority=prio)
        lst = self.user.setdefault((i, name), [])
        at = next((j for j, x in enumerate(lst) if x[0] < prio), len(lst))
        lst.insert(at, (prio, n, slot))

    def disconnect(self, i, name, j):
        lst = self.user.get((i, name))
        if lst:
            _, _, slot = lst.pop(j % len(lst))
            self.signal(i, name).disconnect(slot)

    def discall(self, i, name):
        if self.kind(i)[2] and name != "own" or self.emitting:
            return
        self.signal(i, name).disconnect()
        self.user.pop((i, name), None)
        for m in self.mons:
            m.lost.add((i, name))

    def finish(self):
        for m in [m for m in self.mons if m.i is None][::-1]:
            self.exit(m)
        for m in list(self.mons):
            self.exit(m)
        self.quiet_acts()
        for (i, name), lst in self.user.items():
            self.heard.clear()
            self.emit(i, name)
            got = [n for n, _ in self.heard]
            want = [n for _, n, _ in lst]
            if got != want:
                self.fail("connections", f"callbacks {got} called afterwards, not {want}")
        for (i, name), lst in self.user.items():
            for _, _, slot in lst:
                self.signal(i, name).disconnect(slot)
        self.user = {}
        now = self.lens()
        if now != self.base:
            self.fail("left-connected", f"connections left: {now}, before: {self.base}")

    def quiet_acts(self):
        self.act = lambda act: None


def gen_acts(rng, n, depth):
    out = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        act = ["raise"] if rng.random() < 0.25 else ["do", gen_op(rng, n, depth + 2)]
        out.append([rng.choice([1, 1, 2, 3]), act])
    return out


def gen_spec(rng, n, depth, glob):
    return {
        "obj": None if glob else rng.randrange(n),
        "private": rng.random() < 0.4,
        "old": not glob and rng.random() < 0.15,
        "acts": gen_acts(rng, n, depth) if rng.random() < 0.3 and depth < 4 else [],
    }


def gen_op(rng, n, depth):
    k = weighted(rng, {
        "emit": 12, "connect": 4, "disconnect": 2, "discall": 0.5,
        "monitor": 5 if depth < 4 else 0, "enter": 2, "exit": 2,
        "hold": 2 if depth < 2 else 0,
    })
    i, j = rng.randrange(n), rng.randrange(6)
    if k == "emit":
        return [k, i, j]
    if k == "connect":
        return [k, i, j, rng.choice([-1, 0, 0, 1]), gen_acts(rng, n, depth) if depth < 3 else []]
    if k == "disconnect":
        return [k, i, j, rng.randrange(4)]
    if k == "discall":
        return [k, i, j]
    if k == "monitor":
        body = [gen_op(rng, n, depth + 1) for _ in range(rng.choice([1, 2, 4]))]
        if rng.random() < 0.3:
            body.insert(rng.randrange(len(body) + 1), ["raise"])
        return [k, gen_spec(rng, n, depth, rng.random() < 0.15), body]
    if k == "enter":
        return [k, gen_spec(rng, n, depth, rng.random() < 0.1)]
    if k == "exit":
        return [k, rng.randrange(5)]
    return [k, i, j, rng.choice(["pause", "block"]),
            [gen_op(rng, n, depth + 2) for _ in range(rng.choice([1, 2, 3]))]]


class Monitors(Scenario):
    """C28."""

    name = "monitors"
    threaded = False
    shrink_keys = ("ops",)

    def gen(self, rng, tier):
        n = rng.choice([1, 1, 2, 3])
        return {
            "objs": [rng.choice(list(KINDS)) for _ in range(n)],
            "ops": [gen_op(rng, n, 0) for _ in range(rng.choice([2, 4, 7]))],
        }

    def run(self, sim, plan):
        w = World(sim, plan)
        w.had_pause = '"pause"' in str(plan["ops"]).replace("'", '"')
        for op in plan["ops"]:
            w.do(op)
        w.finish()

    def nontrivial(self, sim, plan):
        return "monitor" in str(plan["ops"]) or "enter" in str(plan["ops"])
