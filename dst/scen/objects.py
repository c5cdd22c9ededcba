"""C18: every object has its own signals and groups, one per lifetime."""

from __future__ import annotations

import copy
import gc

from psygnal import SignalInstance

from ..base import Scenario
from ..core import Sim
from ..lib import weighted
from .flavours import ALL, TURN


class Tag:
    """A receiver; only weakly referenced by the signal."""

    def __init__(self, w, obj, path):
        self.w = w
        self.obj = obj
        self.path = path

    def got(self, *args):
        self.w.got.append((self.obj, self.path))


_warm: dict = {}


def warm(name):
    """A flavour used before: its classes are set up (psygnal keeps them for ever)."""
    if name not in _warm:
        f = _warm[name] = ALL[name]()
        for i in range(6):
            o = f.make(i)
            for p in f.paths.values():
                p(o)
    return _warm[name]


class World:
    def __init__(self, sim: Sim, plan: dict) -> None:
        self.sim = sim
        self.flavours = [
            ALL[n]() if plan["fresh"] else warm(n) for n in plan["flavours"]
        ]
        self.objs: dict[int, object] = {}
        self.flav: dict[int, object] = {}
        self.seen: dict[tuple, object] = {}  # (object, path) -> the signal instance
        self.tags: dict[tuple, list] = {}
        self.got: list = []
        self.next = 0
        self.freed: set[int] = set()  # addresses of dead objects
        self.busy: dict[int, int] = {}
        self.group: dict[int, object] = {}

    def op(self, o) -> None:
        k = o[0]
        if k == "new":
            self.new(o[1])
        elif k == "again":
            self.again(o[1])
        elif k == "gc":
            self.sim.fault("gc")
            gc.collect()
        elif self.objs:
            ks = sorted(self.objs)
            n = ks[o[1] % len(ks)]
            if k == "kill":
                self.kill(n)
            elif k == "copy":
                self.copy(n)
            elif k == "emit":
                self.emit(n, o[2])
            else:
                self.access(n, o[2], k == "connect")

    def add(self, obj, fl) -> int:
        n = self.next
        self.next += 1
        self.objs[n] = obj
        self.flav[n] = fl
        self.busy[n] = 0
        if id(obj) in self.freed:
            self.sim.fault("address-reuse")
        return n

    def new(self, f) -> None:
        fl = self.flavours[f % len(self.flavours)]
        self.add(fl.make(self.next), fl)

    def again(self, f) -> None:
        """Create objects until one takes the place of a dead one."""
        fl = self.flavours[f % len(self.flavours)]
        tries = []
        for _ in range(4):
            o = fl.make(self.next)
            if id(o) in self.freed:
                break
            tries.append(o)
        self.add(o, fl)

    def kill(self, n) -> None:
        if self.busy[n] or self.flav[n].immortal:
            return
        self.sim.fault("object-death")
        obj = self.objs.pop(n)  # (others may run from here on)
        for k in [k for k in self.seen if k[0] == n]:
            del self.seen[k]
        self.group.pop(n, None)
        self.tags = {k: v for k, v in self.tags.items() if k[0] != n}
        self.freed.add(id(obj))
        del obj

    def copy(self, n) -> None:
        if any(self.busy.values()):
            return
        fl = self.flav[n]
        if fl.paths.keys() & {"a", "b"} or "events" in dir(fl):
            pass
        try:
            c = copy.deepcopy(self.objs[n])
        except (TypeError, NotImplementedError, AttributeError):
            self.sim.stat("not-copyable")
            return
        self.sim.stat("deepcopy")
        m = self.add(c, fl)
        for p in sorted(fl.paths):
            self.access(m, p, False)

    def path(self, n, p):
        ps = sorted(self.flav[n].paths)
        return p if isinstance(p, str) else ps[p % len(ps)]

    def access(self, n, p, connect) -> None:
        p = self.path(n, p)
        obj = self.objs[n]
        self.busy[n] += 1
        try:
            s = self.flav[n].paths[p](obj)
            self.check(n, p, s)
            if connect:
                t = Tag(self, n, p)
                s.connect(t.got)
                self.tags.setdefault((n, p), []).append(t)
        finally:
            self.busy[n] -= 1

    def check(self, n, p, s) -> None:
        fl = self.flav[n]
        if not isinstance(s, SignalInstance):
            self.sim.fail("no-signal", f"{p} is {s!r}")
        if getattr(self.objs[n], "value", 3) != 3:
            self.sim.fail("attribute", f"an attribute is {self.objs[n].value!r} now")
        old = self.seen.get((n, p))
        if old is not None and old is not s:
            self.sim.fail("two-instances", f"two accesses of {p} gave different signals")
        if old is None:
            for (m, q), t in list(self.seen.items()):
                same = m == n and fl.paths[p](self.objs[n]) is fl.paths[q](self.objs[n])
                if t is s and not same:
                    self.sim.fail("shared", f"{p} of an object is {q} of another one")
            self.seen[n, p] = s
        if p in fl.nargs:
            n_args = fl.nargs[p] if isinstance(fl.nargs[p], int) else fl.nargs[p](self.objs[n])
            if len(s.signature.parameters) != n_args:
                self.sim.fail("wrong-signal", f"{p} has signature {s.signature}")
        if fl.instance == "self" and s.instance is not self.objs[n]:
            self.sim.fail("wrong-owner", f"{p} belongs to {type(s.instance).__name__}")

    def emit(self, n, p) -> None:
        if any(self.busy.values()):
            return
        p = self.path(n, p)
        s = self.flav[n].paths[p](self.objs[n])
        if p in ("r", "s"):  # a relay: emit what it relays instead
            return
        self.check(n, p, s)
        self.got.clear()
        s.emit(*range(len(s.signature.parameters)))
        got = sorted(self.got)
        mine = [q for q in self.flav[n].paths
                if self.flav[n].paths[q](self.objs[n]) is s]
        # the relay of the group it belongs to
        for q, members in (("r", "abkxyz"), ("s", "2")):
            if q in self.flav[n].paths and any(m in members for m in mine):
                mine.append(q)
        want = sorted(
            (k[0], k[1]) for k, ts in self.tags.items()
            if k[0] == n and k[1] in mine for _ in ts
        )
        if got != want:
            lost = [x for x in want if x not in got]
            self.sim.fail(
                "not-reached" if lost else "leaked",
                f"emitting {p} of object {n} reached {got}, not {want}",
            )


class Objects(Scenario):
    name = "objects"
    threaded = False
    uses_gc = True
    nthreads = (1,)
    w_ops = {"access": 3, "connect": 5, "new": 2, "again": 2, "kill": 3, "emit": 5,
             "copy": 0.6, "gc": 0.1}
    nops = (4, 25)
    p_fresh = 0.03

    def gen(self, rng, tier):
        nt = rng.choice(self.nthreads)
        nf = rng.choice([1, 1, 2])
        fl = [rng.choice(sorted(ALL)) for _ in range(nf)]
        threads = [
            {"ops": [self.op(rng) for _ in range(rng.randint(*self.nops))]}
            for _ in range(nt)
        ]
        fresh = rng.random() < self.p_fresh
        return {"flavours": fl, "fresh": fresh, "init": rng.randint(1, 3), "threads": threads}

    def op(self, rng):
        k = weighted(rng, self.w_ops)
        if k in ("new", "again"):
            return [k, rng.randrange(2)]
        if k == "gc":
            return [k]
        return [k, rng.randrange(4), rng.randrange(6)]

    def run(self, sim: Sim, plan: dict) -> None:
        sim.quiet = True
        w = World(sim, plan)
        TURN[0] = 0
        for i in range(plan["init"]):
            w.new(i)
        sim.quiet = False

        def body(k):
            for o in plan["threads"][k]["ops"]:
                w.op(o)

        for k in range(1, len(plan["threads"])):
            sim.spawn(lambda k=k: body(k), f"t{k}")
        if plan["threads"]:
            body(0)
        sim.join_all()
        sim.quiet = True
        for u in sim.uncaught:
            sim.fail("thread-died", str(u))
        for n in sorted(w.objs):
            for p in sorted(w.flav[n].paths):
                w.access(n, p, False)
                w.emit(n, p)
        if sim.unraisable:
            sim.fail("unraisable", sim.unraisable[0])
        sim.log(len(w.objs), w.next, len(w.tags))
        sim.log(*sorted((n, p, len(t)) for (n, p), t in w.tags.items()))

    def nontrivial(self, sim, plan):
        return True


class FirstAccess(Objects):
    """Several threads access signals of the same objects first at the same time."""

    name = "first-access"
    threaded = True
    nthreads = (2, 2, 3)
    nops = (1, 4)
    w_ops = {"access": 2, "connect": 6, "new": 0.5, "kill": 0.3}
    horizon = 150
    p_fresh = 0.25

    def op(self, rng):
        o = super().op(rng)
        if len(o) == 3 and o[0] != "kill" and rng.random() < 0.7:
            o[1] = 0
        return o
