"""C08: connections never keep receivers alive, nor call dead ones."""

from __future__ import annotations

import gc
import threading
import weakref
from collections import deque
from functools import partial

from psygnal import EmitLoopError, Signal, SignalGroup, SignalInstance, emit_queued

from ..base import Scenario
from ..core import Sim, SimAbort
from ..lib import drop_tb, weighted


class Boom(Exception):
    pass


class Grp(SignalGroup):
    a = Signal(int, int)
    b = Signal(int, int)


class R:
    """A receiver of every kind; tells its world about calls."""

    sig = Signal(int, int)

    def __init__(self, w, uid):
        self.hit = w.hit
        self.uid = uid

    def m(self, *a):
        self.hit(self.uid, "m")

    def n(self, *a):
        self.hit(self.uid, "n")

    def k(self, *a, kw=None):
        self.hit(self.uid, "k")

    def __call__(self, *a):
        self.hit(self.uid, "call")

    @property
    def val(self):
        return None

    @val.setter
    def val(self, v):
        self.hit(self.uid, "val")

    @property
    def val2(self):
        return None

    @val2.setter
    def val2(self, v):
        self.hit(self.uid, "val2")

    def __setitem__(self, k, v):
        self.hit(self.uid, "item")


class Eq(R):
    def __eq__(self, other):
        return True

    __hash__ = None


class Falsy(R):
    def __len__(self):
        return 0


class Deq(deque):
    sig = None

    def __init__(self, w, uid):
        super().__init__()
        self.uid = uid


CLASSES = {"plain": R, "eq": Eq, "falsy": Falsy, "deque": Deq}
WAYS = ["m", "n", "pm", "pn", "pk", "call", "val", "val2", "pval", "item", "pitem",
        "dunder", "own"]


class Helper:
    """Connects way `way` of a receiver to a signal."""

    @staticmethod
    def slot(r, way):
        if isinstance(r, Deq):
            return r.append
        if way in ("m", "own"):
            return r.m
        if way == "n":
            return r.n
        if way == "pm":
            return partial(r.m)
        if way == "pn":
            return partial(r.n, "x")
        if way == "pk":
            return partial(r.k, kw=3)
        if way == "call":
            return r
        if way == "pval":
            return partial(setattr, r, "val")
        if way == "pitem":
            return partial(r.__setitem__, "key")
        if way == "dunder":
            return partial(r.__setattr__, "val2")
        return None

    @staticmethod
    def connect(s, r, way, **kw):
        if isinstance(r, Deq) or way not in ("val", "val2", "item"):
            if way in ("pval", "dunder", "pitem") or isinstance(r, Deq):
                kw.setdefault("max_args", 1)
            s.connect(Helper.slot(r, way), **kw)
        elif way == "item":
            s.connect_setitem(r, "key", maxargs=1, priority=kw.get("priority", 0))
        else:
            s.connect_setattr(r, way, maxargs=1, priority=kw.get("priority", 0))

    @staticmethod
    def disconnect(s, r, way, missing_ok):
        if isinstance(r, Deq) or way not in ("val", "val2", "item"):
            s.disconnect(Helper.slot(r, way), missing_ok)
        elif way == "item":
            s.disconnect_setitem(r, "key", missing_ok)
        else:
            s.disconnect_setattr(r, way, missing_ok)


# ways that psygnal treats as the same slot (they share one key)
SAME = {"pm": "m", "own": "m", "pn": "n", "pk": "k", "pval": "val", "pitem": "item"}


def key(r, way):
    if isinstance(r, Deq):
        return "append"
    return SAME.get(way, way)


CALLS = {"dunder": "val2", "pval": "val", "pitem": "item", "pm": "m", "pn": "n",
         "pk": "k", "own": "m"}


class World:
    def __init__(self, sim: Sim, plan: dict) -> None:
        self.sim = sim
        self.plan = plan
        self.threaded = self.loose = len(plan["threads"]) > 1
        self.grp = Grp()
        self.sigs = [
            SignalInstance((int, int), name="s0"),
            SignalInstance((int, int), name="s1", reemission="queued"),
            self.grp.a,
            self.grp.all,
            SignalInstance((int, int), name="s4", reemission="latest-only"),
        ]
        self.ghost = threading.Thread(target=lambda: None, name="ghost")
        self.recs: dict[int, object] = {}  # slot number -> receiver
        self.uids = 0
        self.wref: dict[int, weakref.ref] = {}
        self.cyc: set[int] = set()
        self.dropped: set[int] = set()
        self.dead: set[int] = set()
        self.freed: set[int] = set()  # addresses
        self.conns: list[dict] = []
        self.busy: dict[int, int] = {}
        self.depth = 0
        self.calls = 0
        self.got: list = []
        self.failed = False  # a callback has failed since the last full collection
        self.budget = 40
        self.tok = 0
        self.bound = []

    # ----------------------------------------------------------------- receivers
    def new(self, i) -> None:
        if i in self.recs:
            return
        sp = self.plan["slots"][i]
        cls = CLASSES[sp["cls"]]
        self.uids += 1
        uid = self.uids
        tries = []
        for _ in range(4):
            r = cls(self, uid)
            if id(r) in self.freed:
                self.sim.fault("address-reuse")
                break
            tries.append(r)
        if sp.get("cyc"):
            r.me = r
            self.cyc.add(uid)
        self.recs[i] = r
        self.wref[uid] = weakref.ref(r, lambda _: self.died(uid))
        self.freed.discard(id(r))
        self.busy[uid] = 0

    def died(self, uid) -> None:
        self.dead.add(uid)
        for c in self.conns:
            if c["uid"] == uid:
                c["on"] = False

    def kill(self, i) -> None:
        r = self.recs.pop(i, None)
        if r is None:
            return
        uid = r.uid
        self.sim.fault("receiver-death" if uid not in self.cyc else "receiver-cycle")
        self.dropped.add(uid)
        self.freed.add(id(r))
        del r
        if not self.busy[uid] and uid not in self.cyc and not self.threaded:
            self.must_be_dead(uid, "at once")

    def must_be_dead(self, uid, when) -> None:
        if self.wref[uid]() is not None and self.failed:
            gc.collect()  # a traceback that has been dropped may have been a cycle
        if self.wref[uid]() is not None:
            ref = [type(x).__name__ for x in gc.get_referrers(self.wref[uid]())]
            self.sim.fail("kept-alive", f"receiver not freed {when}; held by {ref}")

    def settle(self) -> None:
        """Between operations: all dropped receivers are gone, and no others."""
        for uid in sorted(self.dropped - self.dead):
            if uid not in self.cyc and not self.busy[uid]:
                self.must_be_dead(uid, "once its call was over")

    # ------------------------------------------------------------------- calls
    def hit(self, uid, what) -> None:
        if uid in self.dead:
            self.sim.fail("dead-called", f"receiver called ({what}) after its death")
        self.got.append((uid, what))
        if not self.loose and not self.draining and not any(
            c["uid"] == uid and CALLS.get(c["way"], c["way"]) == what and c["was"]
            for c in self.conns
        ):
            self.sim.fail("mistaken", f"receiver called ({what}) without being connected")
        self.busy[uid] = self.busy.get(uid, 0) + 1
        self.calls += 1
        n = self.calls
        try:
            self.sim.point()
            acts = self.plan["script"]
            if n <= len(acts):
                for a in acts[n - 1]:
                    if a[0] == "raise":
                        self.sim.fault("callback-raises")
                        raise Boom
                    self.op(a)
        finally:
            self.busy[uid] -= 1

    draining = False

    # -------------------------------------------------------------- operations
    def op(self, o) -> None:
        k = o[0]
        self.depth += 1
        try:
            getattr(self, "op_" + k)(*o[1:])
        finally:
            self.depth -= 1
        if not self.depth and not self.threaded:
            self.settle()

    def op_new(self, i):
        self.new(i)

    def op_x(self, i):
        self.kill(i)

    def op_gc(self):
        self.sim.fault("gc")
        gc.collect()
        if self.threaded:
            return
        for uid in sorted(self.dropped - self.dead):
            if not self.busy[uid]:
                self.must_be_dead(uid, "by the collector")

    def op_c(self, i, s, way, thr, prio):
        r = self.recs.get(i)
        if r is None:
            return
        if isinstance(r, Deq):
            way = "append"
        sig = r.sig if way == "own" else self.sigs[s]
        kw = {"priority": prio}
        if thr and way not in ("val", "val2", "item"):
            kw["thread"] = self.ghost
        c = {"uid": r.uid, "i": i, "s": "own" if way == "own" else s, "way": way,
             "on": True, "key": key(r, way), "was": True, "p": prio, "thr": "thread" in kw}
        self.conns.append(c)
        Helper.connect(sig, r, way, **kw)

    def op_d(self, i, s, way):
        r = self.recs.get(i)
        if r is None:
            return
        if isinstance(r, Deq):
            way = "append"
        own = way == "own"
        sig = r.sig if own else self.sigs[s]
        if s == 3 and not own:
            return  # (removing from a group also removes from its members)
        k = key(r, way)
        mine = [c for c in self.conns if c["on"] and c["s"] == ("own" if own else s)
                and c["uid"] == r.uid and c["key"] == k]
        mine.sort(key=lambda c: -c["p"])
        if self.threaded:
            Helper.disconnect(sig, r, way, True)
            return
        try:
            Helper.disconnect(sig, r, way, False)
        except ValueError:
            if mine:
                raise
            return
        if not mine:
            self.sim.fail("mistaken", "disconnected a slot that was never connected")
        else:
            mine[0]["on"] = False

    def op_n(self, s):
        if self.threaded or self.depth > 1:
            return
        n = len([c for c in self.conns if c["on"] and c["s"] == s])
        m = len(self.sigs[s])
        if s == 2 and any(c["on"] and c["s"] == 3 for c in self.conns):
            n += 1  # the relay
        if m != n:
            self.sim.fail("len", f"{m} connections counted, {n} have a living receiver")
        if s == 3:
            return
        for i, r in self.recs.items():
            for way in ("append",) if isinstance(r, Deq) else ("m", "n", "call", "dunder"):
                want = any(c["on"] and c["s"] == s and c["uid"] == r.uid
                           and c["key"] == way for c in self.conns)
                if (Helper.slot(r, way) in self.sigs[s]) != want:
                    self.sim.fail("mistaken", f"'in' says {not want} for a new receiver")

    def emit(self, fn) -> None:
        if self.budget <= 0:
            return
        self.budget -= 1
        if self.depth == 1:
            for c in self.conns:
                c["was"] = c["on"]
        else:
            for c in self.conns:
                c["was"] = c["was"] or c["on"]
        try:
            fn()
        except EmitLoopError as e:
            self.failed = True
            c = e
            while isinstance(c, EmitLoopError):
                c = c.__cause__
            bad = not isinstance(c, Boom)
            msg = f"{type(c).__name__}: {c}"
            nested = self.depth > 1 and not bad
            del c
            drop_tb(e)
            if bad:
                self.sim.fail("error", f"emission or drain failed: {msg}")
            if nested:
                raise Boom from None
        except SimAbort:
            raise

    def op_e(self, s):
        if s == 3:
            s = 2
        self.tok += 1
        before = len(self.got)
        live = [c for c in self.conns if c["on"] and not c["thr"]
                and (c["s"] == s or (c["s"] == 3 and s == 2))]
        plain = self.depth == 1 and not self.loose and not self.muted
        calls0 = self.calls
        self.emit(lambda: self.sigs[s].emit(self.tok, s))
        if plain and calls0 >= len(self.plan["script"]) and self.budget > 0:
            want = sorted((c["uid"], CALLS.get(c["way"], c["way"])) for c in live
                          if c["way"] != "append")
            paused = self.paused[s] or (s == 2 and self.paused[3])
            if sorted(self.got[before:]) != want and not paused:
                self.sim.fail("lost", f"called {self.got[before:]}, not {want}")

    paused: dict = {}
    muted = False

    def op_eo(self, i):
        r = self.recs.get(i)
        if r is None or isinstance(r, Deq):
            return
        uid = r.uid
        s = r.sig
        if s.instance is not r:
            self.sim.fail("mistaken", "signal of another object")
        del r
        self.tok += 1
        self.emit(lambda: s.emit(self.tok, 0))

    def op_p(self, s):
        self.paused[s] = True
        self.sigs[s].pause()

    def op_r(self, s):
        self.paused[s] = False
        self.emit(self.sigs[s].resume)

    def op_q(self):
        old, self.draining = self.draining, True
        try:
            self.emit(lambda: emit_queued(self.ghost))
        finally:
            self.draining = old

    def op_b(self, s, i):
        """Drop a receiver inside of a block."""
        with self.sigs[s].blocked():
            self.kill(i)
            self.muted = True
            self.op_e(s)
            self.muted = False


class Lifetimes(Scenario):
    name = "lifetimes"
    threaded = False
    uses_gc = True
    nthreads = (1,)
    nops = (5, 30)
    w = {"c": 7, "d": 1.5, "e": 5, "eo": 1, "new": 4, "x": 4, "q": 1.5, "p": 0.5, "r": 0.8,
         "n": 2, "b": 0.3, "gc": 0.25}
    wact = {"x": 4, "c": 1, "d": 1, "new": 1, "e": 1, "raise": 0.8, "q": 0.5, "gc": 0.15}
    shrink_keys = ("ops", "script", "init")

    def gen(self, rng, tier):
        nk = rng.randint(1, 5)
        slots = []
        for _ in range(nk):
            sp = {"cls": rng.choice(["plain", "plain", "plain", "eq", "falsy", "deque"])}
            if rng.random() < 0.2:
                sp["cyc"] = True
            slots.append(sp)
        nt = rng.choice(self.nthreads)
        # different slots and signals are preferred by turns, to have them meet often
        self.sigs = rng.choice([[0], [0, 4], [1, 2, 3], [2, 3], [0, 1, 2, 3, 4]])
        self.ways = rng.sample(WAYS, rng.randint(1, 4))
        self.p_thr = rng.choice([0, 0, 0.3, 0.8])
        self.prios = rng.choice([[0], [0, 0, 1, -1]])
        threads = [
            {"ops": [self.op(rng, nk, self.w) for _ in range(rng.randint(*self.nops))]}
            for _ in range(nt)
        ]
        script = []
        if rng.random() < 0.6:
            script = [
                [self.op(rng, nk, self.wact) for _ in range(rng.choice([0, 1, 1, 2]))]
                for _ in range(rng.randint(1, 6))
            ]
        if nt > 1:  # callbacks must not wait for other signals' locks
            script = [[a for a in acts if a[0] in ("x", "raise", "new", "gc")]
                      for acts in script]
        init = [["new", i] for i in range(nk)]
        init += [self.op(rng, nk, {"c": 1}) for _ in range(rng.randint(0, 5))]
        return {"slots": slots, "init": init, "threads": threads, "script": script}

    def op(self, rng, nk, table):
        k = weighted(rng, table)
        i = rng.randrange(nk)
        s = rng.choice(self.sigs)
        if k == "c":
            return ["c", i, s, rng.choice(self.ways), rng.random() < self.p_thr,
                    rng.choice(self.prios)]
        if k == "d":
            return ["d", i, s, rng.choice(self.ways)]
        if k in ("x", "new", "eo"):
            return [k, i]
        if k in ("e", "p", "r", "n"):
            return [k, s]
        if k == "b":
            return [k, s, i]
        return [k]

    def run(self, sim: Sim, plan: dict) -> None:
        sim.quiet = True
        w = World(sim, plan)
        w.paused = {s: False for s in range(5)}
        for o in plan["init"]:
            w.op(o)
        sim.quiet = False

        def body(k):
            for o in plan["threads"][k]["ops"]:
                try:
                    w.op(o)
                except Boom as e:
                    drop_tb(e)

        for k in range(1, len(plan["threads"])):
            sim.spawn(lambda k=k: body(k), f"t{k}")
        if plan["threads"]:
            body(0)
        sim.join_all()
        sim.quiet = True
        for u in sim.uncaught:
            sim.fail("thread-died", str(u))
        w.threaded = False
        w.depth = 0
        w.settle()
        for s in range(5):
            if w.paused[s]:
                w.op_r(s)
        w.op(["q"])
        w.settle()
        if len(plan["threads"]) == 1:
            for s in (0, 1, 2, 3, 4):
                w.op(["n", s])
        else:
            for s in (0, 1, 2, 4):
                w.op(["e", s])
        for i in sorted(w.recs):
            w.op(["x", i])
        if w.cyc - w.dead:
            gc.collect()
            for uid in sorted(w.dropped - w.dead):
                w.must_be_dead(uid, "by the collector at the end")
        for s in (0, 1, 2, 3, 4):
            if len(w.sigs[s]):
                sim.fail("len", f"{len(w.sigs[s])} connections left, all receivers dead")
        if sim.unraisable:
            sim.fail("unraisable", sim.unraisable[0])
        sim.log(*w.got)

    def nontrivial(self, sim, plan):
        return any(k.startswith("receiver") for k in sim.faults)


class LifetimesThreads(Lifetimes):
    """Receivers die in one thread while others emit, drain and connect."""

    name = "lifetimes-threads"
    threaded = True
    nthreads = (2, 2, 3)
    nops = (1, 6)
    w = {"c": 3, "d": 1, "e": 6, "new": 2, "x": 4, "q": 2, "b": 0.2, "gc": 0.15}
    horizon = 200
