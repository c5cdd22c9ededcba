"""C11, C12: callbacks targeted at threads, and the drains that deliver them."""

from __future__ import annotations

import gc
import threading
import weakref

from psygnal import EmissionInfo, EmitLoopError, Signal, SignalGroup, SignalInstance, emit_queued

from ..base import Scenario
from ..core import Sim, SimAbort
from ..lib import BOOMS, KINDS, Boom, Frames, drop_tb, unwrap, weighted, wrap

INF = float("inf")


class OneMember(SignalGroup):
    """Callbacks connected to the group get the emissions of its signal."""

    sig = Signal(int, int)


class World:
    def __init__(self, sim: Sim, plan: dict) -> None:
        self.sim = sim
        self.plan = plan
        self.seq = 0
        self.sigs = [
            SignalInstance((int, int), name=f"s{i}") for i in range(plan["signals"])
        ]
        self.groups: dict[int, OneMember] = {}
        for i in plan.get("grouped", ()):
            self.groups[i] = g = OneMember()
            self.sigs[i] = g.sig
        self.specs = plan["slots"]
        self.recs: dict[int, object] = {}
        self.drop: dict[int, float] = {}
        self.dead: dict[int, float] = {}
        self.wrefs: dict[int, weakref.ref] = {}
        self.ncalls = [0] * len(self.specs)
        self.ems: list[dict] = []
        self.calls: list[dict] = []
        self.conns: list[dict] = []
        self.drains: list[dict] = []
        self.threads: list[threading.Thread] = [threading.main_thread()]
        self.raised: list[BaseException] = []
        self.frames = Frames(sim)
        self.discing: dict[int, int] = {}
        self.budget = 60
        self.idle = self.turn = self.still = 0
        self.foreign = plan.get("foreign", False)
        self.ghost = -1
        for i, sp in enumerate(self.specs):
            self.make(i, sp)

    def tick(self) -> int:
        self.seq += 1
        return self.seq

    def me(self) -> int:
        t = threading.current_thread()
        for k, x in enumerate(self.threads):
            if x is t:
                return k
        return -1

    def make(self, i, sp) -> None:
        w = self
        if sp["kind"] == "func":

            def f(tok, s=None):
                w.called(i, tok, s)

            self.recs[i] = f
            return

        class R:
            def m(self, tok, s=None):
                w.called(i, tok, s)

            def __call__(self, tok, s=None):
                w.called(i, tok, s)

            @property
            def val(self):
                return None

            @val.setter
            def val(self, v):
                w.called(i, *v)

            def __setitem__(self, k, v):
                w.called(i, *v)

        r = R()
        self.recs[i] = r
        self.wrefs[i] = weakref.ref(r, lambda _r: w.died(i))

    def died(self, i) -> None:
        self.dead[i] = t = self.tick()
        for c in self.conns:
            if c["i"] == i and c["end"] == INF:
                c["end"] = t

    # ------------------------------------------------------------- callback
    def called(self, i, tok, s) -> None:
        sim = self.sim
        me = self.me()
        if self.specs[i]["sig"] in self.groups:
            if type(tok) is not EmissionInfo or tok.signal is not self.sigs[self.specs[i]["sig"]]:
                sim.fail("bad-args", f"slot {i} of a group got {tok!r}")
                return
            tok, s = tok.args
        tok = unwrap(tok)
        rec = {"i": i, "tok": tok, "start": self.tick(), "thr": me, "exc": False}
        ds = [d for d in self.drains if d["by"] == me and d["end"] == INF]
        rec["drain"] = ds[-1]["for"] if ds else None
        em = next((e for e in self.ems if e["tok"] == tok), None)
        if em is None or em["s"] != s:
            sim.fail("bad-args", f"slot {i} got {(tok, s)}, never emitted")
            return
        rec["direct"] = em["by"] == me and em["end"] == INF
        self.calls.append(rec)
        if i in self.dead:
            sim.fail("dead-called", f"slot {i} called after its receiver died")
        sim.point()
        n = self.ncalls[i]
        self.ncalls[i] += 1
        script = self.specs[i].get("script") or []
        for a in script[n] if n < len(script) else ():
            if a[0] == "raise":
                e = BOOMS[(i + n) % len(BOOMS)](f"{i}/{tok}")
                self.raised.append(e)
                self.frames.raised(e)
                rec["exc"] = True
                sim.fault("callback-raises")
                raise e
            self.op(a, nested=True)
        rec["done"] = self.tick()

    # ------------------------------------------------------------ operations
    def op(self, o, nested=False) -> None:
        k = o[0]
        if k == "e":
            self.emit(o[1])
        elif k == "q":
            self.drain(None if o[1] is None else o[1])
        elif k == "c":
            self.connect(o[1])
        elif k == "d":
            self.disconnect(o[1])
        elif k == "x":
            if o[1] in self.recs and self.specs[o[1]]["kind"] != "func":
                self.sim.fault("receiver-death")
                self.drop[o[1]] = self.tick()
                del self.recs[o[1]]
        elif k == "z":
            self.sim.sleep(o[1])
        elif k == "gc":
            self.sim.fault("gc")
            gc.collect()
        if nested:
            self.sim.stat("reentrant-" + k)

    def slot(self, i):
        r = self.recs.get(i)
        if r is not None and self.specs[i]["kind"] == "method":
            return r.m
        return r

    def connect(self, i) -> None:
        sp = self.specs[i]
        f = self.slot(i)
        if f is None:
            return
        me = self.me()
        tgt = sp["target"]
        if tgt == "current":
            thread, t = "current", me
        elif tgt == "main":
            thread, t = "main", 0
        elif tgt is None:
            thread, t = None, None
        else:
            thread, t = self.threads[tgt], tgt
        if any(
            c["i"] == i and (c["end"] == INF or "gone" not in c) for c in self.conns
        ):
            return  # one connection per slot at a time keeps the bookkeeping simple
        c = {"i": i, "s": sp["sig"], "p": sp.get("prio", 0), "t": t, "n": self.tick(),
             "start": INF, "end": INF}
        if self.discing.get(i):
            c["end"] = c["n"]  # a disconnect() under way may or may not catch this one
        self.conns.append(c)
        try:
            sig = self.groups.get(sp["sig"]) or self.sigs[sp["sig"]]
            if sp.get("deco"):
                sig.connect(thread=thread, priority=c["p"])(f)
            else:
                sig.connect(f, thread=thread, priority=c["p"])
        except SimAbort:
            raise
        except Exception as e:
            self.sim.fail(f"connect-{type(e).__name__}", f"connect raised {e!r}")
        c["start"] = self.tick()

    def disconnect(self, i) -> None:
        f = self.slot(i)
        if f is None:
            return
        mine = [c for c in self.conns if c["i"] == i and c["end"] == INF]
        t = self.tick()
        for c in mine:
            c["end"] = t  # from here on it may be gone
        # (but if connect() is still under way, it may also come after this)
        mine = [c for c in mine if c["start"] != INF]
        self.discing[i] = self.discing.get(i, 0) + 1
        s = self.specs[i]["sig"]
        (self.groups.get(s) or self.sigs[s]).disconnect(f)
        self.discing[i] -= 1
        for c in mine:
            c["gone"] = self.tick()

    def emit(self, s) -> None:
        if self.budget <= 0:
            return
        self.budget -= 1
        em = {"tok": self.tick() + 1000, "s": s, "by": self.me(), "end": INF,
              "cut": False}
        em["start"] = em["tok"] - 1000
        self.ems.append(em)
        f = self.frames.enter()
        try:
            self.sigs[s].emit(wrap(self.plan.get("arg"), em["tok"]), s)
        except SimAbort:
            raise
        except EmitLoopError as e:
            em["cut"] = True
            c = e.__cause__
            while isinstance(c, EmitLoopError):
                c = c.__cause__
            if not any(c is x for x in self.raised):
                self.sim.fail(
                    f"emit-{type(c).__name__}", f"emit raised EmitLoopError from {c!r}"
                )
            drop_tb(e)
        except BaseException as e:
            em["cut"] = True
            self.sim.fail(f"emit-{type(e).__name__}", f"emit raised {e!r}")
            drop_tb(e)
        finally:
            em["end"] = self.tick()
            self.frames.leave(f, em["cut"], "the emission")

    def drain(self, t) -> bool:
        me = self.me()
        d = {"by": me, "for": me if t is None else t, "start": self.tick(), "end": INF,
             "err": False}
        if t is not None and t != me:
            self.sim.fault("foreign-drain")
        if any(x["by"] == me and x["end"] == INF for x in self.drains):
            self.sim.stat("reentrant-drain")
        self.drains.append(d)
        f = self.frames.enter()
        try:
            if t is None:
                emit_queued()
            else:
                emit_queued(self.threads[t])
        except SimAbort:
            raise
        except EmitLoopError as e:
            d["err"] = True
            c = e.__cause__
            while isinstance(c, EmitLoopError):
                c = c.__cause__
            if not any(c is x for x in self.raised):
                self.sim.fail(
                    f"drain-{type(c).__name__}",
                    f"emit_queued raised EmitLoopError from {c!r}, which no callback "
                    "raised",
                )
            drop_tb(e)
        except BaseException as e:
            d["err"] = True
            self.sim.fail(
                f"drain-{type(e).__name__}", f"emit_queued raised {e!r} (not EmitLoopError)"
            )
            drop_tb(e)
        finally:
            d["end"] = self.tick()
            self.frames.leave(f, d["err"], "emit_queued()")
        return d["err"]

    # --------------------------------------------------------------- judging
    def judge(self) -> None:
        sim = self.sim
        by: dict[tuple, list] = {}
        for c in self.calls:
            by.setdefault((c["tok"], c["i"]), []).append(c)
        for (tok, i), cs in by.items():
            em = next(e for e in self.ems if e["tok"] == tok)
            if len(cs) > 1:
                sim.fail("duplicate", f"slot {i} called {len(cs)} times for one emission")
            conns = [
                c for c in self.conns
                if c["i"] == i and c["n"] < em["end"] and c.get("gone", INF) > em["start"]
            ]
            if not conns:
                sim.fail("not-connected", f"slot {i} called for an emission made while it "
                         "was not connected")
                continue
            for c in cs:
                if not any(self.thread_ok(c, k, em) for k in conns):
                    sim.fail(
                        "wrong-thread",
                        f"slot {i} (target {conns[0]['t']}) emitted by {em['by']} ran in "
                        f"thread {c['thr']} (drain for {c['drain']})",
                    )
        for em in self.ems:
            self.judge_complete(em, by)
        self.judge_order()

    def thread_ok(self, call, conn, em) -> bool:
        t = conn["t"]
        if t is None or t == em["by"]:
            return call["thr"] == em["by"] and call["direct"]
        if call["drain"] != t:
            return False
        # (a thread that has ended cannot drain its queue itself)
        return call["thr"] == t or self.foreign or t == self.ghost

    def judge_complete(self, em, by) -> None:
        cut = any(
            c["exc"] and c["direct"] for c in self.calls if c["tok"] == em["tok"]
        )
        for k in self.conns:
            if k["s"] != em["s"] or k["start"] > em["start"] or k["end"] < em["end"]:
                continue
            i = k["i"]
            cs = by.get((em["tok"], i), [])
            t = k["t"]
            direct = t is None or t == em["by"]
            if cs:
                if not direct and not self.foreign:
                    # the next drain of its thread must have delivered it
                    d = [x for x in self.drains if x["by"] == t and x["for"] == t
                         and x["start"] > em["end"] and not x["err"]]
                    if d and cs[0]["start"] > d[0]["end"]:
                        self.sim.fail(
                            "not-drained",
                            f"slot {i}: emit_queued() of thread {t} returned without "
                            "delivering an emission made before it",
                        )
                continue
            if self.drop.get(i, INF) < INF or cut or em["cut"]:
                continue
            self.sim.fail(
                "lost",
                f"slot {i} (target {t}) never got an emission by thread {em['by']}, "
                "although every queue was drained",
            )

    def judge_order(self) -> None:
        if self.foreign:
            return
        last: dict[tuple, int] = {}
        emby = {e["tok"]: e for e in self.ems}
        for c in sorted(self.calls, key=lambda c: c["start"]):
            em = emby[c["tok"]]
            key = (c["i"], em["by"], c["thr"])
            if last.get(key, 0) > c["tok"]:
                self.sim.fail(
                    "order", f"slot {c['i']} got emissions of thread {em['by']} out of order"
                )
            last[key] = c["tok"]
        # within one emission, connections aimed at the same thread keep their order
        for em in self.ems:
            ks = {
                k["i"]: k for k in self.conns
                if k["s"] == em["s"] and k["start"] < em["start"] and k["end"] > em["end"]
            }
            prev: dict[int, list] = {}
            for c in sorted(
                (c for c in self.calls if c["tok"] == em["tok"] and c["i"] in ks),
                key=lambda c: c["start"],
            ):
                y = ks[c["i"]]
                t = em["by"] if y["t"] is None else y["t"]
                for x in prev.setdefault(t, []):
                    if x["p"] < y["p"] or (x["p"] == y["p"] and y["start"] < x["n"]):
                        self.sim.fail(
                            "priority",
                            f"slots {x['i']} and {y['i']} of one emission ran out of "
                            f"order in thread {t}",
                        )
                prev[t].append(y)


class ThreadTargets(Scenario):
    """C11: several threads emit, connect and drain their own queues."""

    name = "targets"
    uses_gc = True
    foreign = False
    stall_rate = 0.25
    horizon = 500
    p_raise = 0.1
    w_ops = {"e": 6, "q": 4, "c": 0.8, "d": 0.6, "x": 0.5, "z": 0.5, "gc": 0.1}
    shrink_keys = ("ops", "script", "threads_ops", "init")

    def gen(self, rng, tier):
        nt = rng.choice([2, 2, 3, 3, 4])
        ns = rng.choice([1, 1, 2, 3])
        nk = rng.randint(1, 6)
        slots = []
        for _ in range(nk):
            s = rng.randrange(ns)
            sp = {
                "kind": rng.choice(["func", "func", "method", "method", "callable"]),
                "sig": s,
                "target": rng.choice([*range(nt), *range(nt), "main", "current", None]),
            }
            if rng.random() < 0.3:
                sp["prio"] = rng.choice([-1, 1, 2])
            if rng.random() < 0.4:
                sp["script"] = True
            if rng.random() < 0.2:
                sp["deco"] = True
            slots.append(sp)
        # Callbacks run under their signal's lock.  To not create (legitimate) deadlocks
        # of their own, they only touch later signals, or they only drain.
        drains = rng.random() < 0.5
        ghost = rng.random() < 0.25
        if ghost:
            for sp in slots:
                if rng.random() < 0.3:
                    sp["target"] = nt
                    sp.pop("script", None)  # it runs when nobody drains any more
        for sp in slots:
            if sp.get("script"):
                sp["script"] = [
                    self.acts(rng, ns, slots, nt, sp["sig"], drains)
                    for _ in range(rng.randint(1, 3))
                ]
        init = [["c", i] for i in range(nk) if rng.random() < 0.85]
        rng.shuffle(init)
        threads = []
        for t in range(nt):
            n = rng.randint(1, 6)
            w = dict(self.w_ops)
            role = rng.choice(["emitter", "drainer", "mixed", "mixed"])
            if role == "emitter":
                w["q"] = 0.3
            elif role == "drainer":
                w["e"] = 0.5
            threads.append({"ops": [self.op(rng, ns, nk, nt, w) for _ in range(n)]})
        grouped = [s for s in range(ns) if rng.random() < 0.25]
        return {"signals": ns, "slots": slots, "init": init, "threads": threads,
                "grouped": grouped, "arg": rng.choice(KINDS),
                "foreign": self.foreign, "ghost": ghost,
                "names": rng.choice([None, None, "worker", "MainThread"])}

    def op(self, rng, ns, nk, nt, w):
        k = weighted(rng, w)
        if k == "e":
            return ["e", rng.randrange(ns)]
        if k == "q":
            if self.foreign and rng.random() < 0.6:
                return ["q", rng.randrange(nt)]
            return ["q", None]
        if k in ("c", "d", "x"):
            return [k, rng.randrange(nk)]
        if k == "z":
            return ["z", rng.choice([0.001, 0.01])]
        return [k]

    def acts(self, rng, ns, slots, nt, s, drains):
        out = []
        later = [k for k, sp in enumerate(slots) if sp["sig"] >= s]
        for _ in range(rng.choice([1, 1, 1, 2])):
            r = rng.random()
            if r < self.p_raise:
                out.append(["raise"])
                break
            if r < 0.3:
                out.append(["x", rng.randrange(len(slots))])
            elif drains:
                out.append(["q", rng.randrange(nt) if self.foreign else None])
            elif r < 0.7 and s + 1 < ns:
                out.append(["e", rng.randrange(s + 1, ns)])
            else:
                out.append([rng.choice(["d", "c"]), rng.choice(later)])
        return out

    def run(self, sim: Sim, plan: dict) -> None:
        sim.quiet = True
        emit_queued()  # the only queue that outlives a run is the main thread's
        w = World(sim, plan)
        go = [False]

        def body(k):
            def f():
                sim.block(lambda: go[0])
                for o in plan["threads"][k]["ops"]:
                    w.op(o)
                # an actor whose thread stays alive drains until all have finished
                left[0] -= 1
                sim.block(lambda: left[0] == 0)
                w.flush(k)

            return f

        left = [len(plan["threads"])]
        dead = None
        if plan.get("ghost"):
            dead = sim.spawn(lambda: None, plan["names"] or "ghost")
            sim.join_all()
            sim.fault("target-thread-ended")
        for k in range(1, len(plan["threads"])):
            w.threads.append(sim.spawn(body(k), plan["names"] or f"t{k}"))
        if dead is not None:
            w.ghost = len(w.threads)
            w.threads.append(dead)
        for o in plan["init"]:
            w.op(o)
        sim.quiet = False
        go[0] = True
        body(0)()
        sim.join_all()
        sim.quiet = True
        if dead is not None:
            while w.drain(w.ghost):
                pass
        w.judge()
        for c in w.calls:
            sim.log(c["tok"], c["i"], c["thr"], c["drain"])
        for u in sim.uncaught:
            sim.fail("thread-died", str(u))
        if sim.unraisable:
            sim.fail("unraisable", sim.unraisable[0])
        for e in w.raised:
            drop_tb(e)

    def nontrivial(self, sim, plan):
        return sim.preemptions > 0


def _flush(self, k) -> None:
    """Drain every queue, each thread its own in turn, until nothing moves any more."""
    self.drain(None)
    n = len(self.plan["threads"])
    self.idle += 1
    self.sim.block(lambda: self.idle == n)
    self.sim.quiet = True
    while True:
        self.sim.block(lambda: self.turn == k or self.turn < 0)
        if self.turn < 0:
            return
        before = len(self.calls)
        for _ in range(len(self.raised) + len(self.calls) + 500):
            if not self.drain(None):
                break
        self.still = self.still + 1 if len(self.calls) == before else 0
        self.turn = (k + 1) % n if self.still <= n else -1


World.flush = _flush


class Drains(ThreadTargets):
    """C12: many drains of the same queues, re-entrant and failing ones included."""

    name = "drains"
    foreign = True
    p_raise = 0.3
    w_ops = {"e": 5, "q": 7, "c": 0.3, "d": 0.3, "x": 0.4, "z": 0.4, "gc": 0.1}
