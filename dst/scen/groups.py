"""C17, C19: signal groups, their relay, and concurrent use of group and members."""

from __future__ import annotations

import gc
import weakref

from psygnal import EmissionInfo, EmitLoopError, Signal, SignalGroup, SignalInstance

from ..base import Scenario
from ..core import Sim, SimAbort
from ..lib import KINDS, drop_tb, unwrap, weighted, wrap

INF = float("inf")
NAMES = ("a", "b", "c")
RELAY = 9  # pseudo member index of group connections


class Boom(Exception):
    pass


class GI(SignalGroup):
    a = Signal(int, int)
    b = Signal(int, int)
    c = Signal(int, int)


class GQ(SignalGroup):
    a = Signal(int, int, reemission="queued")
    b = Signal(int, int)
    c = Signal(int, int, reemission="queued")


class GN(SignalGroup):
    """Signals that have the names of others."""

    a = Signal(int, int)
    b = Signal(int, int, name="a")
    c = Signal(int, int, name="b")


class World:
    def __init__(self, sim: Sim, plan: dict) -> None:
        self.sim = sim
        self.plan = plan
        self.seq = 0
        cls = GQ if plan.get("queued") else GN if plan.get("named") else GI
        self.groups = [cls() for _ in range(plan["ngroups"])]
        self.members = [[g[n] for n in NAMES] for g in self.groups]
        self.free = SignalInstance((int, int), name="a")
        self.specs = plan["slots"]
        self.recs: dict[int, object] = {}
        self.drop: dict[int, float] = {}
        self.dead: dict[int, float] = {}
        self.wrefs = {}
        self.ncalls = [0] * len(self.specs)
        self.conns: list[dict] = []
        self.ems: list[dict] = []
        self.bytok: dict[int, dict] = {}
        self.calls: list[dict] = []
        self.changing: dict[int, int] = {}
        self.raised: list[BaseException] = []
        self.budget = 40
        for i, sp in enumerate(self.specs):
            self.make(i, sp)

    def tick(self) -> int:
        self.seq += 1
        return self.seq

    def make(self, i, sp) -> None:
        w = self
        if sp["kind"] == "func":

            def f(*a):
                w.called(i, a)

            self.recs[i] = f
            return

        class R:
            def m(self, *a):
                w.called(i, a)

            def __call__(self, x, *rest):
                w.called(i, (x, *rest))

        r = R()
        self.recs[i] = r
        self.wrefs[i] = weakref.ref(r, lambda _: w.died(i))

    def died(self, i) -> None:
        t = self.dead[i] = self.tick()
        for c in self.conns:
            if c["i"] == i and c["end"] == INF:
                c["end"] = t

    def slot(self, i):
        r = self.recs.get(i)
        if r is None:
            return None
        return r.m if self.specs[i]["kind"] == "method" else r

    # ------------------------------------------------------------------ callbacks
    def called(self, i, args) -> None:
        sim = self.sim
        rec = {"i": i, "start": self.tick(), "thr": sim.me(), "exc": False}
        via = self.specs[i]["via"]
        if via == "group":
            if len(args) != 1 or not isinstance(args[0], EmissionInfo):
                sim.fail("bad-args", f"group callback got {args!r}")
                return
            info = args[0]
            infargs = tuple(map(unwrap, info.args))
            em = self.bytok.get(infargs[0]) if infargs else None
            if em is None:
                sim.fail("bad-info", f"group callback got args {info.args!r}")
                return
            if em["sig"] is not info.signal:
                sim.fail(
                    "attribution",
                    f"emission of {em['g']}.{NAMES[em['m']]} reported as "
                    f"{info.signal.name!r} of another group or signal",
                )
            if infargs != (em["tok"], em["m"]):
                sim.fail("bad-info", f"args {infargs} instead of {(em['tok'], em['m'])}")
        else:
            args = tuple(map(unwrap, args))
            em = self.bytok.get(args[0]) if args else None
            want = (em["tok"], em["m"])[:self.specs[i].get("max_args")] if em else ()
            if em is None or args != want:
                sim.fail("bad-args", f"callback got {args!r}")
                return
        rec["tok"] = em["tok"]
        if em["end"] < rec["start"] and not self.plan.get("loose"):
            sim.fail("late", "a callback was called after emit() had returned")
        if i in self.dead:
            sim.fail("dead-called", f"slot {i} called after its receiver died")
        if em["free"] and via == "group":
            sim.fail("non-member", "the emission of a non-member was reported")
        self.calls.append(rec)
        sim.point()
        n = self.ncalls[i]
        self.ncalls[i] += 1
        script = self.specs[i].get("script") or []
        for a in script[n] if n < len(script) else ():
            if a[0] == "raise":
                e = Boom()
                self.raised.append(e)
                rec["exc"] = True
                sim.fault("callback-raises")
                raise e
            sim.stat("reentrant-" + a[0])
            self.op(a)

    # ----------------------------------------------------------------- operations
    def op(self, o) -> None:
        k = o[0]
        if k == "e":
            self.emit(o[1] % len(self.groups), o[2])
        elif k == "f":
            self.emit(0, 0, free=True)
        elif k == "c":
            self.connect(o[1])
        elif k == "d":
            self.disconnect(o[1], o[2])
        elif k == "x":
            if o[1] in self.recs and self.specs[o[1]]["kind"] != "func":
                self.sim.fault("receiver-death")
                self.drop[o[1]] = self.tick()
                del self.recs[o[1]]
        elif k == "gc":
            self.sim.fault("gc")
            gc.collect()
        elif k == "z":
            self.sim.sleep(o[1])
        elif k in ("block", "pause"):
            g = self.groups[o[1] % len(self.groups)]
            t = g if o[2] < 0 else g[NAMES[o[2]]]
            if k == "block":
                with t.blocked():
                    for x in o[3]:
                        self.op(x)
            else:
                try:
                    with t.paused():
                        for x in o[3]:
                            self.op(x)
                except EmitLoopError as e:
                    drop_tb(e)
        elif k == "len":
            g = self.groups[o[1] % len(self.groups)]
            len(g.all)
            for n in NAMES:
                len(g[n])

    def emit(self, g, m, free=False) -> None:
        if self.budget <= 0:
            return
        self.budget -= 1
        s = self.tick()
        sig = self.free if free else self.members[g][m]
        me = self.sim.me()
        d = {"tok": s + 1000, "g": g, "m": m, "sig": sig, "start": s, "end": INF,
             "free": free, "thr": me, "cut": False,
             "nested": any(e["thr"] == me and e["end"] == INF for e in self.ems),
             "inq": self.plan.get("queued") and m != 1 and any(
                 e["thr"] == me and e["end"] == INF and e["sig"] is sig for e in self.ems)}
        self.ems.append(d)
        self.bytok[d["tok"]] = d
        try:
            sig.emit(wrap(self.plan.get("arg"), d["tok"]), m)
        except SimAbort:
            raise
        except EmitLoopError as e:
            d["cut"] = True
            c = e.__cause__
            while isinstance(c, EmitLoopError):
                c = c.__cause__
            if not any(c is x for x in self.raised):
                self.sim.fail(
                    f"emit-{type(c).__name__}", f"EmitLoopError caused by {c!r}, which no "
                    "callback raised"
                )
            if d["nested"]:
                d["end"] = self.tick()
                raise
            drop_tb(e)
        finally:
            d["end"] = self.tick()
            if d["inq"]:  # in queued mode it is done when the outermost one is
                d["end"] = INF
                self.pend(sig)
            else:
                self.unpend(sig, d)

    def pend(self, sig) -> None:
        pass

    def unpend(self, sig, d) -> None:
        for e in self.ems:
            if e["inq"] and e["sig"] is sig and e["end"] == INF and e["thr"] == d["thr"]:
                e["end"] = d["end"]
                e["cut"] = e["cut"] or d["cut"]

    def places(self, i):
        """(group, member) pairs slot i connects to."""
        sp = self.specs[i]
        g = sp["g"] % len(self.groups)
        if sp["via"] == "group":
            return [(g, RELAY)]
        if sp["via"] == "direct":
            return [(g, m) for m in range(3)]
        return [(g, sp["m"])]

    def connect(self, i) -> None:
        f = self.slot(i)
        if f is None or self.changing.get(i):
            return
        if any(c["i"] == i and c["end"] == INF for c in self.conns):
            return
        self.changing[i] = 1
        sp = self.specs[i]
        g = self.groups[sp["g"] % len(self.groups)]
        now = self.tick()
        new = [
            {"i": i, "g": a, "m": b, "s": now, "start": INF, "end": INF, "gone": INF}
            for a, b in self.places(i)
        ]
        self.conns += new
        try:
            t = g.all if sp.get("relay") else g
            if sp["via"] == "group":
                kw = {"priority": sp["prio"]} if "prio" in sp else {}
                if "unique" in sp:
                    kw["unique"] = sp["unique"]
                t.connect(**kw)(f) if sp.get("deco") else t.connect(f, **kw)
            elif sp["via"] == "direct":
                kw = {k: sp[k] for k in ("unique", "max_args") if k in sp}
                t.connect_direct(**kw)(f) if sp.get("deco") else t.connect_direct(f, **kw)
            else:
                g[NAMES[sp["m"]]].connect(f, priority=sp.get("prio", 0))
        finally:
            t = self.tick()
            for c in new:
                c["start"] = t
            self.changing[i] = 0

    def disconnect(self, i, missing_ok=True) -> None:
        f = self.slot(i)
        if f is None or self.changing.get(i):
            return
        self.changing[i] = 1
        mine = [c for c in self.conns if c["i"] == i and c["end"] == INF]
        sp = self.specs[i]
        g = self.groups[sp["g"] % len(self.groups)]
        t = self.tick()
        for c in mine:
            c["end"] = t
        try:
            if sp["via"] == "member":
                g[NAMES[sp["m"]]].disconnect(f, missing_ok)
            else:
                (g.all if sp.get("relay") else g).disconnect(f, missing_ok)
        except ValueError as e:
            if mine or missing_ok:
                self.sim.fail("disconnect", f"disconnect of a connected slot failed: {e}")
            drop_tb(e)
        else:
            if not mine and not missing_ok:
                self.sim.fail("missing-ok", "disconnect of an unconnected slot accepted")
        finally:
            t = self.tick()
            for c in mine:
                c["gone"] = t
            self.changing[i] = 0

    # -------------------------------------------------------------------- judge
    def judge(self) -> None:
        sim = self.sim
        by: dict[tuple, list] = {}
        for c in self.calls:
            by.setdefault((c["tok"], c["i"]), []).append(c)
        for (tok, i), cs in by.items():
            em = self.bytok[tok]
            name = f"{'free' if em['free'] else NAMES[em['m']]}"
            if len(cs) > 1:
                sim.fail(
                    "duplicate",
                    f"{self.specs[i]['via']} callback {i} called {len(cs)} times for one "
                    f"emission of {name}",
                )
            ok = [
                c for c in self.conns
                if c["i"] == i and not em["free"] and c["g"] == em["g"]
                and c["m"] in (em["m"], RELAY)
                and c["s"] < em["end"] and c["gone"] > em["start"]
            ]
            if not ok:
                sim.fail(
                    "not-connected",
                    f"{self.specs[i]['via']} callback {i} called for an emission of {name} "
                    "it was not connected to at the time",
                )
        for em in self.ems:
            if em["free"] or em["cut"]:
                continue
            if any(c["exc"] for c in self.calls if c["tok"] == em["tok"]):
                continue
            for c in self.conns:
                if c["g"] != em["g"] or c["m"] not in (em["m"], RELAY):
                    continue
                if c["start"] > em["start"] or c["end"] < em["end"]:
                    continue
                if self.drop.get(c["i"], INF) < em["end"]:
                    continue
                if not by.get((em["tok"], c["i"])):
                    sim.fail(
                        "lost",
                        f"{self.specs[c['i']]['via']} callback {c['i']} was not called for "
                        f"an emission of {NAMES[em['m']]}",
                    )
        self.judge_priority(by)
        last: dict[tuple, int] = {}
        for c in self.calls:
            em = self.bytok[c["tok"]]
            if em["nested"]:
                continue
            key = (c["i"], em["thr"])
            if last.get(key, 0) > c["tok"]:
                sim.fail("order", f"callback {c['i']} got emissions out of order")
            last[key] = c["tok"]

    def judge_priority(self, by) -> None:
        """Callbacks of a group (or of a member) are called in their order."""
        for em in self.ems:
            prev: dict[int, list] = {}
            for c in self.calls:
                if c["tok"] != em["tok"]:
                    continue
                k = [
                    x for x in self.conns
                    if x["i"] == c["i"] and x["g"] == em["g"] and x["m"] in (em["m"], RELAY)
                    and x["start"] < em["start"] and x["end"] > em["end"]
                ]
                if not k:
                    continue
                y = {**k[0], "p": self.specs[c["i"]].get("prio", 0)}
                for x in prev.setdefault(y["m"], []):
                    if x["p"] < y["p"] or (x["p"] == y["p"] and y["start"] < x["s"]):
                        self.sim.fail("priority", f"callbacks {x['i']} and {y['i']} ran out of "
                                      "order")
                prev[y["m"]].append(y)


class Relay(Scenario):
    """C17 in one thread: re-entrant emission, connection and death."""

    name = "relay"
    threaded = False
    uses_gc = True
    nthreads = (1,)
    w_ops = {"e": 8, "c": 3, "d": 3, "x": 1, "f": 0.8, "gc": 0.3, "len": 0.2}
    w_group = {"e": 3, "c": 2, "d": 3, "x": 1.5, "f": 0.8, "raise": 0.5}
    w_member = {"e": 3, "c": 2, "d": 3, "x": 1.5, "f": 0.8, "raise": 0.5}
    p_script = 0.5
    nops = (3, 14)
    shrink_keys = ("ops", "script", "body", "slots_")

    def gen(self, rng, tier):
        nt = rng.choice(self.nthreads)
        ng = rng.choice([1, 1, 2])
        nk = rng.randint(2, 7)
        slots = []
        for _ in range(nk):
            sp = {
                "kind": rng.choice(["func", "method", "method", "callable"]),
                "via": rng.choice(["group", "group", "group", "member", "direct"]),
                "g": rng.randrange(ng),
                "m": rng.randrange(3),
            }
            if sp["via"] == "group" and rng.random() < 0.3:
                sp["relay"] = True
            if sp["via"] != "direct" and rng.random() < 0.4:
                sp["prio"] = rng.choice([-1, 1])
            if sp["via"] != "member":
                if sp["via"] == "direct" and rng.random() < 0.3:
                    sp["relay"] = True
                if sp["via"] == "direct" and rng.random() < 0.3:
                    sp["max_args"] = rng.choice([1, 2])
                if rng.random() < 0.3:
                    sp["unique"] = rng.choice([True, "raise"])
                sp["deco"] = rng.random() < 0.3
            slots.append(sp)
        for sp in slots:
            if rng.random() < self.p_script:
                w = self.w_group if sp["via"] == "group" else self.w_member
                sp["script"] = [
                    [self.op(rng, w, ng, slots, sp) for _ in range(rng.choice([0, 1, 1, 2]))]
                    for _ in range(rng.randint(1, 3))
                ]
        init = [["c", i] for i in range(nk) if rng.random() < 0.6]
        threads = [
            {"ops": [self.op(rng, self.w_ops, ng, slots, None)
                     for _ in range(rng.randint(*self.nops))]}
            for _ in range(nt)
        ]
        return {"ngroups": ng, "arg": rng.choice(KINDS), "queued": rng.random() < 0.3 and nt == 1,
                "named": rng.random() < 0.3, "slots": slots,
                "init": init, "threads": threads}

    def op(self, rng, table, ng, slots, inside, depth=0):
        k = weighted(rng, table)
        if k == "e":
            return ["e", rng.randrange(ng), rng.randrange(3)]
        if k in ("c", "x"):
            return [k, self.pick(rng, slots, inside)]
        if k == "d":
            return [k, self.pick(rng, slots, inside), rng.random() < 0.7]
        if k in ("block", "pause"):
            return [
                k, rng.randrange(ng), rng.choice([-1, -1, 0, 1, 2]),
                [self.op(rng, self.w_ops, ng, slots, inside, depth + 1)
                 for _ in range(rng.randint(0, 3))] if depth < 2 else [],
            ]
        if k == "z":
            return [k, rng.choice([0.001, 0.01])]
        if k == "len":
            return [k, rng.randrange(ng)]
        return [k]

    def pick(self, rng, slots, inside):
        return rng.randrange(len(slots))

    def run(self, sim: Sim, plan: dict) -> None:
        sim.quiet = True
        w = World(sim, plan)
        for o in plan["init"]:
            w.op(o)
        sim.quiet = False

        def body(k):
            for o in plan["threads"][k]["ops"]:
                w.op(o)

        for k in range(1, len(plan["threads"])):
            sim.spawn(lambda k=k: body(k), f"t{k}")
        if plan["threads"]:
            body(0)
        sim.join_all()
        sim.quiet = True
        w.budget = 10
        for sp in w.specs:
            sp.pop("script", None)
        for g in range(plan["ngroups"]):
            for m in range(3):
                w.op(["e", g, m])
        self.finish(sim, w)
        for c in w.calls:
            sim.log(c["i"], c["tok"], c["thr"])
        for u in sim.uncaught:
            sim.fail("thread-died", str(u))
        if sim.unraisable:
            sim.fail("unraisable", sim.unraisable[0])
        for e in w.raised:
            drop_tb(e)

    def finish(self, sim, w) -> None:
        w.judge()

    def nontrivial(self, sim, plan):
        return bool(sim.faults or sim.stats) or sim.preemptions > 0


class RelayThreads(Relay):
    """C17 with several threads."""

    name = "relay-threads"
    threaded = True
    nthreads = (2, 2, 3)
    stall_rate = 0.15
    # callbacks hold locks: those of groups only touch their group, those of members
    # only what comes later
    w_group = {"c": 2, "d": 3, "x": 1.5, "f": 0.5}
    w_member = {"x": 1, "f": 1}
    w_ops = {"e": 8, "c": 2, "d": 2, "x": 1, "f": 0.5, "gc": 0.1}
    p_script = 0.35
    nops = (1, 6)

    def pick(self, rng, slots, inside):
        if inside is not None and inside["via"] == "group":
            own = [i for i, s in enumerate(slots) if s["via"] == "group"
                   and s["g"] == inside["g"]]
            return rng.choice(own)
        return rng.randrange(len(slots))


class Progress(RelayThreads):
    """C19: everything at once; every operation has to return."""

    name = "progress"
    w_ops = {"e": 6, "c": 4, "d": 4, "x": 2, "gc": 0.3, "block": 1, "pause": 1.2,
             "len": 0.5, "z": 0.3}
    nthreads = (2, 2, 3, 4)

    def gen(self, rng, tier):
        return {**super().gen(rng, tier), "loose": 1}  # paused emissions come late

    def finish(self, sim, w) -> None:
        if any(w.changing.values()):
            sim.fail("stuck", "an operation did not return")
