"""C02: concurrent connect/disconnect/emit on shared signals is linearizable."""

from __future__ import annotations

import weakref

from psygnal import SignalInstance

from ..base import Scenario
from ..core import Sim, SimAbort
from ..lib import attempt, insert_by_priority

INF = float("inf")
SETTERS = {"setattr": "val", "setitem": "key"}


class _World:
    def __init__(self, sim: Sim, plan: dict) -> None:
        self.sim = sim
        self.seq = 0
        self.sigs = [
            SignalInstance((int, int), name=f"s{i}", reemission=m)
            for i, m in enumerate(plan["signals"])
        ]
        self.calls: dict[int, list] = {}  # token -> [(slot, start, end, tid)]
        self.recs: dict[int, object] = {}
        self.refs: dict[int, weakref.ref] = {}
        self.drop_at: dict[int, float] = {}
        self.slots = plan["slots"]
        self.ops: list[dict] = []
        for i, s in enumerate(self.slots):
            self._make(i, s)

    def tick(self) -> int:
        self.seq += 1
        return self.seq

    def _make(self, i: int, spec: dict) -> None:
        w = self
        sim = self.sim

        def body(i, tok, sigidx):
            start = w.tick()
            rec = [i, start, 0, sim.me()]
            w.calls.setdefault(tok, []).append(rec)
            sim.point()
            if spec.get("oneshot") is not None and spec["oneshot"] == sigidx:
                w.op_disconnect(sigidx, i, True)
            for _ in range(spec.get("yields", 0)):
                sim.point()
            rec[2] = w.tick()

        kind = spec["kind"]
        if kind == "func":

            def f(tok, sigidx):
                body(i, tok, sigidx)

            self.recs[i] = f
        else:

            class R:
                def cb(self, tok, sigidx):
                    body(i, tok, sigidx)

                def __call__(self, tok, sigidx):
                    body(i, tok, sigidx)

                val = property(lambda self: None, lambda self, v: body(i, *v))

                def __setitem__(self, key, v):
                    body(i, *v)

            self.recs[i] = R()
            self.refs[i] = weakref.ref(self.recs[i])

    def slot(self, i: int):
        r = self.recs.get(i)
        if r is None:
            return None
        return r.cb if self.slots[i]["kind"] == "method" else r

    # each op records [invoke, response] and its result
    def rec(self, d: dict) -> dict:
        d["inv"] = self.tick()
        d["res"] = INF
        d["tid"] = self.sim.me()
        self.ops.append(d)
        return d

    def op_connect(self, s, i, prio, unique):
        slot = self.slot(i)
        if slot is None:
            return
        kind = self.slots[i]["kind"]
        if kind in SETTERS:
            unique = False
        d = self.rec({"k": "c", "s": s, "i": i, "p": prio, "u": unique})
        if kind in SETTERS:
            f = getattr(self.sigs[s], f"connect_{kind}")
            e, _ = attempt(f, slot, SETTERS[kind], maxargs=None, priority=prio)
            del f
        else:
            e, _ = attempt(self.sigs[s].connect, slot, priority=prio, unique=unique)
        del slot
        d["out"] = e
        d["res"] = self.tick()
        if e is not None and not (unique == "raise" and e == "ValueError"):
            self.sim.fail(f"connect-{e}", f"connect raised {e}: {_}")

    def op_disconnect(self, s, i, missing_ok):
        slot = self.slot(i)
        if slot is None:
            return
        d = self.rec({"k": "d", "s": s, "i": i, "m": missing_ok})
        kind = self.slots[i]["kind"]
        if kind in SETTERS:
            f = getattr(self.sigs[s], f"disconnect_{kind}")
            e, x = attempt(f, slot, SETTERS[kind], missing_ok)
            del f
        else:
            e, x = attempt(self.sigs[s].disconnect, slot, missing_ok)
        del slot
        d["out"] = e
        d["res"] = self.tick()
        if e is not None and (missing_ok or e != "ValueError"):
            self.sim.fail(f"disconnect-{e}", f"disconnect raised {e}: {x}")

    def op_emit(self, s):
        d = self.rec({"k": "e", "s": s})
        tok = d["tok"] = d["inv"]
        self.calls[tok] = []
        e, x = attempt(self.sigs[s].emit, tok, s)
        d["res"] = self.tick()
        if e is not None:
            c = x.__cause__
            self.sim.fail(
                f"emit-{type(c).__name__ if c is not None else e}",
                f"emit raised {e} ({c!r}) though no callback failed",
            )

    def op_in(self, s, i):
        slot = self.slot(i)
        if slot is None or self.slots[i]["kind"] in SETTERS:
            return
        d = self.rec({"k": "in", "s": s, "i": i})
        e, out = attempt(self.sigs[s].__contains__, slot)
        del slot
        d["out"] = out
        d["res"] = self.tick()
        if e is not None:
            self.sim.fail(f"contains-{e}", f"'in' raised {e}")

    def op_len(self, s):
        d = self.rec({"k": "n", "s": s})
        e, out = attempt(len, self.sigs[s])
        d["out"] = out
        d["res"] = self.tick()
        if e is not None:
            self.sim.fail(f"len-{e}", f"len raised {e}")

    def op_drop(self, i):
        if i not in self.refs or i not in self.recs:
            return
        self.drop_at[i] = self.tick()
        self.sim.fault("receiver-death")
        del self.recs[i]
        self.tick()

    def run_op(self, o):
        k = o[0]
        if k == "c":
            self.op_connect(*o[1:])
        elif k == "d":
            self.op_disconnect(*o[1:])
        elif k == "e":
            self.op_emit(o[1])
        elif k == "x":
            self.op_drop(o[1])
        elif k == "in":
            self.op_in(*o[1:])
        elif k == "n":
            self.op_len(o[1])
        else:
            self.sim.point()


def linearizable(ops: list[dict], world: _World) -> bool:
    """Wing-Gong search over the operations of one signal."""
    n = len(ops)
    full = (1 << n) - 1
    seen = set()
    drop = world.drop_at

    def optional(i, op):
        return drop.get(i, INF) < op["res"]

    def gone(i, op):
        # dropped before the operation started: may already be dead
        return drop.get(i, INF) < op["inv"]

    def step(op, state):
        """New state if op's result fits the state, else None."""
        k = op["k"]
        if k == "c":
            if op["u"] and any(x[0] == op["i"] for x in state):
                if op["u"] == "raise" and op["out"] is None:
                    return None
                return state
            if op["out"] is not None:
                return None
            lst = list(state)
            insert_by_priority(lst, (op["i"], op["p"]), op["p"], lambda x: x[1])
            return tuple(lst)
        if k == "d":
            for j, x in enumerate(state):
                if x[0] == op["i"]:
                    if op["out"] is not None:
                        return None
                    return state[:j] + state[j + 1 :]
            if not op["m"] and op["out"] is None:
                return None
            return state
        if k == "e":
            got = [c[0] for c in world.calls[op["tok"]]]
            g = 0
            for i, _p in state:
                if g < len(got) and got[g] == i:
                    g += 1
                elif not optional(i, op):
                    return None
            return state if g == len(got) else None
        if k == "in":
            return state if op["out"] == any(x[0] == op["i"] for x in state) else None
        hi = len(state)
        lo = sum(1 for x in state if not optional(x[0], op))
        return state if lo <= op["out"] <= hi else None

    stack = [(0, ())]
    while stack:
        mask, state = stack.pop()
        if mask == full:
            return True
        if (mask, state) in seen:
            continue
        seen.add((mask, state))
        first_res = min(ops[j]["res"] for j in range(n) if not mask >> j & 1)
        for j in range(n):
            if mask >> j & 1 or ops[j]["inv"] > first_res:
                continue
            ns = step(ops[j], state)
            if ns is not None:
                stack.append((mask | 1 << j, ns))
    return False


class Linear(Scenario):
    name = "linear"
    horizon = 250

    def gen(self, rng, tier):
        nsig = rng.choice([1, 1, 2])
        nslot = rng.randint(2, 5)
        slots = []
        for _ in range(nslot):
            s = {
                "kind": rng.choice(["func", "func", "method", "method", "method", "callable",
                                    "setattr", "setitem"]),
                "yields": rng.choice([0, 0, 1, 2]),
            }
            if rng.random() < 0.15:
                s["oneshot"] = rng.randrange(nsig)
            slots.append(s)
        prios = rng.random() < 0.6

        def prio():
            return rng.choice([-1, 0, 0, 1, 2]) if prios else 0

        setup = []
        for i in range(nslot):
            if rng.random() < 0.7:
                setup.append(["c", rng.randrange(nsig), i, prio(), False])
        threads = []
        nthreads = rng.choice([2, 2, 3, 3, 4])
        total = rng.randint(nthreads, 11)
        for _t in range(nthreads):
            threads.append({"ops": []})
        deaths = rng.random() < 0.5
        for _ in range(total):
            r = rng.random()
            s = rng.randrange(nsig)
            i = rng.randrange(nslot)
            if r < 0.30:
                op = ["e", s]
            elif r < 0.52:
                op = ["c", s, i, prio(), rng.choice([False, False, True, "raise"])]
            elif r < 0.74:
                op = ["d", s, i, rng.random() < 0.6]
            elif r < 0.88 and deaths:
                op = ["x", i]
            elif r < 0.93:
                op = ["in", s, i]
            elif r < 0.96:
                op = ["n", s]
            else:
                op = ["e", s]
            rng.choice(threads)["ops"].append(op)
        modes = [
            rng.choice(["immediate", "immediate", "queued", "latest-only"])
            for _ in range(nsig)
        ]
        return {"signals": modes, "slots": slots, "ops": setup, "threads": threads}

    def run(self, sim: Sim, plan: dict) -> None:
        sim.quiet = True
        w = _World(sim, plan)
        for o in plan["ops"]:
            w.run_op(o)
        sim.quiet = False

        def runner(ops):
            def go():
                for o in ops:
                    try:
                        w.run_op(o)
                    except SimAbort:
                        raise

            return go

        for k, t in enumerate(plan["threads"]):
            sim.spawn(runner(t["ops"]), f"t{k}")
        sim.join_all()
        sim.quiet = True
        for s in range(len(w.sigs)):
            w.run_op(["e", s])
            w.run_op(["n", s])
        self.judge(sim, w)
        for u in sim.uncaught:
            sim.fail("thread-died", str(u))
        if sim.unraisable:
            sim.fail("unraisable", sim.unraisable[0])

    def judge(self, sim: Sim, w: _World) -> None:
        # a callback never starts after its receiver was observed dead (implied), and
        # emissions of different threads on one signal never interleave
        for s in range(len(w.sigs)):
            ops = [o for o in w.ops if o["s"] == s]
            spans = []
            for o in ops:
                if o["k"] == "e" and w.calls[o["tok"]]:
                    cs = w.calls[o["tok"]]
                    spans.append((cs[0][1], cs[-1][2], o["tid"], o["tok"]))
                    if any(c[3] != o["tid"] for c in cs):
                        sim.fail("wrong-thread", f"emission {o} ran in another thread")
            for i, a in enumerate(spans):
                for b in spans[i + 1 :]:
                    if a[2] != b[2] and a[0] < b[1] and b[0] < a[1]:
                        sim.fail(
                            "interleaved",
                            f"callbacks of two emissions of signal {s} interleave",
                        )
            if not linearizable(ops, w):
                sim.fail(
                    "not-linearizable",
                    "no order of operations explains: "
                    + "; ".join(self.show(o, w) for o in ops),
                )
        for o in w.ops:
            sim.log(self.show(o, w))

    @staticmethod
    def show(o, w) -> str:
        k = o["k"]
        x = f"T{o['tid']}[{o['inv']},{o['res']}]"
        if k == "e":
            return f"{x} emit->{[c[0] for c in w.calls[o['tok']]]}"
        if k == "c":
            return f"{x} connect({o['i']},p={o['p']},u={o['u']})->{o['out']}"
        if k == "d":
            return f"{x} disconnect({o['i']})->{o['out']}"
        return f"{x} {k}({o.get('i', '')})->{o['out']}"

    def nontrivial(self, sim, plan):
        return sim.preemptions > 0
