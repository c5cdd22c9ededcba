"""Single-threaded histories with re-entrant callbacks: C01, C03, C04.

Every emission carries a unique token.  Each slot follows a script: what it does on its
first, second, ... call (emit, connect, disconnect, drop a receiver, raise).  The world
records every operation and every call with sequence numbers; ``judge`` then decides from
the record alone, using connection intervals: a connection that covers a whole emission is
*required* in it, one that only overlaps it is *optional*, any other is *forbidden*.
"""

from __future__ import annotations

import gc
import weakref
from functools import partial

from psygnal import EmitLoopError, Signal, SignalGroup, SignalInstance

from ..base import Scenario
from ..core import Sim
from ..lib import KINDS, drop_tb, unwrap, weighted, wrap

INF = float("inf")


class SmallGroup(SignalGroup):
    a = Signal(int)
    b = Signal(int)


class BadStr(Exception):
    def __str__(self):
        raise ValueError("str of exception fails")

    def __repr__(self):
        raise ValueError("repr of exception fails")


class Odd(Exception):
    def __init__(self, a, b):
        super().__init__(a, b)


EXC = {
    "value": lambda: ValueError("boom"),
    "key": lambda: KeyError(("k", 1)),
    "badstr": lambda: BadStr(),
    "odd": lambda: Odd(1, 2),
    "ref": lambda: ReferenceError("mine"),
    "stop": lambda: StopIteration(3),
    "attr": lambda: AttributeError("x"),
    "kbd": lambda: KeyboardInterrupt(),
    "exit": lambda: SystemExit(3),
    "gen": lambda: GeneratorExit(),
}
BASE_EXC = ("kbd", "exit", "gen")


class BadRepr:
    def __repr__(self):
        raise ValueError("repr of argument fails")


class Plain:
    pass


class Falsy:
    def __len__(self):
        return 0


class BadBool:
    def __bool__(self):
        raise ValueError("truth value is ambiguous")

    def __eq__(self, other):
        raise ValueError("truth value is ambiguous")

    __hash__ = None


INSTANCES = {"plain": Plain, "falsy": Falsy, "badbool": BadBool}


# what the setters set; the items have keys that look alike
NAMES: dict[str, list] = {"setattr": ["val", "val2"], "setitem": ["key", 1, "1", "'1'"]}
NAMES.update(psetattr=NAMES["setattr"], psetitem=NAMES["setitem"])


class World:
    def __init__(self, sim: Sim, plan: dict) -> None:
        self.sim = sim
        self.plan = plan
        self.seq = 0
        self.sigs: list[SignalInstance] = []
        self.modes: list[str] = []
        self.fast: list[bool] = []
        self.third = BadRepr() if plan.get("badrepr") else "z"
        self.instances = []
        for i, s in enumerate(plan["signals"]):
            inst = INSTANCES[s["inst"]]() if s.get("inst") else None
            self.instances.append(inst)
            self.sigs.append(
                SignalInstance(
                    (int, int, str), name=f"s{i}", reemission=s["mode"], instance=inst
                )
            )
            self.modes.append(s["mode"])
            self.fast.append(bool(s.get("fast")))
        self.specs = plan["slots"]
        self.recs: dict[int, object] = {}
        self.wrefs: dict[int, weakref.ref] = {}
        self.ncalls = [0] * len(self.specs)
        self.drop: dict[int, float] = {}
        self.conns: list[dict] = []  # {s, i, p, n(order), start, end, max}
        self.ems: list[dict] = []
        self.bytok: dict[int, dict] = {}
        self.stack: list[dict] = []
        self.budget = plan.get("budget", 40)
        self.raised: list[BaseException] = []
        self.swallowed = 0  # how many of those a callback caught
        for i, spec in enumerate(self.specs):
            self.make(i, spec)

    def tick(self) -> int:
        self.seq += 1
        return self.seq

    # ------------------------------------------------------------ receivers
    def make(self, i: int, spec: dict) -> None:
        w = self
        kind = spec["kind"]
        ar = spec.get("arity", "*")
        kw = {"key": i} if spec.get("kw") else {}

        def hit(*args):
            w.called(i, args)

        if kind in ("func", "partial"):
            if kind == "partial":

                def f(x, tok, *rest, key=None):
                    if x != "pre" or key != kw.get("key"):
                        w.sim.fail("bad-args", f"partial lost an argument: {x!r}, {key!r}")
                    hit(tok, *rest)

                self.recs[i] = partial(f, "pre", **kw)
            elif ar == 0:
                self.recs[i] = lambda: hit()
            elif ar == 1:
                self.recs[i] = lambda a: hit(a)
            elif ar == 2:
                self.recs[i] = lambda a, b=None: hit(a, b)
            elif ar == 3:
                self.recs[i] = lambda a, b, c: hit(a, b, c)
            else:
                self.recs[i] = lambda *a: hit(*a)
        elif kind in ("chain", "chaincall"):
            sig = SignalInstance((int, int, str), name=f"chain{i}")
            sig.connect(lambda *a: hit(*a))
            self.recs[i] = sig
        elif spec.get("of") is not None:  # another setter of the same object
            self.recs[i] = self.recs[spec["of"]]
            self.recs[i].via[self.name_of(i)] = i
        else:

            class R:
                def __init__(self):
                    self.__dict__["via"] = {}

                def m0(self):
                    hit()

                def m1(self, a):
                    hit(a)

                def m2(self, a, b=None):
                    hit(a, b)

                def m3(self, a, b, c):
                    hit(a, b, c)

                def mv(self, *a):
                    hit(*a)

                def mk(self, x, *a, key=None):
                    if x != "pre" or key != kw.get("key"):
                        w.sim.fail("bad-args", f"partial lost an argument: {x!r}, {key!r}")
                    hit(*a)

                def __call__(self, a, *b):
                    hit(a, *b)

                val = val2 = None

                def __setattr__(self, k, v):
                    self.put(("attr", k), v)

                def __setitem__(self, k, v):
                    self.put(("item", k), v)

                def put(self, name, v):
                    if name not in self.via:
                        w.sim.fail("bad-args", f"{name} was set")
                        return
                    w.called(self.via[name], v if isinstance(v, tuple) else (v,))

            self.recs[i] = R()
            self.recs[i].via[self.name_of(i)] = i
        r = self.recs[i]
        if kind not in ("func", "partial"):
            self.wrefs[i] = weakref.ref(r, partial(self.died, i))

    def name_of(self, i: int):
        """What slot i sets, if it is a setter."""
        spec = self.specs[i]
        if spec["kind"] in ("setattr", "psetattr"):
            return ("attr", spec.get("name", "val"))
        if spec["kind"] in ("setitem", "psetitem"):
            return ("item", spec.get("name", "key"))
        return None

    def weak(self, i: int) -> bool:
        return self.specs[i]["kind"] not in ("func", "partial")

    def slot(self, i: int):
        r = self.recs.get(i)
        if r is None:
            return None
        kind = self.specs[i]["kind"]
        if kind == "method":
            return getattr(r, f"m{self.specs[i].get('arity', 'v')}".replace("*", "v"))
        if kind == "pmethod":
            return partial(r.mk, "pre", key=i) if self.specs[i].get("kw") else partial(r.mv)
        if kind == "chain":
            return r.emit
        if kind == "psetattr":
            return partial(setattr, r, self.name_of(i)[1])
        if kind == "psetitem":
            return partial(r.__setitem__, self.name_of(i)[1])
        return r

    def nargs(self, i: int, conn_max) -> int:
        """How many of the three emitted arguments slot i takes."""
        spec = self.specs[i]
        n = 3
        if spec["kind"] in ("psetattr", "psetitem") and conn_max is None:
            return 1
        if spec["kind"] in ("func", "method"):
            ar = spec.get("arity", "*")
            if ar != "*":
                n = ar
        return n if conn_max is None else min(n, conn_max)

    # ------------------------------------------------------------ recording
    def called(self, i: int, args: tuple) -> None:
        start = self.tick()
        args = tuple(map(unwrap, args))
        if args:
            em = self.bytok.get(args[0])
        else:
            em = self.stack[-1] if self.stack else None
        if em is None:
            self.sim.fail("stray-call", f"slot {i} called with {args} outside emissions")
            return
        full = (em["tok"], em["s"], self.third)
        n = self.ncalls[i]
        self.ncalls[i] += 1
        rec = {"i": i, "start": start, "end": INF, "args": args, "exc": None}
        em["calls"].append(rec)
        if args != full[: len(args)]:
            # optional trailing default: f(a, b=None) cut to one argument
            if not (len(args) == 2 and args[1] is None and args[0] == full[0]):
                self.sim.fail("bad-args", f"slot {i} got other arguments than emitted")
        if not any(c["i"] == i and c["s"] == em["s"] and c["start"] < start and (
            c["end"] == INF or c.get("dead")
        ) for c in self.conns):
            self.sim.fail("disconnected-called", f"slot {i} called after being disconnected")
        r = self.wrefs.get(i)
        if r is not None and r() is None:
            self.sim.fail("dead-called", f"slot {i} called after its receiver died")
        del r
        script = self.specs[i].get("script") or []
        acts = script[n] if n < len(script) else self.specs[i].get("always", [])
        try:
            for a in acts:
                self.act(a)
        except BaseException as e:
            rec["exc"] = e
            rec["end"] = self.tick()
            raise
        rec["end"] = self.tick()

    def act(self, a: list) -> None:
        k = a[0]
        if k == "raise":
            e = EXC[a[1]]()
            self.raised.append(e)
            self.sim.fault(
                "callback-raises-base" if a[1] in BASE_EXC else "callback-raises"
            )
            raise e
        if k == "try":  # emit and swallow what comes out
            try:
                self.emit(a[1])
            except Exception as e:
                drop_tb(e)
                self.swallowed = len(self.raised)
            return
        self.op(a, nested=True)

    def op(self, o: list, nested: bool = False) -> None:
        k = o[0]
        if k == "e":
            if nested:
                self.sim.stat("reentrant-emit")
                self.emit(o[1])
            else:
                self.emit_top(o[1])
        elif k == "c":
            self.connect(*o[1:])
        elif k == "d":
            self.disconnect(o[1], o[2], True)
        elif k == "dm":
            self.disconnect(o[1], o[2], False)
        elif k == "da":
            self.sigs[o[1]].disconnect()
            t = self.tick()
            for c in self.conns:
                if c["s"] == o[1] and c["end"] == INF:
                    c["end"] = t
        elif k == "x":
            self.kill(o[1])
        elif k == "gc":
            self.sim.fault("gc")
            gc.collect()
        elif k == "n":
            self.check_len(o[1])
        if nested and k != "e":
            self.sim.stat("reentrant-" + k)

    # ------------------------------------------------------------ operations
    def live(self, s: int) -> list[dict]:
        cs = [c for c in self.conns if c["s"] == s and c["end"] == INF]
        return sorted(cs, key=lambda c: (-c["p"], c["n"]))

    def connect(self, s, i, prio, unique, maxa) -> None:
        slot = self.slot(i)
        if slot is None:
            return
        kind = self.specs[i]["kind"]
        sig = self.sigs[s]
        if kind == "setattr":
            unique = False
            start = self.tick()
            sig.connect_setattr(
                slot, self.name_of(i)[1], maxargs=maxa, priority=prio
            )
        elif kind == "setitem":
            unique = False
            start = self.tick()
            sig.connect_setitem(
                slot, self.name_of(i)[1], maxargs=maxa, priority=prio
            )
        else:
            dup = any(c["i"] == i for c in self.live(s))
            start = self.tick()
            try:
                sig.connect(slot, priority=prio, unique=unique, max_args=maxa)
            except ValueError:
                if not (unique == "raise" and dup):
                    raise
                return
            if unique and dup:
                if unique == "raise":
                    self.sim.fail("unique", "unique='raise' accepted a duplicate")
                return
        self.conns.append(
            {"s": s, "i": i, "p": prio, "n": start, "start": self.tick(), "end": INF,
             "max": maxa}
        )

    def disconnect(self, s, i, missing_ok) -> None:
        slot = self.slot(i)
        if slot is None:
            return
        kind = self.specs[i]["kind"]
        sig = self.sigs[s]
        mine = [c for c in self.live(s) if c["i"] == i]
        self.tick()
        try:
            if kind == "setattr":
                sig.disconnect_setattr(slot, self.name_of(i)[1], missing_ok)
            elif kind == "setitem":
                sig.disconnect_setitem(slot, self.name_of(i)[1], missing_ok)
            else:
                sig.disconnect(slot, missing_ok)
        except ValueError:
            if missing_ok or mine:
                raise
            return
        if not mine and not missing_ok:
            self.sim.fail("missing-ok", f"disconnect of unconnected slot {i} accepted")
        if mine:
            mine[0]["end"] = self.tick()

    def kill(self, i) -> None:
        if i not in self.recs or not self.weak(i):
            return
        self.sim.fault("receiver-death")
        others = [j for j, r in self.recs.items() if j != i and r is self.recs[i]]
        for j in others:  # (slots with the same receiver)
            self.drop[j] = self.tick()
            del self.recs[j]
        self.drop[i] = self.tick()
        del self.recs[i]  # calls died(), unless a frame or a cycle keeps it for now

    def died(self, i, _ref) -> None:
        t = self.tick()
        for c in self.conns:
            if c["i"] == i and c["end"] == INF:
                c["end"] = t
                c["dead"] = True

    def emit(self, s: int) -> None:
        if self.budget <= 0:
            return
        self.budget -= 1
        tok = self.tick() + 100
        em = {
            "tok": tok, "s": s, "start": tok - 100, "end": INF, "calls": [],
            "exc": None, "up": [e["tok"] for e in self.stack],
            "pend": [c["tok"] for c in self.ems if c["s"] == s and c["end"] == INF],
        }
        self.ems.append(em)
        self.bytok[tok] = em
        self.stack.append(em)
        arg = wrap(self.plan.get("arg"), tok)
        try:
            if self.fast[s]:
                self.sigs[s].emit_fast(arg, s, self.third)
            else:
                self.sigs[s].emit(arg, s, self.third)
        except BaseException as e:
            em["exc"] = e
            raise
        finally:
            self.stack.remove(em)
            em["end"] = self.tick()

    def emit_top(self, s: int) -> None:
        n = len(self.raised)
        try:
            self.emit(s)
        except BaseException as e:
            em = self.ems[-1]
            self.check_error(e, n)
            drop_tb(e)
            del em
        else:
            if len(self.raised) > max(n, self.swallowed):
                self.sim.fail(
                    "error-lost",
                    f"a callback raised {type(self.raised[-1]).__name__} but the emission "
                    f"on signal {s} raised nothing",
                )
        self.swallowed = 0
        for em in self.ems:
            if em["exc"] is not None:
                em["exc"] = type(em["exc"]).__name__
            for c in em["calls"]:
                if c["exc"] is not None:
                    c["exc"] = type(c["exc"]).__name__
        for e in self.raised:
            drop_tb(e)
        self.raised.clear()

    def check_error(self, e: BaseException, n: int) -> None:
        """What escaped from a top level emission must be the failing callback's."""
        if len(self.raised) <= n:
            c = e.__cause__
            self.sim.fail(
                f"raised-{type(c if c is not None else e).__name__}",
                f"emit raised {type(e).__name__} ({type(c).__name__}: {c}) though no "
                "callback failed",
            )
            return
        x = self.raised[-1]
        if isinstance(x, Exception):
            if not isinstance(e, EmitLoopError):
                self.sim.fail(
                    f"wrong-error-{type(e).__name__}",
                    f"callback raised {type(x).__name__}, emit raised "
                    f"{type(e).__name__} instead of EmitLoopError",
                )
                return
            if e.__cause__ is not x:
                self.sim.fail(
                    "wrong-cause",
                    f"EmitLoopError caused by {type(e.__cause__).__name__}, not by the "
                    f"{type(x).__name__} the callback raised",
                )
        elif e is not x:
            self.sim.fail(
                "base-exception-changed",
                f"callback raised {type(x).__name__}, emit raised {type(e).__name__}",
            )

    def check_len(self, s: int) -> None:
        live = self.live(s)
        got = len(self.sigs[s])
        # those with a dead receiver may be counted until the next emission
        dead = [c for c in self.conns if c["s"] == s and c.get("dead")]
        if not self.stack and not len(live) <= got <= len(live) + len(dead):
            self.sim.fail("len", f"len is {got}, {len(live)} callbacks are connected")
        for i, spec in enumerate(self.specs):
            if spec["kind"] in ("setattr", "setitem"):
                continue
            sl = self.slot(i)
            if sl is None:
                continue
            if (sl in self.sigs[s]) != any(c["i"] == i for c in live):
                self.sim.fail("contains", f"'in' is wrong for slot {i}")

    # ------------------------------------------------------------ judging
    def judge(self) -> None:
        for em in self.ems:
            self.judge_em(em)
        self.judge_order()
        for em in self.ems:
            self.sim.log(
                em["s"], em["start"], em["end"], em["exc"],
                [(c["i"], c["start"], len(c["args"]), c["exc"]) for c in em["calls"]],
            )

    def root_of(self, em: dict) -> dict:
        return self.bytok[em["pend"][0]] if em["pend"] else em

    def judge_em(self, em: dict) -> None:
        s = em["s"]
        mode = self.modes[s]
        nested = bool(em["pend"])
        end = em["end"]
        if mode == "queued" and nested:
            end = self.root_of(em)["end"]
        start = em["start"]
        order = []
        for c in sorted(
            (c for c in self.conns if c["s"] == s), key=lambda c: (-c["p"], c["n"])
        ):
            if c["end"] < start or c["start"] > end:
                continue
            opt = (
                c["start"] > start or c["end"] < end
                or self.drop.get(c["i"], INF) < end
            )
            order.append((c["i"], opt, self.nargs(c["i"], c["max"])))
        got = [(c["i"], len(c["args"])) for c in em["calls"]]
        stopped = self.stopped(em, end)
        if not self.match(order, got, stopped):
            self.sim.fail(
                "delivery",
                f"emission {em['tok']} on signal {s} ({mode}) called "
                f"{[g[0] for g in got]}; connected (slot, optional, nargs): {order}"
                + (f"; cut short: {stopped}" if stopped else ""),
            )
        for c in em["calls"]:
            if c["start"] < start or c["start"] > end:
                self.sim.fail(
                    "late-call", f"slot {c['i']} called outside of its emission"
                )

    def stopped(self, em: dict, end) -> str | None:
        """Whether the emission may legitimately have ended early."""
        for c in em["calls"]:
            if c["exc"] is not None:
                return "raise"
        s = em["s"]
        mode = self.modes[s]
        if mode == "queued" and em["pend"]:
            root = self.root_of(em)
            fam = [e for e in self.ems if e is root or root["tok"] in e["pend"]]
            if any(c["exc"] is not None for e in fam for c in e["calls"]):
                return "drop"
        if mode == "latest-only" and any(em["tok"] in e["pend"] for e in self.ems):
            return "newer"
        return None

    def match(self, order, got, stopped) -> bool:
        """Is `got` the required connections in order, plus some optional ones?

        stopped: None - all required ones; 'raise' - got ends at the raising call;
        'newer' - got is a prefix; 'drop' - nothing at all, or as None.
        """
        if stopped == "drop" and not got:
            return True
        n, m = len(order), len(got)
        reach = {0}
        ok_prefix = m == 0
        for k in range(n):
            i, opt, nargs = order[k]
            nxt = set()
            for g in reach:
                if g == m:
                    ok_prefix = True
                if g < m and got[g][0] == i and self.args_ok(i, got[g][1], nargs):
                    nxt.add(g + 1)
                if opt:
                    nxt.add(g)
            reach = nxt
        if m in reach:
            ok_all = ok_prefix = True
        else:
            ok_all = False
        if stopped in ("raise", "newer"):
            return ok_prefix
        return ok_all

    def args_ok(self, i, got_n, nargs) -> bool:
        spec = self.specs[i]
        if spec["kind"] in ("func", "method") and spec.get("arity") == 2 and nargs == 1:
            return got_n == 2  # the default filled in
        return got_n == nargs

    def judge_order(self) -> None:
        for s, mode in enumerate(self.modes):
            ems = [e for e in self.ems if e["s"] == s]
            calls = sorted(
                ((c["start"], e, c) for e in ems for c in e["calls"]),
                key=lambda x: x[0],
            )
            if mode == "queued" and not self.fast[s]:
                last = 0
                for _t, e, c in calls:
                    if e["tok"] < last:
                        self.sim.fail(
                            "queued-order",
                            f"slot {c['i']} got emission {e['tok']} after a callback "
                            f"had already got {last}",
                        )
                        break
                    last = e["tok"]
            elif mode == "latest-only" and not self.fast[s]:
                for t, e, c in calls:
                    newer = [x for x in ems if e["tok"] in x["pend"] and x["start"] < t]
                    if newer:
                        self.sim.fail(
                            "stale-call",
                            f"slot {c['i']} called with {e['tok']} after "
                            f"{newer[0]['tok']} had been emitted",
                        )
                        break
            else:
                for t, e, c in calls:
                    for x in ems:
                        if x["start"] < t < x["end"] and e["tok"] in x["pend"]:
                            self.sim.fail(
                                "interleaved",
                                f"slot {c['i']} got outer emission {e['tok']} inside "
                                f"nested {x['tok']}",
                            )
                            return


class Histories(Scenario):
    """C01: delivery under histories with re-entrant mutation."""

    name = "histories"
    uses_gc = True
    threaded = False
    modes = ("immediate", "immediate", "immediate", "queued", "latest-only")
    w_top = {"e": 6, "c": 4, "d": 2.5, "dm": 1, "x": 1.5, "n": 1.5, "da": 0.2, "gc": 0.3}
    w_act = {"e": 1.5, "c": 2, "d": 3, "x": 2, "da": 0.3, "gc": 0.3}
    p_script = 0.6
    p_raise = 0.0
    p_fast = 0.25
    exc = ("value",)
    odd = False

    @staticmethod
    def share(rng, sp, slots):
        """Name what a setter sets, and maybe let it use the object of another slot."""
        hosts = [
            j for j, t in enumerate(slots)
            if t["kind"] in (*NAMES, "method", "callable", "pmethod") and "of" not in t
        ]
        names = NAMES[sp["kind"]]
        if hosts and rng.random() < 0.6:
            of = rng.choice(hosts)
            used = [
                t["name"] for j, t in enumerate(slots)
                if t["kind"] in NAMES and NAMES[t["kind"]] is names
                and of in (j, t.get("of"))
            ]
            if len(used) < len(names):
                sp["of"] = of
                names = [n for n in names if n not in used]
        sp["name"] = rng.choice(names)

    def gen(self, rng, tier):
        ns = rng.choice([1, 1, 1, 2, 3])
        signals = []
        for _ in range(ns):
            m = rng.choice(self.modes)
            signals.append({"mode": m})
            if self.odd and rng.random() < 0.4:
                signals[-1]["inst"] = rng.choice(["plain", "falsy", "badbool"])
            if m == "immediate" and rng.random() < self.p_fast:
                signals[-1]["fast"] = True
        any_mode = any(s["mode"] != "immediate" for s in signals)
        nk = rng.randint(1, 7)
        slots = []
        for _ in range(nk):
            kind = rng.choice(
                ["func", "func", "method", "method", "method", "callable", "pmethod",
                 "partial", "setattr", "setitem", "chain", "chaincall", "psetattr",
                 "psetitem"]
            )
            sp = {"kind": kind}
            if kind in ("partial", "pmethod") and rng.random() < 0.5:
                sp["kw"] = True
            if kind in NAMES:
                self.share(rng, sp, slots)
            if kind in ("func", "method"):
                sp["arity"] = rng.choice(
                    ["*", 1, 2, 3] if any_mode else ["*", "*", 0, 1, 2, 3]
                )
            slots.append(sp)
        prios = rng.random() < 0.6

        def conn(s, i):
            maxa = None
            kind = slots[i]["kind"]
            if kind in ("setattr", "setitem"):
                maxa = rng.choice([1, 1, 2, None])
            elif kind in ("psetattr", "psetitem"):
                maxa = rng.choice([None, None, 1, 2])
            elif kind not in ("partial", "chain", "chaincall") and not (
                kind in ("func", "method") and slots[i]["arity"] != "*"
            ):
                maxa = rng.choice([None, None, 1, 2, 3] + [0] * (
                    not any_mode and kind != "callable"))
            return [
                "c", s, i, rng.choice([-2, -1, 0, 0, 0, 1, 5]) if prios else 0,
                rng.choice([False, False, False, True, "raise"]), maxa,
            ]

        def op(table):
            k = weighted(rng, table)
            s = rng.randrange(ns)
            i = rng.randrange(nk)
            if k == "c":
                return conn(s, i)
            if k in ("d", "dm"):
                return [k, s, i]
            if k == "x":
                return ["x", i]
            if k == "try":
                return ["try", s]
            if k in ("e", "n", "da"):
                return [k, s]
            return [k]

        for i, sp in enumerate(slots):
            if rng.random() < self.p_script:
                script = []
                for _ in range(rng.randint(1, 3)):
                    acts = [
                        op(self.w_act) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))
                    ]
                    # self-disconnection and self-destruction deserve extra weight
                    for a in acts:
                        if a[0] in ("d", "x") and rng.random() < 0.4:
                            a[-1] = i
                    if rng.random() < self.p_raise:
                        acts.insert(
                            rng.randint(0, len(acts)), ["raise", rng.choice(self.exc)]
                        )
                    script.append(acts)
                sp["script"] = script
        ops = []
        for s in range(ns):
            for i in range(nk):
                if rng.random() < 0.7:
                    ops.append(conn(s, i))
        rng.shuffle(ops)
        for _ in range(rng.randint(2, 14)):
            ops.append(op(self.w_top))
        for s in range(ns):
            ops += [["e", s], ["n", s]]
        plan = {"signals": signals, "slots": slots, "ops": ops, "arg": rng.choice(KINDS)}
        if self.odd and rng.random() < 0.3:
            plan["badrepr"] = True
        return plan

    shrink_keys = ("ops", "script")

    def run(self, sim, plan):
        w = World(sim, plan)
        for o in plan["ops"]:
            w.op(o)
        w.judge()
        if sim.unraisable:
            sim.fail("unraisable", sim.unraisable[0])
        sim.nre = sum(v for k, v in sim.stats.items() if k.startswith("reentrant"))
        sim.world = w

    def nontrivial(self, sim, plan):
        return bool(getattr(sim, "nre", 0) or sim.faults)


class Reemission(Histories):
    """C03: trees of re-emissions in every mode."""

    name = "reemission"
    modes = ("immediate", "queued", "queued", "latest-only", "latest-only")
    w_top = {"e": 8, "c": 1, "d": 0.5}
    w_act = {"e": 6, "try": 1.2}
    p_script = 0.75
    p_raise = 0.06
    p_fast = 0.0


class Failures(Histories):
    """C04: callbacks failing at every position and depth."""

    name = "failures"
    modes = ("immediate", "immediate", "queued", "latest-only")
    w_top = {"e": 8, "c": 1, "d": 0.7, "x": 0.7, "n": 0.3}
    w_act = {"e": 4, "try": 1.5, "c": 0.4, "d": 0.6, "x": 0.4}
    p_script = 0.7
    p_raise = 0.4
    odd = True
    exc = (
        "value", "value", "key", "badstr", "odd", "ref", "stop", "attr", "kbd", "exit",
        "gen",
    )

    def gen(self, rng, tier):
        plan = super().gen(rng, tier)
        if rng.random() < 0.015:
            plan["many"] = {
                "mode": rng.choice(["immediate", "immediate", "queued", "latest-only"]),
                "how": rng.choice(["emit", "emit_fast", "nested", "resume", "group"]),
                "exc": rng.choice(["value", "key", "kbd", "loop"]),
                "n": rng.choice([40, 310, 620]),
            }
        return plan

    def run(self, sim, plan):
        super().run(sim, plan)
        if plan.get("many"):
            self.many(sim, plan["many"])

    def many(self, sim, m):
        """A callback that has failed very often: the signal must not wear out."""
        sig = SignalInstance((int,), name="many", reemission=m["mode"])
        inner = SignalInstance((int,), name="inner", reemission=m["mode"])
        fail = [True]
        got: list = []

        def f(x):
            if fail[0]:
                sim.fault("callback-raises")
                raise EmitLoopError(ValueError("x")) if m["exc"] == "loop" else EXC[
                    m["exc"]]()
            got.append(x)

        how = m["how"]
        g = None
        if how == "nested":
            inner.connect(f)
            sig.connect(lambda x: inner.emit(x))
        elif how == "group":
            g = SmallGroup()
            sig = g.a
            g.connect(lambda info: f(info.args[0]))
        else:
            sig.connect(f)
        for i in range(m["n"]):
            try:
                if how == "emit_fast":
                    sig.emit_fast(i)
                elif how == "resume":
                    with sig.paused():
                        sig.emit(i)
                        sig.emit(i)
                else:
                    sig.emit(i)
            except RecursionError as e:
                drop_tb(e)
                sim.fail("worn-out", f"RecursionError after {i} failing emissions")
                return
            except BaseException as e:
                drop_tb(e)
        fail[0] = False
        got.clear()
        sig.emit(-1)
        if how != "group":
            sig.emit_fast(-2)
        want = [-1] if how == "group" else [-1, -2]
        if got != want:
            sim.fail("unusable", f"after {m['n']} failures {want} were delivered as {got}")
        sim.log("many", got)

    def nontrivial(self, sim, plan):
        return any(k.startswith("callback-raises") for k in sim.faults)
