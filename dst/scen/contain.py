"""C22-C24, C26: evented containers against the built-in ones.

A history of operations runs on the real container and on a built-in one. Observers
apply the events they get to copies. Hooks - callbacks connected after the observers -
fail, or operate on the container again, at chosen events. Operands fail midway.
"""

from __future__ import annotations

from psygnal import EmitLoopError
from psygnal.containers import EventedDict, EventedList, SelectableEventedList

from ..base import Scenario
from ..core import Sim
from ..lib import attempt, raw, weighted


class Boom(Exception):
    pass


class Ix:
    """Something usable as an index that is no int."""

    def __init__(self, i):
        self.i = i

    def __index__(self):
        return self.i


class BadHash:
    def __hash__(self):
        raise Boom("hash")


class BadEq:
    def __eq__(self, other):
        raise Boom("eq")

    __hash__ = None


class Odd:
    """Cannot be compared, like an array."""

    def __eq__(self, other):
        raise Boom("eq")

    __hash__ = object.__hash__


def same(a, b) -> bool:
    """The very same objects in the same order."""
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def failing(items):
    yield from items
    raise Boom("iterable")


class Box:
    """One container under test with its reference, observers and hooks."""

    PRE: tuple[str, ...] = ()
    POST: tuple[str, ...] = ()
    ATOMIC: frozenset = frozenset()

    def __init__(self, sim: Sim, plan: dict):
        self.sim = sim
        self.plan = plan
        self.vals = self.palette()
        self.counts: dict[str, int] = {}
        self.hooks = plan.get("hooks", [])
        self.depth = 0
        self.stack: list[dict] = []
        self.shadows: list = []
        self.done_events = 0
        self.log: list = []

    def palette(self):
        raise NotImplementedError

    # -- reference
    def snapshot(self):
        raise NotImplementedError

    def ref(self, op):
        """Apply op to the reference; the result."""
        raise NotImplementedError

    def real(self, op):
        raise NotImplementedError

    def resync(self):
        raise NotImplementedError

    # -- events
    def hooked(self, ev, args):
        n = self.counts[ev] = self.counts.get(ev, 0) + 1
        for h in self.hooks:
            if h["ev"] == ev and h["n"] == n:
                frame = self.stack[-1]
                if ev in self.PRE:
                    if h["act"][0] == "raise" and frame["op"][0] in self.ATOMIC:
                        frame["refused"] = True
                    else:
                        frame["loose"] = True
                elif frame["op"][0] not in self.ATOMIC:
                    frame["loose"] = True
                if h["act"][0] == "raise":
                    self.sim.fault("callback-fails")
                    frame["boom"] = True
                    raise Boom(ev)
                self.sim.fault("callback-reenters")
                frame["nested"] = True
                if frame["loose"]:
                    self.resync()  # the outer operation may be half done
                self.do(h["act"][1])

    def fail(self, kind, msg):
        self.sim.fail(kind, f"{[f['op'] for f in self.stack]}: {msg}")

    def do(self, op):
        """Run op on both; compare."""
        if self.depth > 6:
            return
        before = self.snapshot()
        frame = {"op": op, "loose": False, "refused": False, "boom": False,
                 "nested": False, "done": 0, "before": before}
        self.stack.append(frame)
        self.depth += 1
        try:
            e1, r1 = attempt(self.ref, op)
            e2, r2 = attempt(self.real, op)
            self.judge(frame, op, e1, r1, e2, r2)
        finally:
            self.depth -= 1
            self.stack.pop()

    def judge(self, f, op, e1, r1, e2, r2):
        self.sim.log(op[0], e2 or "ok", self.brief())
        if f["boom"]:
            if e2 != "EmitLoopError" and not f["loose"]:
                self.fail("error-lost", f"a callback failed but the result is {e2 or r2!r}")
            if f["refused"] and not f["loose"]:
                self.restore(f["before"])
                if not self.equal():
                    self.fail("refused-change", f"{f['before']} became {self.brief()}")
            elif f["loose"]:
                self.resync()
            elif not self.equal():
                self.fail("contents", f"after a failing callback: {self.brief()}, "
                          f"expected {self.expected()}")
        elif f["loose"]:
            self.resync()
        else:
            if e1 != e2:
                self.fail("exception", f"{e2 or r2!r} instead of {e1 or r1!r}")
            elif e1 is None and not self.same_result(op, r1, r2):
                self.fail("result", f"{r2!r} instead of {r1!r}")
            if not self.equal():
                self.fail("contents", f"{self.brief()}, expected {self.expected()}")
            if e1 is not None and op[0] in self.ATOMIC and f["done"]:
                self.fail("announced-refused", f"{f['done']} events for a refused operation")
        self.check_shadows()

    def done(self):
        for f in self.stack:
            f["done"] += 1

    def check_shadows(self):
        pass

    def same_result(self, op, r1, r2):
        return r1 is r2

    def restore(self, before):
        raise NotImplementedError

    def equal(self):
        raise NotImplementedError

    def brief(self):
        return ""

    def expected(self):
        return ""


# ------------------------------------------------------------------------------ lists
class ListBox(Box):
    PRE = ("inserting", "removing", "moving")
    POST = ("inserted", "removed", "changed", "moved", "reordered")
    ATOMIC = frozenset(["append", "insert", "set", "del", "pop", "remove", "setslice"])

    def __init__(self, sim, plan):
        super().__init__(sim, plan)
        cls = SelectableEventedList if plan["cls"] == "selectable" else EventedList
        init = [self.vals[i] for i in plan["init"]]
        self.m = list(init)
        self.c = cls(init)
        self.cls = cls
        a, b = list(init), list(init)
        self.shadows = [a, b]
        self.seq: list = []
        ev = self.c.events
        for name in (*self.PRE, *self.POST):
            ev[name].connect(self.observer(a, name), priority=5)
        rel = {n: self.observer(b, n, main=False) for n in (*self.PRE, *self.POST)}

        def relayed(info):
            if info.signal.name in rel:
                rel[info.signal.name](*info.args)

        if plan.get("relay"):
            ev.all.connect(relayed)
        else:
            self.shadows.pop()
        for name in {h["ev"] for h in self.hooks}:
            ev[name].connect(lambda *args, _n=name: self.hooked(_n, args))

    def palette(self):
        vals = [0, 1, 2, 1.0, True, "x", None, [1, 2], [1, 2], [], (1,), {1: 2}, object(),
                float("nan"), Odd()]
        if self.plan["cls"] == "selectable":  # holds hashable items only
            vals = [tuple(v) if isinstance(v, (list, dict)) else v for v in vals]
        return vals

    def observer(self, s: list, name: str, main=True):
        def pre(*args):
            if main:
                self.seq.append((name, *args))

        if name in self.PRE:
            return pre

        def bad(msg):
            # move_multiple blocks `reordered`, also for what callbacks do meanwhile
            if any(f["op"][0] == "moves" and f["nested"] for f in self.stack):
                s[:] = raw(self.c)
            else:
                self.fail("event-value", msg)

        def inserted(i, v):
            s.insert(i, v)

        def removed(i, v):
            if not -len(s) <= i < len(s) or s[i] is not v:
                bad(f"removed{(i, v)} from {s}")
                return
            s.pop(i)

        def changed(k, old, new):
            try:
                if isinstance(k, slice):
                    if not same(s[k], old):
                        return bad(f"changed{(k, old, new)} in {s}")
                    s[k] = list(new)
                else:
                    if s[k] is not old:
                        return bad(f"changed{(k, old, new)} in {s}")
                    s[k] = new
            except (IndexError, ValueError) as e:
                bad(f"changed{(k, old, new)} in {s}: {e!r}")

        def moved(i, j, v):
            if not -len(s) <= i < len(s) or s[i] is not v:
                bad(f"moved{(i, j, v)} in {s}")
                return
            s.insert(j, s.pop(i))

        def reordered():
            cur = raw(self.c)
            if same(s, cur):
                return
            f = self.stack[-1] if self.stack else {"op": ["reverse"]}
            if f["op"][0] != "reverse" and not (f["op"][0] == "moves" and f["nested"]):
                self.fail("unannounced", f"reordered only: copy {s}, list {cur}")
            if sorted(map(id, s)) != sorted(map(id, cur)):
                self.fail("unannounced", f"reordered but items differ: copy {s}, list {cur}")
            s[:] = cur

        fn = {"inserted": inserted, "removed": removed, "changed": changed, "moved": moved,
              "reordered": reordered}[name]

        def post(*args):
            if main:
                self.done()
                self.seq.append((name, *args))
            fn(*args)

        return post

    def check_shadows(self):
        if self.depth == 1:
            cur = raw(self.c)
            f = self.stack[-1]
            # a callback did something while `reordered` was blocked, another one failed
            blind = f["op"][0] == "moves" and f["nested"] and f["boom"]
            for s in self.shadows:
                if blind:
                    s[:] = cur
                if not same(s, cur):
                    self.fail("unannounced", f"copy is {s}, list is {cur}")
                    s[:] = cur
            if not self.plan.get("hooks"):
                self.check_pre()
            self.seq.clear()

    def check_pre(self):
        """Every insertion, removal and move was announced just before."""
        pend = None
        for ev in self.seq:
            if ev[0] in self.PRE:
                pend = ev
            elif ev[0] in ("inserted", "removed", "moved"):
                want = {"inserted": "inserting", "removed": "removing", "moved": "moving"}[ev[0]]
                if pend is None or pend[0] != want or pend[1] != ev[1]:
                    self.fail("not-preannounced", f"{self.seq}")
                pend = None

    # operands
    def ix(self, i):
        return Ix(i[1]) if isinstance(i, list) else i

    def sl(self, s):
        return slice(*s)

    def operand(self, form, items, target):
        vals = [self.vals[i] for i in items]
        if form == "list":
            return vals
        if form == "tuple":
            return tuple(vals)
        if form == "gen":
            return (v for v in vals)
        if form == "failing":
            if target is self.c:
                self.sim.fault("operand-fails")
            return failing(vals)
        if form == "self":
            return target
        if form == "evented":
            return EventedList(vals) if target is self.c else vals
        return 5  # not iterable

    def snapshot(self):
        return list(self.m)

    def restore(self, before):
        self.m[:] = before

    def resync(self):
        self.m[:] = raw(self.c)

    def equal(self):
        return same(self.m, raw(self.c)) and len(self.c) == len(self.m)

    def brief(self):
        return [self.name(v) for v in raw(self.c)]

    def expected(self):
        return [self.name(v) for v in self.m]

    def name(self, v):
        for i, x in enumerate(self.vals):
            if x is v:
                return i
        return repr(v) if not isinstance(v, (list, EventedList)) else f"<{type(v).__name__}>"

    def ref(self, op):
        return self.apply(self.m, op, False)

    def real(self, op):
        return self.apply(self.c, op, True)

    def move_ref(self, sources, dest):
        n = len(self.m)
        src = []
        for s in sources:
            if isinstance(s, list):
                src.extend(range(*slice(*s).indices(n)))
            else:
                if not -n <= s < n:
                    raise IndexError
                src.append(s % n)
        src = list(dict.fromkeys(src))
        if dest < 0:
            dest += n + 1
        u = set(src)
        self.m[:] = (
            [self.m[i] for i in range(dest) if i not in u]
            + [self.m[i] for i in src]
            + [self.m[i] for i in range(dest, n) if i not in u]
        )

    def apply(self, t, op, real):
        k = op[0]
        v = self.vals
        if k == "append":
            return t.append(v[op[1]])
        if k == "insert":
            return t.insert(self.ix(op[1]), v[op[2]])
        if k == "set":
            t[self.ix(op[1])] = v[op[2]]
            return None
        if k == "setslice":
            t[self.sl(op[1])] = self.operand(op[2], op[3], t)
            return None
        if k == "del":
            del t[self.ix(op[1])]
            return None
        if k == "delslice":
            del t[self.sl(op[1])]
            return None
        if k == "badkey":
            if op[1] == "get":
                return t["a"]
            if op[1] == "set":
                t["a"] = 1
            else:
                del t["a"]
            return None
        if k == "pop":
            return t.pop() if op[1] is None else t.pop(self.ix(op[1]))
        if k == "remove":
            return t.remove(v[op[1]])
        if k == "extend":
            return t.extend(self.operand(op[1], op[2], t))
        if k == "iadd":
            old = t
            t += self.operand(op[1], op[2], t)
            return t is old
        if k == "clear":
            return t.clear()
        if k == "reverse":
            if real and op[1]:
                self.stack[-1]["op"] = ["reverse_individually"]
                return t.reverse(emit_individual_events=True)
            return t.reverse()
        if k == "move":
            if real:
                t.move(op[1], op[2])
                return None
            return self.move_ref([op[1]], op[2])
        if k == "moves":
            if real:
                t.move_multiple(
                    [slice(*s) if isinstance(s, list) else s for s in op[1]], op[2]
                )
                return None
            return self.move_ref(op[1], op[2])
        # reads
        if k == "get":
            return t[self.ix(op[1])]
        if k == "getslice":
            return t[self.sl(op[1])]
        if k == "index":
            return t.index(v[op[1]], *op[2])
        if k == "count":
            return t.count(v[op[1]])
        if k == "in":
            return v[op[1]] in t
        if k == "iter":
            return [*t, len(t), bool(t)]
        if k == "reversed":
            return list(reversed(t))
        if k == "eq":
            o = [v[i] for i in op[1]]
            return (t == o, t != o, t == 5, t == t)
        if k == "add":
            return t + self.operand("list", op[1], t)
        if k == "radd":
            return [v[i] for i in op[1]] + t
        if k == "copy":
            return t.copy()
        raise AssertionError(k)

    def same_result(self, op, r1, r2):
        if op[0] in ("get", "pop"):
            return r1 is r2
        if op[0] in ("getslice", "add", "copy"):
            return same(r1, raw(r2)) and type(r2) is self.cls and r2 is not self.c
        if op[0] in ("iter", "reversed", "radd"):
            return same(r1, r2)
        return r1 == r2


def rnd_index(rng, n=6):
    i = rng.randrange(-n - 2, n + 3)
    return ["ix", i] if rng.random() < 0.1 else i


def rnd_slice(rng):
    def end():
        return None if rng.random() < 0.3 else rng.randrange(-7, 8)

    return [end(), end(), rng.choice([None, None, None, 1, 2, 3, -1, -2, 0 if rng.random() < 0.1 else 1])]


FORMS = {"list": 5, "tuple": 2, "gen": 3, "failing": 1.5, "self": 1, "evented": 1, "bad": 0.5}


def list_op(rng, nv, move_ok=True):
    k = weighted(rng, {
        "append": 8, "insert": 9, "set": 8, "setslice": 7, "del": 8, "delslice": 4, "pop": 5,
        "remove": 4, "extend": 4, "iadd": 2, "clear": 1, "reverse": 2, "move": 7 * move_ok,
        "moves": 5 * move_ok, "get": 2, "getslice": 2, "index": 2, "count": 1, "in": 1,
        "iter": 2, "reversed": 1, "eq": 1, "add": 1, "radd": 1, "copy": 1, "badkey": 0.5,
    })
    def val():
        return rng.randrange(nv)

    def vals():
        return [val() for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))]

    if k in ("append", "remove", "count", "in"):
        return [k, val()]
    if k in ("insert", "set"):
        return [k, rnd_index(rng), val()]
    if k == "setslice":
        return [k, rnd_slice(rng), weighted(rng, FORMS), vals()]
    if k in ("del", "get"):
        return [k, rnd_index(rng)]
    if k in ("delslice", "getslice"):
        return [k, rnd_slice(rng)]
    if k == "badkey":
        return [k, rng.choice(["get", "set", "del"])]
    if k == "pop":
        return [k, rng.choice([None, rnd_index(rng)])]
    if k in ("extend", "iadd"):
        return [k, weighted(rng, FORMS), vals()]
    if k == "reverse":
        return [k, rng.random() < 0.4]
    if k == "move":
        return [k, rng.randrange(-7, 8), rng.randrange(-7, 8)]
    if k == "moves":
        src = [rnd_slice(rng) if rng.random() < 0.15 else rng.randrange(-6, 7)
               for _ in range(rng.choice([1, 2, 2, 3, 4]))]
        src = [[*s[:2], s[2] or 1] if isinstance(s, list) else s for s in src]
        return [k, src, rng.randrange(-7, 8)]
    if k == "index":
        return [k, val(), [rng.randrange(-7, 8) for _ in range(rng.choice([0, 0, 1, 2]))]]
    if k in ("eq", "add", "radd"):
        return [k, vals()]
    return [k]


def legal(op, n):
    """Whether a move is within the documented domain for a list of n items."""
    if op[0] == "move":
        return -n <= op[1] < n and -n - 1 <= op[2] <= n
    if op[0] == "moves":
        return -n - 1 <= op[2] <= n
    return True


def gen_hooks(rng, names, op):
    hooks = []
    if rng.random() < 0.55:
        for _ in range(rng.choice([1, 1, 2, 3])):
            act = ["raise"] if rng.random() < 0.45 else ["op", op()]
            hooks.append({"ev": rng.choice(names), "n": rng.choice([1, 1, 2, 3, 4, 6]),
                          "act": act})
    return hooks


class Lists(Scenario):
    """C22."""

    name = "lists"
    threaded = False
    shrink_keys = ("ops", "init", "hooks")

    def gen(self, rng, tier):
        cls = rng.choice(["list", "list", "list", "selectable"])
        nv = 13 if cls == "selectable" else 15
        names = (*ListBox.PRE, *ListBox.POST)
        ops = [list_op(rng, nv) for _ in range(rng.choice([3, 6, 10, 16, 30]))]
        return {
            "cls": cls,
            "init": [rng.randrange(nv) for _ in range(rng.choice([0, 1, 2, 3, 5, 6]))],
            "ops": ops,
            "hooks": gen_hooks(rng, names, lambda: list_op(rng, nv, False)),
            "relay": rng.random() < 0.5,
        }

    def run(self, sim, plan):
        box = ListBox(sim, plan)
        for op in plan["ops"]:
            if not legal(op, len(box.m)):
                continue
            if len(box.m) > 40:
                break
            box.do(op)
        self.nt = len(plan["ops"]) > 0

    def nontrivial(self, sim, plan):
        return len(sim.log_) > 1


# ------------------------------------------------------------------------------ dicts
class DictBox(Box):
    PRE = ("adding", "changing", "removing")
    POST = ("added", "changed", "removed")
    ATOMIC = frozenset(["set", "del", "pop", "popitem", "setdefault"])

    def __init__(self, sim, plan):
        super().__init__(sim, plan)
        self.keys = [0, 1, 1.0, True, "k", (1,), None, [1], BadHash(), "j", "l"]
        self.base = {0: (), 1: int, 2: (int, str)}[plan["base"]]
        init = [(self.keys[k], self.vals[v]) for k, v in plan["init"]]
        self.m: dict = {}
        self.m.update(init)
        self.c = EventedDict(init, basetype=self.base)
        a, b = dict(self.m), dict(self.m)
        self.shadows = [a, b] if plan.get("relay") else [a]
        self.seq: list = []
        ev = self.c.events
        for name in (*self.PRE, *self.POST):
            ev[name].connect(self.observer(a, name), priority=5)
        rel = {n: self.observer(b, n, main=False) for n in (*self.PRE, *self.POST)}
        if plan.get("relay"):
            ev.all.connect(lambda info: rel[info.signal.name](*info.args))
        for name in {h["ev"] for h in self.hooks}:
            ev[name].connect(lambda *args, _n=name: self.hooked(_n, args))

    def palette(self):
        return [0, 1, 2, 1.0, True, "x", None, [1], object(), [1], float("nan"), Odd()]

    def observer(self, s: dict, name, main=True):
        def pre(k):
            if main:
                self.seq.append((name, k))

        if name in self.PRE:
            return pre

        def post(k, *args):
            if main:
                self.done()
                self.seq.append((name, k))
            loose = any(f["loose"] for f in self.stack)
            if name == "added":
                if k in s and not loose:
                    self.fail("event-value", f"added{(k, *args)} but {s}")
                s[k] = args[0]
            elif name == "changed":
                if (k not in s or s[k] is not args[0]) and not loose:
                    self.fail("event-value", f"changed{(k, *args)} but {s}")
                s[k] = args[1]
            else:
                if (k not in s or s[k] is not args[0]) and not loose:
                    self.fail("event-value", f"removed{(k, *args)} but {s}")
                s.pop(k, None)

        return post

    def check_shadows(self):
        if self.depth == 1:
            cur = dict(self.c.items())
            for s in self.shadows:
                if not self.same_items(s, cur):
                    self.fail("unannounced", f"copy is {s}, dict is {cur}")
                    s.clear()
                    s.update(cur)
            if not self.plan["hooks"]:
                pend = None
                for ev in self.seq:
                    if ev[0] in self.PRE:
                        pend = ev
                    else:
                        want = {"added": "adding", "changed": "changing", "removed": "removing"}
                        if pend is None or pend[0] != want[ev[0]] or pend[1] is not ev[1]:
                            self.fail("not-preannounced", f"{self.seq}")
                        pend = None
            self.seq.clear()

    @staticmethod
    def same_items(a, b):
        return same(list(a), list(b)) and same(list(a.values()), list(b.values()))

    def snapshot(self):
        return dict(self.m)

    def restore(self, before):
        self.m.clear()
        self.m.update(before)

    def resync(self):
        self.restore(dict(self.c.items()))

    def equal(self):
        return self.same_items(self.m, self.c) and len(self.m) == len(self.c)

    def brief(self):
        return [repr(x)[:12] for x in self.c]

    def expected(self):
        return dict(self.m)

    def check(self, v):
        """The reference's type check."""
        base = self.base if isinstance(self.base, tuple) else (self.base,)
        if base and not any(isinstance(v, t) for t in base):
            raise TypeError("basetype")
        return v

    def ref(self, op):
        k = op[0]
        d = self.m
        if k == "set":
            hash(self.keys[op[1]])
            if self.keys[op[1]] in d and d[self.keys[op[1]]] is self.vals[op[2]]:
                return None
            d[self.keys[op[1]]] = self.check(self.vals[op[2]])
            return None
        if k == "setdefault":
            key = self.keys[op[1]]
            if key in d:
                return d[key]
            d[key] = v = self.check(self.vals[op[2]] if op[2] is not None else None)
            return v
        if k == "update":
            # checked item by item
            other = self.operand(op[1], op[2], d)
            kw = {n: self.vals[v] for n, v in op[3]}

            def put(kk, v):
                hash(kk)
                if not (kk in d and d[kk] is v):
                    self.check(v)
                d[kk] = v

            if hasattr(other, "keys"):
                for kk in list(other.keys()):
                    put(kk, other[kk])
            elif other is not None:
                it = iter(other)
                for pair in it:
                    try:
                        kk, v = pair
                    except TypeError:
                        raise TypeError from None
                    put(kk, v)
            for kk, v in kw.items():
                put(kk, v)
            return None
        if k == "pop":
            hash(self.keys[op[1]])  # dict doesn't bother if it is empty
        return self.apply(d, op)

    def real(self, op):
        if op[0] == "update":
            kw = {n: self.vals[v] for n, v in op[3]}
            other = self.operand(op[1], op[2], self.c)
            if op[1] == "failing":
                self.sim.fault("operand-fails")
            if other is None:
                return self.c.update(**kw)
            return self.c.update(other, **kw)
        if op[0] == "setdefault":
            if op[2] is None:
                return self.c.setdefault(self.keys[op[1]])
            return self.c.setdefault(self.keys[op[1]], self.vals[op[2]])
        return self.apply(self.c, op)

    def operand(self, form, pairs, t):
        pairs = [(self.keys[k], self.vals[v]) for k, v in pairs]
        if form == "none":
            return None
        if form == "pairs":
            return pairs
        if form == "gen":
            return (p for p in pairs)
        if form == "failing":
            return failing(pairs)
        if form == "self":
            return t
        if form == "malformed":
            return [*pairs, (1, 2, 3)]
        if form == "scalars":
            return [*pairs, 7]
        if form == "number":
            return 7
        hashable = {}
        for k, v in pairs:
            if type(k) is not list and not isinstance(k, BadHash):
                hashable[k] = v
        if form == "evented":
            return EventedDict(hashable)
        return hashable

    def apply(self, d, op):
        k = op[0]
        if k == "set":
            d[self.keys[op[1]]] = self.vals[op[2]]
            return None
        if k == "del":
            del d[self.keys[op[1]]]
            return None
        if k == "pop":
            if op[2] is None:
                return d.pop(self.keys[op[1]])
            return d.pop(self.keys[op[1]], self.vals[op[2]])
        if k == "popitem":
            return d.popitem()
        if k == "clear":
            return d.clear()
        if k == "get":
            return d.get(self.keys[op[1]], self.vals[op[2]])
        if k == "getitem":
            return d[self.keys[op[1]]]
        if k == "in":
            return self.keys[op[1]] in d
        if k == "views":
            return [list(d), list(d.values()), list(d.items()), len(d), bool(d),
                    len(d.keys()), len(d.items())]
        if k == "eq":
            o = dict(self.m)
            r = [d == o, d != o]
            o["other"] = 1
            return [*r, d == o, d == 5]
        if k == "copy":
            c = d.copy()
            r = list(c.items())
            if isinstance(c, EventedDict):
                self.probe(c)
            return r
        raise AssertionError(k)

    def probe(self, c):
        """A copy accepts what the original accepts, and has its own events."""
        for v in (2, "x", 2.5, b""):
            try:
                self.check(v)
                want = None
            except TypeError:
                want = "TypeError"
            e, _ = attempt(c.__setitem__, "probe", v)
            if e != want:
                self.fail("copy", f"{e} instead of {want} for {v!r} in a copy")

    def same_result(self, op, r1, r2):
        if op[0] == "popitem":
            return same(r1, r2)
        if op[0] in ("pop", "setdefault", "get", "getitem"):
            return r1 is r2
        return r1 == r2


def dict_op(rng, nk, nv):
    k = weighted(rng, {
        "set": 14, "del": 8, "pop": 6, "popitem": 4, "setdefault": 5, "update": 8, "clear": 1,
        "get": 2, "getitem": 2, "in": 1, "views": 2, "eq": 1, "copy": 1,
    })
    def key():
        return rng.randrange(nk)

    def val():
        return rng.randrange(nv)

    if k in ("set", "get"):
        return [k, key(), val()]
    if k in ("pop", "setdefault"):
        return [k, key(), rng.choice([None, val()])]
    if k in ("del", "getitem", "in"):
        return [k, key()]
    if k == "update":
        form = weighted(rng, {"dict": 4, "pairs": 4, "gen": 3, "failing": 2, "self": 1,
                              "malformed": 1, "scalars": 1, "number": 0.5, "evented": 1,
                              "none": 1})
        return [k, form, [[key(), val()] for _ in range(rng.choice([0, 1, 2, 3, 4]))],
                [[n, val()] for n in rng.sample(["k", "j", "l"], rng.choice([0, 0, 1, 2]))]]
    return [k]


class Dicts(Scenario):
    """C23."""

    name = "dicts"
    threaded = False
    shrink_keys = ("ops", "init", "hooks")

    def gen(self, rng, tier):
        nk, nv = 11, 12
        base = rng.choice([0, 0, 0, 1, 2])
        nki = [0, 1, 4, 5, 6, 9]
        return {
            "base": base,
            "init": [[rng.choice(nki), rng.choice([0, 1, 2])]
                     for _ in range(rng.choice([0, 1, 2, 4]))],
            "ops": [dict_op(rng, nk, nv) for _ in range(rng.choice([3, 6, 10, 16, 30]))],
            "hooks": gen_hooks(rng, (*DictBox.PRE, *DictBox.POST),
                               lambda: dict_op(rng, nk, nv)),
            "relay": rng.random() < 0.5,
        }

    def run(self, sim, plan):
        box = DictBox(sim, plan)
        for op in plan["ops"]:
            box.do(op)

    def nontrivial(self, sim, plan):
        return len(sim.log_) > 1


_ = EmitLoopError
