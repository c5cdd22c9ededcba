"""C24, C25: evented sets, selections and selectable lists."""

from __future__ import annotations

from psygnal.containers import (
    EventedOrderedSet,
    EventedSet,
    OrderedSet,
    SelectableEventedList,
    Selection,
)

from ..base import Scenario
from ..core import Sim
from ..lib import attempt, weighted
from .contain import Boom, failing

CLS = {"set": EventedSet, "ordered": EventedOrderedSet, "plain": OrderedSet,
       "selection": Selection}
BATCH = ("update", "clear", "difference_update", "intersection_update",
         "symmetric_difference_update")


def merge(events):
    """One event for several: what was added and what was removed, on the whole."""
    added, removed = [], []
    for a, r in events:
        for new, one, other in ((a, added, removed), (r, removed, added)):
            for x in new:
                if x in other:
                    other.remove(x)
                else:
                    one.append(x)
    return tuple(added), tuple(removed)


class SetBox:
    def __init__(self, sim: Sim, plan: dict):
        self.sim = sim
        self.plan = plan
        self.vals = [0, 1, 2, None, 1.0, True, "a", "b", (1,), [1], 7, 8]
        init = [self.vals[i] for i in plan["init"]]
        self.cls = CLS[plan["cls"]]
        self.ordered = plan["cls"] != "set"
        self.c = self.cls(init)
        self.m: dict = dict.fromkeys(init)  # insertion order
        self.evented = plan["cls"] != "plain"
        self.shadow = set(init)
        self.n = 0  # emissions
        self.hooks = plan["hooks"]
        self.count = 0
        self.stack: list = []
        self.lossy = False
        self.paused = 0
        if self.evented:
            sig = self.c.events.items_changed
            sig.connect(self.observe, priority=3)
            sig.connect(self.hooked)

    def fail(self, kind, msg):
        self.sim.fail(kind, f"{[f['op'] for f in self.stack]}: {msg}")

    def observe(self, added, removed):
        self.n += 1
        for f in self.stack:
            f["events"] += 1
        s = self.shadow
        if self.lossy:
            return
        if not added and not removed:
            self.fail("empty-event", "nothing changed but items_changed was emitted")
        if len(set(added)) < len(added) or any(x in s for x in added):
            self.fail("event-value", f"added {added} to {s}")
        if len(set(removed)) < len(removed) or any(x not in s for x in removed):
            self.fail("event-value", f"removed {removed} from {s}")
        s.update(added)
        s.difference_update(removed)

    def hooked(self, added, removed):
        self.count += 1
        for h in self.hooks:
            if h["n"] == self.count:
                if h["act"][0] == "raise":
                    self.sim.fault("callback-fails")
                    for f in self.stack:
                        f["boom"] = True
                    self.lossy = True
                    raise Boom("hook")
                self.sim.fault("callback-reenters")
                for f in self.stack:
                    f["nested"] = True
                if not self.stack:
                    self.lossy = True  # while a pause is replayed: overtakes the rest
                self.do(h["act"][1])

    def operand(self, o, t, m):
        form, items = o
        vals = [self.vals[i] for i in items]
        if form == "list":
            return vals
        if form == "tuple":
            return tuple(vals)
        if form == "gen":
            return (v for v in vals)
        if form == "failing":
            if t is self.c:
                self.sim.fault("operand-fails")
            return failing(vals)
        if form == "self":
            return t if t is self.c else m
        if form == "number":
            return 5
        vals = [v for v in vals if not isinstance(v, list)]
        if form == "set":
            return set(vals)
        if form == "frozenset":
            return frozenset(vals)
        if form == "dict":
            return dict.fromkeys(vals)
        if form == "evented":
            return EventedSet(vals) if t is self.c else set(vals)
        return EventedOrderedSet(vals) if t is self.c else set(vals)

    def apply(self, t, op, real):
        k = op[0]
        v = self.vals
        if k in ("add", "discard", "remove"):
            return getattr(t, k)(v[op[1]])
        if k == "pop":
            return t.pop()
        if k == "clear":
            return t.clear()
        if k == "in":
            return v[op[1]] in t
        if k in ("len",):
            return len(t), bool(t), len(list(t))
        if k == "copy":
            return t.copy()
        if k == "iop":
            o = self.operand(op[2], t, t)
            old = t
            if op[1] == "|":
                t |= o
            elif op[1] == "&":
                t &= o
            elif op[1] == "-":
                t -= o
            else:
                t ^= o
            return t is old
        if k == "op":
            o = self.operand(op[2], t, t)
            return {"|": lambda: t | o, "&": lambda: t & o, "-": lambda: t - o,
                    "^": lambda: t ^ o, "<": lambda: t < o, "<=": lambda: t <= o,
                    ">": lambda: t > o, ">=": lambda: t >= o, "==": lambda: t == o,
                    "!=": lambda: t != o,
                    "r|": lambda: o | t, "r&": lambda: o & t, "r-": lambda: o - t,
                    "r^": lambda: o ^ t}[op[1]]()
        args = [self.operand(o, t, t) for o in op[1:]]
        return getattr(t, k)(*args)

    def do(self, op):
        if len(self.stack) > 5:
            return
        f = {"op": op, "boom": False, "nested": False, "events": 0}
        self.stack.append(f)
        before = list(self.c)
        ref = set(before)
        e1, r1 = attempt(self.apply, ref, op, False)
        if op[0] == "pop" and before:
            e1 = None
        e2, r2 = attempt(self.apply, self.c, op, True)
        after = list(self.c)
        self.sim.log(op[0], e2 or "ok", len(after))
        stepwise = op[0] == "iop"  # callbacks run between its steps
        if f["boom"]:
            if e2 != "EmitLoopError" and not self.paused:
                self.fail("error-lost", f"a callback failed but the result is {e2 or r2!r}")
            exact = not stepwise and not f["nested"]
        else:
            exact = not (stepwise and f["nested"])
            if e1 == "TypeError" and not self.evented and op[0] in (
                "discard", "difference_update"
            ):
                e1 = e2  # an empty dict doesn't hash what it is asked to remove
                exact = False
            if exact and e1 != e2:
                self.fail("exception", f"{e2 or r2!r} instead of {e1 or r1!r} on {before}")
            if e1 is not None:
                exact = False  # what a failing operation did before is up to it
        if op[0] == "pop" and e1 is None and e2 is None:
            if r2 not in before:
                self.fail("result", f"popped {r2!r} from {before}")
            ref = set(before) - {r2}
        elif op[0] == "pop" and f["boom"]:
            exact = False
        elif exact and not f["boom"] and not self.eq_result(op, r1, r2, before):
            self.fail("result", f"{r2!r} instead of {r1!r} on {before}")
        if exact and not f["nested"]:
            if set(after) != ref or len(after) != len(ref) or len(self.c) != len(ref):
                self.fail("members", f"{after} instead of {ref} (from {before})")
            if self.evented and not f["boom"] and not self.paused and len(self.stack) == 1:
                if op[0] in BATCH and f["events"] > 1:
                    self.fail("not-batched", f"{f['events']} events for one batch")
        if self.ordered and not f["nested"]:
            # survivors keep their order, new members follow
            kept = [x for x in before if x in after]
            if after[: len(kept)] != kept and not (
                op[0] in ("iop", "symmetric_difference_update")
            ):
                self.fail("order", f"{before} became {after}")
            if op[0] in ("add", "update") and e2 is None:
                new = self.new_order(op, before)
                if new is not None and after[len(kept):] != new:
                    self.fail("order", f"{before} became {after}, new members {new}")
        self.stack.pop()
        if not self.stack:
            self.quiesce()

    def new_order(self, op, before):
        new: dict = {}
        if op[0] == "add":
            items = [self.vals[op[1]]]
        else:
            items = []
            for form, its in op[1:]:
                if form not in ("list", "tuple", "gen", "dict"):
                    return None
                items += [self.vals[i] for i in its]
        for x in items:
            try:
                if x not in before:
                    new[x] = None
            except TypeError:
                return None
        return list(new)

    def quiesce(self):
        if not self.evented or self.paused:
            return
        cur = set(self.c)
        if self.lossy:  # emissions were dropped by a failing callback
            self.shadow = cur
            self.lossy = False
        elif self.shadow != cur:
            self.fail("unannounced", f"events lead to {self.shadow}, members are {cur}")
            self.shadow = cur

    def eq_result(self, op, r1, r2, before):
        if op[0] in ("add", "discard", "remove", "clear", *BATCH):
            return r2 is None
        if op[0] == "copy" or (op[0] == "op" and op[1] in "|&-^") or op[0] in (
            "union", "intersection", "difference", "symmetric_difference"
        ):
            if type(r2) is not self.cls or r2 is self.c:
                return False
            if set(r2) != set(r1) or len(r2) != len(r1):
                return False
            if self.ordered and op[0] in ("copy", "difference", "intersection", "union"):
                kept = [x for x in before if x in r2]
                if list(r2)[: len(kept)] != kept:
                    return False
                new = self.new_order(op, before) if op[0] == "union" else None
                return new is None or list(r2)[len(kept):] == new
            return True
        if op[0] == "op" and op[1][0] == "r":
            return set(r2) == set(r1)
        return r1 == r2

    def run_pause(self, ops, reducer):
        sig = self.c.events.items_changed
        self.paused += 1
        if reducer:
            self.lossy = True  # a merged event need not say what came first
        e = None
        try:
            if reducer:
                cm = sig.paused(merge)
            else:
                cm = sig.paused()
            with cm:
                before = self.n
                for op in ops:
                    self.do(op)
                if self.n != before:
                    self.sim.fail("event-in-pause", f"{self.n - before} events while paused")
        except Exception as exc:
            e = exc
        self.paused -= 1
        if e is not None and not self.lossy:
            raise e
        self.quiesce()


def set_op(rng, nv):
    k = weighted(rng, {
        "add": 10, "discard": 5, "remove": 5, "pop": 2, "clear": 1, "update": 8,
        "difference_update": 6, "intersection_update": 5, "symmetric_difference_update": 8,
        "iop": 8, "op": 5, "union": 2, "intersection": 2, "difference": 2,
        "symmetric_difference": 3, "issubset": 1, "issuperset": 1, "isdisjoint": 1, "in": 2,
        "len": 1, "copy": 1,
    })

    def items():
        return [rng.randrange(nv) if rng.random() < 0.95 else 9
                for _ in range(rng.choice([0, 1, 2, 2, 3, 4, 6]))]

    def operand():
        return [weighted(rng, {"list": 5, "tuple": 2, "gen": 3, "failing": 1.5, "self": 2,
                               "set": 3, "frozenset": 1, "dict": 1, "evented": 1,
                               "eordered": 1, "number": 0.3}), items()]

    if k in ("add", "discard", "remove", "in"):
        return [k, rng.randrange(nv) if rng.random() < 0.95 else 9]
    if k in ("iop", "op"):
        o = rng.choice("|&-^") if k == "iop" else rng.choice(
            ["|", "&", "-", "^", "<", "<=", ">", ">=", "==", "!=", "r|", "r&", "r-", "r^"])
        form = rng.choice(["set", "set", "frozenset", "self"])
        if o[0] == "r":
            form = "set"
        return [k, o, [form, items()]]
    if k in ("update", "difference_update", "intersection_update", "union", "intersection",
             "difference"):
        return [k, *[operand() for _ in range(rng.choice([0, 1, 1, 1, 2, 3, 5]))]]
    if k in ("symmetric_difference_update", "symmetric_difference", "issubset", "issuperset",
             "isdisjoint"):
        return [k, operand()]
    return [k]


class Sets(Scenario):
    """C24."""

    name = "sets"
    threaded = False
    shrink_keys = ("ops", "init", "hooks")

    def gen(self, rng, tier):
        nv = rng.choice([4, 9])
        hooks = []
        if rng.random() < 0.5:
            for _ in range(rng.choice([1, 1, 2])):
                act = ["raise"] if rng.random() < 0.4 else ["op", set_op(rng, nv)]
                hooks.append({"n": rng.choice([1, 1, 2, 3, 5]), "act": act})
        ops = []
        for _ in range(rng.choice([3, 6, 10, 16])):
            if rng.random() < 0.08:
                ops.append(["pause", [set_op(rng, nv) for _ in range(rng.choice([1, 2, 4]))],
                            rng.random() < 0.3])
            else:
                ops.append(set_op(rng, nv))
        return {
            "cls": rng.choice(["set", "set", "ordered", "ordered", "plain"]),
            "init": [rng.randrange(nv) for _ in range(rng.choice([0, 1, 2, 4]))],
            "ops": ops, "hooks": hooks,
        }

    def run(self, sim, plan):
        box = SetBox(sim, plan)
        for op in plan["ops"]:
            if op[0] == "pause":
                if box.evented:
                    box.run_pause(op[1], op[2])
                continue
            box.do(op)

    def nontrivial(self, sim, plan):
        return len(sim.log_) > 1


# -------------------------------------------------------------------------- selections
class SelBox:
    """A selection, alone, with a parent container, or that of a selectable list."""

    def __init__(self, sim: Sim, plan: dict):
        self.sim = sim
        self.plan = plan
        self.stack: list = []
        self.hooks = plan["hooks"]
        self.counts: dict = {}
        self.lossy = False
        self.cut = False
        self.lst = None
        kind = plan["kind"]
        init = plan["init"]
        if kind == "list":
            self.lst = SelectableEventedList(init)
            self.sel = self.lst.selection
            self.parent = self.lst
        elif kind == "parent":
            self.parent = list(range(6))
            self.sel = Selection([x for x in init if x in self.parent], parent=self.parent)
        else:
            self.parent = None
            self.sel = Selection(init)
        ev = self.sel.events
        self.shadow = list(self.sel)
        self.active = self.sel.active
        self.current = self.sel._current
        ev.items_changed.connect(self.on_items, priority=3)
        ev.active.connect(self.on_active, priority=3)
        ev._current.connect(self.on_current, priority=3)
        for name in {h["ev"] for h in self.hooks}:
            src = ev if name in ("items_changed", "active", "_current") else (
                self.lst.events if self.lst is not None else None)
            if src is not None:
                src[name].connect(lambda *a, _n=name: self.hooked(_n))

    def fail(self, kind, msg):
        self.sim.fail(kind, f"{[f['op'] for f in self.stack]}: {msg}")

    def on_items(self, added, removed):
        s = self.shadow
        if self.lossy:
            return
        if not added and not removed:
            self.fail("empty-event", "nothing changed but items_changed was emitted")
        if set(added) & set(removed):
            self.lossy = True  # changed by callbacks in the middle of a batch
            return
        if any(x in s for x in added) or any(x not in s for x in removed):
            self.fail("event-value", f"+{added} -{removed} for {s}")
        s[:] = [x for x in s if x not in removed] + list(added)

    def on_active(self, v):
        self.active = v

    def on_current(self, v):
        self.current = v

    def hooked(self, name):
        n = self.counts[name] = self.counts.get(name, 0) + 1
        for h in self.hooks:
            if h["ev"] == name and h["n"] == n:
                for f in self.stack:
                    f["nested"] = True
                if h["act"][0] == "raise":
                    self.sim.fault("callback-fails")
                    for f in self.stack:
                        f["boom"] = True
                    self.lossy = True
                    if name in ("active", "_current"):
                        self.cut = True  # in the middle of a batch
                    raise Boom(name)
                self.sim.fault("callback-reenters")
                if len(self.stack) < 4:
                    self.do(h["act"][1])

    # ------------------------------------------------------------------
    def apply(self, op):
        k = op[0]
        s = self.sel
        if k in ("add", "discard", "remove", "toggle", "select_only"):
            return getattr(s, k)(op[1])
        if k == "active":
            s.active = op[1]
            return None
        if k == "clear":
            return s.clear(keep_current=op[1])
        if k in ("update", "difference_update", "intersection_update",
                 "symmetric_difference_update"):
            return getattr(s, k)(self.form(op[1], op[2]))
        if k == "pop":
            return s.pop()
        lst = self.lst
        if k == "assign":
            lst.selection = self.form(op[1], op[2])
            return None
        if k == "select_all":
            return lst.select_all()
        if k == "deselect_all":
            return lst.deselect_all()
        if k == "next":
            return lst.select_next(step=op[1], expand_selection=op[2], wraparound=op[3])
        if k == "previous":
            return lst.select_previous(expand_selection=op[2], wraparound=op[3])
        if k == "remove_selected":
            return lst.remove_selected()
        # list operations
        if k == "lappend":
            return lst.append(op[1])
        if k == "linsert":
            return lst.insert(op[1], op[2])
        if k == "lset":
            lst[op[1]] = op[2]
        elif k == "lsetslice":
            new, step = op[2], op[1][2]
            if step not in (None, 1) and new:  # as many as there are
                n = len(range(*slice(*op[1]).indices(len(lst))))
                new = (new * n)[:n]
            lst[slice(*op[1])] = new
        elif k == "ldel":
            del lst[op[1]]
        elif k == "ldelslice":
            del lst[slice(*op[1])]
        elif k == "lremove":
            lst.remove(op[1])
        elif k == "lclear":
            lst.clear()
        elif k == "lextend":
            lst.extend(op[1])
        elif k == "lreverse":
            lst.reverse(emit_individual_events=op[1])
        elif k == "lmove":
            n = len(lst)
            if n:
                lst.move(op[1] % n, op[2] % (n + 1))
        elif k == "lpop":
            lst.pop()
        return None

    def form(self, f, items):
        if f == "gen":
            return (x for x in items)
        if f == "set":
            return set(items)
        if f == "failing":
            self.sim.fault("operand-fails")
            return failing(items)
        if f == "self":
            return self.sel
        return list(items)

    def ok(self, *items):
        return self.parent is None or all(x in self.parent for x in items)

    def expect(self, op, pre, lst, cur):
        """(error or None, new members or None if any) for an operation without hooks."""
        k = op[0]
        s = set(pre)
        if k == "add":
            return (None, s | {op[1]}) if self.ok(op[1]) else ("ValueError", s)
        if k == "discard":
            return None, s - {op[1]}
        if k == "remove":
            return (None, s - {op[1]}) if op[1] in s else ("KeyError", s)
        if k == "toggle":
            if op[1] in s:
                return None, s - {op[1]}
            return (None, s | {op[1]}) if self.ok(op[1]) else ("ValueError", s)
        if k == "select_only":
            return (None, {op[1]}) if self.ok(op[1]) else ("ValueError", s)
        if k == "active":
            if op[1] is None:
                # nothing happens if there is no active item
                return None, set() if len(s) == 1 else s
            return (None, {op[1]}) if self.ok(op[1]) else ("ValueError", s)
        if k == "clear" or k == "deselect_all":
            return None, set()
        if k == "pop":
            return (None, None) if s else ("KeyError", s)
        if k in ("update", "difference_update", "intersection_update",
                 "symmetric_difference_update", "assign"):
            if op[1] == "failing":
                return "Boom", None
            o = s if op[1] == "self" else set(op[2])
            new = {"update": s | o, "difference_update": s - o, "intersection_update": s & o,
                   "symmetric_difference_update": s ^ o, "assign": o}[k]
            # also items that end up unselected are checked when being added
            tried = o if k in ("update", "assign") else new - s
            return (None, new) if self.ok(*tried) else ("ValueError", None)
        if k == "select_all":
            return None, s | set(lst)
        if k in ("next", "previous"):
            step = op[1] if k == "next" else -1
            if not lst:
                return None, s
            if not s:
                i = len(lst) - 1 if step > 0 else 0
            elif cur not in lst:
                return None, None
            else:
                i = lst.index(cur) + step
                if op[3]:
                    i %= len(lst)
                elif not 0 <= i < len(lst):
                    i = len(lst) - 1 if step > 0 else 0
            return None, (s | {lst[i]}) if op[2] else {lst[i]}
        return None, None

    def do(self, op):
        if self.lst is None and (op[0][0] == "l" or op[0] in LIST_ONLY):
            return
        if self.lst is not None and len(self.lst) > 20:
            return
        f = {"op": op, "boom": False, "nested": False}
        self.stack.append(f)
        pre, cur = list(self.sel), self.sel._current
        lst = list(self.lst) if self.lst is not None else None
        want_e, want = self.expect(op, pre, lst, cur)
        e, r = attempt(self.apply, op)
        now = list(self.sel)
        self.sim.log(op[0], e or "ok", len(now), self.sel.active)
        if f["boom"] or f["nested"] or len(self.stack) > 1:
            pass  # only what holds once all is done, below
        elif op[0][0] == "l":
            if e not in (None, "IndexError", "ValueError"):
                self.fail("exception", f"{e} {r!r}")
            self.judge_list(op, pre, lst, now, e)
        elif e != want_e and want_e != "Boom":
            self.fail("exception", f"{e or r!r} instead of {want_e} on {pre} of {lst}")
        elif want is not None and (set(now) != want or len(now) != len(want)):
            self.fail("members", f"{pre} became {now} instead of {want} (list {lst})")
        elif op[0] in ("active", "select_only", "next", "previous") and e is None:
            if op[0] in ("next", "previous") and op[2]:
                if lst and cur in lst and self.sel._current not in now:
                    self.bad_current(f"current {self.sel._current!r} of {now}")
            elif op[0] == "active" and op[1] is None:
                pass
            elif lst != [] and self.sel._current != self.sel.active:
                self.bad_current(f"{self.sel._current!r}, active {self.sel.active!r}")
        elif op[0] == "clear" and not op[1] and self.sel._current is not None:
            self.fail("current", f"{self.sel._current!r} after clear()")
        elif op[0] == "remove_selected" and e is None:
            if set(r) != set(pre):
                self.fail("result", f"{r} instead of {pre}")
            rest = list(lst)
            for x in pre:
                rest.remove(x)
            if list(self.lst) != rest:
                self.fail("contents", f"{list(self.lst)} instead of {rest}")
        self.stack.pop()
        if not self.stack:
            self.quiesce(f)

    def judge_list(self, op, pre, lst, now, e):
        k = op[0]
        cur = list(self.lst)
        if e is not None:
            if now != pre or cur != lst:
                self.fail("refused-change", f"{pre} of {lst} became {now} of {cur}")
            return
        if k in ("lappend", "linsert", "lextend"):
            if len(cur) > len(lst):
                v = op[1][-1] if k == "lextend" else op[-1]
                if now != [v]:
                    self.fail("members", f"{now} after inserting {v}")
            return
        gone = [x for x in lst if lst.count(x) > cur.count(x)]
        now_cur = self.sel._current
        if now_cur is not None and now_cur in lst and now_cur not in cur:
            self.bad_current(f"current {now_cur!r} left the list {lst}, now {cur}")
        if any(x not in pre for x in now) or any(x not in now and x not in gone for x in pre):
            self.fail("members", f"{pre} of {lst} became {now} of {cur}")

    def quiesce(self, f):
        now = list(self.sel)
        gone = self.lst is not None and any(x not in self.lst for x in now)
        if gone and self.cut:
            self.sel.intersection_update(self.lst)
            now = list(self.sel)
        elif gone:
            self.fail2("not-in-list", f"{f['op']}: {now} selected of {list(self.lst)}")
        sole = now[0] if len(now) == 1 else None
        if self.sel.active != sole:
            self.fail2("active", f"{f['op']}: active {self.sel.active!r} of {now}")
        if self.active != self.sel.active:
            self.fail2("unannounced-active",
                       f"{f['op']}: last active event {self.active!r}, active "
                       f"{self.sel.active!r}")
        if self.current != self.sel._current:
            self.fail2("unannounced-current", f"{f['op']}: last event {self.current!r}, current "
                       f"{self.sel._current!r}")
        if self.lossy:
            self.shadow[:] = now
            self.lossy = False
        elif set(self.shadow) != set(now):
            self.fail2("unannounced", f"{f['op']}: events lead to {self.shadow}, "
                       f"selected {now}")
            self.shadow[:] = now

    def bad_current(self, msg):
        if not self.hooks:  # helpers set it after callbacks may have changed the selection
            self.fail("current", msg)

    def fail2(self, kind, msg):
        self.sim.fail(kind, msg)


LIST_ONLY = ("assign", "select_all", "deselect_all", "next", "previous", "remove_selected")


def sel_op(rng, nv, is_list):
    t = {
        "add": 8, "discard": 4, "remove": 3, "toggle": 4, "select_only": 5, "active": 8,
        "clear": 3, "update": 5, "difference_update": 3, "intersection_update": 3,
        "symmetric_difference_update": 3, "pop": 1,
    }
    if is_list:
        t |= {
            "assign": 4, "select_all": 2, "deselect_all": 1, "next": 8, "previous": 4,
            "remove_selected": 3, "lappend": 5, "linsert": 3, "lset": 5, "lsetslice": 4,
            "ldel": 5, "ldelslice": 3, "lremove": 2, "lclear": 0.7, "lextend": 3,
            "lreverse": 1, "lmove": 2, "lpop": 2,
        }
    k = weighted(rng, t)

    def val():
        return rng.randrange(nv)

    def vals():
        return [val() for _ in range(rng.choice([0, 1, 2, 2, 3, 5]))]

    def sl():
        def end():
            return None if rng.random() < 0.3 else rng.randrange(-6, 7)

        return [end(), end(), None if rng.random() < 0.6 else rng.choice([1, 2, -1, -2, 3])]

    if k in ("add", "discard", "remove", "toggle", "select_only", "lappend", "lremove"):
        return [k, val()]
    if k == "active":
        return [k, None if rng.random() < 0.15 else val()]
    if k == "clear":
        return [k, rng.random() < 0.4]
    if k in ("update", "difference_update", "intersection_update",
             "symmetric_difference_update", "assign"):
        return [k, rng.choice(["list", "gen", "set", "list", "gen", "failing", "self"]), vals()]
    if k in ("next", "previous"):
        return [k, rng.choice([1, 1, 1, 2, -1, 5, -3]), rng.random() < 0.5, rng.random() < 0.4]
    if k in ("linsert", "lset"):
        return [k, rng.randrange(-6, 7), val()]
    if k == "lsetslice":
        return [k, sl(), vals()]
    if k == "ldel":
        return [k, rng.randrange(-7, 7)]
    if k == "ldelslice":
        return [k, sl()]
    if k == "lextend":
        return [k, vals()]
    if k == "lreverse":
        return [k, rng.random() < 0.5]
    if k == "lmove":
        return [k, rng.randrange(20), rng.randrange(20)]
    return [k]


class Selections(Scenario):
    """C25."""

    name = "selections"
    threaded = False
    shrink_keys = ("ops", "init", "hooks")

    def gen(self, rng, tier):
        kind = rng.choice(["alone", "parent", "list", "list", "list"])
        nv = rng.choice([4, 7, 9])
        names = ["items_changed", "active", "_current"]
        if kind == "list":
            names += ["inserted", "removed", "changed", "inserting", "removing", "reordered"]
        hooks = []
        if rng.random() < 0.5:
            for _ in range(rng.choice([1, 1, 2])):
                act = (["raise"] if rng.random() < 0.4
                       else ["op", sel_op(rng, nv, kind == "list")])
                hooks.append({"ev": rng.choice(names), "n": rng.choice([1, 1, 2, 3, 4, 6]),
                              "act": act})
        init = [rng.randrange(nv) for _ in range(rng.choice([0, 1, 2, 4, 6]))]
        if kind == "list" and rng.random() < 0.6:
            init = rng.sample(range(nv), rng.randrange(nv))
        return {
            "kind": kind, "init": init, "hooks": hooks,
            "ops": [sel_op(rng, nv, kind == "list")
                    for _ in range(rng.choice([3, 6, 10, 16, 25]))],
        }

    def run(self, sim, plan):
        box = SelBox(sim, plan)
        for op in plan["ops"]:
            box.do(op)

    def nontrivial(self, sim, plan):
        return len(sim.log_) > 1
