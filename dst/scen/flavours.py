"""Classes with signals, made afresh for a run: every layout psygnal supports."""

from __future__ import annotations

import dataclasses
import warnings
from typing import ClassVar

import attrs
import msgspec
import pydantic

from psygnal import (
    EventedModel,
    Signal,
    SignalGroup,
    SignalGroupDescriptor,
    evented,
)
from psygnal.containers import EventedObjectProxy, Selection


class Flavour:
    """make(i) -> object; paths: name -> function giving a SignalInstance of it."""

    def __init__(self, make, paths, hold=False, instance=None, nargs=None):
        self.make = make
        self.paths = paths
        self.immortal = hold  # psygnal keeps instances alive (not weak-referenceable)
        self.instance = instance  # path -> whose signal it is
        self.nargs = nargs or {}  # path -> how many arguments it takes


def _sig(n):
    return lambda o: getattr(o, n)


def _grp(ns, n):
    return lambda o: getattr(o, ns)[n]


def _relay(ns):
    return lambda o: getattr(o, ns).all


def plain():
    class E:
        a = Signal(int)
        b = Signal(int, reemission="queued")

    return Flavour(lambda i: E(), {"a": _sig("a"), "b": _sig("b")}, instance="self")


def equal_objects():
    class E:
        a = Signal(int)

        def __eq__(self, other):
            return True

        def __hash__(self):
            return 1

    return Flavour(lambda i: E(), {"a": _sig("a")}, instance="self")


def unhashable():
    class E:
        a = Signal(int)
        __hash__ = None

    return Flavour(lambda i: E(), {"a": _sig("a")}, instance="self")


def subclassed():
    class E:
        a = Signal(int)

    class F(E):
        b = Signal(int)

    return Flavour(
        lambda i: F() if i % 2 else E(),
        {"a": _sig("a"), "b": lambda o: o.b if isinstance(o, F) else o.a},
        instance="self",
    )


def slotted():
    class E:
        __slots__ = ("x",)
        a = Signal(int)
        b = Signal(int)

    return Flavour(lambda i: E(), {"a": _sig("a"), "b": _sig("b")}, hold=True,
                   instance="self")


def slotted_weak():
    class E:
        __slots__ = ("__weakref__", "x")
        a = Signal(int)
        b = Signal(int)

    return Flavour(lambda i: E(), {"a": _sig("a"), "b": _sig("b")}, instance="self")


def slotted_equal():
    class E:
        __slots__ = ("__weakref__", "x")
        a = Signal(int)

        def __eq__(self, other):
            return True

        def __hash__(self):
            return 1

    return Flavour(lambda i: E(), {"a": _sig("a")}, instance="self")


def own_setattr():
    class E:
        a = Signal(int)
        b = Signal(int)

        def __setattr__(self, name, value):
            super().__setattr__(name, value)

    return Flavour(lambda i: E(), {"a": _sig("a"), "b": _sig("b")}, instance="self")


class GrpA(SignalGroup):
    a = Signal(int)
    b = Signal(int)


class GrpB(SignalGroup):
    a = Signal(int)


def groups():
    class G(SignalGroup):
        a = Signal(int)
        all = Signal(int)  # a reserved name

    return Flavour(lambda i: G(), {"a": _sig("a"), "k": lambda o: o["all"],
                                   "r": lambda o: o.all})


TURN = [0]  # (reset by each run)


def in_turn(*fns):
    """Ways to get at the same signal."""

    def get(o):
        TURN[0] += 1
        return fns[TURN[0] % len(fns)](o)

    return get


def group_heirs():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")

        class G(SignalGroup):
            a = Signal(int, int)
            b = Signal(int)
            k = Signal(int)
            count = Signal(int, int)
            all = Signal(int, int)

        class H(G):
            """Declares some signals again."""

            a = Signal(int)
            c = Signal(int, int, int)
            all = Signal(int)

        class I(H):
            a = Signal(int, int)
            b = Signal(int, int)

    def both(n):
        return in_turn(lambda o: getattr(o, n), lambda o: o[n])

    return Flavour(
        lambda i: [H, I][i % 2](),
        {"a": lambda o: both("b")(o) if isinstance(o, I) else both("a")(o),
         "b": lambda o: both("a")(o) if isinstance(o, I) else both("b")(o),
         "k": in_turn(lambda o: o.k, lambda o: o["k"], lambda o: o.signals["k"]),
         "x": in_turn(lambda o: o["all"], lambda o: o.signals["all"]),
         "y": both("c"), "z": both("count"), "r": lambda o: o.all},
        nargs={"x": 1, "y": 3, "k": 1, "z": 2,
               "a": lambda o: 2 if isinstance(o, I) else 1,
               "b": lambda o: 2 if isinstance(o, I) else 1, "r": 1},
    )


def heirs():
    """Subclasses that declare a signal again."""

    class E:
        a = Signal(int, int)
        b = Signal(int)
        k = Signal(int)

    class F(E):
        a = Signal(int)

    class H(F):
        b = Signal(int, int, name="other")

    return Flavour(
        lambda i: [E, F, H][i % 3](),
        {"a": _sig("a"), "b": _sig("b"), "k": _sig("k")}, instance="self",
        nargs={"a": lambda o: 1 if isinstance(o, F) else 2,
               "b": lambda o: 2 if isinstance(o, H) else 1, "k": 1},
    )


def named():
    """Signals that are named like other attributes."""

    class E:
        a = Signal(int, name="b")
        b = Signal(int, int, name="a")
        k = Signal(int, name="value")
        x = Signal(int, int, int, name="same")
        y = Signal(int, name="same")

        def __init__(self):
            self.value = 3

    return Flavour(lambda i: E(), {n: _sig(n) for n in "abkxy"}, instance="self",
                   nargs={"a": 1, "b": 2, "k": 1, "x": 3, "y": 1})


def named_slots():
    class E:
        __slots__ = ("__weakref__", "value")
        a = Signal(int, name="b")
        b = Signal(int, int, name="a")
        k = Signal(int, name="value")

        def __init__(self):
            self.value = 3

    return Flavour(lambda i: E(), {n: _sig(n) for n in "abk"}, instance="self",
                   nargs={"a": 1, "b": 2, "k": 1})


def own_named():
    class E:
        a = Signal(int, name="b")
        b = Signal(int, int, name="a")

        def __setattr__(self, name, value):
            super().__setattr__(name, value)

    return Flavour(lambda i: E(), {n: _sig(n) for n in "ab"}, instance="self",
                   nargs={"a": 1, "b": 2})


def overridden():
    """A subclass gives an inherited signal another name, and its name to another one."""

    class E:
        a = Signal(int)

    class F(E):
        old = E.a
        a = Signal(int, int)

    return Flavour(
        lambda i: F(),
        {"a": _sig("a"),
         "b": in_turn(lambda o: o.old, lambda o: E.a.__get__(o, F), lambda o: o.old)},
        instance="self", nargs={"a": 2, "b": 1},
    )


def mixed():
    """Signals of several bases."""

    class E:
        a = Signal(int)
        b = Signal(int, int)

    class F:
        b = Signal(int)
        k = Signal(int, int)

    class H(F, E):
        pass

    return Flavour(lambda i: H(), {"a": _sig("a"), "b": _sig("b"), "k": _sig("k")},
                   instance="self", nargs={"a": 1, "b": 1, "k": 2})


def two_groups():
    class E:
        e1 = SignalGroupDescriptor(signal_group_class=GrpA, collect_fields=False,
                                   patch_setattr=False)
        e2 = SignalGroupDescriptor(signal_group_class=GrpB, collect_fields=False,
                                   patch_setattr=False)

    return Flavour(
        lambda i: E(),
        {"a": _grp("e1", "a"), "b": _grp("e1", "b"), "2": _grp("e2", "a"),
         "r": _relay("e1"), "s": _relay("e2")},
    )


def same_groups():
    """Several groups of one class, cached on the instance or not."""

    class E:
        e1 = SignalGroupDescriptor(signal_group_class=GrpA, collect_fields=False,
                                   patch_setattr=False)
        e2 = SignalGroupDescriptor(signal_group_class=GrpA, collect_fields=False,
                                   patch_setattr=False)

    return Flavour(
        lambda i: E(),
        {"a": _grp("e1", "a"), "b": _grp("e1", "b"), "2": _grp("e2", "a"),
         "r": _relay("e1"), "s": _relay("e2")},
    )


def same_groups_uncached():
    """The same, of slotted classes and without caches on the instances."""

    class E:
        __slots__ = ("__weakref__",)
        e1 = SignalGroupDescriptor(signal_group_class=GrpA, collect_fields=False,
                                   patch_setattr=False, cache_on_instance=False)

    class F(E):
        e2 = SignalGroupDescriptor(signal_group_class=GrpA, collect_fields=False,
                                   patch_setattr=False, cache_on_instance=False)

    return Flavour(
        lambda i: F(),
        {"a": _grp("e1", "a"), "b": _grp("e1", "b"), "2": _grp("e2", "a"),
         "r": _relay("e1"), "s": _relay("e2")},
    )


def dc_two():
    """Two groups for the fields of a dataclass."""

    @dataclasses.dataclass
    class D:
        x: int = 0
        y: int = 0
        e1: ClassVar = SignalGroupDescriptor()
        e2: ClassVar = SignalGroupDescriptor(cache_on_instance=False)

    return Flavour(
        lambda i: D(),
        {"x": _grp("e1", "x"), "y": _grp("e1", "y"), "2": _grp("e2", "x"),
         "r": _relay("e1"), "s": _relay("e2")},
    )


def _dc(**kw):
    @evented
    @dataclasses.dataclass(**kw)
    class D:
        x: int = 0
        y: int = 0

    return D


_XY = {"x": _grp("events", "x"), "y": _grp("events", "y"), "r": _relay("events")}


def dc():
    D = _dc()
    return Flavour(lambda i: D(), _XY)


def dc_nocache():
    @evented(cache_on_instance=False)
    @dataclasses.dataclass
    class D:
        x: int = 0
        y: int = 0

    return Flavour(lambda i: D(), _XY)


def dc_slots():
    D = _dc(slots=True)
    return Flavour(lambda i: D(), _XY, hold=True)


def dc_weak():
    D = _dc(slots=True, weakref_slot=True)
    return Flavour(lambda i: D(), _XY)


def dc_sub():
    D = _dc()

    @dataclasses.dataclass
    class E(D):
        z: int = 0

    return Flavour(
        lambda i: E() if i % 2 else D(),
        {**_XY, "z": lambda o: o.events["z"] if isinstance(o, E) else o.events["x"]},
    )


def attrs_define():
    @evented
    @attrs.define
    class D:
        x: int = 0
        y: int = 0

    return Flavour(lambda i: D(), _XY)


def struct():
    @evented
    class D(msgspec.Struct):
        x: int = 0
        y: int = 0

    return Flavour(lambda i: D(), _XY, hold=True)


def struct_weak():
    @evented
    class D(msgspec.Struct, weakref=True):
        x: int = 0
        y: int = 0

    return Flavour(lambda i: D(), _XY)


def pyd():
    @evented
    class D(pydantic.BaseModel):
        x: int = 0
        y: int = 0

    return Flavour(lambda i: D(), _XY)


def model():
    class D(EventedModel):
        x: int = 0
        y: int = 0

    return Flavour(lambda i: D(), _XY)


class Target:
    pass


def proxy():
    t = Target()

    # all proxies wrap the same object
    return Flavour(
        lambda i: EventedObjectProxy(t),
        {"x": _grp("events", "attribute_set"), "y": _grp("events", "item_deleted"),
         "r": _relay("events")},
    )


def selection():
    return Flavour(
        lambda i: Selection([1, 2]),
        {"x": _grp("events", "items_changed"), "y": _grp("events", "active")},
    )


CHEAP = [plain, equal_objects, unhashable, subclassed, slotted, slotted_weak, slotted_equal, own_setattr,
         groups, group_heirs, heirs, mixed, named, named_slots,
         own_named, overridden, two_groups, same_groups, same_groups_uncached, dc_two, dc, dc_nocache, dc_slots, dc_weak, dc_sub, attrs_define, struct,
         struct_weak, pyd, model, proxy, selection]
ALL = {f.__name__: f for f in CHEAP}
