"""C20: evented dataclass-likes announce exactly the assignments that change a field."""

from __future__ import annotations

import copy
import dataclasses
import gc
import operator
from typing import Any, ClassVar

import attrs
import msgspec
import numpy as np
import pydantic

from psygnal import EmissionInfo, Signal, SignalGroup, SignalGroupDescriptor, evented
from psygnal import _group_descriptor
from psygnal._group_descriptor import evented_setattr

from ..base import Scenario
from ..core import Sim
from ..lib import attempt, weighted
from .contain import Boom


class V:
    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, V) and self.n % 3 == other.n % 3

    def __hash__(self):
        return self.n % 3

    def __repr__(self):
        return f"V{self.n}"


class NoEq:
    """Can't be compared."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        raise RuntimeError("no comparison")

    __hash__ = object.__hash__

    def __repr__(self):
        return f"NoEq{self.n}"


class Ambiguous:
    """Compares, but not to a truth value."""

    def __eq__(self, other):
        return self

    __hash__ = object.__hash__

    def __bool__(self):
        raise ValueError("ambiguous")

    def __repr__(self):
        return "Ambiguous"


INTS = [0, 1, 1.0, 2, 10, 15, 25, -1, float("nan")]
OBJS = [V(0), V(3), V(1), NoEq(1), NoEq(2), Ambiguous(), float("nan"), "x", V(4), None]
OPTIONAL = [None, 0, 1, None, 2, float("nan"), -0.0, False]
EMPTY = [np.array([]), np.array([]), np.zeros((0, 2))]
ARRAYS = [np.zeros(2), np.zeros(2), np.ones(2), np.zeros(3), *EMPTY]
OBJ_ARRAYS = [*OBJS[:3], np.zeros(2), np.zeros(2), np.ones(2), "x", *EMPTY]
BAD = [13]  # refused by those that validate
VALUES = {"int": INTS, "val": [*INTS, *BAD], "obj": OBJS, "arr": ARRAYS, "mix": OBJ_ARRAYS,
          "opt": OPTIONAL}


def tens(a, b):
    return a // 10 == b // 10


def never(a, b):
    return False


def lenient(a, b):
    return (a or 0) == (b or 0)


def same_type(a, b):
    return [0] if type(a) is type(b) else []


def raising(a, b):
    if a == 2:
        raise RuntimeError("no")
    return a == b


def keep(v):
    return v


def refuse13(v):
    if v == 13:
        raise ValueError("13")
    return v


def to_int(v):
    if v != v:
        raise ValueError("nan")
    return int(v)


class F:
    """A field: values, signal name (None: without), equality, what is stored."""

    def __init__(self, kind="int", sig="", op=None, store=keep, none=False):
        self.kind = kind
        self.sig = sig
        self.op = op
        self.store = store
        self.none = none


class Layout:
    def __init__(self, cls, fields, make=None, ns="events", also=()):
        self.cls = cls
        self.ns = ns
        self.make = make or cls
        self.fields = fields
        self.also = also  # further (namespace, {field: signal name})


def dc(kind):
    kw: dict = {}
    fields = {"x": F("int"), "y": F("obj"), "z": F("mix")}
    deco: dict = {}
    if kind == "slots":
        kw = {"slots": True, "weakref_slot": True}
    elif kind == "ops":
        deco = {"equality_operators": {"x": tens, "y": never}}
        fields["x"].op, fields["y"].op = tens, never
    elif kind == "ops2":
        deco = {"equality_operators": {"x": lenient, "y": same_type, "z": operator.is_}}
        fields["x"].kind = "opt"
        fields["x"].op, fields["y"].op, fields["z"].op = lenient, same_type, operator.is_
    elif kind == "raising":
        deco = {"equality_operators": {"x": raising}}
        fields["x"].op = raising
    elif kind == "alias":
        deco = {"signal_aliases": {"x": "ex", "y": None}}
        fields["x"].sig, fields["y"].sig = "ex", None
    elif kind == "func":
        deco = {"signal_aliases": lambda n: None if n == "z" else f"{n}_changed"}
        fields["x"].sig, fields["y"].sig, fields["z"].sig = "x_changed", "y_changed", None
    elif kind == "nocache":
        deco = {"cache_on_instance": False}

    @evented(**deco)
    @dataclasses.dataclass(**kw)
    class D:
        x: int = 0
        y: object = None
        z: object = None

    return Layout(D, fields)


def dc_array():
    @evented
    @dataclasses.dataclass
    class D:
        x: np.ndarray = dataclasses.field(default_factory=lambda: ARRAYS[0])
        y: int = 0

    return Layout(D, {"x": F("arr", op=np.array_equal), "y": F("int")})


def dc_class_ops():
    @evented
    @dataclasses.dataclass
    class D:
        x: int = 0
        y: int = 0
        __eq_operators__: ClassVar = {"x": tens}

    return Layout(D, {"x": F("int", op=tens), "y": F("int")})


def dc_base_ops():
    """Two classes that inherit operators and differ in their own."""

    class Base:
        __eq_operators__: ClassVar = {"x": tens}

    @evented
    @dataclasses.dataclass
    class D(Base):
        x: int = 0
        y: int = 0

    @evented(equality_operators={"x": never})
    @dataclasses.dataclass
    class E(Base):
        x: int = 0
        y: int = 0

    return [Layout(D, {"x": F("int", op=tens), "y": F("int")}),
            Layout(E, {"x": F("int", op=never), "y": F("int")})]


def family(first, second):
    """A parent and a child, used in either order."""
    @evented
    @dataclasses.dataclass
    class P:
        x: int = 0

    pf = {"x": F("int")}
    if second == "plain":

        @dataclasses.dataclass
        class C(P):
            y: int = 0

        return [Layout(P, pf), Layout(C, {"x": F("int"), "y": F("int")})]
    if second == "alias":

        @evented(signal_aliases={"y": "why"})
        @dataclasses.dataclass
        class A(P):
            y: int = 0

        return [Layout(P, pf), Layout(A, {"x": F("int"), "y": F("int", sig="why")})]
    if second == "ops":

        @evented(equality_operators={"x": tens})
        @dataclasses.dataclass
        class O(P):
            y: int = 0

        return [Layout(P, pf), Layout(O, {"x": F("int", op=tens), "y": F("int")})]
    if second == "override":

        class S(P):
            def __setattr__(self, name, value):
                super().__setattr__(name, refuse13(value) if name == "x" else value)

        return [Layout(P, pf), Layout(S, {"x": F("val", store=refuse13)})]

    if second == "name":
        parent = P

        @dataclasses.dataclass
        class P(parent):  # of the same name
            y: int = 0

        return [Layout(parent, pf), Layout(P, {"x": F("int"), "y": F("int")})]

    @evented(events_namespace="more")
    @dataclasses.dataclass
    class N(P):
        y: int = 0

    return [Layout(P, pf), Layout(N, {"x": F("int"), "y": F("int")}, ns="more",
                                  also=[("events", {"x": "x", "y": "y"})])]


def dc_setattr():
    """Refuses and coerces."""

    @evented
    @dataclasses.dataclass
    class D:
        x: int = 0
        y: float = float("nan")

        def __setattr__(self, name, value):
            if name == "x":
                value = int(value)
            elif value == 13:
                raise ValueError("13")
            object.__setattr__(self, name, value)

    return Layout(D, {"x": F("val", store=to_int), "y": F("val", store=refuse13)})


def dc_descriptor(patch):
    @dataclasses.dataclass
    class D:
        x: int = 0
        y: object = None
        events: ClassVar = SignalGroupDescriptor(patch_setattr=patch)
        if not patch:

            @evented_setattr("events")
            def __setattr__(self, name: str, value: Any) -> None:
                object.__setattr__(self, name, value)

    return Layout(D, {"x": F("int"), "y": F("obj")})


def group_class():
    class G(SignalGroup, signal_aliases={"y": "why"}):
        x = Signal(object, object)
        why = Signal(object, object)

    class D:
        events = SignalGroupDescriptor(signal_group_class=G, collect_fields=False)

        def __init__(self):
            self.x = 0
            self.y = None

    return Layout(D, {"x": F("int"), "y": F("obj", sig="why")})


def group_aliases():
    """A group class that names and omits fields it does not define."""
    class G(SignalGroup, signal_aliases={"y": None, "z": "zed"}):
        extra = Signal(object, object)

    def cls(**kw):
        @dataclasses.dataclass
        class D:
            x: int = 0
            y: object = None
            z: int = 0
            events: ClassVar = SignalGroupDescriptor(signal_group_class=G, **kw)

        return D

    return [
        Layout(cls(), {"x": F("int"), "y": F("obj", sig=None), "z": F("int", sig="zed")}),
        Layout(cls(signal_aliases={"z": None}),
               {"x": F("int"), "y": F("obj", sig=None), "z": F("int", sig=None)}),
        Layout(cls(signal_aliases={"y": "why", "x": None}),
               {"x": F("int", sig=None), "y": F("obj", sig="why"), "z": F("int", sig="zed")}),
        Layout(cls(signal_aliases=lambda n: n * 2),
               {"x": F("int", sig="xx"), "y": F("obj", sig="yy"), "z": F("int", sig="zz")}),
    ]


def two_namespaces():
    """Two groups of signals for the same fields."""
    @dataclasses.dataclass
    class D:
        x: int = 0
        y: object = None
        events: ClassVar = SignalGroupDescriptor()
        more: ClassVar = SignalGroupDescriptor(signal_aliases={"x": "ex", "y": None})

    return Layout(D, {"x": F("int"), "y": F("obj")}, also=[("more", {"x": "ex"})])


def shared_group():
    """Classes that use the same group class under different names."""
    class G(SignalGroup, signal_aliases={"y": "why"}):
        x = Signal(object, object)
        ex = Signal(object, object)
        why = Signal(object, object)

    def cls(**kw):
        class D:
            events = SignalGroupDescriptor(signal_group_class=G, collect_fields=False, **kw)

            def __init__(self):
                self.x = 0
                self.y = None

        return D

    @dataclasses.dataclass
    class E:
        y: object = None
        z: int = 0
        events: ClassVar = SignalGroupDescriptor(
            signal_group_class=G, signal_aliases={"z": "zed", "y": "yy"}
        )

    return [
        Layout(cls(signal_aliases={"x": "ex"}),
               {"x": F("int", sig="ex"), "y": F("obj", sig="why")}),
        Layout(cls(), {"x": F("int"), "y": F("obj", sig="why")}),
        Layout(cls(signal_aliases={"y": None}), {"x": F("int"), "y": F("obj", sig=None)}),
        Layout(E, {"y": F("obj", sig="yy"), "z": F("int", sig="zed")}),
    ]


def reborn():
    """A class that takes the place of a deleted one, if possible."""
    class G(SignalGroup):
        x = Signal(object, object)
        y = Signal(object, object)

    class D:
        events = SignalGroupDescriptor(signal_group_class=G, collect_fields=False)

        def __init__(self):
            self.x = 0
            self.y = None

    def sub():
        class E(D):
            pass

        return E

    cls = sub()
    cls().events
    at = id(cls)
    del cls
    gc.collect()
    tries = []
    for _ in range(6):
        tries.append(sub())
        if id(tries[-1]) == at:
            break
    return Layout(tries[-1], {"x": F("int"), "y": F("obj")})


def slow():
    """Other threads run while an attribute is set."""

    @evented
    @dataclasses.dataclass
    class D:
        x: int = 0
        y: object = None

        def __setattr__(self, name, value):
            _pause()
            object.__setattr__(self, name, value)
            _pause()

    @dataclasses.dataclass
    class E(D):
        z: int = 0

        def __setattr__(self, name, value):
            super().__setattr__(name, value)
            _pause()

    return [Layout(D, {"x": F("int"), "y": F("obj")}),
            Layout(E, {"x": F("int"), "y": F("obj"), "z": F("int")})]


_sims: list = []


def _pause():
    if _sims:
        _sims[-1].point()


def attrs_class(kind):
    if kind == "validate":

        @evented
        @attrs.define
        class D:
            x: Any = attrs.field(default=0, validator=lambda i, a, v: refuse13(v) and None)
            y: Any = attrs.field(default=0, converter=to_int)

        return Layout(D, {"x": F("val", store=refuse13), "y": F("val", store=to_int)})

    @evented
    @attrs.define(slots=kind == "slots")
    class E:
        x: int = 0
        y: object = None

    return Layout(E, {"x": F("int"), "y": F("obj")})


def struct():
    @evented
    class D(msgspec.Struct, weakref=True):
        x: int = 0
        y: object = None
        z: object = None

    return Layout(D, {"x": F("int"), "y": F("obj"), "z": F("mix")})


def pyd(kind):
    if kind == "validate":

        @evented
        class D(pydantic.BaseModel):
            model_config = {"validate_assignment": True}
            x: Any = 0
            y: Any = None

            @pydantic.field_validator("x")
            @classmethod
            def check(cls, v):
                return refuse13(v)

        return Layout(D, {"x": F("val", store=refuse13), "y": F("obj")})

    class E(pydantic.BaseModel):
        x: Any = 0
        y: Any = None
        f: Any = pydantic.Field(default=0, frozen=True)
        events: ClassVar = SignalGroupDescriptor(
            signal_aliases={"x": "ex"} if kind == "alias" else None
        )

    return Layout(E, {"x": F("int", sig="ex" if kind == "alias" else ""), "y": F("obj")})


def own_names(kind):
    """Fields that go by other names elsewhere, and what isn't a field."""
    if kind == "pyd":

        class P(pydantic.BaseModel):
            model_config = {"populate_by_name": True}
            x: Any = pydantic.Field(default=0, alias="ex")
            y: Any = pydantic.Field(default=None, alias="x")
            v: Any = pydantic.Field(default=0, validation_alias="y", serialization_alias="z")
            _p: Any = pydantic.PrivateAttr(0)
            events: ClassVar = SignalGroupDescriptor()

        @evented
        class Q(P):
            w: Any = pydantic.Field(default=0, alias="v")

        fields = {"x": F("int"), "y": F("obj"), "v": F("int"), "_p": F("int", sig=None)}
        return [Layout(P, fields), Layout(Q, {**fields, "w": F("int")})]
    if kind == "attrs":

        @evented
        @attrs.define
        class A:
            _x: int = 0
            q: int = attrs.field(default=0, kw_only=True)
            y: object = attrs.field(default=None, alias="z")
            z: int = attrs.field(default=0, alias="y")
            c: ClassVar[int] = 0

        @evented
        @attrs.define
        class B(A):
            w: int = attrs.field(default=0, init=False)
            k: int = attrs.field(default=0, kw_only=True)

        fields = {"_x": F("int"), "q": F("int"), "y": F("obj"), "z": F("int")}
        return [Layout(A, fields), Layout(B, {**fields, "w": F("int"), "k": F("int")})]
    if kind == "struct":

        class S(msgspec.Struct, weakref=True, rename={"x": "y", "y": "x"}):
            x: int = 0
            y: object = None
            n: int = msgspec.field(default=0, name="m")
            c: ClassVar[int] = 0
            events: ClassVar = SignalGroupDescriptor()

        class T(S, rename="upper", kw_only=True):
            w: int = 0

        fields = {"x": F("int"), "y": F("obj"), "n": F("int")}
        return [Layout(S, fields), Layout(T, {**fields, "w": F("int")})]

    @evented
    @dataclasses.dataclass
    class D:
        i: dataclasses.InitVar[int] = 0
        x: int = 0
        c: ClassVar[int] = 0
        _: dataclasses.KW_ONLY
        y: object = dataclasses.field(default=None, init=False, compare=False)
        _z: "int" = dataclasses.field(default=0, repr=False)

        def __post_init__(self, i):
            pass

    return Layout(D, {"x": F("int"), "y": F("obj"), "_z": F("int"), "c": F("int", sig=None),
                      "i": F("int", sig=None)})


BUILD = {
    "dc": lambda: dc(""), "dc_slots": lambda: dc("slots"), "dc_ops": lambda: dc("ops"),
    "dc_raising": lambda: dc("raising"), "dc_alias": lambda: dc("alias"),
    "dc_ops2": lambda: dc("ops2"), "dc_func": lambda: dc("func"), "dc_nocache": lambda: dc("nocache"), "dc_array": dc_array,
    "dc_class_ops": dc_class_ops, "dc_base_ops": dc_base_ops,
    "child": lambda: family(0, "plain"), "child_alias": lambda: family(0, "alias"),
    "child_ops": lambda: family(0, "ops"), "child_override": lambda: family(0, "override"),
    "child_ns": lambda: family(0, "ns"), "child_name": lambda: family(0, "name"),
    "reborn": reborn, "slow": slow, "dc_setattr": dc_setattr,
    "descr": lambda: dc_descriptor(True), "manual": lambda: dc_descriptor(False),
    "group_class": group_class, "shared_group": shared_group,
    "group_aliases": group_aliases, "two_namespaces": two_namespaces, "attrs_validate": lambda: attrs_class("validate"),
    "attrs_slots": lambda: attrs_class("slots"), "attrs_dict": lambda: attrs_class("dict"),
    "struct": struct, "pyd_validate": lambda: pyd("validate"), "pyd": lambda: pyd(""),
    "pyd_alias": lambda: pyd("alias"),
    **{f"{k}_names": lambda k=k: own_names(k) for k in ("dc", "pyd", "attrs", "struct")},
}


def layouts(name):
    ls = BUILD[name]()
    return ls if isinstance(ls, list) else [ls]


def forget(classes):
    """psygnal keeps evented classes: a harness that makes many must drop them."""
    known = getattr(_group_descriptor, "_EQ_OPERATORS", {})
    for cls in classes:
        known.pop(cls, None)


def equal(f: F, after, before):
    """Does the field's operator find the values equal?  None: not specified."""
    op = f.op or operator.eq
    try:
        return bool(op(after, before))
    except Exception:
        if hasattr(after, "__array__"):
            try:
                return bool(np.array_equal(after, before))
            except Exception:
                return None
        if hasattr(before, "__array__"):
            return None
        return after is before


class Obj:
    def __init__(self, layout, o=None):
        self.layout = layout
        self.o = layout.make() if o is None else o
        self.touched = False  # has it ever had listeners (which copies may share)?
        self.ref = {f: getattr(self.o, f) for f in layout.fields}
        self.recorders: list = []  # (kind, namespace, signal)
        self.got: list = []


class World:
    def __init__(self, sim: Sim, plan: dict):
        self.sim = sim
        self.plan = plan
        self.layouts = []
        for name in plan["layouts"]:
            self.layouts += layouts(name)
        self.objs: list = []
        self.made: list = []
        self.ops: list = []
        self.depth = 0
        self.hooks = 0

    def fail(self, kind, msg):
        self.sim.fail(kind, f"{self.plan['layouts']} {self.ops}: {msg}")

    def do(self, op):
        self.depth += 1
        self.ops.append(op)
        outer = []
        for ob in self.objs:
            outer.append(ob.got)
            ob.got = []
        try:
            self.apply(op)
        finally:
            for ob, got in zip(self.objs, outer):
                ob.got = got
            self.ops.pop()
            self.depth -= 1

    def apply(self, op):
        k = op[0]
        if k == "new":
            if len(self.objs) < 4 and self.depth == 1:
                self.objs.append(Obj(self.layouts[op[1] % len(self.layouts)]))
                self.made.append(self.objs[-1])
            return
        if not self.objs:
            return
        i = op[1] % len(self.objs)
        ob = self.objs[i]
        names = list(ob.layout.fields)
        if k == "set":
            name = names[op[2] % len(names)]
            vals = VALUES[ob.layout.fields[name].kind]
            self.assign(i, ob, name, vals[op[3] % len(vals)])
        elif k == "record":
            self.record(ob, op[2], names[op[3] % len(names)])
        elif k == "hook":
            self.hook(ob, names[op[2] % len(names)], op[3], op[4])
        elif k == "read":
            for ns in [ob.layout.ns, *[a[0] for a in ob.layout.also]]:
                getattr(ob.o, ns)
        elif k == "unrecord":
            if ob.recorders:
                _, _, sig, slot = ob.recorders.pop(op[2] % len(ob.recorders))
                sig.disconnect(slot)
        elif k == "other":  # attributes that aren't fields
            e, r = attempt(setattr, ob.o, "other", VALUES["int"][op[2] % 4])
            if e not in (None, "AttributeError", "ValueError", "ValidationError"):
                self.fail("unexpected", f"{e} {r}")
            self.expect(i, ob, {})
        elif k == "copy":
            if self.depth == 1 and len(self.objs) < 4 and not ob.touched:
                e, c = attempt(copy.deepcopy, ob.o)
                if e is None:
                    self.sim.stat("copied")
                    self.objs.append(Obj(ob.layout, c))
                    self.made.append(self.objs[-1])
        elif k == "drop" and self.depth == 1:
            self.objs.pop(i)

    def signals(self, ob, field):
        """{(namespace, signal name)} of a field."""
        lay = ob.layout
        f = lay.fields[field]
        if f.sig is None:
            return set()
        out = {(lay.ns, f.sig or field)}
        for ns, names in lay.also:
            if field in names:
                out.add((ns, names[field]))
        return out

    def signal(self, ob, key):
        return getattr(ob.o, key[0])[key[1]]

    def record(self, ob, how, field):
        ob.touched = True
        for key in sorted(self.signals(ob, field)):
            if (how, key) in [r[:2] for r in ob.recorders]:
                continue
            if how == "group":
                if ("group", key[0]) in [r[:2] for r in ob.recorders]:
                    continue

                def slot(info, _ns=key[0]):
                    if not isinstance(info, EmissionInfo):
                        self.fail("info", f"{info!r}")
                    ob.got.append(("group", (_ns, info.signal.name), info.args))

                sig = getattr(ob.o, key[0])
                sig.connect(slot)
                ob.recorders.append(("group", key[0], sig, slot))
            else:

                def slot(new, old, _key=key, _field=field):
                    ob.got.append(("signal", _key, (new, old)))
                    e, now = attempt(getattr, ob.o, _field)
                    if now is not ob.ref[_field]:
                        self.fail("stored-late", f"{_field} is {now!r} during its event, not "
                                  f"{ob.ref[_field]!r}")

                sig = self.signal(ob, key)
                sig.connect(slot, priority=5)
                ob.recorders.append(("signal", key, sig, slot))

    def hook(self, ob, field, n, act):
        keys = sorted(self.signals(ob, field))
        if not keys or self.hooks > 6:
            return
        if ob.layout.also:
            return  # what nested assignments do to two groups is not specified
        self.hooks += 1
        ob.touched = True
        calls = [0]

        def slot(new):
            calls[0] += 1
            if calls[0] == n and self.depth < 5:
                if act[0] == "raise":
                    self.sim.fault("listener-fails")
                    raise Boom(field)
                self.sim.fault("listener-reenters")
                self.do(act[1])

        self.signal(ob, keys[0]).connect(slot)

    def assign(self, i, ob, name, value):
        f = ob.layout.fields[name]
        e2, stored = attempt(f.store, value)
        before = ob.ref[name]
        want: dict = {}
        if e2 is None:
            ob.ref[name] = stored
            same = equal(f, stored, before)
            if not same:
                for key in self.signals(ob, name):
                    want[key] = ((stored, before), same is None)
        self.sim.log("set", name, e2 or "ok", len(want))
        if e2 is not None:
            self.sim.fault("assignment-refused")
        listening = {(how, k) for how, k, _, _ in ob.recorders}
        e, r = attempt(setattr, ob.o, name, value)
        failed = e == "EmitLoopError"
        if failed:
            self.sim.stat("failed-emission")
        elif (e is None) != (e2 is None):
            self.fail("outcome", f"assigning {value!r} gave {e} {r!r}, not {e2}")
        self.expect(i, ob, want, failed, listening)
        if failed:
            raise Boom("nested")

    def expect(self, i, ob, want, failed=False, listening=frozenset()):
        for j, o in enumerate(self.objs):
            if j != i and o.got:
                self.fail("other-object", f"object {j} announced {o.got}")
        rec = listening & {(how, k) for how, k, _, _ in ob.recorders}
        for how, key, args in ob.got:
            if key not in want:
                self.fail("spurious", f"{key[1]} announced {args}")
                continue
            if len(args) != 2 or any(a is not b for a, b in zip(args, want[key][0])):
                self.fail("values", f"{key[1]} announced {args}, not {want[key][0]}")
        for key, (args, loose) in want.items():
            for how in ("signal", "group"):
                n = sum(g[:2] == (how, key) for g in ob.got)
                there = ((how, key) if how == "signal" else (how, key[0])) in rec
                if n > 1:
                    self.fail("repeated", f"{key[1]}{args} announced {n} times")
                if there and not n and not loose and not failed:
                    self.fail("silent", f"{key[1]}{args} not announced to its {how}")
        for name, v in ob.ref.items():
            now = getattr(ob.o, name)
            if now is not v and not (now == v and type(now) is type(v)):
                self.fail("value", f"{name} is {now!r}, not {v!r}")


def gen_op(rng, depth):
    k = weighted(rng, {"set": 14, "record": 5, "hook": 2 if depth < 2 else 0, "read": 1,
                       "unrecord": 1, "other": 1, "new": 2, "drop": 0.5, "copy": 0.7})
    i = rng.randrange(4)
    if k == "set":
        return [k, i, rng.randrange(60), rng.randrange(11)]
    if k == "record":
        return [k, i, rng.choice(["signal", "signal", "group"]), rng.randrange(60)]
    if k == "hook":
        act = ["raise"] if rng.random() < 0.3 else ["op", gen_op(rng, depth + 1)]
        return [k, i, rng.randrange(60), rng.choice([1, 1, 2, 3]), act]
    if k in ("unrecord", "other"):
        return [k, i, rng.randrange(4)]
    return [k, i]


class Fields(Scenario):
    """C20."""

    name = "fields"
    threaded = False
    shrink_keys = ("ops",)

    def gen(self, rng, tier):
        n = rng.choice([1, 1, 1, 2])
        return {
            "layouts": [rng.choice(list(BUILD)) for _ in range(n)],
            "ops": [["new", rng.randrange(4)]]
            + ([["read", 0], ["copy", 0]] if rng.random() < 0.3 else [])
            + [gen_op(rng, 0) for _ in range(rng.choice([4, 8, 14, 20]))],
        }

    def run(self, sim, plan):
        w = World(sim, plan)
        try:
            for op in plan["ops"]:
                try:
                    w.do(op)
                except Boom:
                    pass
        finally:
            # recorders refer to the object they listen to, which psygnal's map of
            # groups would therefore keep forever
            for ob in w.made:
                ob.o = None
            forget(lay.cls for lay in w.layouts)

    def nontrivial(self, sim, plan):
        return any(x and "set" in str(x) for x in sim.log_)


class FieldThreads(Scenario):
    """Threads assign different values to the fields of the same objects."""

    name = "field-threads"
    horizon = 200
    shrink_keys = ("ops", "threads")
    classes = ["dc", "dc_slots", "dc_func", "dc_nocache", "child", "child_alias", "child_name",
               "descr", "manual", "group_class", "shared_group", "attrs_slots", "struct",
               "pyd_validate", "slow", "slow", "slow"]

    def gen(self, rng, tier):
        def op():
            if rng.random() < 0.2:
                return ["connect", rng.randrange(2), rng.randrange(3)]
            return ["set", rng.randrange(2) if rng.random() < 0.3 else 0,
                    rng.randrange(3) if rng.random() < 0.5 else 0]

        return {
            "layout": rng.choice(self.classes),
            "fresh": rng.random() < 0.4,
            "init": [["connect", 0, 0]] if rng.random() < 0.6 else [],
            "threads": [{"ops": [op() for _ in range(rng.randint(1, 5))]}
                        for _ in range(rng.choice([2, 2, 3]))],
        }

    def run(self, sim: Sim, plan: dict) -> None:
        sim.quiet = True
        ls = layouts(plan["layout"])
        if not plan["fresh"]:
            for lay in ls:
                getattr(lay.make(), lay.ns)
        _sims.append(sim)
        try:
            self.play(sim, plan, ls)
        finally:
            _sims.pop()
            forget(lay.cls for lay in ls)

    def play(self, sim, plan, ls):
        objs = [(ls[k % len(ls)], ls[k % len(ls)].make()) for k in range(2)]
        clock = [0]
        sets: list = []  # [object, field, value, start, end, {recorder: events}]
        recs: list = []  # [object, field, connected at, events]
        doing: dict = {}

        def tick():
            clock[0] += 1
            return clock[0]

        def do(o, n):
            me = sim.me()
            lay, obj = objs[o[1]]
            names = [f for f, x in lay.fields.items() if x.sig is not None]
            field = names[o[2] % len(names)]
            if o[0] == "set":
                r = [o[1], field, 100 * (me + 1) + n, tick(), 1 << 60, {}]
                sets.append(r)
                doing[me] = r
                sim.log("set", *r[:3])
                setattr(obj, field, r[2])
                doing.pop(me)
                r[4] = tick()
                return
            k = len(recs)
            rec = [o[1], field, 1 << 60]
            recs.append(rec)

            def slot(new, old):
                r = doing.get(sim.me())
                sim.log("got", k, new, old)
                if r is None or r[:2] != rec[:2]:
                    sim.fail("stray", f"{field} announced ({new!r}, {old!r}) in a thread that "
                             f"assigns {r and r[:2]}")
                    return
                r[5].setdefault(k, []).append((new, old))
                sim.point()

            getattr(obj, lay.ns)[lay.fields[field].sig or field].connect(slot)
            rec[2] = tick()

        first = {(i, f): getattr(obj, f) for i, (lay, obj) in enumerate(objs)
                 for f in lay.fields}
        for n, o in enumerate(plan["init"]):
            do(o, n)
        sim.quiet = False

        def body(k):
            for n, o in enumerate(plan["threads"][k]["ops"]):
                do(o, n)

        for k in range(1, len(plan["threads"])):
            sim.spawn(lambda k=k: body(k), f"t{k}")
        if plan["threads"]:
            body(0)
        sim.join_all()
        sim.quiet = True
        for u in sim.uncaught:
            sim.fail("thread-died", str(u))
        self.judge(sim, objs, sets, recs, first)

    def judge(self, sim, objs, sets, recs, first):
        for i, f, v, a, b, got in sets:
            others = [s for s in sets if s[:2] == [i, f] and s[2] != v]
            during = {s[2] for s in others if s[3] < b and a < s[4]}
            before = {s[2] for s in others if s[4] < a
                      and not any(s[4] < t[3] and t[4] < a for t in others)}
            news = {v} | during
            olds = (before or {first[i, f]}) | during
            if not before and during:
                olds |= {first[i, f]}
            for k, (j, g, since) in enumerate(recs):
                if (i, f) != (j, g):
                    continue
                evs = got.get(k, [])
                if len(evs) > 1 or (not evs and since < a):
                    sim.fail("count", f"{f} = {v} of object {i} was announced as {evs}")
                for new, old in evs:
                    if new not in news or old not in olds or new == old:
                        sim.fail("values", f"{f} = {v} of object {i} was announced as "
                                 f"{(new, old)}, not as one of {sorted(news)}")
        for i, (lay, obj) in enumerate(objs):
            for f in lay.fields:
                now = getattr(obj, f)
                here = [s for s in sets if s[:2] == [i, f]]
                last = [s[2] for s in here if not any(s[4] < t[3] for t in here)]
                if now not in (last or [first[i, f]]):
                    sim.fail("value", f"{f} of object {i} is {now}")
                for k, (j, g, since) in enumerate(recs):
                    if (i, f) != (j, g) or not here or any(s[3] < since for s in here):
                        continue
                    if not any(now == new for s in here for new, _ in s[5].get(k, [])):
                        sim.fail("unannounced", f"{f} of object {i} is {now}, which slot {k} "
                                 "never heard of")

    def nontrivial(self, sim, plan):
        return sim.preemptions > 0

    def state(self, sim, plan):
        return (sim.digest(), repr(plan))
