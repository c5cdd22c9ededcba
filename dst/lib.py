"""Helpers shared by scenarios (public psygnal API only)."""

from __future__ import annotations

import sys

from .core import SimAbort


def err(e: BaseException) -> str:
    return type(e).__name__


def drop_tb(e: BaseException | None) -> None:
    """Forget the frames an exception holds, so that it keeps nothing alive."""
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        e.__traceback__ = None
        e = e.__cause__ or e.__context__


def attempt(fn, *a, **k):
    """(None, result) or (exception type name, exception without traceback)."""
    try:
        return None, fn(*a, **k)
    except SimAbort:
        raise
    except BaseException as e:
        drop_tb(e)
        return type(e).__name__, e


def insert_by_priority(lst: list, item, prio, key):
    """Reference rule: after every entry of the same or higher priority."""
    for i, x in enumerate(lst):
        if key(x) < prio:
            lst.insert(i, item)
            return
    lst.append(item)


def weighted(rng, table: dict):
    keys = list(table)
    return rng.choices(keys, [table[k] for k in keys])[0]


def raw(c) -> list:
    """The items of a list-like container, without going through its methods if possible."""
    d = getattr(c, "_data", None)
    return list(d) if isinstance(d, list) else [c[i] for i in range(len(c))]


def refcount_ok() -> bool:
    return sys.getrefcount is not None


class Alike:
    """An argument that is equal to all others of its kind."""

    def __init__(self, n) -> None:
        self.n = n

    def __eq__(self, other):
        return isinstance(other, Alike)

    def __hash__(self):
        return 0

    def __repr__(self):
        return "Alike()"


class Hostile:
    """An argument that has no truth value, and cannot be compared or hashed."""

    def __init__(self, n) -> None:
        self.n = n

    def _fail(self, other=None):
        raise ValueError("ambiguous")

    __eq__ = __ne__ = __lt__ = __gt__ = __bool__ = __len__ = _fail
    __hash__ = None


KINDS = (None, None, "alike", "hostile")


def wrap(kind, n):
    """An argument of that kind carrying n."""
    return n if kind is None else Alike(n) if kind == "alike" else Hostile(n)


def unwrap(x):
    return x.n if isinstance(x, (Alike, Hostile)) else x


class Boom(Exception):
    """What failing callbacks raise; some look like what psygnal raises or handles."""


BOOMS = [Boom] + [
    type(f"Boom{k.__name__}", (Boom, k), {})
    for k in (ReferenceError, TypeError, RuntimeError, StopIteration, AttributeError, KeyError,
              IndexError, ValueError)
]


class Frames:
    """What each thread is doing that must fail if a callback it calls does."""

    def __init__(self, sim):
        self.sim = sim
        self.open: dict = {}

    def enter(self):
        f = {"must": None, "n": 0}
        self.open.setdefault(self.sim.me(), []).append(f)
        return f

    def raised(self, e):
        fs = self.open.get(self.sim.me())
        if fs:
            fs[-1]["must"] = type(e).__name__
            fs[-1]["n"] += 1

    def leave(self, f, failed, what):
        fs = self.open[self.sim.me()]
        del fs[next(k for k, x in enumerate(fs) if x is f):]
        if isinstance(sys.exc_info()[1], SimAbort):
            return  # the run has been given up
        if f["n"] > 1:
            self.sim.fail("error-lost", f"{f['n']} callbacks raised during {what}, which can only "
                          "fail with one error")
        if f["must"] and not failed:
            self.sim.fail("error-lost", f"a callback raised {f['must']}, but {what} did not fail")
