"""Which scenarios decide which property, how many runs per tier, and what is real."""

from __future__ import annotations

import importlib

# property -> (module, [(class name, quick runs, thorough runs)], extra deps, rule)
CHECKS: dict[str, dict] = {}

REAL = [
    "all psygnal modules, unmodified, from /repo/src",
    "CPython threads, weakref, gc, stdlib threading.Timer/Event/Condition and queue.Queue",
]
STUB = [
    "threading.Lock/RLock and thread start/join (simulated, baton-passing)",
    "clock (discrete-event)",
]
ASSUME = [
    "preemption only at lines, calls and returns of psygnal code, at lock/queue/timer/"
    "thread operations and in harness callbacks",
    "the search is seeded sampling: absence of violations is evidence, not proof",
]


def reg(prop, module, jobs, rule, deps=(), real=(), stub=(), assume=()):
    CHECKS[prop] = dict(
        module=module, jobs=jobs, rule=rule, deps=tuple(deps),
        real=[*REAL, *real], stub=[*STUB, *stub], assumptions=[*ASSUME, *assume],
    )


def jobs(prop: str):
    c = CHECKS[prop]
    out = []
    for name, q, t in c["jobs"]:
        mod, _, cls = name.rpartition(":")
        mod = mod or c["module"]
        out.append((_lazy(mod, cls), q, t))
    return out


def _lazy(mod: str, cls: str):
    def make():
        return getattr(importlib.import_module(f"dst.scen.{mod}"), cls)()

    return make


def deps(prop: str) -> tuple[str, ...]:
    return CHECKS[prop]["deps"]


def info(prop: str) -> dict:
    return CHECKS[prop]


reg(
    "C02", "concurrent", [("Linear", 32000, 600000)],
    "random plans of 2-4 threads x 1-6 operations on one or two signals under a random "
    "schedule; non-trivial if at least one preemption happened",
)

reg("C01", "hist", [("Histories", 80000, 2000000)],
    "random histories of connect/disconnect/emit/kill on 1-3 signals and 1-7 slots with "
    "scripted re-entrant callbacks; non-trivial if a callback re-entered or a receiver died")
reg("C03", "hist", [("Reemission", 40000, 2000000), ("modes:Declared", 8000, 200000)],
    "random trees of re-emissions, also of signals declared in classes, groups and models")
reg("C04", "hist", [("Failures", 24000, 600000), ("aftermath:Aftermath", 16000, 600000)],
    "random histories with failing callbacks, and random tangles of (fast) emissions, pauses and "
    "blocks that fail, each followed by plain emissions")
reg("C11", "queued", [("ThreadTargets", 16000, 400000)],
    "random plans of 2-4 threads emitting, connecting, draining")
reg("C12", "queued", [("Drains", 16000, 400000)],
    "random plans of 2-4 threads draining each other's queues")
reg("C05", "ident", [("Emitter", 24000, 600000)], "random nested and concurrent emissions")
reg("C07", "pause", [("Pausing", 20000, 500000), ("PausingThreads", 16000, 400000)],
    "random pause/resume/emit histories in one and several threads")
reg("C06", "block", [("Blocking", 28000, 700000)],
    "random trees of (group) blocks around emissions, with emitting threads")
reg("C17", "groups", [("Relay", 24000, 600000), ("RelayThreads", 12000, 300000)],
    "random histories of member emissions, group/member/direct connections")
reg("C19", "groups", [("Progress", 18000, 450000)],
    "random concurrent use of groups and their members")

_T = "random plans of calls, sleeps near the interval, slow, failing and re-entrant functions"
reg("C14", "throttle", [("Throttling", 24000, 600000), ("ThrottlingThreads", 16000, 400000)], _T)
reg("C15", "throttle", [("Debouncing", 24000, 600000), ("DebouncingThreads", 16000, 400000)], _T)
reg("C16", "throttle", [("CancelFlush", 24000, 600000), ("CancelFlushThreads", 16000, 400000),
                      ("DyingArguments", 12000, 300000)],
    _T + ", cancel() and flush(), and arguments whose finalizers use the function")
reg("C18", "objects", [("Objects", 16000, 400000), ("FirstAccess", 12000, 300000)],
    "random create/access/connect/copy/kill/recreate histories over 29 class layouts, and "
    "threads racing on first accesses", deps=("pydantic", "attrs", "msgspec", "wrapt"))
reg("C08", "weak", [("Lifetimes", 28000, 700000), ("LifetimesThreads", 16000, 400000)],
    "random connect/disconnect/emit/drain/pause/drop histories over receivers of 5 kinds "
    "connected in 13 ways, dropped between, during and after emissions; non-trivial if a "
    "receiver died")
_C = ("random histories of operations with failing and self operands and hooks that fail or "
      "re-enter at chosen events; non-trivial if an operation ran")
reg("C22", "contain", [("Lists", 24000, 1200000)], _C)
reg("C23", "contain", [("Dicts", 24000, 1200000)], _C)
reg("C24", "sets", [("Sets", 28000, 1400000)], _C)
reg("C25", "sets", [("Selections", 28000, 1400000)], _C)
reg("C26", "children", [("Children", 18000, 900000)],
    "random list histories over children of 13 kinds held by one or two lists, each child "
    "emitting after every operation and inside list callbacks")
reg("C27", "proxies", [("Proxies", 28000, 1400000)],
    "random histories of writes, reads, in-place operators and drops through proxies of seven "
    "kinds of object, each done on a twin object as well", deps=("wrapt",))
reg("C28", "monitor", [("Monitors", 20000, 1000000)],
    "random trees of monitors around emissions, connections, pauses and blocks on objects of "
    "eleven kinds, with failing and re-entrant loggers and callbacks; non-trivial if there was a "
    "monitor", deps=("pydantic",))
reg("C20", "fields", [("Fields", 28000, 1400000), ("FieldThreads", 10000, 500000)],
    "random histories of assignments to objects of 30 class layouts with listeners, re-entrant "
    "and failing callbacks and refused values; several threads that assign to the same objects "
    "or use new classes first; non-trivial if a field was assigned or a thread preempted",
    deps=("pydantic", "attrs", "msgspec"))
reg("C21", "models", [("Models", 28000, 1400000)],
    "random histories of assignments, updates and resets on 14 kinds of model and their "
    "sub-models with listeners, re-entrant and failing callbacks and refused values; "
    "non-trivial if an event was heard", deps=("pydantic",))
reg("C10", "recursion", [("Runaway", 1500, 150000)],
    "random rings of one to three signals (of groups, containers, models and dataclasses too) "
    "that re-emit for ever or a bounded number of times, from varied stack depths and recursion "
    "limits; non-trivial if an emission was cut off", deps=("pydantic",))
reg("C29", "copies", [("Copies", 8000, 400000)],
    "random histories of connections, emissions, pauses, blocks and mutations on 16 kinds of "
    "subject and their copies, with copies and pickles taken anywhere, also in callbacks, and "
    "restarts from a pickle; non-trivial if a copy was made", deps=("pydantic",))
reg("C09", "retain", [("Retain", 16000, 400000)],
    "random histories of emissions of fresh values through signals, groups, containers, models "
    "and proxies, with listeners of 13 kinds; after each operation every value that is not "
    "stored on purpose must be gone; non-trivial if something was delivered",
    deps=("pydantic", "wrapt"))
reg("C13", "qtqueue", [("QtQueue", 20000, 400000)],
    "up to three threads with event loops of their own start, change and stop their timers, also "
    "in queued callbacks and nested event loops, while all emit; callbacks fail, loops are "
    "blocked; ticks and deliveries are checked against a model; non-trivial if preempted",
    real=["psygnal.qt"],
    stub=["qtpy.QtCore.QTimer and the threads' event loops (on the simulated clock)"])
