"""Write known_findings.json: repaired defects ("fixed") and open findings ("known")."""

import json
import subprocess

LOG = dict(
    reversed(line.split(" ", 1))
    for line in subprocess.check_output(
        ["git", "-C", "/repo", "log", "--format=%h %s"], text=True
    ).splitlines()
)
FIXED = [
    ("C01", "fix: call every connected slot when slots are removed during an emission",
     "a slot removed (or dead) while an emission iterated made it skip a connected slot"),
    ("C02", "fix: removing a slot must not affect others, whatever other threads do",
     "a receiver dying in one thread while another removed a slot removed the wrong slot"),
    ("C03", "fix: deliver every emission made by a callback in latest-only mode",
     "nested emissions in latest-only mode were dropped when their arguments equalled the "
     "outer ones"),
    ("C04", "fix: raise EmitLoopError even if the error or instance cannot be described",
     "an exception or owner whose repr/str fails replaced EmitLoopError"),
    ("C11", "fix: never lose queued callbacks, block in emit_queued or call dead receivers",
     "two threads first using one thread's queue at once could lose queued calls; concurrent "
     "drains blocked for ever (C12); queued calls to dead receivers raised (C08)"),
    ("C05", "fix: do not mix up the current emitters of different threads",
     "current_emitter() gave another thread's emitter and could stay set for ever"),
    ("C07", "fix: deliver emissions made while paused exactly once, and pause groups",
     "emissions racing with resume() were lost or delivered twice, a failing replay left "
     "emissions for a later resume, pausing a group did not postpone"),
    ("C19", "fix: do not deadlock connecting to a group while its signals are emitted",
     "connecting to a group in one thread while a member was emitted in another deadlocked"),
    ("C06", "fix: restore all signals of a group after nested blocks",
     "nested group blocks with exclusions left members blocked (or unblocked)"),
]
FIXED += [
    ("C14", "fix: do not lose, repeat, mix up or rush calls of throttled functions",
     "calls racing with the timer, made right after creation or cancel() (C16), or while a "
     "failing or slow function ran were lost, repeated or invoked too early (C15)"),
    ("C18", "fix: never create two signal instances or groups for one object",
     "threads racing on the first access of a signal, group or proxy events got different "
     "ones; two SignalGroupDescriptors on one class shared one group"),
]
FIXED += [
    ("C08", "fix: never call methods of None instead of those of a dead receiver",
     "a C-implemented method that None has too (such as obj.__setattr__) was called on None, "
     "and the error raised to the emitter, when its object had died"),
    ("C08", "fix: do not keep callables alive whose signature is unknown",
     "a callable without known signature was kept alive by the error raised while connecting it"),
]
FIXED += [
    ("C22", "fix: EventedList indices and items that differ from those of a list",
     "del l[-9] of a short list removed an item, move(-2, 1) and move_multiple([-1]) misplaced "
     "items, move_multiple([0, 1, 2], 1) reordered them, EventedList([[1]])[0] was a copy"),
    ("C26", "fix: relay the events of exactly the children an EventedList holds",
     "children set by index or slice were not relayed and replaced ones still were; an equal "
     "child's index was reported; events of contained containers were dropped"),
    ("C23", "fix: EventedDict.popitem removes the item added last, as that of a dict",
     "popitem() removed the first item"),
    ("C24", "fix: set operations on the set itself, iterators or repeated items",
     "s.difference_update(s) failed, symmetric_difference_update([1, 1]) toggled twice"),
    ("C25", "fix: keep selections consistent when a change is refused, fails or is undone",
     "l[0] = x left the replaced item selected; selection.active = (item not in the list) "
     "cleared the selection; select_next() failed after the current item was removed"),
    ("C25", "fix: deselect whatever leaves a selectable list, also if callbacks fail",
     "an item removed while a callback of the list failed stayed selected"),
    ("C27", "fix: proxies refuse no writes the object accepts and announce no failed ones",
     "EventedObjectProxy({})['a'] = 1 raised KeyError; p += 5 announced 'add' and then failed"),
    ('C27', 'fix: in-place matrix products of a proxy announce one event',
     'p @= x also announced attribute_set of __wrapped__ if the product is another object'),
    ('C28', "fix: monitor signals once, whatever the object's properties or the logger",
     'a bound method as logger was called with two arguments; a failing property made monitor_events fail and left connections; signals with two names were logged twice'),
    ('C20', 'fix: keep to the equality operators a class defines, also if one fails',
     '__eq_operators__ of a class was overwritten by default operators (and shared by its subclasses); one failing comparison replaced the operator of the field by identity for good'),
    ('C20', 'fix: announce each assignment once, for inherited classes and failed ones too',
     'a subclass overriding __setattr__ announced twice; aliases or another namespace of a subclass were not announced if its parent was used first; a refused assignment to a nan field was announced'),
    ('C21', 'fix: give subclasses of evented models signals for inherited property setters',
     'a subclass of a model with allow_property_setters had no signals for the inherited properties: assigning one raised KeyError'),
    ('C21', 'fix: reset models to the defaults of factories and of nested models',
     'reset() set fields with a default factory to None and reset nested models to the defaults of their class, not of the field'),
    ('C21', 'fix: announce the stored value of a model field, and forget failed changes',
     'models without dependents announced the assigned value, not the coerced one that was stored; an assignment that failed left changes that were announced by a later assignment'),
    ('C10', 'fix: end endless changes of a model without emitting at every level',
     'callbacks that change a model with dependent properties in an endless loop hung: each level left with RecursionError emitted again'),
    ('C29', 'fix: restore all about pickled signals and callbacks, but not what was being emitted',
     'pickled or copied signals lost their description and the priority of callbacks, whose keys did not match in another process, and a copy made in a callback of a queued signal never emitted'),
    ('C29', 'fix: keep pickled and copied lists listening to their items',
     'deep copies of (selectable) lists no longer announced child events nor deselected removed items'),
    ('C29', 'fix: restore relays of pickled groups, and give copied models events of their own',
     'pickled groups (also of containers) could not be connected to; events of copied dataclasses and models took the original for their instance; model copies shared events'),
    ('C20', "fix: don't share the aliases of one class with all that use its signal group class",
     'with SignalGroupDescriptor(signal_group_class=G, collect_fields=False, signal_aliases=...) the aliases were added to G itself, so that fields of other classes using G were announced under the wrong signal, or not at all'),
    ('C20', 'fix: give evented classes events that take the place of deleted ones in memory',
     'a class using an inherited SignalGroupDescriptor(collect_fields=False) got no events if it took the memory address of an evented class deleted before'),
    ('C18', 'fix: keep signals apart that are named like other attributes of the object',
     "a signal was stored on its object under the name given to it, rather than that of its attribute: two signals of one name (or named like each other's attribute) became one and the same, the signal replaced an unrelated attribute of that name, and one inherited under another name replaced the subclass's own"),
]
KNOWN = [
    {
        "property": "C13",
        "scenario": "qtqueue",
        "kind": "runs-after-stop",
        "what": "start_emitting_from_queue(thread=T) called in a thread other than T starts a "
        "timer in the calling thread, which delivers that thread's callbacks and none of T's",
        "plan": {
            "signals": 1,
            "slots": [{"sig": 0, "target": 1, "prio": 0, "script": []}],
            "threads": [{"ops": [["start-foreign", 5, 1], ["emit", 0]]}, {"ops": []}],
            "drift": 0,
            "foreign": False,
            "names": None,
            "final": [[5, None, False, False], [5, None, False, False]],
            "ghost": None,
        },
        "cfg": {"seed": 1, "max_steps": 200000},
        "schedule": {},
    },
]

json.dump(
    {
        "fixed": [f"fixed: property={p} {LOG[m]} {w}" for p, m, w in FIXED],
        "findings": KNOWN,
    },
    open("known_findings.json", "w"),
    indent=1,
)
