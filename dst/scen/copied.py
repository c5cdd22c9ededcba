"""Module-level callbacks of the C29 scenario; reloaded to simulate a new process."""

LOG = globals().get("LOG", [])
STATE = globals().get("STATE", {})


def plain(x):
    if hasattr(x, "signal"):
        return ["info", x.signal.name, [plain(a) for a in x.args]]
    if isinstance(x, (list, tuple)):
        return [plain(a) for a in x]
    if isinstance(x, (int, str, type(None))):
        return x
    return type(x).__name__


def note(who, args):
    LOG.append((who, [plain(a) for a in args]))


def f0(*a):
    note("f0", a)


def f1(a):
    note("f1", [a])


def f2(*a):
    """Fails for some values."""
    note("f2", a)
    if 13 in a:
        raise ValueError("13")


def f3(*a):
    """Emits again, a smaller value."""
    from psygnal import Signal

    note("f3", a)
    sig = Signal.current_emitter()
    if a and isinstance(a[0], int) and 0 < a[0] < 5 and sig is not None:
        sig.emit(a[0] - 1)


def f4(tag, *a):
    note(f"f4-{tag}", a)


def f5(*a):
    """Takes a copy."""
    note("f5", a)
    if hook := STATE.get("hook"):
        hook()
