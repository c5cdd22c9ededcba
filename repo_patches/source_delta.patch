From 91eff328b8b647d9faa8a1e2b22837e57b0c3565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:37 +0000
Subject: [PATCH 01/34] fix: call every connected slot when slots are removed
 during an emission

Iterating over the live list of slots skipped the slot following one that was
disconnected (or whose receiver died) while an emission was under way.
---
 src/psygnal/_signal.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 86573de..ab29ece 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -519,6 +519,7 @@ class SignalInstance:
 
     _is_blocked: bool = False
     _is_paused: bool = False
+    _n_removals: int = 0  # how often slots have been removed
     _debug_hook: ClassVar[Callable[[EmissionInfo], None] | None] = None
 
     def __init__(
@@ -794,6 +795,7 @@ class SignalInstance:
     def _remove_slot(self, slot: Literal["all"] | int | WeakCallback) -> None:
         """Remove a slot from the list of slots."""
         # implementing this as a method allows us to override/extend it in subclasses
+        self._n_removals += 1
         if slot == "all":
             self._slots.clear()
         elif isinstance(slot, int):
@@ -1237,7 +1239,7 @@ class SignalInstance:
 
         self._recursion_depth += 1
         try:
-            for caller in self._slots:
+            for caller in self._iter_slots():
                 caller.cb(args)
         except RecursionError as e:
             raise RecursionError(
@@ -1302,14 +1304,26 @@ class SignalInstance:
                     self._recursion_depth = 0
                 self._emit_queue.clear()
 
+    def _iter_slots(self) -> Iterator[WeakCallback]:
+        """Yield connected slots, while they may be added or removed.
+
+        A slot that is called may disconnect itself or others (or drop their receivers).
+        Iterating over `self._slots` directly would then skip slots that are connected.
+        """
+        n_removals = self._n_removals
+        for slot in tuple(self._slots):
+            # don't call slots that have been removed in the meantime
+            if n_removals == self._n_removals or any(s is slot for s in self._slots):
+                yield slot
+
     def _run_emit_loop_immediate(self) -> None:
         args = self._emit_queue.popleft()
-        for caller in self._slots:
+        for caller in self._iter_slots():
             caller.cb(args)
 
     def _run_emit_loop_latest_only(self) -> None:
         self._args = args = self._emit_queue.popleft()
-        for caller in self._slots:
+        for caller in self._iter_slots():
             if self._recursion_depth < self._max_recursion_depth:
                 # we've already entered a deeper emit loop
                 # we should drop the remaining slots in this round and return
@@ -1321,7 +1335,7 @@ class SignalInstance:
         i = 0
         while i < len(self._emit_queue):
             args = self._emit_queue[i]
-            for caller in self._slots:
+            for caller in self._iter_slots():
                 caller.cb(args)
                 if len(self._emit_queue) > RECURSION_LIMIT:
                     raise RecursionError
-- 
2.43.0


From 4988e94dace2a4921dacfb4c837ee5bef9b8d3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 02/34] fix: removing a slot must not affect others, whatever
 other threads do

Receivers may die in any thread: finding a slot's index and then deleting at that
index (or inserting at one, by priority) hit the wrong slot when another one was
removed in between, and emitting to a slot whose receiver had just died raised
ReferenceError.
---
 src/psygnal/_signal.py | 58 ++++++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 19 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index ab29ece..7b21480 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -135,6 +135,8 @@ from collections import deque
 from contextlib import AbstractContextManager, contextmanager, suppress
 from functools import cache, partial, reduce
 from inspect import Parameter, Signature, isclass
+from itertools import filterfalse
+from operator import attrgetter, is_
 from typing import (
     TYPE_CHECKING,
     Any,
@@ -190,6 +192,8 @@ F = TypeVar("F", bound=Callable)
 # probably plenty large for most reasonable use-cases.
 RECURSION_LIMIT = 300
 
+_get_priority = attrgetter("priority")
+
 ReemissionVal = Literal["immediate", "queued", "latest-only"]
 VALID_REEMISSION = set(ReemissionVal.__args__)  # type: ignore
 DEFAULT_REEMISSION: ReemissionVal = "immediate"
@@ -782,15 +786,13 @@ class SignalInstance:
             # remember that we have a priority in use, so we skip this check
             self._priority_in_use = True
 
-        # otherwise we need to (slowly) iterate over self._slots to
-        # insert the slot in the correct position based on priority.
+        # otherwise we need to (slowly) sort self._slots to
+        # put the slot in the correct position based on priority.
         # High priority slots are placed at the front of the list
         # low/negative priority slots are at the end of the list
-        for i, s in enumerate(self._slots):
-            if s.priority < slot.priority:
-                self._slots.insert(i, slot)
-                return
+        # (the sort is stable, and nothing can remove slots while it is running)
         self._slots.append(slot)
+        self._slots.sort(key=_get_priority, reverse=True)
 
     def _remove_slot(self, slot: Literal["all"] | int | WeakCallback) -> None:
         """Remove a slot from the list of slots."""
@@ -801,7 +803,13 @@ class SignalInstance:
         elif isinstance(slot, int):
             self._slots.pop(slot)
         else:
-            self._slots.remove(cast("WeakCallback", slot))
+            # Slots may be removed in any thread, without a lock, when a receiver dies.
+            # So, search in a copy, and then remove exactly that slot in one go.
+            slots = tuple(self._slots)
+            found = next((s for s in slots if s is slot), None)
+            if found is None:
+                found = slots[slots.index(slot)]
+            self._slots[:] = filterfalse(partial(is_, found), self._slots)
 
     def _try_discard(self, callback: WeakCallback, missing_ok: bool = True) -> None:
         """Try to discard a callback from the list of slots.
@@ -1096,13 +1104,13 @@ class SignalInstance:
         msg += f"\n\nAccepted signature: {self.signature}"
         raise ValueError(msg)
 
-    def _slot_index(self, slot: Callable) -> int:
-        """Get index of `slot` in `self._slots`.  Return -1 if not connected."""
+    def _find_slot(self, slot: Callable) -> WeakCallback | None:
+        """Get the connected callback for `slot`.  Return None if not connected."""
         with self._lock:
             normed = weak_callback(slot, on_ref_error="ignore")
             # NOTE:
             # the == method here relies on the __eq__ method of each SlotCaller subclass
-            return next((i for i, s in enumerate(self._slots) if s == normed), -1)
+            return next((s for s in tuple(self._slots) if s == normed), None)
 
     def disconnect(self, slot: Callable | None = None, missing_ok: bool = True) -> None:
         """Disconnect slot from signal.
@@ -1127,15 +1135,15 @@ class SignalInstance:
                 self._remove_slot("all")
                 return
 
-            idx = self._slot_index(slot)
-            if idx != -1:
-                self._remove_slot(idx)
+            connected = self._find_slot(slot)
+            if connected is not None:
+                self._try_discard(connected)
             elif not missing_ok:
                 raise ValueError(f"slot is not connected: {slot}")
 
     def __contains__(self, slot: Callable) -> bool:
         """Return `True` if slot is connected."""
-        return self._slot_index(slot) >= 0
+        return self._find_slot(slot) is not None
 
     def __len__(self) -> int:
         """Return number of connected slots."""
@@ -1240,7 +1248,7 @@ class SignalInstance:
         self._recursion_depth += 1
         try:
             for caller in self._iter_slots():
-                caller.cb(args)
+                _call_slot(caller, args)
         except RecursionError as e:
             raise RecursionError(
                 f"RecursionError when emitting signal {self.name!r} with args {args}"
@@ -1313,13 +1321,15 @@ class SignalInstance:
         n_removals = self._n_removals
         for slot in tuple(self._slots):
             # don't call slots that have been removed in the meantime
-            if n_removals == self._n_removals or any(s is slot for s in self._slots):
+            if n_removals == self._n_removals or any(
+                s is slot for s in tuple(self._slots)
+            ):
                 yield slot
 
     def _run_emit_loop_immediate(self) -> None:
         args = self._emit_queue.popleft()
         for caller in self._iter_slots():
-            caller.cb(args)
+            _call_slot(caller, args)
 
     def _run_emit_loop_latest_only(self) -> None:
         self._args = args = self._emit_queue.popleft()
@@ -1329,14 +1339,14 @@ class SignalInstance:
                 # we should drop the remaining slots in this round and return
                 break
             self._caller = caller
-            caller.cb(args)
+            _call_slot(caller, args)
 
     def _run_emit_loop_queued(self) -> None:
         i = 0
         while i < len(self._emit_queue):
             args = self._emit_queue[i]
             for caller in self._iter_slots():
-                caller.cb(args)
+                _call_slot(caller, args)
                 if len(self._emit_queue) > RECURSION_LIMIT:
                     raise RecursionError
             i += 1
@@ -1521,6 +1531,16 @@ class SignalInstance:
             self._run_emit_loop_inner = self._run_emit_loop_immediate
 
 
+def _call_slot(slot: WeakCallback, args: tuple[Any, ...]) -> None:
+    """Call `slot` with `args`, unless its receiver is dead."""
+    try:
+        slot.cb(args)
+    except ReferenceError:
+        # The receiver may have died, in another thread, just before it was called.
+        if slot.dereference() is not None:
+            raise
+
+
 class _SignalBlocker:
     """Context manager to block and unblock a signal."""
 
-- 
2.43.0


From d8cdc87eb479838fcbd5d5b660bd1cd5c0d4860f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:42 +0000
Subject: [PATCH 03/34] fix: deliver every emission made by a callback in
 latest-only mode

The second of two emissions made by one callback called no slots at all, if the first
one had itself been superseded.
---
 src/psygnal/_signal.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 7b21480..406c5b7 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -524,6 +524,7 @@ class SignalInstance:
     _is_blocked: bool = False
     _is_paused: bool = False
     _n_removals: int = 0  # how often slots have been removed
+    _n_emissions: int = 0  # how many emissions have started (in latest-only mode)
     _debug_hook: ClassVar[Callable[[EmissionInfo], None] | None] = None
 
     def __init__(
@@ -559,7 +560,6 @@ class SignalInstance:
         self._lock = threading.RLock()
         self._emit_queue: deque[tuple] = deque()
         self._recursion_depth: int = 0
-        self._max_recursion_depth: int = 0
         self._run_emit_loop_inner: Callable[[], None]
         if self._reemission == ReemissionMode.QUEUED:
             self._run_emit_loop_inner = self._run_emit_loop_queued
@@ -1282,9 +1282,6 @@ class SignalInstance:
             try:
                 # allow receiver to query sender with Signal.current_emitter()
                 self._recursion_depth += 1
-                self._max_recursion_depth = max(
-                    self._max_recursion_depth, self._recursion_depth
-                )
                 with Signal._emitting(self):
                     self._run_emit_loop_inner()
             except RecursionError as e:
@@ -1306,9 +1303,7 @@ class SignalInstance:
                 raise loop_err from cb_err  # emit() call ABOVE || callback error BELOW
             finally:
                 self._recursion_depth -= 1
-                # we're back to the root level of the emit loop, reset max_depth
                 if self._recursion_depth <= 0:
-                    self._max_recursion_depth = 0
                     self._recursion_depth = 0
                 self._emit_queue.clear()
 
@@ -1332,13 +1327,14 @@ class SignalInstance:
             _call_slot(caller, args)
 
     def _run_emit_loop_latest_only(self) -> None:
-        self._args = args = self._emit_queue.popleft()
+        args = self._emit_queue.popleft()
+        self._n_emissions += 1
+        n_emissions = self._n_emissions
         for caller in self._iter_slots():
-            if self._recursion_depth < self._max_recursion_depth:
-                # we've already entered a deeper emit loop
+            if n_emissions != self._n_emissions:
+                # a callback has emitted again (in a deeper emit loop)
                 # we should drop the remaining slots in this round and return
                 break
-            self._caller = caller
             _call_slot(caller, args)
 
     def _run_emit_loop_queued(self) -> None:
@@ -1499,7 +1495,6 @@ class SignalInstance:
             "_emit_queue",
             "_priority_in_use",
             "_reemission",
-            "_max_recursion_depth",
             "_recursion_depth",
         )
         dd = {slot: getattr(self, slot) for slot in attrs}
-- 
2.43.0


From 3c0a4614dfe49c3a6e4a176ba8500c7b63d0464d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:35 +0000
Subject: [PATCH 04/34] fix: raise EmitLoopError even if the error or instance
 cannot be described

---
 src/psygnal/_exceptions.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/psygnal/_exceptions.py b/src/psygnal/_exceptions.py
index f87d88e..83e9145 100644
--- a/src/psygnal/_exceptions.py
+++ b/src/psygnal/_exceptions.py
@@ -39,7 +39,7 @@ class EmitLoopError(Exception):
         # grab the signal name or repr
         if signal is None:  # pragma: no cover
             sig_name: str = ""
-        elif instance := signal.instance:
+        elif (instance := signal.instance) is not None:
             inst_class = instance.__class__
             mod = getattr(inst_class, "__module__", "")
             if mod:
@@ -55,17 +55,26 @@ class EmitLoopError(Exception):
         if reemission == "queued" and (depth := len(emit_queue) - 1):
             msg += (
                 "\nNOTE: reemission is set to 'queued', and this error occurred "
-                f"at a queue-depth of {depth}.\nEmitting arguments: {emit_queue[-1]})\n"
+                f"at a queue-depth of {depth}.\nEmitting arguments: "
+                f"{_safe_str(emit_queue[-1])})\n"
             )
 
         super().__init__(msg)
 
 
+def _safe_str(obj: object) -> str:
+    """Return `str(obj)`, without failing (which would hide the actual error)."""
+    try:
+        return str(obj)
+    except Exception:
+        return f"<unprintable {type(obj).__name__} object>"
+
+
 def _build_psygnal_exception_msg(
     sig_name: str, exc: BaseException, recursion_depth: int
 ) -> str:
     msg = f"\n\nWhile emitting signal {sig_name!r}, an error occurred in a callback:"
-    line = f"\n\n  {exc.__class__.__name__}: {exc}"
+    line = f"\n\n  {exc.__class__.__name__}: {_safe_str(exc)}"
     msg += line + "\n  " + "-" * (len(line) - 4)
 
     if recursion_depth:
-- 
2.43.0


From f65f1593deafc0ebdee7dce3de3c4d7e88850b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:14 +0000
Subject: [PATCH 05/34] fix: never lose queued callbacks, block in emit_queued
 or call dead receivers

The queue of a thread could be created twice by threads emitting at once, a drain
could wait for a callback that another drain had taken, and a queued callback whose
receiver had died surfaced as an EmitLoopError.
---
 src/psygnal/_queue.py         | 35 +++++++++++++++++++++--------------
 src/psygnal/_signal.py        | 23 +++++++----------------
 src/psygnal/_weak_callback.py | 12 +++++++++++-
 3 files changed, 39 insertions(+), 31 deletions(-)

diff --git a/src/psygnal/_queue.py b/src/psygnal/_queue.py
index 4093a8c..9dd53a4 100644
--- a/src/psygnal/_queue.py
+++ b/src/psygnal/_queue.py
@@ -1,15 +1,13 @@
 from __future__ import annotations
 
-from collections import defaultdict
-from queue import Queue
+from queue import Empty, Queue
 from threading import Thread, current_thread, main_thread
-from typing import Any, Callable, ClassVar, Literal
+from typing import Callable, ClassVar, Literal
 
 from ._exceptions import EmitLoopError
-from ._weak_callback import WeakCallback
+from ._weak_callback import WeakCallback, call_if_alive
 
-Callback = Callable[[tuple[Any, ...]], Any]
-CbArgsTuple = tuple[Callback, tuple]
+CbArgsTuple = tuple[WeakCallback, tuple]
 
 
 class QueuedCallback(WeakCallback):
@@ -26,9 +24,7 @@ class QueuedCallback(WeakCallback):
         thread will be used.
     """
 
-    _GLOBAL_QUEUE: ClassVar[defaultdict[Thread, Queue[CbArgsTuple]]] = defaultdict(
-        Queue
-    )
+    _GLOBAL_QUEUE: ClassVar[dict[Thread, Queue[CbArgsTuple]]] = {}
 
     def __init__(
         self,
@@ -60,12 +56,19 @@ class QueuedCallback(WeakCallback):
         if current_thread() is self._cbthread:
             self._wrapped.cb(args)
         else:
-            QueuedCallback._GLOBAL_QUEUE[self._cbthread].put((self._wrapped.cb, args))
+            _queue_for(self._cbthread).put((self._wrapped, args))
 
     def dereference(self) -> Callable | None:
         return self._wrapped.dereference()
 
 
+def _queue_for(thread: Thread) -> Queue[CbArgsTuple]:
+    """Return the queue for `thread`, the same one to all threads."""
+    if (queue := QueuedCallback._GLOBAL_QUEUE.get(thread)) is None:
+        queue = QueuedCallback._GLOBAL_QUEUE.setdefault(thread, Queue())
+    return queue
+
+
 def emit_queued(thread: Thread | None = None) -> None:
     """Trigger emissions of all callbacks queued in the current thread.
 
@@ -84,11 +87,15 @@ def emit_queued(thread: Thread | None = None) -> None:
         raises an exception.
     """
     _thread = current_thread() if thread is None else thread
-    queue = QueuedCallback._GLOBAL_QUEUE[_thread]
+    queue = _queue_for(_thread)
 
-    while not queue.empty():
-        cb, args = queue.get()
+    while True:
+        try:
+            # don't wait for callbacks that have been taken by another drain
+            slot, args = queue.get_nowait()
+        except Empty:
+            return
         try:
-            cb(args)
+            call_if_alive(slot, args)
         except Exception as e:  # pragma: no cover
             raise EmitLoopError(exc=e) from e
diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 406c5b7..230746f 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -162,6 +162,7 @@ from ._weak_callback import (
     WeakCallback,
     WeakSetattr,
     WeakSetitem,
+    call_if_alive,
     weak_callback,
 )
 
@@ -831,7 +832,7 @@ class SignalInstance:
         self,
         obj: object,
         attr: str,
-        maxargs: int | None | object = _NULL,
+        maxargs: int | object | None = _NULL,
         *,
         on_ref_error: RefErrorChoice = "warn",
         priority: int = 0,
@@ -943,7 +944,7 @@ class SignalInstance:
         self,
         obj: object,
         key: str,
-        maxargs: int | None | object = _NULL,
+        maxargs: int | object | None = _NULL,
         *,
         on_ref_error: RefErrorChoice = "warn",
         priority: int = 0,
@@ -1248,7 +1249,7 @@ class SignalInstance:
         self._recursion_depth += 1
         try:
             for caller in self._iter_slots():
-                _call_slot(caller, args)
+                call_if_alive(caller, args)
         except RecursionError as e:
             raise RecursionError(
                 f"RecursionError when emitting signal {self.name!r} with args {args}"
@@ -1324,7 +1325,7 @@ class SignalInstance:
     def _run_emit_loop_immediate(self) -> None:
         args = self._emit_queue.popleft()
         for caller in self._iter_slots():
-            _call_slot(caller, args)
+            call_if_alive(caller, args)
 
     def _run_emit_loop_latest_only(self) -> None:
         args = self._emit_queue.popleft()
@@ -1335,14 +1336,14 @@ class SignalInstance:
                 # a callback has emitted again (in a deeper emit loop)
                 # we should drop the remaining slots in this round and return
                 break
-            _call_slot(caller, args)
+            call_if_alive(caller, args)
 
     def _run_emit_loop_queued(self) -> None:
         i = 0
         while i < len(self._emit_queue):
             args = self._emit_queue[i]
             for caller in self._iter_slots():
-                _call_slot(caller, args)
+                call_if_alive(caller, args)
                 if len(self._emit_queue) > RECURSION_LIMIT:
                     raise RecursionError
             i += 1
@@ -1526,16 +1527,6 @@ class SignalInstance:
             self._run_emit_loop_inner = self._run_emit_loop_immediate
 
 
-def _call_slot(slot: WeakCallback, args: tuple[Any, ...]) -> None:
-    """Call `slot` with `args`, unless its receiver is dead."""
-    try:
-        slot.cb(args)
-    except ReferenceError:
-        # The receiver may have died, in another thread, just before it was called.
-        if slot.dereference() is not None:
-            raise
-
-
 class _SignalBlocker:
     """Context manager to block and unblock a signal."""
 
diff --git a/src/psygnal/_weak_callback.py b/src/psygnal/_weak_callback.py
index aa23330..9596aa3 100644
--- a/src/psygnal/_weak_callback.py
+++ b/src/psygnal/_weak_callback.py
@@ -320,6 +320,16 @@ class WeakCallback(Generic[_R]):
         return f"<{self.__class__.__name__} on {self._object_repr}>"  # pragma: no cover
 
 
+def call_if_alive(slot: WeakCallback, args: tuple[Any, ...]) -> None:
+    """Call `slot` with `args`, unless its receiver is dead."""
+    try:
+        slot.cb(args)
+    except ReferenceError:
+        # The receiver may have died, in another thread, just before it was called.
+        if slot.dereference() is not None:
+            raise
+
+
 def _kill_and_finalize(
     wcb: WeakCallback, finalize: Callable[[WeakCallback], Any]
 ) -> Callable[[weakref.ReferenceType], None]:
@@ -458,7 +468,7 @@ class WeakMethod(WeakCallback):
         func = self._func_ref()
         if obj is None or func is None:
             return None
-        method = cast(MethodType, func.__get__(obj))
+        method = cast("MethodType", func.__get__(obj))
         if self._args or self._kwargs:
             return partial(method, *self._args, **self._kwargs)
         return method
-- 
2.43.0


From 6db4f3dda30ae8179ee5c943da571d9a391c599d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:34 +0000
Subject: [PATCH 06/34] fix: do not mix up the current emitters of different
 threads

---
 src/psygnal/_signal.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 230746f..03f13cd 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -183,6 +183,7 @@ if TYPE_CHECKING:
 __all__ = ["Signal", "SignalInstance", "_compiled"]
 
 _NULL = object()
+_thread_local = threading.local()  # holds the signal emitting in the current thread
 F = TypeVar("F", bound=Callable)
 
 # using 300 instead of sys.getrecursionlimit()
@@ -295,8 +296,6 @@ class Signal:
 
     # _signature: Signature  # callback signature for this signal
 
-    _current_emitter: ClassVar[SignalInstance | None] = None
-
     def __init__(
         self,
         *types: type[Any] | Signature,
@@ -414,11 +413,12 @@ class Signal:
     @contextmanager
     def _emitting(cls, emitter: SignalInstance) -> Iterator[None]:
         """Context that sets the sender on a receiver object while emitting a signal."""
-        previous, cls._current_emitter = cls._current_emitter, emitter
+        previous = cls.current_emitter()
+        _thread_local.current_emitter = emitter
         try:
             yield
         finally:
-            cls._current_emitter = previous
+            _thread_local.current_emitter = previous
 
     @classmethod
     def current_emitter(cls) -> SignalInstance | None:
@@ -436,7 +436,7 @@ class Signal:
             source = Signal.current_emitter()
         ```
         """
-        return cls._current_emitter
+        return getattr(_thread_local, "current_emitter", None)
 
     @classmethod
     def sender(cls) -> Any:
@@ -444,7 +444,7 @@ class Signal:
 
         This will typically be used in a callback.
         """
-        return getattr(cls._current_emitter, "instance", None)
+        return getattr(cls.current_emitter(), "instance", None)
 
 
 _empty_signature = Signature()
-- 
2.43.0


From 2a37297372c93bdd2094a6dc656ab2b38836c308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:33 +0000
Subject: [PATCH 07/34] fix: deliver emissions made while paused exactly once,
 and pause groups

A failure while resuming left all postponed emissions to be delivered again, emissions
made in other threads while resuming were lost or delivered by the next resume, and
pausing a group had no effect on the emissions of its members.
---
 src/psygnal/_group.py  |  2 ++
 src/psygnal/_signal.py | 55 ++++++++++++++++++++++++------------------
 2 files changed, 33 insertions(+), 24 deletions(-)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index a2f6ba8..66f64b3 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -97,6 +97,8 @@ class SignalRelay(SignalInstance):
     def _slot_relay(self, *args: Any) -> None:
         if emitter := Signal.current_emitter():
             info = EmissionInfo(emitter, args)
+            if self._is_paused and self._postpone((info,)):
+                return
             self._run_emit_loop((info,))
 
     def connect_direct(
diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 03f13cd..46d2af0 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1200,8 +1200,7 @@ class SignalInstance:
                 f"signature: {self.signature}"
             )
 
-        if self._is_paused:
-            self._args_queue.append(args)
+        if self._is_paused and self._postpone(args):
             return
 
         if SignalInstance._debug_hook is not None:
@@ -1236,8 +1235,7 @@ class SignalInstance:
         if self._is_blocked:
             return
 
-        if self._is_paused:
-            self._args_queue.append(args)
+        if self._is_paused and self._postpone(args):
             return
 
         if self._recursion_depth >= RECURSION_LIMIT:
@@ -1391,6 +1389,14 @@ class SignalInstance:
         """
         self._is_paused = True
 
+    def _postpone(self, args: tuple[Any, ...]) -> bool:
+        """Collect `args` for `resume()`.  Return False if no longer paused."""
+        with self._lock:  # `resume()` may be called in another thread.
+            if self._is_paused:
+                self._args_queue.append(args)
+                return True
+            return False
+
     def resume(self, reducer: ReducerFunc | None = None, initial: Any = _NULL) -> None:
         """Resume (unpause) this signal, emitting everything in the queue.
 
@@ -1425,29 +1431,30 @@ class SignalInstance:
         >>> t.sig.resume(lambda a, b: (a[0].union(set(b)),), (set(),))
         >>> # results in t.sig.emit({1, 2, 3})
         """
-        self._is_paused = False
-        # not sure why this attribute wouldn't be set, but when resuming in
-        # EventedModel.update, it may be undefined (as seen in tests)
-        if not getattr(self, "_args_queue", None):
-            return
-        if len(self._slots) == 0:
-            self._args_queue.clear()
-            return
+        with self._lock:
+            self._is_paused = False
+            # not sure why this attribute wouldn't be set, but when resuming in
+            # EventedModel.update, it may be undefined (as seen in tests)
+            if not getattr(self, "_args_queue", None):
+                return
+            # Forget what has been collected before emitting it, which may fail.
+            args_queue, self._args_queue = self._args_queue, []
+            if len(self._slots) == 0:
+                return
 
-        if reducer is not None:
-            if len(inspect.signature(reducer).parameters) == 1:
-                args = cast("ReducerOneArg", reducer)(self._args_queue)
-            else:
-                reducer = cast("ReducerTwoArgs", reducer)
-                if initial is _NULL:
-                    args = reduce(reducer, self._args_queue)
+            if reducer is not None:
+                if len(inspect.signature(reducer).parameters) == 1:
+                    args = cast("ReducerOneArg", reducer)(args_queue)
                 else:
-                    args = reduce(reducer, self._args_queue, initial)
-            self._run_emit_loop(args)
-        else:
-            for args in self._args_queue:
+                    reducer = cast("ReducerTwoArgs", reducer)
+                    if initial is _NULL:
+                        args = reduce(reducer, args_queue)
+                    else:
+                        args = reduce(reducer, args_queue, initial)
                 self._run_emit_loop(args)
-        self._args_queue.clear()
+            else:
+                for args in args_queue:
+                    self._run_emit_loop(args)
 
     def paused(
         self, reducer: ReducerFunc | None = None, initial: Any = _NULL
-- 
2.43.0


From f9391af66e054e8f5b8636177ba5e6a640ab61bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:25 +0000
Subject: [PATCH 08/34] fix: do not deadlock connecting to a group while its
 signals are emitted

Connecting the first slot to a group, or removing the last one (also when its receiver
died), took the locks of all signals while holding the lock of the relay. Threads that
emit one of the signals take them in the opposite order. Also, disconnect() with
missing_ok=False refused slots that were connected to the group, but not to each signal.
---
 src/psygnal/_group.py | 56 ++++++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 16 deletions(-)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index 66f64b3..4c3f888 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -10,6 +10,7 @@ the args that were emitted.
 
 from __future__ import annotations
 
+import threading
 import warnings
 from types import MappingProxyType
 from typing import (
@@ -25,9 +26,9 @@ from typing import (
 from psygnal._signal import _NULL, Signal, SignalInstance, _SignalBlocker
 
 from ._mypyc import mypyc_attr
+from ._weak_callback import weak_callback
 
 if TYPE_CHECKING:
-    import threading
     from collections.abc import Container, Iterable, Iterator, Mapping
     from contextlib import AbstractContextManager
 
@@ -70,29 +71,47 @@ class SignalRelay(SignalInstance):
         super().__init__(signature=(EmissionInfo,), instance=instance)
         self._signals = MappingProxyType(signals)
         self._sig_was_blocked: dict[str, bool] = {}
+        self._relay_lock = threading.Lock()
+        self._relay_outdated = False
 
     def _append_slot(self, slot: WeakCallback) -> None:
         super()._append_slot(slot)
         if len(self._slots) == 1:
-            self._connect_relay()
-
-    def _connect_relay(self) -> None:
-        # silence any warnings about failed weakrefs (will occur in compiled version)
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore")
-            for sig in self._signals.values():
-                sig.connect(
-                    self._slot_relay, check_nargs=False, check_types=False, unique=True
-                )
+            self._update_relay(blocking=True)
 
     def _remove_slot(self, slot: int | WeakCallback | Literal["all"]) -> None:
         super()._remove_slot(slot)
         if not self._slots:
-            self._disconnect_relay()
+            # Not blocking, as this may be called from anywhere, when a receiver dies.
+            self._update_relay(blocking=False)
 
-    def _disconnect_relay(self) -> None:
-        for sig in self._signals.values():
-            sig.disconnect(self._slot_relay)
+    def _update_relay(self, blocking: bool) -> None:
+        """Connect the relay to all signals if there are slots, else disconnect it.
+
+        This must not wait for the locks of `self._signals`: those are held by threads
+        that are emitting them, which in turn wait for the lock of this relay.
+        """
+        self._relay_outdated = True
+        while self._relay_lock.acquire(blocking):
+            try:
+                self._relay_outdated = False
+                has_slots = bool(self._slots)
+                for sig in self._signals.values():
+                    relay = weak_callback(
+                        self._slot_relay,
+                        finalize=sig._try_discard,
+                        on_ref_error="ignore",
+                    )
+                    if relay not in tuple(sig._slots):
+                        if has_slots:
+                            sig._append_slot(relay)
+                    elif not has_slots:
+                        sig._try_discard(relay)
+            finally:
+                self._relay_lock.release()
+            # Someone who could not get the lock may have asked for another update.
+            if not self._relay_outdated:
+                break
 
     def _slot_relay(self, *args: Any) -> None:
         if emitter := Signal.current_emitter():
@@ -204,7 +223,12 @@ class SignalRelay(SignalInstance):
             If `slot` is not connected and `missing_ok` is False.
         """
         for sig in self._signals.values():
-            sig.disconnect(slot, missing_ok)
+            # (don't wait for threads that emit `sig`, unless there is something to do)
+            if slot is None or weak_callback(slot, on_ref_error="ignore") in tuple(
+                sig._slots
+            ):
+                sig.disconnect(slot)
+                missing_ok = True
         super().disconnect(slot, missing_ok)
 
 
-- 
2.43.0


From 269f3eb7aee552e9085fc8742303b322fcaba429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:18 +0000
Subject: [PATCH 09/34] fix: restore all signals of a group after nested blocks

After nested blocks of a group its signals stayed blocked, and signals that had been
blocked on their own were unblocked if they were excluded from the block of the group.
---
 src/psygnal/_group.py | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index 4c3f888..600121a 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -23,7 +23,7 @@ from typing import (
     overload,
 )
 
-from psygnal._signal import _NULL, Signal, SignalInstance, _SignalBlocker
+from psygnal._signal import _NULL, Signal, SignalInstance
 
 from ._mypyc import mypyc_attr
 from ._weak_callback import weak_callback
@@ -180,9 +180,10 @@ class SignalRelay(SignalInstance):
         """Block this signal and all emitters from emitting."""
         super().block()
         for name, sig in self._signals.items():
+            # (in nested blocks, the state before the first one counts)
+            self._sig_was_blocked.setdefault(name, sig._is_blocked)
             if name in exclude or sig in exclude:
                 continue
-            self._sig_was_blocked[name] = sig._is_blocked
             sig.block()
 
     def unblock(self) -> None:
@@ -203,7 +204,7 @@ class SignalRelay(SignalInstance):
             An iterable of signal instances or names to exempt from the block,
             by default ()
         """
-        return _SignalBlocker(self, exclude=exclude)
+        return _RelayBlocker(self, exclude=exclude)
 
     def disconnect(self, slot: Callable | None = None, missing_ok: bool = True) -> None:
         """Disconnect slot from all signals.
@@ -232,6 +233,29 @@ class SignalRelay(SignalInstance):
         super().disconnect(slot, missing_ok)
 
 
+class _RelayBlocker:
+    """Context manager to block a relay and its signals, and restore all of them."""
+
+    def __init__(
+        self, relay: SignalRelay, exclude: Container[str | SignalInstance] = ()
+    ) -> None:
+        self._relay = relay
+        self._exclude = exclude
+        self._previous: list[tuple[list[bool], dict[str, bool]]] = []
+
+    def __enter__(self) -> None:
+        relay = self._relay
+        blocked = [sig._is_blocked for sig in (relay, *relay._signals.values())]
+        self._previous.append((blocked, relay._sig_was_blocked.copy()))
+        relay.block(exclude=self._exclude)
+
+    def __exit__(self, *args: Any) -> None:
+        relay = self._relay
+        blocked, relay._sig_was_blocked = self._previous.pop()
+        for sig, was in zip((relay, *relay._signals.values()), blocked):
+            sig._is_blocked = was
+
+
 # NOTE
 # To developers. Avoid adding public names to this class, as it is intended to be
 # a container for user-determined names.  If names must be added, try to prefix
-- 
2.43.0


From d41b162eeb0ab96fba4d4fb77cb0906975df37e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:38 +0000
Subject: [PATCH 10/34] fix: do not lose, repeat, mix up or rush calls of
 throttled functions

Calls racing with the timer were lost or got the arguments of another call, a call
right after creation or cancel() was lost, a failing function disabled the interval,
two threads (or the function itself) could pass the leading edge at once, and the
arguments of the last call were kept alive.
---
 src/psygnal/_throttler.py | 125 +++++++++++++++++++++++++-------------
 1 file changed, 84 insertions(+), 41 deletions(-)

diff --git a/src/psygnal/_throttler.py b/src/psygnal/_throttler.py
index 470b9b7..b3f1add 100644
--- a/src/psygnal/_throttler.py
+++ b/src/psygnal/_throttler.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from threading import Timer
+from threading import RLock, Timer
 from typing import TYPE_CHECKING, Any, Callable, Generic, Literal, TypeVar
 
 if TYPE_CHECKING:
@@ -19,8 +19,6 @@ else:
 
 
 class _ThrottlerBase(Generic[P]):
-    _timer: Timer
-
     def __init__(
         self,
         func: Callable[P, Any],
@@ -30,11 +28,17 @@ class _ThrottlerBase(Generic[P]):
         self.__wrapped__: Callable[P, Any] = func
         self._interval: float = interval / 1000
         self._policy: EmissionPolicy = policy
-        self._has_pending: bool = False
-        self._timer: Timer = Timer(0, lambda: None)
-        self._timer.start()
-        self._args: tuple[Any, ...] = ()
-        self._kwargs: dict[str, Any] = {}
+        # protects the attributes below. It is never held while calling the function,
+        # which may need other locks that the threads calling us are holding.
+        self._lock = RLock()
+        # the arguments of the last call, if it has not been passed on yet
+        self._pending: tuple[tuple[Any, ...], dict[str, Any]] | None = None
+        # the timer that is waiting for the interval to pass, or None
+        self._timer: Timer | None = None
+        # increased with each timer, to recognize those that have been replaced
+        self._timer_id: int = 0
+        # number of calls to the function that have not returned yet
+        self._n_running: int = 0
 
         # this mimics what functools.wraps does, but avoids __dict__ usage and other
         # things that won't work with mypyc... HOWEVER, most of these dynamic
@@ -45,28 +49,66 @@ class _ThrottlerBase(Generic[P]):
         self.__doc__: str | None = getattr(func, "__doc__", None)
         self.__annotations__: dict[str, Any] = getattr(func, "__annotations__", {})
 
-    def _actually_call(self) -> None:
-        self._has_pending = False
-        self.__wrapped__(*self._args, **self._kwargs)
-        self._start_timer()
+    def _is_idle(self) -> bool:
+        return self._timer is None and not self._n_running
+
+    def _take_pending(self) -> tuple[tuple[Any, ...], dict[str, Any]] | None:
+        """Return the pending call, which must then be passed to `_actually_call`."""
+        pending = self._pending
+        if pending is not None:
+            self._pending = None
+            self._stop_timer()
+            self._n_running += 1
+        return pending
 
-    def _call_if_has_pending(self) -> None:
-        if self._has_pending:
-            self._actually_call()
+    def _actually_call(
+        self, pending: tuple[tuple[Any, ...], dict[str, Any]] | None
+    ) -> None:
+        if pending is None:
+            return
+        try:
+            self.__wrapped__(*pending[0], **pending[1])
+        finally:
+            with self._lock:
+                self._n_running -= 1
+                if not self._n_running:
+                    self._start_timer()
+
+    def _on_timeout(self, timer_id: int) -> None:
+        with self._lock:
+            if self._timer_id != timer_id:
+                return  # cancelled or replaced in the meantime
+            self._timer = None
+            if self._n_running:
+                return  # another timer is started when it returns
+            pending = self._take_pending()
+        self._actually_call(pending)
+
+    def _stop_timer(self) -> None:
+        self._timer_id += 1
+        if self._timer is not None:
+            self._timer.cancel()
+            self._timer = None
 
     def _start_timer(self) -> None:
-        self._timer.cancel()
-        self._timer = Timer(self._interval, self._call_if_has_pending)
-        self._timer.start()
+        self._stop_timer()
+        timer = Timer(self._interval, self._on_timeout, (self._timer_id,))
+        timer.start()
+        self._timer = timer
 
     def cancel(self) -> None:
         """Cancel any pending calls."""
-        self._has_pending = False
-        self._timer.cancel()
+        with self._lock:
+            pending = self._pending  # so as not to delete it while locked
+            self._pending = None
+            self._stop_timer()
+        del pending
 
     def flush(self) -> None:
         """Force a call if there is one pending."""
-        self._call_if_has_pending()
+        with self._lock:
+            pending = self._take_pending()
+        self._actually_call(pending)
 
     def __call__(self, *args: P.args, **kwargs: P.kwargs) -> None:
         raise NotImplementedError("Subclasses must implement this method.")
@@ -93,8 +135,6 @@ class Throttler(_ThrottlerBase, Generic[P]):
         wait timer, by default "leading"
     """
 
-    _timer: Timer
-
     def __init__(
         self,
         func: Callable[P, Any],
@@ -105,15 +145,17 @@ class Throttler(_ThrottlerBase, Generic[P]):
 
     def __call__(self, *args: P.args, **kwargs: P.kwargs) -> None:
         """Call underlying function."""
-        self._has_pending = True
-        self._args = args
-        self._kwargs = kwargs
-
-        if not self._timer.is_alive():
-            if self._policy == "leading":
-                self._actually_call()
-            else:
-                self._start_timer()
+        pending = None
+        with self._lock:
+            replaced = self._pending  # so as not to delete it while locked
+            self._pending = (args, kwargs)
+            if self._is_idle():
+                if self._policy == "leading":
+                    pending = self._take_pending()
+                else:
+                    self._start_timer()
+        del replaced
+        self._actually_call(pending)
 
 
 class Debouncer(_ThrottlerBase, Generic[P]):
@@ -131,8 +173,6 @@ class Debouncer(_ThrottlerBase, Generic[P]):
         wait timer, by default "trailing"
     """
 
-    _timer: Timer
-
     def __init__(
         self,
         func: Callable[P, Any],
@@ -143,13 +183,16 @@ class Debouncer(_ThrottlerBase, Generic[P]):
 
     def __call__(self, *args: P.args, **kwargs: P.kwargs) -> None:
         """Call underlying function."""
-        self._has_pending = True
-        self._args = args
-        self._kwargs = kwargs
-
-        if not self._timer.is_alive() and self._policy == "leading":
-            self._actually_call()
-        self._start_timer()
+        pending = None
+        with self._lock:
+            replaced = self._pending  # so as not to delete it while locked
+            self._pending = (args, kwargs)
+            if self._policy == "leading" and self._is_idle():
+                pending = self._take_pending()
+            elif not self._n_running:
+                self._start_timer()
+        del replaced
+        self._actually_call(pending)
 
 
 def throttled(
-- 
2.43.0


From df51780801e00ebeb4ef4d9d6ac7a80d57c7e608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:23 +0000
Subject: [PATCH 11/34] fix: never create two signal instances or groups for
 one object

Threads accessing a signal, group or proxy events of an object first at the same time
could get different ones, and two descriptors on one class shared their groups.
---
 src/psygnal/_group_descriptor.py         | 32 +++++++--------
 src/psygnal/_signal.py                   | 51 ++++++++++++++++--------
 src/psygnal/containers/_evented_proxy.py | 10 +++--
 3 files changed, 56 insertions(+), 37 deletions(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index 557c543..fa6cb8b 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -508,10 +508,6 @@ class SignalGroupDescriptor:
     ```
     """
 
-    # map of id(obj) -> SignalGroup
-    # cached here in case the object isn't modifiable
-    _instance_map: ClassVar[dict[int, SignalGroup]] = {}
-
     def __init__(
         self,
         *,
@@ -550,6 +546,9 @@ class SignalGroupDescriptor:
         self._collect_fields = collect_fields
         self._signal_aliases = signal_aliases
 
+        # map of id(obj) -> SignalGroup
+        # cached here in case the object isn't modifiable
+        self._instance_map: dict[int, SignalGroup] = {}
         self._signal_groups: dict[int, type[SignalGroup]] = {}
 
     def __set_name__(self, owner: type, name: str) -> None:
@@ -606,24 +605,25 @@ class SignalGroupDescriptor:
         # the instance (in case the instance is not modifiable).
         obj_id = id(instance)
         if obj_id not in self._instance_map:
-            # cache it
-            self._instance_map[obj_id] = signal_group(instance)
-            # also *try* to set it on the instance as well, since it will skip all the
-            # __get__ logic in the future, but if it fails, no big deal.
-            if self._name and self._cache_on_instance:
-                with contextlib.suppress(Exception):
-                    setattr(instance, self._name, self._instance_map[obj_id])
-
-            # clean up the cache when the instance is deleted
-            with contextlib.suppress(TypeError):  # if it's not weakref-able
-                weakref.finalize(instance, self._instance_map.pop, obj_id, None)
+            # cache it, unless another thread was faster
+            new_group = signal_group(instance)
+            if self._instance_map.setdefault(obj_id, new_group) is new_group:
+                # also *try* to set it on the instance as well, since it will skip all
+                # the __get__ logic in the future, but if it fails, no big deal.
+                if self._name and self._cache_on_instance:
+                    with contextlib.suppress(Exception):
+                        setattr(instance, self._name, new_group)
+
+                # clean up the cache when the instance is deleted
+                with contextlib.suppress(TypeError):  # if it's not weakref-able
+                    weakref.finalize(instance, self._instance_map.pop, obj_id, None)
 
         return self._instance_map[obj_id]
 
     def _get_signal_group(self, owner: type) -> type[SignalGroup]:
         type_id = id(owner)
         if type_id not in self._signal_groups:
-            self._signal_groups[type_id] = self._create_group(owner)
+            self._signal_groups.setdefault(type_id, self._create_group(owner))
         return self._signal_groups[type_id]
 
     def _create_group(self, owner: type) -> type[SignalGroup]:
diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 46d2af0..e64cff4 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -366,35 +366,52 @@ class Signal:
         """
         if instance is None:
             return self
-        if id(instance) in self._signal_instance_cache:
-            return self._signal_instance_cache[id(instance)]
+        obj_id = id(instance)
+        if obj_id in self._signal_instance_cache:
+            return self._signal_instance_cache[obj_id]
         signal_instance = self._create_signal_instance(instance)
 
         # cache this signal instance so that future access returns the same instance.
-        try:
-            # first, try to assign it to instance.name ... this essentially breaks the
-            # descriptor, (i.e. __get__ will never again be called for this instance)
-            # (note, this is the same mechanism used in the `cached_property` decorator)
-            setattr(instance, cast("str", self._name), signal_instance)
-        except AttributeError:
-            # if that fails, which may happen in slotted classes, then we fall back to
-            # our internal cache
-            self._cache_signal_instance(instance, signal_instance)
+        # first, try to assign it to instance.name ... this essentially breaks the
+        # descriptor, (i.e. __get__ will never again be called for this instance)
+        # (note, this is the same mechanism used in the `cached_property` decorator)
+        # If another thread is doing the same, the first one wins.
+        name = cast("str", self._name)
+        if type(instance).__setattr__ is object.__setattr__:
+            with suppress(AttributeError):
+                return cast(
+                    "SignalInstance",
+                    instance.__dict__.setdefault(name, signal_instance),
+                )
 
-        return signal_instance
+        # if that is not possible, which may happen in slotted classes, then we fall
+        # back to our internal cache
+        winner = self._cache_signal_instance(instance, signal_instance)
+        if winner is signal_instance:
+            try:
+                with suppress(AttributeError):
+                    setattr(instance, name, signal_instance)
+            except BaseException:
+                del self._signal_instance_cache[obj_id]
+                raise
+        return winner
 
     def _cache_signal_instance(
         self, instance: Any, signal_instance: SignalInstance
-    ) -> None:
-        """Cache a signal instance on the instance."""
+    ) -> SignalInstance:
+        """Cache a signal instance on the instance, unless there is one already."""
         # fallback signal instance cache as last resort.  We use the object id
         # instead a WeakKeyDictionary because we can't guarantee that the instance
         # is hashable or weak-referenceable.  and we use a finalize to remove the
         # cache when the instance is destroyed (if the object is weak-referenceable).
         obj_id = id(instance)
-        self._signal_instance_cache[obj_id] = signal_instance
-        with suppress(TypeError):
-            weakref.finalize(instance, self._signal_instance_cache.pop, obj_id, None)
+        winner = self._signal_instance_cache.setdefault(obj_id, signal_instance)
+        if winner is signal_instance:
+            with suppress(TypeError):
+                weakref.finalize(
+                    instance, self._signal_instance_cache.pop, obj_id, None
+                )
+        return winner
 
     def _create_signal_instance(
         self, instance: Any, name: str | None = None
diff --git a/src/psygnal/containers/_evented_proxy.py b/src/psygnal/containers/_evented_proxy.py
index fcd5f57..9f25ed8 100644
--- a/src/psygnal/containers/_evented_proxy.py
+++ b/src/psygnal/containers/_evented_proxy.py
@@ -75,8 +75,9 @@ class EventedObjectProxy(ObjectProxy, Generic[T]):
         """`SignalGroup` containing events for this object proxy."""
         obj_id = id(self)
         if obj_id not in _OBJ_CACHE:
-            _OBJ_CACHE[obj_id] = ProxyEvents()
-            finalize(self, partial(_OBJ_CACHE.pop, obj_id, None))
+            events = ProxyEvents()
+            if _OBJ_CACHE.setdefault(obj_id, events) is events:
+                finalize(self, partial(_OBJ_CACHE.pop, obj_id, None))
         return _OBJ_CACHE[obj_id]
 
     def __setattr__(self, name: str, value: None) -> None:
@@ -201,8 +202,9 @@ class EventedCallableObjectProxy(EventedObjectProxy):
         """`SignalGroup` containing events for this object proxy."""
         obj_id = id(self)
         if obj_id not in _OBJ_CACHE:
-            _OBJ_CACHE[obj_id] = CallableProxyEvents()
-            finalize(self, partial(_OBJ_CACHE.pop, obj_id, None))
+            events = CallableProxyEvents()
+            if _OBJ_CACHE.setdefault(obj_id, events) is events:
+                finalize(self, partial(_OBJ_CACHE.pop, obj_id, None))
         return _OBJ_CACHE[obj_id]  # type: ignore
 
     def __call__(self, *args: Any, **kwargs: Any) -> Any:
-- 
2.43.0


From c6008817dab4fdb687a312dddc0f4fe300685f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:17 +0000
Subject: [PATCH 12/34] fix: never call methods of None instead of those of a
 dead receiver

---
 src/psygnal/_weak_callback.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_weak_callback.py b/src/psygnal/_weak_callback.py
index 9596aa3..21c7294 100644
--- a/src/psygnal/_weak_callback.py
+++ b/src/psygnal/_weak_callback.py
@@ -506,7 +506,7 @@ class WeakBuiltin(WeakCallback):
         return f"{obj.__class__.__qualname__}.{self._func_name}"
 
     def cb(self, args: tuple[Any, ...] = ()) -> None:
-        func = getattr(self._obj_ref(), self._func_name, None)
+        func = self.dereference()
         if func is None:
             raise ReferenceError("weakly-referenced object no longer exists")
         if self._max_args is None:
@@ -515,7 +515,9 @@ class WeakBuiltin(WeakCallback):
             func(*self._args, *args[: self._max_args])
 
     def dereference(self) -> MethodWrapperType | BuiltinMethodType | None:
-        return getattr(self._obj_ref(), self._func_name, None)
+        obj = self._obj_ref()
+        # (None has many of the methods, too)
+        return None if obj is None else getattr(obj, self._func_name, None)
 
 
 class WeakSetattr(WeakCallback):
-- 
2.43.0


From a2419fd4f376b12f8ecfd863f7ee607885c7108f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:17 +0000
Subject: [PATCH 13/34] fix: do not keep callables alive whose signature is
 unknown

---
 src/psygnal/_signal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index e64cff4..40688cc 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1595,11 +1595,12 @@ class _SignalPauser:
 def signature(obj: Any) -> inspect.Signature:
     try:
         return inspect.signature(obj)
-    except ValueError as e:
+    except ValueError:
         with suppress(Exception):
             if not inspect.ismethod(obj):
                 return _stub_sig(obj)
-        raise e from e
+        # (an error that is its own cause would keep `obj` alive)
+        raise
 
 
 _ANYSIG = Signature(
-- 
2.43.0


From 25c9fc159918f7ca1f815350b846924306eef866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:24 +0000
Subject: [PATCH 14/34] fix: EventedList indices and items that differ from
 those of a list

Deleting at a negative index out of range removed another item, move() and
move_multiple() mistook negative indices, move_multiple() misplaced items if
a source was at the destination, and items that are lists were never returned
themselves but as new EventedLists.
---
 src/psygnal/containers/_evented_list.py | 48 ++++++++++++++-----------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index e72a647..34de83f 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -29,6 +29,7 @@ from typing import (
     TYPE_CHECKING,
     Any,
     Callable,
+    SupportsIndex,
     TypeVar,
     Union,
     cast,
@@ -139,8 +140,8 @@ class EventedList(MutableSequence[_T]):
         _value = self._pre_insert(value)
         self.events.inserting.emit(index)
         self._data.insert(index, _value)
-        self.events.inserted.emit(index, value)
-        self._post_insert(value)
+        self.events.inserted.emit(index, _value)
+        self._post_insert(_value)
 
     @overload
     def __getitem__(self, key: int) -> _T: ...
@@ -151,7 +152,8 @@ class EventedList(MutableSequence[_T]):
     def __getitem__(self, key: Index) -> _T | Self:
         """Return self[key]."""
         result = self._data[key]
-        return self.__newlike__(result) if isinstance(result, list) else result
+        # (an item that happens to be a list must be returned as is)
+        return self.__newlike__(result) if isinstance(key, slice) else result
 
     @overload
     def __setitem__(self, key: int, value: _T) -> None: ...
@@ -188,14 +190,23 @@ class EventedList(MutableSequence[_T]):
 
     def _delitem_indices(self, key: Index) -> Iterable[tuple[EventedList[_T], int]]:
         # returning (self, int) allows subclasses to pass nested members
-        if isinstance(key, int):
-            yield (self, key if key >= 0 else key + len(self))
-        elif isinstance(key, slice):
+        if isinstance(key, slice):
             yield from ((self, i) for i in range(*key.indices(len(self))))
+        elif hasattr(key, "__index__"):
+            yield (self, self._positive_index(key))
         else:
             n = repr(type(key).__name__)
             raise TypeError(f"EventedList indices must be integers or slices, not {n}")
 
+    def _positive_index(self, key: SupportsIndex) -> int:
+        """Return the position of the item at `key`, which may be negative."""
+        index = key.__index__()
+        if index < 0:
+            index += len(self)
+        if not 0 <= index < len(self):
+            raise IndexError("list index out of range")
+        return index
+
     def _pre_insert(self, value: _T) -> _T:
         """Validate and or modify values prior to inserted."""
         return value
@@ -274,6 +285,8 @@ class EventedList(MutableSequence[_T]):
         Both indices refer to the list prior to any object removal
         (pre-move space).
         """
+        if src_index < 0:
+            src_index = self._positive_index(src_index)
         if dest_index < 0:
             dest_index += len(self) + 1
         if dest_index in (src_index, src_index + 1):
@@ -365,7 +378,7 @@ class EventedList(MutableSequence[_T]):
             if isinstance(idx, slice):
                 to_move.extend(list(range(*idx.indices(len(self)))))
             elif isinstance(idx, int):
-                to_move.append(idx)
+                to_move.append(self._positive_index(idx))
             else:
                 raise TypeError(
                     "Can only move integer or slice indices"
@@ -376,23 +389,16 @@ class EventedList(MutableSequence[_T]):
         if dest_index < 0:
             dest_index += len(self) + 1
 
-        d_inc = 0
-        popped: list[int] = []
-        for i, src in enumerate(to_move):
+        # the original index of the item that is at each position after each move
+        order = list(range(len(self)))
+        for idx in to_move:
+            src = order.index(idx)
             if src != dest_index:
-                # we need to decrement the src_i by 1 for each time we have
-                # previously pulled items out from in front of the src_i
-                src -= sum(x <= src for x in popped)
-                # if source is past the insertion point, increment src for each
-                # previous insertion
-                if src >= dest_index:
-                    src += i
-                yield src, dest_index + d_inc
-
-            popped.append(src)
+                yield src, dest_index
+                order.insert(dest_index - (src < dest_index), order.pop(src))
             # if the item moved up, increment the destination index
             if dest_index <= src:
-                d_inc += 1
+                dest_index += 1
 
     def _connect_child_emitters(self, child: _T) -> None:
         """Connect all events from the child to be reemitted."""
-- 
2.43.0


From 4c775d3a154fb635d99da4f95ba534411fc41aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:24 +0000
Subject: [PATCH 15/34] fix: relay the events of exactly the children an
 EventedList holds

Items set by index or slice were never connected and replaced ones never
disconnected, a failing or re-entrant inserted callback left children
unconnected or connected for good, and events were attributed to equal
children or dropped if the child's signals are in a group, as those of
containers are.
---
 src/psygnal/containers/_evented_list.py | 31 +++++++++++++++++++++----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index 34de83f..09a5813 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -140,8 +140,9 @@ class EventedList(MutableSequence[_T]):
         _value = self._pre_insert(value)
         self.events.inserting.emit(index)
         self._data.insert(index, _value)
-        self.events.inserted.emit(index, _value)
+        # before emitting: callbacks may fail, or remove the item again
         self._post_insert(_value)
+        self.events.inserted.emit(index, _value)
 
     @overload
     def __getitem__(self, key: int) -> _T: ...
@@ -173,9 +174,17 @@ class EventedList(MutableSequence[_T]):
                 raise TypeError("Can only assign an iterable to slice")
             value = [self._pre_insert(v) for v in value]  # before we mutate the list
             self._data[key] = value
+            inserted, removed = value, cast("list[_T]", old)
         else:
             value = self._pre_insert(cast("_T", value))
             self._data[key] = value
+            inserted, removed = [value], [cast("_T", old)]
+
+        if self._child_events:
+            for item in inserted:
+                self._connect_child_emitters(item)
+            for item in removed:
+                self._disconnect_child_emitters(item)
 
         self.events.changed.emit(key, old, value)
 
@@ -415,11 +424,10 @@ class EventedList(MutableSequence[_T]):
         emitter = Signal.current_emitter()
         if emitter is None:
             return  # pragma: no cover
-        obj = emitter.instance
-        try:
-            idx = self.index(obj)
-        except ValueError:  # pragma: no cover
+        idx = self._child_index(emitter)
+        if idx is None:  # pragma: no cover
             return
+        obj = self._data[idx]
 
         if (
             args
@@ -430,6 +438,19 @@ class EventedList(MutableSequence[_T]):
 
         self.events.child_event.emit(idx, obj, emitter, args)
 
+    def _child_index(self, emitter: SignalInstance) -> int | None:
+        """Return the index of the child that `emitter` belongs to."""
+        obj = emitter.instance
+        for idx, child in enumerate(self._data):
+            if child is obj:
+                return idx
+        # the signals of a group (e.g. those of a container) don't know the object
+        # that has the group
+        for idx, child in enumerate(self._data):
+            if any(sig is emitter for sig in iter_signal_instances(child)):
+                return idx
+        return None
+
     # PYDANTIC SUPPORT
 
     @classmethod
-- 
2.43.0


From 851a6b187bbe6baf62a63a34336a9fdd3fe60a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:22 +0000
Subject: [PATCH 16/34] fix: EventedDict.popitem removes the item added last,
 as that of a dict

---
 src/psygnal/containers/_evented_dict.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/psygnal/containers/_evented_dict.py b/src/psygnal/containers/_evented_dict.py
index 5f60338..963c528 100644
--- a/src/psygnal/containers/_evented_dict.py
+++ b/src/psygnal/containers/_evented_dict.py
@@ -59,6 +59,14 @@ class TypedMutableMapping(MutableMapping[_K, _V]):
     def __getitem__(self, key: _K) -> _V:
         return self._dict[key]
 
+    def popitem(self) -> tuple[_K, _V]:
+        """Remove and return the item that was added last."""
+        try:
+            key = next(reversed(self._dict))
+        except StopIteration:
+            raise KeyError("popitem(): dictionary is empty") from None
+        return key, self.pop(key)
+
     def __len__(self) -> int:
         return len(self._dict)
 
-- 
2.43.0


From 454d67bf3eb25a534368bb96d7e083f79d88e831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:22 +0000
Subject: [PATCH 17/34] fix: set operations on the set itself, iterators or
 repeated items

difference_update() and symmetric_difference_update() failed if given the set
itself, the latter toggled repeated items twice, symmetric_difference()
exhausted iterators, and intersection() failed without arguments.
---
 src/psygnal/containers/_evented_set.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/psygnal/containers/_evented_set.py b/src/psygnal/containers/_evented_set.py
index 2c841c8..58d0399 100644
--- a/src/psygnal/containers/_evented_set.py
+++ b/src/psygnal/containers/_evented_set.py
@@ -126,7 +126,8 @@ class _BaseMutableSet(MutableSet[_T]):
 
     def difference_update(self, *s: Iterable[_T]) -> None:
         """Remove all elements of another set from this set."""
-        for i in chain(*s):
+        # (any of the sets may be this one)
+        for i in chain(*(tuple(x) if x is self else x for x in s)):
             self.discard(i)
 
     def intersection(self, *s: Iterable[_T]) -> Self:
@@ -134,12 +135,12 @@ class _BaseMutableSet(MutableSet[_T]):
 
         (i.e. all elements that are in both sets.)
         """
-        other = set.intersection(*(set(x) for x in s))
+        other = set(self).intersection(*s)
         return self.__class__(i for i in self if i in other)
 
     def intersection_update(self, *s: Iterable[_T]) -> None:
         """Update this set with the intersection of itself and another."""
-        other = set.intersection(*(set(x) for x in s))
+        other = set(self).intersection(*s)
         for i in tuple(self):
             if i not in other:
                 self.discard(i)
@@ -157,7 +158,10 @@ class _BaseMutableSet(MutableSet[_T]):
 
         (i.e. all elements that are in exactly one of the sets.)
         """
-        a = chain((i for i in __s if i not in self), (i for i in self if i not in __s))
+        other = dict.fromkeys(__s)  # __s may be an iterator
+        a = chain(
+            (i for i in other if i not in self), (i for i in self if i not in other)
+        )
         return self.__class__(a)
 
     def symmetric_difference_update(self, __s: Iterable[_T]) -> None:
@@ -166,7 +170,7 @@ class _BaseMutableSet(MutableSet[_T]):
         This will remove any items in this set that are also in `other`, and
         add any items in others that are not present in this set.
         """
-        for i in __s:
+        for i in tuple(dict.fromkeys(__s)):  # __s may be self or have duplicates
             self.discard(i) if i in self else self.add(i)
 
     def union(self, *s: Iterable[_T]) -> Self:
-- 
2.43.0


From a47ac83e91e4c1438fee75b14217ab9866abc542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:48 +0000
Subject: [PATCH 18/34] fix: keep selections consistent when a change is
 refused, fails or is undone

Items replaced in a selectable list stayed selected, refused or failing changes
lost the selection or left a wrong active item, a removed current item made
select_next() fail, and assigning an iterator selected nothing.
---
 .../containers/_selectable_evented_list.py    | 15 ++++++++---
 src/psygnal/containers/_selection.py          | 25 ++++++++++++++-----
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/psygnal/containers/_selectable_evented_list.py b/src/psygnal/containers/_selectable_evented_list.py
index bebe8da..0672540 100644
--- a/src/psygnal/containers/_selectable_evented_list.py
+++ b/src/psygnal/containers/_selectable_evented_list.py
@@ -1,7 +1,7 @@
 """MutableSequence with a selection model."""
 
 from collections.abc import Iterable
-from typing import Any, TypeVar
+from typing import Any, TypeVar, Union
 
 from ._evented_list import EventedList, ListEvents
 from ._selection import Selectable
@@ -47,14 +47,23 @@ class SelectableEventedList(Selectable[_T], EventedList[_T]):
         self._activate_on_insert: bool = True
         super().__init__(data=data, hashable=hashable, child_events=child_events)
         self.events.removed.connect(self._on_item_removed)
+        self.events.changed.connect(self._on_item_changed)
 
     def _on_item_removed(self, idx: int, obj: Any) -> None:
         self.selection.discard(obj)
+        if obj == self.selection._current and obj not in self:
+            self.selection._current = None
+
+    def _on_item_changed(self, idx: Union[int, slice], old: Any, new: Any) -> None:
+        for obj in old if isinstance(idx, slice) else (old,):
+            if obj not in self:
+                self._on_item_removed(-1, obj)
 
     def insert(self, index: int, value: _T) -> None:
         """Insert item(s) into the list and update the selection."""
         super().insert(index, value)
-        if self._activate_on_insert:
+        # (callbacks may have removed the item already)
+        if self._activate_on_insert and value in self:
             self.selection.active = value
 
     def select_all(self) -> None:
@@ -83,7 +92,7 @@ class SelectableEventedList(Selectable[_T], EventedList[_T]):
         """
         if len(self) == 0:
             return
-        elif not self.selection:
+        elif not self.selection or self.selection._current not in self:
             idx = -1 if step > 0 else 0
         else:
             idx = self.index(self.selection._current) + step
diff --git a/src/psygnal/containers/_selection.py b/src/psygnal/containers/_selection.py
index 7650a16..d71bb0a 100644
--- a/src/psygnal/containers/_selection.py
+++ b/src/psygnal/containers/_selection.py
@@ -108,10 +108,16 @@ class Selection(EventedOrderedSet[_T]):
         """
         if value == self._active:
             return
+        if value is not None:
+            self._check_parent(value)  # before changing anything
         self._active = value
-        self.clear() if value is None else self.select_only(value)
-        self._current = value
-        self.events.active.emit(value)
+        try:
+            self.clear() if value is None else self.select_only(value)
+        finally:
+            # unless a callback has changed it again
+            if self._active is value:
+                self._current = value
+                self.events.active.emit(value)
 
     def clear(self, keep_current: bool = False) -> None:
         """Clear the selection.
@@ -131,6 +137,7 @@ class Selection(EventedOrderedSet[_T]):
 
     def select_only(self, obj: _T) -> None:
         """Unselect everything but `obj`. Add to selection if not currently selected."""
+        self._check_parent(obj)  # before changing anything
         self.intersection_update({obj})
         self.add(obj)
 
@@ -151,14 +158,19 @@ class Selection(EventedOrderedSet[_T]):
 
     def _emit_change(self, added: tuple[_T, ...], removed: tuple[_T, ...]) -> None:
         """Emit a change event."""
-        super()._emit_change(added, removed)
-        self._update_active()
+        try:
+            super()._emit_change(added, removed)
+        finally:  # even if a callback failed
+            self._update_active()
 
-    def _pre_add_hook(self, item: _T) -> _T | BailType:
+    def _check_parent(self, item: _T) -> None:
         if self._parent is not None and item not in self._parent:
             raise ValueError(
                 "Cannot select an item that is not in the parent container."
             )
+
+    def _pre_add_hook(self, item: _T) -> _T | BailType:
+        self._check_parent(item)
         return super()._pre_add_hook(item)
 
     def __hash__(self) -> int:
@@ -181,5 +193,6 @@ class Selectable(Container[_S]):
     @selection.setter
     def selection(self, new_selection: Iterable[_S]) -> None:  # pragma: no cover
         """Set selection, without deleting selection model object."""
+        new_selection = tuple(new_selection)
         self._selection.intersection_update(new_selection)
         self._selection.update(new_selection)
-- 
2.43.0


From 4976130134f4c258991d496f06c617c2d975e56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:03 +0000
Subject: [PATCH 19/34] fix: proxies refuse no writes the object accepts and
 announce no failed ones

Setting an item that did not exist failed, as did setting what could not be
read before, and in-place operations were announced before being applied, even
if they failed.
---
 src/psygnal/containers/_evented_proxy.py | 55 ++++++++++++++++--------
 1 file changed, 38 insertions(+), 17 deletions(-)

diff --git a/src/psygnal/containers/_evented_proxy.py b/src/psygnal/containers/_evented_proxy.py
index 9f25ed8..8e296e0 100644
--- a/src/psygnal/containers/_evented_proxy.py
+++ b/src/psygnal/containers/_evented_proxy.py
@@ -1,4 +1,5 @@
 from functools import partial
+from operator import getitem
 from typing import Any, Callable, Generic, TypeVar
 from weakref import finalize
 
@@ -16,6 +17,14 @@ T = TypeVar("T")
 _UNSET = object()
 
 
+def _try(read: Callable, obj: Any, key: Any) -> Any:
+    """Return what can be read at `key`, which needn't be readable to be set."""
+    try:
+        return read(obj, key)
+    except Exception:
+        return _UNSET
+
+
 class ProxyEvents(SignalGroup):
     """ObjectProxy events."""
 
@@ -81,9 +90,9 @@ class EventedObjectProxy(ObjectProxy, Generic[T]):
         return _OBJ_CACHE[obj_id]
 
     def __setattr__(self, name: str, value: None) -> None:
-        before = getattr(self, name, _UNSET)
+        before = _try(getattr, self, name)
         super().__setattr__(name, value)
-        if before is not (after := getattr(self, name, _UNSET)):
+        if before is not (after := _try(getattr, self, name)):
             self.events.attribute_set(name, after)
 
     def __delattr__(self, name: str) -> None:
@@ -91,9 +100,9 @@ class EventedObjectProxy(ObjectProxy, Generic[T]):
         self.events.attribute_deleted(name)
 
     def __setitem__(self, key: Any, value: Any) -> None:
-        before = self[key]
+        before = _try(getitem, self, key)
         super().__setitem__(key, value)
-        if before is not (after := self[key]):
+        if before is not (after := _try(getitem, self, key)):
             self.events.item_set(key, after)
 
     def __delitem__(self, key: Any) -> None:
@@ -107,57 +116,69 @@ class EventedObjectProxy(ObjectProxy, Generic[T]):
         return [*dir(self.__wrapped__), "events"]
 
     def __iadd__(self, other: Any) -> T:
+        result = super().__iadd__(other)  # type: ignore
         self.events.in_place("add", other)
-        return super().__iadd__(other)  # type: ignore
+        return result
 
     def __isub__(self, other: Any) -> T:
+        result = super().__isub__(other)  # type: ignore
         self.events.in_place("sub", other)
-        return super().__isub__(other)  # type: ignore
+        return result
 
     def __imul__(self, other: Any) -> T:
+        result = super().__imul__(other)  # type: ignore
         self.events.in_place("mul", other)
-        return super().__imul__(other)  # type: ignore
+        return result
 
     def __imatmul__(self, other: Any) -> T:
-        self.events.in_place("matmul", other)
         self.__wrapped__ @= other  # not in wrapt  # type: ignore
+        self.events.in_place("matmul", other)
         return self
 
     def __itruediv__(self, other: Any) -> T:
+        result = super().__itruediv__(other)  # type: ignore
         self.events.in_place("truediv", other)
-        return super().__itruediv__(other)  # type: ignore
+        return result
 
     def __ifloordiv__(self, other: Any) -> T:
+        result = super().__ifloordiv__(other)  # type: ignore
         self.events.in_place("floordiv", other)
-        return super().__ifloordiv__(other)  # type: ignore
+        return result
 
     def __imod__(self, other: Any) -> T:
+        result = super().__imod__(other)  # type: ignore
         self.events.in_place("mod", other)
-        return super().__imod__(other)  # type: ignore
+        return result
 
     def __ipow__(self, other: Any) -> T:
+        result = super().__ipow__(other)  # type: ignore
         self.events.in_place("pow", other)
-        return super().__ipow__(other)  # type: ignore
+        return result
 
     def __ilshift__(self, other: Any) -> T:
+        result = super().__ilshift__(other)  # type: ignore
         self.events.in_place("lshift", other)
-        return super().__ilshift__(other)  # type: ignore
+        return result
 
     def __irshift__(self, other: Any) -> T:
+        result = super().__irshift__(other)  # type: ignore
         self.events.in_place("rshift", other)
-        return super().__irshift__(other)  # type: ignore
+        return result
 
     def __iand__(self, other: Any) -> T:
+        result = super().__iand__(other)  # type: ignore
         self.events.in_place("and", other)
-        return super().__iand__(other)  # type: ignore
+        return result
 
     def __ixor__(self, other: Any) -> T:
+        result = super().__ixor__(other)  # type: ignore
         self.events.in_place("xor", other)
-        return super().__ixor__(other)  # type: ignore
+        return result
 
     def __ior__(self, other: Any) -> T:
+        result = super().__ior__(other)  # type: ignore
         self.events.in_place("or", other)
-        return super().__ior__(other)  # type: ignore
+        return result
 
 
 class EventedCallableObjectProxy(EventedObjectProxy):
-- 
2.43.0


From c3dd91e900e0214dcfcad523e9f32028bef528f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 20/34] fix: deselect whatever leaves a selectable list, also
 if callbacks fail

Several items replaced at once were deselected one by one, which failed once
only one was left, or stopped at the first failing callback; the current item
and active events were lost if a callback of another event failed.
---
 .../containers/_selectable_evented_list.py    | 31 +++++++++++++++----
 src/psygnal/containers/_selection.py          | 23 +++++++++-----
 2 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/src/psygnal/containers/_selectable_evented_list.py b/src/psygnal/containers/_selectable_evented_list.py
index 0672540..0e2271e 100644
--- a/src/psygnal/containers/_selectable_evented_list.py
+++ b/src/psygnal/containers/_selectable_evented_list.py
@@ -45,19 +45,28 @@ class SelectableEventedList(Selectable[_T], EventedList[_T]):
         child_events: bool = False,
     ):
         self._activate_on_insert: bool = True
+        self._swapping: bool = False
         super().__init__(data=data, hashable=hashable, child_events=child_events)
         self.events.removed.connect(self._on_item_removed)
         self.events.changed.connect(self._on_item_changed)
 
     def _on_item_removed(self, idx: int, obj: Any) -> None:
-        self.selection.discard(obj)
-        if obj == self.selection._current and obj not in self:
-            self.selection._current = None
+        try:
+            self.selection.discard(obj)
+        finally:
+            if obj == self.selection._current and obj not in self:
+                self.selection._current = None
 
     def _on_item_changed(self, idx: Union[int, slice], old: Any, new: Any) -> None:
-        for obj in old if isinstance(idx, slice) else (old,):
-            if obj not in self:
-                self._on_item_removed(-1, obj)
+        if self._swapping:
+            return
+        replaced = old if isinstance(idx, slice) else [old]
+        gone = [obj for obj in replaced if obj not in self]
+        try:
+            self.selection.difference_update(gone)
+        finally:
+            if self.selection._current in gone:
+                self.selection._current = None
 
     def insert(self, index: int, value: _T) -> None:
         """Insert item(s) into the list and update the selection."""
@@ -66,6 +75,16 @@ class SelectableEventedList(Selectable[_T], EventedList[_T]):
         if self._activate_on_insert and value in self:
             self.selection.active = value
 
+    def reverse(self, *, emit_individual_events: bool = False) -> None:
+        """Reverse list *IN PLACE*."""
+        # while items are swapped one by one, some aren't in the list
+        self._swapping = True
+        try:
+            super().reverse(emit_individual_events=emit_individual_events)
+        finally:
+            self._swapping = False
+            self.selection.intersection_update(self)
+
     def select_all(self) -> None:
         """Select all items in the list."""
         self.selection.update(self)
diff --git a/src/psygnal/containers/_selection.py b/src/psygnal/containers/_selection.py
index d71bb0a..51dc981 100644
--- a/src/psygnal/containers/_selection.py
+++ b/src/psygnal/containers/_selection.py
@@ -114,10 +114,13 @@ class Selection(EventedOrderedSet[_T]):
         try:
             self.clear() if value is None else self.select_only(value)
         finally:
-            # unless a callback has changed it again
-            if self._active is value:
-                self._current = value
-                self.events.active.emit(value)
+            # unless callbacks have changed it again
+            try:
+                if self._active is value:
+                    self._current = value
+            finally:
+                if self._active is value:
+                    self.events.active.emit(value)
 
     def clear(self, keep_current: bool = False) -> None:
         """Clear the selection.
@@ -127,9 +130,11 @@ class Selection(EventedOrderedSet[_T]):
         keep_current : bool
             If `False` (the default), the "current" item will also be set to None.
         """
-        if not keep_current:
-            self._current = None
-        super().clear()
+        try:
+            if not keep_current:
+                self._current = None
+        finally:  # even if a callback failed
+            super().clear()
 
     def toggle(self, obj: _T) -> None:
         """Toggle selection state of obj."""
@@ -164,7 +169,9 @@ class Selection(EventedOrderedSet[_T]):
             self._update_active()
 
     def _check_parent(self, item: _T) -> None:
-        if self._parent is not None and item not in self._parent:
+        if item in self or self._parent is None:
+            return  # (the last selected item may have left the container meanwhile)
+        if item not in self._parent:
             raise ValueError(
                 "Cannot select an item that is not in the parent container."
             )
-- 
2.43.0


From caf2261cdccedbb94a2e446e6efc420bbda87991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 21/34] fix: in-place matrix products of a proxy announce one
 event

---
 src/psygnal/containers/_evented_proxy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/containers/_evented_proxy.py b/src/psygnal/containers/_evented_proxy.py
index 8e296e0..0cee4ae 100644
--- a/src/psygnal/containers/_evented_proxy.py
+++ b/src/psygnal/containers/_evented_proxy.py
@@ -1,5 +1,5 @@
 from functools import partial
-from operator import getitem
+from operator import getitem, imatmul
 from typing import Any, Callable, Generic, TypeVar
 from weakref import finalize
 
@@ -131,7 +131,8 @@ class EventedObjectProxy(ObjectProxy, Generic[T]):
         return result
 
     def __imatmul__(self, other: Any) -> T:
-        self.__wrapped__ @= other  # not in wrapt  # type: ignore
+        result = imatmul(self.__wrapped__, other)  # not in wrapt
+        super().__setattr__("__wrapped__", result)
         self.events.in_place("matmul", other)
         return self
 
-- 
2.43.0


From 6621753a1b942d15b0f852c118df08d217526db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 22/34] fix: monitor signals once, whatever the object's
 properties or the logger

---
 src/psygnal/utils.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/psygnal/utils.py b/src/psygnal/utils.py
index e37a290..c9e9545 100644
--- a/src/psygnal/utils.py
+++ b/src/psygnal/utils.py
@@ -4,6 +4,7 @@ from __future__ import annotations
 
 from contextlib import contextmanager, suppress
 from functools import partial
+from inspect import signature
 from pathlib import Path
 from typing import TYPE_CHECKING, Any, Callable
 from warnings import warn
@@ -21,6 +22,18 @@ def _default_event_monitor(info: EmissionInfo) -> None:
     print(f"{info.signal.name}.emit{info.args!r}")
 
 
+def _n_required_args(func: Callable) -> int:
+    """Return how many positional arguments `func` needs to be called with."""
+    try:
+        params = signature(func).parameters.values()
+    except (TypeError, ValueError):
+        return 0
+    return sum(
+        p.default is p.empty and p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)
+        for p in params
+    )
+
+
 @contextmanager
 def monitor_events(
     obj: Any | None = None,
@@ -43,8 +56,7 @@ def monitor_events(
         Whether private signals (starting with an underscore) should also be logged,
         by default False
     """
-    code = getattr(logger, "__code__", None)
-    _old_api = bool(code and code.co_argcount > 1)
+    _old_api = _n_required_args(logger) > 1
 
     if obj is None:
         # install the hook globally
@@ -109,15 +121,19 @@ def iter_signal_instances(
         return
 
     # Signal attached to Class
+    seen: list[SignalInstance] = []  # which may be found under several names
     for n in dir(obj):
         if not include_private_attrs and n.startswith("_"):
             continue
-        with suppress(AttributeError, FutureWarning):
+        with suppress(Exception):  # whatever reading a property may raise
             attr = getattr(obj, n)
-            if isinstance(attr, SignalInstance):
-                yield attr
             if isinstance(attr, SignalGroup):
-                yield attr._psygnal_relay
+                attr = attr._psygnal_relay
+            if isinstance(attr, SignalInstance) and not any(
+                attr is sig for sig in seen
+            ):
+                seen.append(attr)
+                yield attr
 
 
 _COMPILED_EXTS = (".so", ".pyd")
-- 
2.43.0


From 772c395c480eca4d5b71eeb9f3b344f2790e0d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:57 +0000
Subject: [PATCH 23/34] fix: keep to the equality operators a class defines,
 also if one fails

---
 src/psygnal/_group_descriptor.py | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index fa6cb8b..3a92bdb 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -49,17 +49,17 @@ _NULL = object()
 
 def _get_eq_operator_map(cls: type) -> dict[str, EqOperator]:
     """Return the map of field_name -> equality operator for the class."""
-    # if the class has an __eq_operators__ attribute, we use it
-    # otherwise use/create the entry for `cls` in the global _EQ_OPERATORS map
-    if hasattr(cls, _EQ_OPERATOR_NAME):
-        return cast(dict, getattr(cls, _EQ_OPERATOR_NAME))
-    else:
-        return _EQ_OPERATORS.setdefault(cls, {})
+    # if the class itself has an __eq_operators__ attribute, we use it
+    # otherwise use/create the entry for `cls` in the global _EQ_OPERATORS map,
+    # starting with the operators it inherits.
+    if _EQ_OPERATOR_NAME in cls.__dict__:
+        return cast(dict, cls.__dict__[_EQ_OPERATOR_NAME])
+    if cls not in _EQ_OPERATORS:
+        _EQ_OPERATORS.setdefault(cls, dict(getattr(cls, _EQ_OPERATOR_NAME, {})))
+    return _EQ_OPERATORS[cls]
 
 
-def _check_field_equality(
-    cls: type, name: str, before: Any, after: Any, _fail: bool = False
-) -> bool:
+def _check_field_equality(cls: type, name: str, before: Any, after: Any) -> bool:
     """Test if two values are equal for a given field.
 
     This function will look for a field-specific operator in the the `__eq_operators__`
@@ -76,9 +76,6 @@ def _check_field_equality(
         The value of the field before the change.
     after : Any
         The value of the field after the change.
-    _fail : bool, optional
-        If True, raise a ValueError if the field is not found in the class.
-        by default False
 
     Returns
     -------
@@ -97,9 +94,6 @@ def _check_field_equality(
         # may fail depending on the __eq__ method for the type
         return bool(are_equal(after, before))
     except Exception:
-        if _fail:
-            raise  # pragma: no cover
-
         # if we fail, we try to pick a new equality operator
         # if it's a numpy array, we use np.array_equal
         # finally, fallback to operator.is_
@@ -110,13 +104,13 @@ def _check_field_equality(
             and are_equal is not np.array_equal
         ):
             eq_map[name] = np.array_equal
-            return _check_field_equality(cls, name, before, after, _fail=False)
+            return _check_field_equality(cls, name, before, after)
         else:  # pragma: no cover
             # at some point, dask array started hitting in the above condition
             # so we add explicit casing in _pick_equality_operator
             # but we keep this fallback just in case
-            eq_map[name] = operator.is_
-            return _check_field_equality(cls, name, before, after, _fail=True)
+            # (for these values only: others may well be comparable)
+            return after is before
 
 
 def _pick_equality_operator(type_: type | None) -> EqOperator:
@@ -201,7 +195,7 @@ def _build_dataclass_signal_group(
                 raise TypeError("EqOperator must be callable")
             eq_map[name] = _equality_operators[name]
         else:
-            eq_map[name] = _pick_equality_operator(type_)
+            eq_map.setdefault(name, _pick_equality_operator(type_))
 
         # Resolve the signal name for the field
         sig_name: str | None
-- 
2.43.0


From 82a453e34dc9135381a2af8087bda613ce71dce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:57 +0000
Subject: [PATCH 24/34] fix: announce each assignment once, for inherited
 classes and failed ones too

---
 src/psygnal/_group_descriptor.py | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index 3a92bdb..a6f46ba 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -6,6 +6,7 @@ import operator
 import sys
 import warnings
 import weakref
+from threading import get_ident
 from typing import (
     TYPE_CHECKING,
     Any,
@@ -297,17 +298,30 @@ def get_signal_from_field(group: SignalGroup, name: str) -> SignalInstance | Non
     return group[sig_name]
 
 
+# the assignments that are being made: (thread, signal, field)
+_ASSIGNING: set[tuple[int, int, str]] = set()
+
+
 class _changes_emitted:
     def __init__(self, obj: object, field: str, signal: SignalInstance) -> None:
         self.obj = obj
         self.field = field
         self.signal = signal
+        self._key = (get_ident(), id(signal), field)
 
     def __enter__(self) -> None:
         self._prev = getattr(self.obj, self.field, _NULL)
+        # a patched __setattr__ may call another one (e.g. that of a base class)
+        self._nested = self._key in _ASSIGNING
+        _ASSIGNING.add(self._key)
 
     def __exit__(self, *args: Any) -> None:
+        if self._nested:
+            return
+        _ASSIGNING.discard(self._key)
         new: Any = getattr(self.obj, self.field, _NULL)
+        if args[0] is not None and new is self._prev:
+            return  # the assignment failed, whatever the operator finds
         if not _check_field_equality(type(self.obj), self.field, self._prev, new):
             self.signal.emit(new, self._prev)
 
@@ -370,7 +384,8 @@ def evented_setattr(
 
     def _inner(super_setattr: SetAttr) -> SetAttr:
         # don't patch twice
-        if getattr(super_setattr, PATCHED_BY_PSYGNAL, False):
+        patched: frozenset = getattr(super_setattr, PATCHED_BY_PSYGNAL, frozenset())
+        if signal_group_name in patched:
             return super_setattr
 
         # pick a slightly faster signal lookup if we don't need aliases
@@ -395,7 +410,8 @@ def evented_setattr(
             with _changes_emitted(self, name, signal):
                 super_setattr(self, name, value)
 
-        setattr(_setattr_and_emit_, PATCHED_BY_PSYGNAL, True)
+        # the names of the groups that get events (there may be one per base class)
+        setattr(_setattr_and_emit_, PATCHED_BY_PSYGNAL, patched | {signal_group_name})
         return _setattr_and_emit_
 
     return _inner(super_setattr) if super_setattr else _inner
@@ -552,14 +568,14 @@ class SignalGroupDescriptor:
             # This is the flag that identifies this object as evented
             setattr(owner, PSYGNAL_GROUP_NAME, name)
 
-    def _do_patch_setattr(self, owner: type, with_aliases: bool = True) -> None:
+    def _do_patch_setattr(self, owner: type) -> None:
         """Patch the owner class's __setattr__ method to emit events."""
         if not self._patch_setattr:
             return
-        if getattr(owner.__setattr__, PATCHED_BY_PSYGNAL, False):
+        name = self._name
+        if name in getattr(owner.__setattr__, PATCHED_BY_PSYGNAL, ()):
             return
 
-        name = self._name
         if not (name and hasattr(owner, name)):  # pragma: no cover
             # this should never happen... but if it does, we'll get errors
             # every time we set an attribute on the class.  So raise now.
@@ -570,7 +586,6 @@ class SignalGroupDescriptor:
             owner.__setattr__ = evented_setattr(  # type: ignore
                 name,
                 owner.__setattr__,  # type: ignore
-                with_aliases=with_aliases,
             )
         except Exception as e:  # pragma: no cover
             # not sure what might cause this ... but it will have consequences
@@ -645,5 +660,6 @@ class SignalGroupDescriptor:
                 stacklevel=2,
             )
 
-        self._do_patch_setattr(owner, with_aliases=bool(Group._psygnal_aliases))
+        # (with aliases, which subclasses may have even if `owner` doesn't)
+        self._do_patch_setattr(owner)
         return Group
-- 
2.43.0


From ef48247179333fc22c8e6c94ab42a490536987b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:07 +0000
Subject: [PATCH 25/34] fix: give subclasses of evented models signals for
 inherited property setters

---
 src/psygnal/_evented_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 31f90f9..a201182 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -279,8 +279,9 @@ class EventedMetaclass(pydantic_main.ModelMetaclass):
                     attr = attr.wrapped
                 if isinstance(attr, property) and attr.fset is not None:
                     cls.__property_setters__[key] = attr
-                    recursion = emission_map.get(key, default_strategy)
-                    signals[key] = Signal(object, reemission=recursion)
+            for key in cls.__property_setters__:
+                recursion = emission_map.get(key, default_strategy)
+                signals[key] = Signal(object, reemission=recursion)
         else:
             for b in cls.__bases__:
                 with suppress(AttributeError):
-- 
2.43.0


From ef77f4c3bed7394176e8f4768eec9b0e2a9c308e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:07 +0000
Subject: [PATCH 26/34] fix: reset models to the defaults of factories and of
 nested models

---
 src/psygnal/_evented_model.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index a201182..f4b3450 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -112,7 +112,12 @@ if not PYDANTIC_V1:
         """Get possibly nested default values for a Model object."""
         dflt = {}
         for k, v in obj.model_fields.items():
-            d = v.get_default()
+            if v.is_required():
+                continue
+            kwargs: dict[str, Any] = {"call_default_factory": True}
+            if getattr(v, "default_factory_takes_validated_data", False):
+                kwargs["validated_data"] = dict(dflt)
+            d = v.get_default(**kwargs)
             if (
                 d is None
                 and isinstance(v.annotation, type)
@@ -147,6 +152,8 @@ else:
         """Get possibly nested default values for a Model object."""
         dflt = {}
         for k, v in obj.__fields__.items():
+            if v.required:
+                continue
             d = v.get_default()
             if d is None and isinstance(v.type_, pydantic_main.ModelMetaclass):
                 d = _get_defaults(v.type_)  # pragma: no cover
@@ -546,12 +553,19 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
                     setattr(self, key, value)
 
     def reset(self) -> None:
-        """Reset the state of the model to default values."""
+        """Reset the state of the model to default values.
+
+        Fields without a default are left as they are.
+        """
+        self._reset_to(self._defaults)
+
+    def _reset_to(self, values: Mapping[str, Any]) -> None:
         model_config = _get_config(self)
         model_fields = _get_fields(self)
-        for name, value in self._defaults.items():
-            if isinstance(value, EventedModel):
-                cast("EventedModel", getattr(self, name)).reset()
+        for name, value in values.items():
+            current = getattr(self, name)
+            if isinstance(value, EventedModel) and type(current) is type(value):
+                current._reset_to({k: getattr(value, k) for k in _get_fields(value)})
             elif not model_config.get("frozen") and not model_fields[name].frozen:
                 setattr(self, name, value)
 
-- 
2.43.0


From 110e6753748947274132cf80b76b25294bfbd66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:07 +0000
Subject: [PATCH 27/34] fix: announce the stored value of a model field, and
 forget failed changes

---
 src/psygnal/_evented_model.py | 44 ++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index f4b3450..3173077 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -579,27 +579,25 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
         if self._delay_check_semaphore > 0 or len(self._changes_queue) == 0:
             # do not run whole machinery if there is no need
             return
+        # forget the changes before looking at the values, which may fail
+        changes, self._changes_queue = self._changes_queue, {}
+        primary, self._primary_changes = self._primary_changes, set()
         to_emit = []
-        for name in self._primary_changes:
+        for name in primary:
             # primary changes should contains only fields
             # that are changed directly by assignment
-            old_value = self._changes_queue[name]
+            old_value = changes.pop(name)
             new_value = getattr(self, name)
             if not _check_field_equality(type(self), name, new_value, old_value):
                 to_emit.append((name, new_value))
-            self._changes_queue.pop(name)
         if not to_emit:
             # If no direct changes was made then we can skip whole machinery
-            self._changes_queue.clear()
-            self._primary_changes.clear()
             return
-        for name, old_value in self._changes_queue.items():
+        for name, old_value in changes.items():
             # check if any of dependent properties changed
             new_value = getattr(self, name)
             if not _check_field_equality(type(self), name, new_value, old_value):
                 to_emit.append((name, new_value))
-        self._changes_queue.clear()
-        self._primary_changes.clear()
 
         with ComparisonDelayer(self):
             # Again delay comparison to avoid having events caused by callback functions
@@ -646,8 +644,9 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
             return self._super_setattr_(name, value)
         old_value = getattr(self, name, object())
         self._super_setattr_(name, value)
-        if not _check_field_equality(type(self), name, value, old_value):
-            getattr(self._events, name)(value)
+        new_value = getattr(self, name)  # which validators may have changed
+        if not _check_field_equality(type(self), name, new_value, old_value):
+            getattr(self._events, name)(new_value)
 
     def _setattr_with_dependents(self, name: str, value: Any) -> None:
         """__setattr__ behavior when the class does properties."""
@@ -673,14 +672,27 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
             and not len(group._psygnal_relay)  # no listeners on the SignalGroup
         ):
             return self._super_setattr_(name, value)
-        self._primary_changes.add(name)
-        if name not in self._changes_queue:
-            self._changes_queue[name] = getattr(self, name, object())
-
+        old_values = {name: getattr(self, name, object())}
         for dep in deps_with_callbacks:
             if dep not in self._changes_queue:
-                self._changes_queue[dep] = getattr(self, dep, object())
-        self._super_setattr_(name, value)
+                old_values[dep] = object()
+                # (a property that fails may be repaired by this assignment)
+                with suppress(Exception):
+                    old_values[dep] = getattr(self, dep)
+        try:
+            self._super_setattr_(name, value)
+        except Exception:
+            if getattr(self, name, None) is old_values[name]:
+                # there's nothing to announce, whatever the equality operator finds
+                raise
+            self._note_change(name, old_values)
+            raise
+        self._note_change(name, old_values)
+
+    def _note_change(self, name: str, old_values: dict[str, Any]) -> None:
+        self._primary_changes.add(name)
+        for key, old_value in old_values.items():
+            self._changes_queue.setdefault(key, old_value)
 
     if PYDANTIC_V1:
 
-- 
2.43.0


From ac402639720b6116a0f36f2bd354f57f4fd0be12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:34 +0000
Subject: [PATCH 28/34] fix: end endless changes of a model without emitting at
 every level

---
 src/psygnal/_evented_model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 3173077..8794361 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -198,8 +198,14 @@ class ComparisonDelayer:
     def __enter__(self) -> None:
         self._target._delay_check_semaphore += 1
 
-    def __exit__(self, *_: Any, **__: Any) -> None:
+    def __exit__(self, exc_type: "type[BaseException] | None" = None, *_: Any) -> None:
         self._target._delay_check_semaphore -= 1
+        if exc_type is not None and issubclass(exc_type, RecursionError):
+            # Callbacks are changing the model in an endless loop.  Emitting again at
+            # every level that is being left would make it (all but) endless indeed.
+            self._target._changes_queue.clear()
+            self._target._primary_changes.clear()
+            return
         self._target._check_if_values_changed_and_emit_if_needed()
 
 
-- 
2.43.0


From 8a08d8d55ffbfb290b8c0054422723817d51e2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:38 +0000
Subject: [PATCH 29/34] fix: restore all about pickled signals and callbacks,
 but not what was being emitted

---
 src/psygnal/_signal.py        |  7 +++++--
 src/psygnal/_weak_callback.py | 15 ++++++++++++++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 40688cc..691c5c8 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1512,17 +1512,17 @@ class SignalInstance:
         attrs = (
             "_signature",
             "_name",
+            "_description",
             "_is_blocked",
             "_is_paused",
             "_args_queue",
             "_check_nargs_on_connect",
             "_check_types_on_connect",
-            "_emit_queue",
             "_priority_in_use",
             "_reemission",
-            "_recursion_depth",
         )
         dd = {slot: getattr(self, slot) for slot in attrs}
+        dd["_args_queue"] = list(self._args_queue)
         dd["_instance"] = self._instance()
         dd["_slots"] = [x for x in self._slots if isinstance(x, StrongFunction)]
         if len(self._slots) > len(dd["_slots"]):
@@ -1542,6 +1542,9 @@ class SignalInstance:
                 self._instance = self._instance_ref(v)
             else:
                 setattr(self, k, v)
+        # whatever the original was emitting when its state was taken
+        self._emit_queue = deque()
+        self._recursion_depth = 0
         self._lock = threading.RLock()
         if self._reemission == ReemissionMode.QUEUED:  # pragma: no cover
             self._run_emit_loop_inner = self._run_emit_loop_queued
diff --git a/src/psygnal/_weak_callback.py b/src/psygnal/_weak_callback.py
index 21c7294..a46b1d9 100644
--- a/src/psygnal/_weak_callback.py
+++ b/src/psygnal/_weak_callback.py
@@ -373,12 +373,25 @@ class StrongFunction(WeakCallback):
         return self._f
 
     def __getstate__(self) -> dict[str, Any]:
-        atr = ("_key", "_max_args", "_alive", "_on_ref_error", "_f", "_args", "_kwargs")
+        atr = (
+            "_obj_module",
+            "_obj_qualname",
+            "_object_repr",
+            "_max_args",
+            "_alive",
+            "_on_ref_error",
+            "priority",
+            "_f",
+            "_args",
+            "_kwargs",
+        )
         return {k: getattr(self, k) for k in atr}
 
     def __setstate__(self, state: dict) -> None:
         for k, v in state.items():
             setattr(self, k, v)
+        # (the function may have another id in this process)
+        self._key = WeakCallback.object_key(self._f)
 
 
 class WeakFunction(WeakCallback):
-- 
2.43.0


From 5ffc65b2b3220349a6d6c0f154a06f0b2ee9d1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:38 +0000
Subject: [PATCH 30/34] fix: keep pickled and copied lists listening to their
 items

---
 src/psygnal/containers/_evented_list.py            | 10 ++++++++++
 src/psygnal/containers/_selectable_evented_list.py |  8 ++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index 09a5813..4c17a27 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -128,6 +128,16 @@ class EventedList(MutableSequence[_T]):
         self.events = ListEvents()
         self.extend(data)
 
+    def __setstate__(self, state: Any) -> None:
+        """Restore the state of a list that was pickled or copied."""
+        state, slots = state if isinstance(state, tuple) else (state, None)
+        self.__dict__.update(state or {})
+        for name, value in (slots or {}).items():
+            setattr(self, name, value)
+        if self._child_events:
+            for item in self._data:
+                self._connect_child_emitters(item)
+
     # WAIT!! ... Read the module docstring before reimplement these methods
     # def append(self, item): ...
     # def clear(self): ...
diff --git a/src/psygnal/containers/_selectable_evented_list.py b/src/psygnal/containers/_selectable_evented_list.py
index 0e2271e..f0c8523 100644
--- a/src/psygnal/containers/_selectable_evented_list.py
+++ b/src/psygnal/containers/_selectable_evented_list.py
@@ -47,6 +47,14 @@ class SelectableEventedList(Selectable[_T], EventedList[_T]):
         self._activate_on_insert: bool = True
         self._swapping: bool = False
         super().__init__(data=data, hashable=hashable, child_events=child_events)
+        self._connect_selection()
+
+    def __setstate__(self, state: Any) -> None:
+        """Restore the state of a list that was pickled or copied."""
+        super().__setstate__(state)
+        self._connect_selection()
+
+    def _connect_selection(self) -> None:
         self.events.removed.connect(self._on_item_removed)
         self.events.changed.connect(self._on_item_changed)
 
-- 
2.43.0


From 851b718e090f736f3b2912ebda58a2beb1326eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:38 +0000
Subject: [PATCH 31/34] fix: restore relays of pickled groups, and give copied
 models events of their own

---
 src/psygnal/_evented_model.py | 25 ++++++++++++++++++++++++-
 src/psygnal/_group.py         | 20 +++++++++++++++++++-
 2 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 8794361..c8ab374 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -29,7 +29,10 @@ if TYPE_CHECKING:
     from pydantic._internal import _model_construction as pydantic_main
     from pydantic._internal import _utils as utils
     from pydantic._internal._decorators import PydanticDescriptorProxy
-    from typing_extensions import TypeGuard  # py310
+    from typing_extensions import (
+        Self,  # py311
+        TypeGuard,  # py310
+    )
     from typing_extensions import dataclass_transform as dataclass_transform  # py311
 
     from ._signal import SignalInstance
@@ -499,6 +502,26 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
         # will add _events: SignalGroup to the __init__ signature, for *all* user models
         _model_self_._events = Group(_model_self_)  # type: ignore [misc]
 
+    if not PYDANTIC_V1:
+
+        def __copy__(self) -> "Self":
+            new = super().__copy__()
+            new._renew_events()
+            return new
+
+        def __deepcopy__(self, memo: "dict[int, Any] | None" = None) -> "Self":
+            new = super().__deepcopy__(memo)
+            new._renew_events()
+            return new
+
+    def _renew_events(self) -> None:
+        """Give a copy of a model its own events, and no part in ongoing changes."""
+        if hasattr(self, "_events"):
+            self._events = type(self._events)(self)  # type: ignore [misc]
+            self._changes_queue = {}
+            self._primary_changes = set()
+            self._delay_check_semaphore = 0
+
     # expose the private SignalGroup publicly
     @property
     def events(self) -> SignalGroup:
diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index 600121a..b02428c 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -74,6 +74,22 @@ class SignalRelay(SignalInstance):
         self._relay_lock = threading.Lock()
         self._relay_outdated = False
 
+    def __getstate__(self) -> dict:
+        """Return dict of current state, for pickle."""
+        dd = super().__getstate__()
+        dd["_signals"] = dict(self._signals)
+        dd["_sig_was_blocked"] = dict(self._sig_was_blocked)
+        return dd
+
+    def __setstate__(self, state: dict) -> None:
+        """Restore state from pickle."""
+        super().__setstate__({**state, "_signals": MappingProxyType(state["_signals"])})
+        self._relay_lock = threading.Lock()
+        self._relay_outdated = False
+        # (the signals may be incomplete yet, if one of them was pickled by itself)
+        if self._slots and all(hasattr(s, "_slots") for s in self._signals.values()):
+            self._update_relay(blocking=True)
+
     def _append_slot(self, slot: WeakCallback) -> None:
         super()._append_slot(slot)
         if len(self._slots) == 1:
@@ -479,7 +495,9 @@ class SignalGroup:
         # This really isn't a deep copy. Should we also copy connections?
         # a working deepcopy is important for pydantic support, but in most cases
         # it will be a group without any signals connected
-        return type(self)(instance=self._psygnal_relay.instance)
+        instance = self._psygnal_relay.instance
+        # the copy of the instance, if that's what is being copied
+        return type(self)(instance=memo.get(id(instance), instance))
 
     # The rest are passthrough methods to the SignalRelay.
     # The full signatures are here to make mypy and IDEs happy.
-- 
2.43.0


From dc4f7641778bc6a416f0b518107622e4cc145738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:33 +0000
Subject: [PATCH 32/34] fix: don't share the aliases of one class with all that
 use its signal group class

---
 src/psygnal/_group.py            |  5 ++++-
 src/psygnal/_group_descriptor.py | 14 +++++++-------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index b02428c..5ea26b1 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -497,7 +497,10 @@ class SignalGroup:
         # it will be a group without any signals connected
         instance = self._psygnal_relay.instance
         # the copy of the instance, if that's what is being copied
-        return type(self)(instance=memo.get(id(instance), instance))
+        group = type(self)(instance=memo.get(id(instance), instance))
+        if "_psygnal_aliases" in self.__dict__:
+            group.__dict__["_psygnal_aliases"] = self._psygnal_aliases
+        return group
 
     # The rest are passthrough methods to the SignalRelay.
     # The full signatures are here to make mypy and IDEs happy.
diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index a6f46ba..ce8fa03 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -1,7 +1,6 @@
 from __future__ import annotations
 
 import contextlib
-import copy
 import operator
 import sys
 import warnings
@@ -616,6 +615,12 @@ class SignalGroupDescriptor:
         if obj_id not in self._instance_map:
             # cache it, unless another thread was faster
             new_group = signal_group(instance)
+            if not self._collect_fields and isinstance(self._signal_aliases, dict):
+                # Add aliases (not on the class, which others may be using, too)
+                new_group.__dict__["_psygnal_aliases"] = {
+                    **signal_group._psygnal_aliases,
+                    **self._signal_aliases,
+                }
             if self._instance_map.setdefault(obj_id, new_group) is new_group:
                 # also *try* to set it on the instance as well, since it will skip all
                 # the __get__ logic in the future, but if it fails, no big deal.
@@ -638,12 +643,7 @@ class SignalGroupDescriptor:
     def _create_group(self, owner: type) -> type[SignalGroup]:
         if not self._collect_fields:
             # Do not collect fields from owner class
-            Group = copy.deepcopy(self._signal_group_class)
-
-            # Add aliases
-            if isinstance(self._signal_aliases, dict):
-                Group._psygnal_aliases.update(self._signal_aliases)
-
+            Group = self._signal_group_class
         else:
             # Collect fields and create SignalGroup subclass
             Group = _build_dataclass_signal_group(
-- 
2.43.0


From 4c41398c4bafd2c300218e7a14afd1699714cf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:38 +0000
Subject: [PATCH 33/34] fix: give evented classes events that take the place of
 deleted ones in memory

---
 src/psygnal/_group_descriptor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index ce8fa03..479294b 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -638,6 +638,8 @@ class SignalGroupDescriptor:
         type_id = id(owner)
         if type_id not in self._signal_groups:
             self._signal_groups.setdefault(type_id, self._create_group(owner))
+            # another class may come to have its id when the owner is deleted
+            weakref.finalize(owner, self._signal_groups.pop, type_id, None)
         return self._signal_groups[type_id]
 
     def _create_group(self, owner: type) -> type[SignalGroup]:
-- 
2.43.0


From 7159151a994e481ff2bee8fa8bb0f5f2e025f833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:51 +0000
Subject: [PATCH 34/34] fix: keep signals apart that are named like other
 attributes of the object

---
 src/psygnal/_signal.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 691c5c8..97133d4 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -306,6 +306,7 @@ class Signal:
         reemission: ReemissionVal = DEFAULT_REEMISSION,
     ) -> None:
         self._name = name
+        self._attr_name: str | None = None
         self.description = description
         self._check_nargs_on_connect = check_nargs_on_connect
         self._check_types_on_connect = check_types_on_connect
@@ -333,6 +334,8 @@ class Signal:
         """Set name of signal when declared as a class attribute on `owner`."""
         if self._name is None:
             self._name = name
+        if self._attr_name is None:
+            self._attr_name = name
 
     @overload
     def __get__(self, instance: None, owner: type[Any] | None = None) -> Signal: ...
@@ -372,11 +375,14 @@ class Signal:
         signal_instance = self._create_signal_instance(instance)
 
         # cache this signal instance so that future access returns the same instance.
-        # first, try to assign it to instance.name ... this essentially breaks the
+        # first, try to assign it to the attribute ... this essentially breaks the
         # descriptor, (i.e. __get__ will never again be called for this instance)
         # (note, this is the same mechanism used in the `cached_property` decorator)
         # If another thread is doing the same, the first one wins.
-        name = cast("str", self._name)
+        # (in a subclass, that attribute may be something else)
+        name = self._attr_name
+        if name is None or getattr(type(instance), name, None) is not self:
+            return self._cache_signal_instance(instance, signal_instance)
         if type(instance).__setattr__ is object.__setattr__:
             with suppress(AttributeError):
                 return cast(
-- 
2.43.0

