From f26da1f842284f2efc3dc0ffd098e908f9c442a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:35 +0000
Subject: [PATCH 01/22] fix: step over and step out treat import_* as part of
 the enclosing include

---
 .../ansibug/dap/plugins/strategy/debug.py             | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 9daf0ab..08cd2c7 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -129,12 +129,7 @@ class AnsibleThread:
             # If a thread has been set to step out we want to make comparisons
             # later on easier by setting the stopped task to the parent include
             # task.
-            task = self._stopped_task
-            while task := task._parent:
-                if isinstance(task, Task) and task.action in C._ACTION_ALL_INCLUDES:
-                    break
-
-            self._stopped_task = task
+            self._stopped_task = self._get_parent_task(self._stopped_task)
 
         elif (
             state == ThreadState.STEP_IN
@@ -273,8 +268,10 @@ class AnsibleThread:
         self,
         task: Task,
     ) -> Task | None:
+        # import_* tasks are also parents but they are expanded in place, only
+        # an include_* task has its own stack frame.
         while task := task._parent:
-            if isinstance(task, Task):
+            if isinstance(task, Task) and task.action in C._ACTION_ALL_INCLUDES:
                 return task
 
         return None
-- 
2.43.0


From 49904f90db3f354b166e781b44f3c74ef22c465b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:35 +0000
Subject: [PATCH 02/22] fix: step out with no enclosing include no longer
 ignores all later breakpoints

---
 .../ansible_collections/ansibug/dap/plugins/strategy/debug.py  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 08cd2c7..f96955d 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -130,6 +130,9 @@ class AnsibleThread:
             # later on easier by setting the stopped task to the parent include
             # task.
             self._stopped_task = self._get_parent_task(self._stopped_task)
+            if not self._stopped_task:
+                # There is no include to step out of, run to the next breakpoint.
+                state = ThreadState.CONTINUE
 
         elif (
             state == ThreadState.STEP_IN
-- 
2.43.0


From 92345da438f28ca0462e51e89cfa2263d956ea1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:35 +0000
Subject: [PATCH 03/22] fix: stepping after an exception stop is relative to
 the task that failed

---
 .../ansible_collections/ansibug/dap/plugins/strategy/debug.py    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index f96955d..9e2f8dc 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -222,6 +222,7 @@ class AnsibleThread:
                 details = get_on_skipped_details(result._result)
 
         if details:
+            self._stopped_task = result._task
             self.state = ThreadState.WAIT
             return ansibug.dap.StoppedEvent(
                 reason=ansibug.dap.StoppedReason.EXCEPTION,
-- 
2.43.0


From 23d45ca2d0a0b4d3165f1caacb67cd97700ca61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:35 +0000
Subject: [PATCH 04/22] fix: disconnect with terminateDebuggee is no longer
 undone by shutdown

---
 src/ansibug/_debuggee.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 95bde9a..acd2c80 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -621,6 +621,9 @@ class AnsibleDebugger(metaclass=Singleton):
         self,
         msg: dap.DisconnectRequest,
     ) -> None:
+        if msg.terminate_debuggee:
+            # Stops shutdown from resuming the threads that should now end.
+            self._terminated = True
         self._disconnect(msg)
         self._send_queue.put(None)
         # The response is sent by the debug adapter.
-- 
2.43.0


From 87eca689c54cd4eb0fd4a13f59b718fe87991fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:54 +0000
Subject: [PATCH 05/22] fix: a false breakpoint condition does not hide other
 breakpoints of the task

---
 src/ansibug/_debuggee.py                           |  3 +++
 .../ansibug/dap/plugins/strategy/debug.py          | 14 +++++++-------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index acd2c80..14bd7c0 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -349,6 +349,7 @@ class AnsibleDebugger(metaclass=Singleton):
         self,
         path: str,
         line: int,
+        predicate: t.Callable[[AnsibleLineBreakpoint], bool] | None = None,
     ) -> AnsibleLineBreakpoint | None:
         """Gets the breakpoint for the path/line specified.
 
@@ -359,6 +360,7 @@ class AnsibleDebugger(metaclass=Singleton):
         Args:
             path: The path of the file to check.
             line: The line in the file to check.
+            predicate: Optional check the breakpoint must also satisfy.
 
         Returns:
             Optional[AnsibleLineBreakpoint]: The breakpoint associated with the
@@ -369,6 +371,7 @@ class AnsibleDebugger(metaclass=Singleton):
                 b.actual_path == path
                 and (b.breakpoint.line is None or b.breakpoint.line <= line)
                 and (b.breakpoint.end_line is None or b.breakpoint.end_line >= line)
+                and (predicate is None or predicate(b))
             ):
                 return b
 
diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 9e2f8dc..76d5bff 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -585,13 +585,13 @@ class AnsibleDebugState(DebugState):
         with self._waiting_condition:
             tid = thread.id
 
-            line_breakpoint = self._debugger.get_breakpoint(path, line)
-            if (
-                line_breakpoint
-                and line_breakpoint.source_breakpoint.condition
-                and not eval_condition(line_breakpoint.source_breakpoint.condition)
-            ):
-                line_breakpoint = None
+            # More than one breakpoint can cover the task, a false condition on
+            # one of them must not hide the others.
+            line_breakpoint = self._debugger.get_breakpoint(
+                path,
+                line,
+                lambda b: not b.source_breakpoint.condition or eval_condition(b.source_breakpoint.condition),
+            )
 
             stopped_event = thread.should_break(task, line_breakpoint)
 
-- 
2.43.0


From 983c4e7bec8584d9291b19075541a19299770b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:38 +0000
Subject: [PATCH 06/22] fix: stack frames follow the includes a task is part of

---
 .../ansibug/dap/plugins/strategy/debug.py     | 46 +++++++++----------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 76d5bff..77d36bb 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -515,29 +515,29 @@ class AnsibleDebugState(DebugState):
         if not thread:
             thread = self._add_thread(host)
 
-        if thread.stack_frames:
-            # The parent is the implicit block and we want the parent of that.
-            parent_task = task._parent._parent
-            last_frame_id = thread.stack_frames[0]
-            last_frame = self.stackframes[last_frame_id]
-            if not parent_task or (last_frame.task and last_frame.task._uuid != parent_task._uuid):
-                thread.stack_frames.pop(0)
-                self.stackframes.pop(last_frame_id)
-                for variable_id in last_frame.variables:
-                    del self.variables[variable_id]
-
-            # If this is the first task in a role included by include_role we
-            # need to scan the tasks and handlers to validate the breakpoints
-            if (
-                parent_task
-                and last_frame.task
-                and last_frame.task.action in C._ACTION_INCLUDE_ROLE
-                and hasattr(task, "_role")
-            ):
-                task_handlers = task._role.get_task_blocks()
-                role_handlers = task._role.get_handler_blocks(task.play)
-                register_block_breakpoints(self._debugger, task_handlers)
-                register_block_breakpoints(self._debugger, role_handlers)
+        # The remaining frames are those of include tasks, remove the ones this
+        # task is not a part of.
+        while thread.stack_frames:
+            last_frame = self.stackframes[thread.stack_frames[0]]
+            parent = task._parent
+            while parent and not (isinstance(parent, Task) and parent._uuid == last_frame.task._uuid):
+                parent = parent._parent
+
+            if parent:
+                # If this is the first task in a role included by include_role we
+                # need to scan the tasks and handlers to validate the breakpoints
+                if last_frame.task.action in C._ACTION_INCLUDE_ROLE and task._role:
+                    task_handlers = task._role.get_task_blocks()
+                    role_handlers = task._role.get_handler_blocks(task.play)
+                    register_block_breakpoints(self._debugger, task_handlers)
+                    register_block_breakpoints(self._debugger, role_handlers)
+
+                break
+
+            thread.stack_frames.pop(0)
+            self.stackframes.pop(last_frame.id)
+            for variable_id in last_frame.variables:
+                del self.variables[variable_id]
 
         sfid = self._debugger.next_stackframe_id()
 
-- 
2.43.0


From f299109a7e3ca20e205d1d76a64185d677421f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:47 +0000
Subject: [PATCH 07/22] fix: step out does not stop in an include nested in the
 one stepped out of

---
 .../ansibug/dap/plugins/strategy/debug.py         | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 77d36bb..0c99d42 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -262,11 +262,18 @@ class AnsibleThread:
         if self.state != ThreadState.STEP_OUT or not self._stopped_task:
             return False
 
-        # If step out, we only want to break if the current task's parent does
-        # not match the stopped task stored at state change (the include). If
-        # the parent matches it means we are still in the same include scope.
+        # If step out, we only want to break if the current task is not a part
+        # of the stopped task stored at state change (the include). If one of
+        # the parents matches it means we are still in the include scope or in
+        # an include nested in it.
         task_parent = self._get_parent_task(task)
-        return getattr(task_parent, "_uuid", None) != self._stopped_task._uuid
+        while task_parent:
+            if task_parent._uuid == self._stopped_task._uuid:
+                return False
+
+            task_parent = self._get_parent_task(task_parent)
+
+        return True
 
     def _get_parent_task(
         self,
-- 
2.43.0


From 21e46d5fabc4591daef7122d6b8e427d4f78cc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:27 +0000
Subject: [PATCH 08/22] fix: exception breakpoints no longer stop a play after
 the client disconnected

A task that failed after the client had disconnected with the on_error
filter set waited for a client that is no longer there.
---
 src/ansibug/_debuggee.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 14bd7c0..c09432f 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -473,6 +473,7 @@ class AnsibleDebugger(metaclass=Singleton):
         # breakpoints and our debug config no longer applies
         self._debug_config = DebugConfiguration()
         self._breakpoints = {}
+        self._breakpoint_exceptions = {}
 
         # Ensure the callback plugin isn't stuck waiting for this
         self._configuration_done.set()
@@ -868,6 +869,7 @@ class AnsibleDebugger(metaclass=Singleton):
     ) -> None:
         self._debug_config = DebugConfiguration()
         self._breakpoints = {}
+        self._breakpoint_exceptions = {}
 
         strategy = self._get_strategy()
         strategy.disconnect(msg)
-- 
2.43.0


From b43a895d77063e851d0d835f5e85dcb9a803299d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:02 +0000
Subject: [PATCH 09/22] fix: disconnect and terminate do not need a running
 play

Disconnecting before the configuration was done blocked the receive thread
and the playbook forever, a terminate request between plays or before the
first task of a host was lost.
---
 src/ansibug/_debuggee.py                            | 13 +++++++++++--
 .../ansibug/dap/plugins/strategy/debug.py           |  5 +++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index c09432f..60b7269 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -301,6 +301,9 @@ class AnsibleDebugger(metaclass=Singleton):
             strategy: The strategy to set.
         """
         with self._strategy_connected:
+            if self._terminated:
+                raise EndStrategy()
+
             self._strategy = strategy
             self._strategy_connected.notify_all()
 
@@ -871,8 +874,14 @@ class AnsibleDebugger(metaclass=Singleton):
         self._breakpoints = {}
         self._breakpoint_exceptions = {}
 
-        strategy = self._get_strategy()
-        strategy.disconnect(msg)
+        # The client may disconnect before it has finished the configuration.
+        self._configuration_done.set()
+
+        # There may be no play running, do not wait for one. If it should be
+        # terminated the next one will see this in with_strategy.
+        with self._strategy_connected:
+            if self._strategy:
+                self._strategy.disconnect(msg)
 
     def _send_task(
         self,
diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 0c99d42..67bf170 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -976,6 +976,11 @@ class AnsibleDebugState(DebugState):
             id=tid,
             host=host,
         )
+        if self.threads[1].state == ThreadState.END:
+            # The client requested to terminate the debuggee before the first
+            # task of this host.
+            thread.state = ThreadState.END
+
         self._debugger.queue_msg(
             ansibug.dap.ThreadEvent(
                 reason="started",
-- 
2.43.0


From 25f0aa2e254a696d89fd4b6bc55f2e4a29c95579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:10 +0000
Subject: [PATCH 10/22] fix: shutdown does not wait for a request that waits
 for another play

The receive thread was blocked in it when the send thread joined it, so the
playbook never ended.
---
 src/ansibug/_debuggee.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 60b7269..d77be2e 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -238,6 +238,7 @@ class AnsibleDebugger(metaclass=Singleton):
         self._strategy_connected = threading.Condition()
         self._strategy: DebugState | None = None
         self._terminated = False
+        self._closing = False
 
         self._thread_counter = 2  # 1 is always the main thread
         self._stackframe_counter = 1
@@ -460,6 +461,12 @@ class AnsibleDebugger(metaclass=Singleton):
         """
         log.debug("Shutting down DebugServer")
 
+        # A request that is waiting for the next play would never finish and
+        # the send thread waits for it when closing the connection.
+        with self._strategy_connected:
+            self._closing = True
+            self._strategy_connected.notify_all()
+
         if not from_send_thread and self._send_thread:
             # If we aren't connected we need to cancel the queue start method
             # before trying to join the thread. If we are connected we want to
@@ -595,8 +602,11 @@ class AnsibleDebugger(metaclass=Singleton):
 
     def _get_strategy(self) -> DebugState:
         with self._strategy_connected:
-            self._strategy_connected.wait_for(lambda: self._strategy is not None)
-            return t.cast(DebugState, self._strategy)
+            self._strategy_connected.wait_for(lambda: self._strategy is not None or self._closing)
+            if not self._strategy:
+                raise Exception("There is no play running")
+
+            return self._strategy
 
     @functools.singledispatchmethod
     def process_message(
-- 
2.43.0


From bb55ac8b8d4866b6401dcd76f7eeb258b9c4cbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:39 +0000
Subject: [PATCH 11/22] fix: setting a variable with a non-string key changes
 that entry

The client only knows the string form of a key, setting it added a new
string key next to the real one.
---
 .../ansibug/dap/plugins/strategy/debug.py      | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 67bf170..b5628c8 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -412,15 +412,27 @@ class AnsibleDictVariable(AnsibleVariable):
         self,
         index: str,
     ) -> None:
-        if index in self._ds:
-            del self._ds[index]  # type: ignore[attr-defined]
+        key = self._get_key(index)
+        if key in self._ds:
+            del self._ds[key]  # type: ignore[attr-defined]
 
     def set(
         self,
         index: str,
         value: t.Any,
     ) -> None:
-        self._ds[index] = value  # type: ignore[index]
+        self._ds[self._get_key(index)] = value  # type: ignore[index]
+
+    def _get_key(
+        self,
+        index: str,
+    ) -> t.Any:
+        # The client only knows the string form of the key, for example the
+        # key 1 is presented as '1'.
+        if index in self._ds:
+            return index
+
+        return next((k for k in self._ds if str(k) == index), index)
 
 
 class AnsibleDictWithRawStoreVariable(AnsibleDictVariable):
-- 
2.43.0


From be488875aebb02a7148731ea50d93f97ad623c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:30 +0000
Subject: [PATCH 12/22] fix: a failing cancel function does not stop the others
 from being cancelled

---
 src/ansibug/_socket_helper.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/_socket_helper.py b/src/ansibug/_socket_helper.py
index facca38..6247138 100644
--- a/src/ansibug/_socket_helper.py
+++ b/src/ansibug/_socket_helper.py
@@ -339,7 +339,12 @@ class SocketCancellationToken:
 
             for cancel_id, func in self._cancel_funcs.items():
                 log.debug("Cancelling function with id %d", cancel_id)
-                func()
+                try:
+                    func()
+                except Exception:
+                    # The socket may not be connected (anymore), this must not
+                    # stop the remaining functions from being called.
+                    log.debug("Cancelling function with id %d failed", cancel_id, exc_info=True)
 
             self._cancel_funcs = {}
 
-- 
2.43.0


From 8beffa1ff121914e556a31da13a6a6e5be5866d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:30 +0000
Subject: [PATCH 13/22] fix: a socket error of a cancelled connect or recv is
 reported as a cancellation

---
 src/ansibug/_socket_helper.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/_socket_helper.py b/src/ansibug/_socket_helper.py
index 6247138..d037e07 100644
--- a/src/ansibug/_socket_helper.py
+++ b/src/ansibug/_socket_helper.py
@@ -295,6 +295,11 @@ class SocketCancellationToken:
                 sock.connect(addr)
             except BlockingIOError:
                 pass
+            except OSError:
+                if self._cancelled:
+                    raise CancelledError()
+                else:
+                    raise
 
             _, wd, _ = select.select([], [sock], [], timeout or None)
             if not wd:
@@ -313,7 +318,14 @@ class SocketCancellationToken:
         n: int,
     ) -> int:
         with self.with_cancel(lambda: sock.shutdown(socket.SHUT_RD)):
-            res = sock.recv_into(buffer, n)
+            try:
+                res = sock.recv_into(buffer, n)
+            except OSError:
+                if self._cancelled:
+                    raise CancelledError()
+                else:
+                    raise
+
             if self._cancelled:
                 raise CancelledError()
 
-- 
2.43.0


From 8847acea98445f3be5936416d5879cfe41b02e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:12 +0000
Subject: [PATCH 14/22] fix: header values of a DAP message can contain a colon
 and space

---
 src/ansibug/dap/_adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ansibug/dap/_adapter.py b/src/ansibug/dap/_adapter.py
index 6ffcb83..10f2267 100644
--- a/src/ansibug/dap/_adapter.py
+++ b/src/ansibug/dap/_adapter.py
@@ -52,7 +52,7 @@ class DebugAdapterConnection:
             return None
 
         raw_headers = bytes(self._in_buffer[:header_idx])
-        headers = dict(h.split(b": ", 2) for h in raw_headers.split(b"\r\n"))
+        headers = dict(h.split(b": ", 1) for h in raw_headers.split(b"\r\n"))
         if b"Content-Length" not in headers:
             raise ValueError("Expected Content-Length header before message payload but none found")
 
-- 
2.43.0


From 61869e90eb69170b45c844c7bd8b59fe819412ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:32 +0000
Subject: [PATCH 15/22] fix: do not parse a uds address as a URL, keep
 characters like '?' and '#' in its path

---
 src/ansibug/_socket_helper.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/ansibug/_socket_helper.py b/src/ansibug/_socket_helper.py
index d037e07..d99556e 100644
--- a/src/ansibug/_socket_helper.py
+++ b/src/ansibug/_socket_helper.py
@@ -68,6 +68,28 @@ def parse_addr_string(
     Returns:
         Any: The required address for the scheme specified.
     """
+    scheme, colon, uds_value = value.partition(":")
+    if colon and scheme.strip().lower() == "uds":
+        # The value is not parsed as a URL as characters like '?' and '#' are
+        # valid in a path and must be kept as is.
+        netloc = ""
+        path = uds_value
+        if uds_value.startswith("//"):
+            netloc, sep, path = uds_value[2:].partition("/")
+            path = sep + path
+
+        if netloc and path:
+            raise ValueError("Specifying a uds address must only contain the port or netloc, not both")
+
+        elif netloc:
+            return os.path.join(tempfile.gettempdir(), netloc)
+
+        elif path:
+            return path
+
+        else:
+            return str(pathlib.Path(tempfile.gettempdir()) / f"ansibug-dap-{uuid.uuid4()}")
+
     value_split = urllib.parse.urlsplit(value)
 
     if value_split.scheme == "tcp":
@@ -80,19 +102,6 @@ def parse_addr_string(
         else:
             raise ValueError("Specifying a tcp address must include the port")
 
-    elif value_split.scheme == "uds":
-        if value_split.netloc and value_split.path:
-            raise ValueError("Specifying a uds address must only contain the port or netloc, not both")
-
-        elif value_split.netloc:
-            return os.path.join(tempfile.gettempdir(), value_split.netloc)
-
-        elif value_split.path:
-            return value_split.path
-
-        else:
-            return str(pathlib.Path(tempfile.gettempdir()) / f"ansibug-dap-{uuid.uuid4()}")
-
     else:
         raise ValueError(f"An address must be for the tcp or uds scheme")
 
-- 
2.43.0


From d3a628cb2ecd2b18ab09bcea401f73b367c9462d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:39 +0000
Subject: [PATCH 16/22] fix: end the debug adapter when stdin is closed instead
 of reading it forever

---
 src/ansibug/_debug_adapter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index 4ea010a..fbc48ce 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -281,6 +281,9 @@ class DAServer:
         is_connected = True
         while is_connected:
             data = stdin.read(4096)
+            if not data:
+                log.debug("STDIN was closed")
+                break
 
             if log.isEnabledFor(logging.DEBUG):
                 log.debug("STDIN: %s", data.decode())
-- 
2.43.0


From 338037ab07641370ab361e77475d2e522260a910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:39 +0000
Subject: [PATCH 17/22] fix: debug logging of stdin failed when a read ended
 within a multibyte character

---
 src/ansibug/_debug_adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index fbc48ce..3135add 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -286,7 +286,7 @@ class DAServer:
                 break
 
             if log.isEnabledFor(logging.DEBUG):
-                log.debug("STDIN: %s", data.decode())
+                log.debug("STDIN: %s", data.decode(errors="replace"))
             adapter.receive_data(data)
 
             while msg := adapter.next_message():
-- 
2.43.0


From 3a274a9f5a3d23f0d11e047a1a520578de8be3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:12 +0000
Subject: [PATCH 18/22] fix: messages of two threads could reach the client out
 of order or twice

---
 src/ansibug/_debug_adapter.py | 67 ++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 28 deletions(-)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index 3135add..17dc537 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -13,6 +13,7 @@ import pathlib
 import shlex
 import sys
 import tempfile
+import threading
 import traceback
 import types
 import typing as t
@@ -256,6 +257,10 @@ class DAServer:
         self._temp_dir = temp_dir
         self._terminated_sent = False
 
+        # Messages are sent by the thread reading stdin and the thread
+        # receiving messages from the debuggee.
+        self._send_lock = threading.RLock()
+
     def __enter__(self) -> DAServer:
         return self
 
@@ -321,22 +326,25 @@ class DAServer:
             from_debuggee: The stop is being called as the debuggee has
                 disconnected.
         """
-        # Ensure the DisconnectResponse is sent if there is an outstanding
-        # request.
-        for req in list(self._incoming_requests.values()):
-            if isinstance(req, dap.DisconnectRequest):
-                self.send_to_client(dap.DisconnectResponse(request_seq=req.seq))
-
-        if exp:
-            # For every incoming request relay the exception back to the client
-            # for it to display to the end user.
+        # The lock is not held when stopping the debuggee as that waits for the
+        # receiving thread which might need to send messages.
+        with self._send_lock:
+            # Ensure the DisconnectResponse is sent if there is an outstanding
+            # request.
             for req in list(self._incoming_requests.values()):
-                resp = dap.ErrorResponse(
-                    command=req.command,
-                    request_seq=req.seq,
-                    message=f"Critical DAServer exception received\n{traceback.format_exc()}",
-                )
-                self.send_to_client(resp)
+                if isinstance(req, dap.DisconnectRequest):
+                    self.send_to_client(dap.DisconnectResponse(request_seq=req.seq))
+
+            if exp:
+                # For every incoming request relay the exception back to the
+                # client for it to display to the end user.
+                for req in list(self._incoming_requests.values()):
+                    resp = dap.ErrorResponse(
+                        command=req.command,
+                        request_seq=req.seq,
+                        message=f"Critical DAServer exception received\n{traceback.format_exc()}",
+                    )
+                    self.send_to_client(resp)
 
         if not from_debuggee and self._debuggee:
             self._debuggee.stop()
@@ -346,11 +354,13 @@ class DAServer:
             self._launch_queue.stop()
             self._launch_queue = None
 
-        if not self._terminated_sent:
-            # Both the debuggee or start() end will hit the code here. We only
-            # need to send one TerminatedEvent() for whichever was first.
-            self.send_to_client(dap.TerminatedEvent())
-            self._terminated_sent = True
+        with self._send_lock:
+            if not self._terminated_sent:
+                # Both the debuggee or start() end will hit the code here. We
+                # only need to send one TerminatedEvent() for whichever was
+                # first.
+                self.send_to_client(dap.TerminatedEvent())
+                self._terminated_sent = True
 
     def send_to_client(
         self,
@@ -358,16 +368,17 @@ class DAServer:
     ) -> int:
         stdout = sys.stdout.buffer
 
-        req_no = self._adapter.queue_msg(msg)
-        data = self._adapter.data_to_send() or b""
-        if log.isEnabledFor(logging.DEBUG):
-            log.debug("STDOUT: %s", data.decode())
+        with self._send_lock:
+            req_no = self._adapter.queue_msg(msg)
+            data = self._adapter.data_to_send() or b""
+            if log.isEnabledFor(logging.DEBUG):
+                log.debug("STDOUT: %s", data.decode())
 
-        stdout.write(data)
-        stdout.flush()
+            stdout.write(data)
+            stdout.flush()
 
-        if isinstance(msg, dap.Response):
-            self._incoming_requests.pop(msg.request_seq, None)
+            if isinstance(msg, dap.Response):
+                self._incoming_requests.pop(msg.request_seq, None)
 
         return req_no
 
-- 
2.43.0


From d3a9795eac272dfbfe22d0f54bf998a241647c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:31 +0000
Subject: [PATCH 19/22] fix: parse the debug console input as it was typed

A quote in the expression no longer has to be closed, words of the expression
that look like options are not parsed as ones, the command is the first word
and the expression starts where the words before it end in the raw text.
---
 .../dap/plugins/plugin_utils/_repl_util.py    | 31 ++++++++++++-------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_repl_util.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_repl_util.py
index c0d8b85..4d4a6cb 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_repl_util.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_repl_util.py
@@ -118,14 +118,26 @@ def parse_repl_args(
     )
 
     # The provided value from the repl is just a string, we need to convert it
-    # to a command line and parse the known args. We only do the known args
-    # because some commands need the raw value provided outside of a cmd split
-    # processing argparse uses.
-    split_args = shlex.split(args)
+    # to a command line and parse the command and its name. The expression that
+    # follows them is used as it was entered and could contain words that look
+    # like options so it is not parsed. The lexer splits like shlex.split but
+    # also knows where a word ended in the raw string.
+    lexer = shlex.shlex(args, posix=True)
+    lexer.whitespace_split = True
+    lexer.commenters = ""
 
     try:
+        split_args = shlex.split(args)[:2]
+        word_ends = []
+        for _ in split_args:
+            lexer.get_token()
+            word_ends.append(lexer.instream.tell())
+
         parsed_args = parser.parse_known_args(split_args)[0]
-    except ReturnErrorMessage as e:
+        if parsed_args.command != split_args[0]:
+            parser.error(f"unrecognized arguments: {split_args[0]}")
+
+    except (ReturnErrorMessage, ValueError) as e:
         return str(e)
 
     command = str(parsed_args.command)
@@ -142,18 +154,13 @@ def parse_repl_args(
 
     if parsed_args.command == "template":
         # The value after the command needs to be extracted.
-        expr = args[args.index(command) + len(command) :].lstrip()
+        expr = args[word_ends[0] :].lstrip()
 
         return TemplateCommand(command="template", expression=expr)
 
     elif parsed_args.command in ["set_option", "set_hostvar"]:
         # The value after the option/var name needs to be extracted.
-        remaining = args[args.index(command) + len(command) :].lstrip()
-        remaining = remaining[remaining.index(parsed_args.name) + len(parsed_args.name) :]
-        if remaining.startswith('"') or remaining.startswith("'"):
-            remaining = remaining[1:]
-
-        expr = remaining.lstrip()
+        expr = args[word_ends[1] :].lstrip()
 
         return SetVarCommand(parsed_args.command, parsed_args.name, expr)
 
-- 
2.43.0


From 2a0033a7300f968ab305cb3fb6593e2c0287055c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:31 +0000
Subject: [PATCH 20/22] fix: unpack the target id of a step in request

---
 src/ansibug/dap/_requests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ansibug/dap/_requests.py b/src/ansibug/dap/_requests.py
index 3d391e3..efd852a 100644
--- a/src/ansibug/dap/_requests.py
+++ b/src/ansibug/dap/_requests.py
@@ -488,7 +488,7 @@ class StepInRequest(
         "arguments": {
             "threadId": "thread_id",
             "singleThread": "single_thread",
-            "targetId": "thread_id",
+            "targetId": "target_id",
             "granularity": "granularity",
         }
     },
-- 
2.43.0


From a87d5dbcb9993be189af31efcb63ef933bbc4b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:31 +0000
Subject: [PATCH 21/22] fix: unpack a null noDebug of a launch request as unset

---
 src/ansibug/dap/_requests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ansibug/dap/_requests.py b/src/ansibug/dap/_requests.py
index efd852a..ec0e60c 100644
--- a/src/ansibug/dap/_requests.py
+++ b/src/ansibug/dap/_requests.py
@@ -260,7 +260,7 @@ class LaunchRequest(Request, dap={"arguments": {"noDebug": "no_debug", "__restar
     @classmethod
     def unpack(cls, data: dict[str, t.Any]) -> LaunchRequest:
         arguments = data["arguments"]
-        no_debug = arguments.pop("noDebug", False)
+        no_debug = arguments.pop("noDebug", None) or False
         restart = arguments.pop("__restart", None)
         obj = LaunchRequest(
             arguments=arguments,
-- 
2.43.0


From 5d97778639eec8cd892b355ba0262e5e922df669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:31 +0000
Subject: [PATCH 22/22] fix: ignore a __types property in the body of a message

---
 src/ansibug/dap/_messages.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/dap/_messages.py b/src/ansibug/dap/_messages.py
index bfa003f..5d2a9fa 100644
--- a/src/ansibug/dap/_messages.py
+++ b/src/ansibug/dap/_messages.py
@@ -248,7 +248,8 @@ class DAPObjectMeta(type):
                 break
 
             for key, value in body.items():
-                if key not in mapping or value is None:
+                # __types is the cached type info, it is never a DAP property.
+                if key == "__types" or key not in mapping or value is None:
                     continue
 
                 field_meta = mapping[key]
-- 
2.43.0

