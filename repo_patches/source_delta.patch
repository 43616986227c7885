From ea52860fb9983571afe332c509890daaf1706f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:01 +0000
Subject: [PATCH 01/44] fix: support open file objects as standard input

STDIN_TYPES and the README list open files as a supported input type, but
only StringIO and BytesIO were accepted.
---
 shellous/runner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shellous/runner.py b/shellous/runner.py
index 0d74355..3c77558 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -285,6 +285,9 @@ class _RunOptions:
             # Shellous-supported input classes.
             assert stdin == asyncio.subprocess.PIPE
             assert input_bytes is None
+        elif isinstance(input_, io.IOBase):
+            # Client-managed File-like object.
+            stdin = input_
         else:
             raise TypeError(f"unsupported input type: {input_!r}")
 
-- 
2.43.0


From 6df0c2524aad8b31f46a9376321d279482a7581a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 02/44] fix: async with/for/prompt hang when a pipeline command
 fails to launch

PipeRunner waited for the first and last command to signal that they are
ready, but a command that fails to launch never does. A launch failure of
a middle command was not noticed at all when iterating.
---
 shellous/runner.py | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 3c77558..638ecdd 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -1,6 +1,7 @@
 "Implements utilities to run a command."
 
 import asyncio
+import functools
 import io
 import os
 import sys
@@ -1184,22 +1185,20 @@ class PipeRunner:
     async def _setup_capturing(self, cmds: "list[shellous.Command[Any]]"):
         """Set up capturing and return (stdin, stdout, stderr) streams."""
         loop = asyncio.get_event_loop()
-        first_fut = loop.create_future()
-        last_fut = loop.create_future()
+        futs: list[asyncio.Future[Runner]] = []
 
-        first_coro = cmds[0].coro(_run_future=first_fut)
-        last_coro = cmds[-1].coro(_run_future=last_fut)
-        middle_coros = [cmd.coro() for cmd in cmds[1:-1]]
+        for i, cmd in enumerate(cmds):
+            fut = loop.create_future()
+            futs.append(fut)
+            # Tag each task name with the index of the command in the pipe.
+            task = self.add_task(cmd.coro(_run_future=fut), str(i))
+            # If the command fails to launch, don't wait for it to be ready.
+            task.add_done_callback(functools.partial(_propagate_failure, fut))
 
-        # Tag each task name with the index of the command in the pipe.
-        self.add_task(first_coro, "0")
-        for i, coro in enumerate(middle_coros):
-            self.add_task(coro, str(i + 1))
-        self.add_task(last_coro, str(len(cmds) - 1))
-
-        # When capturing, we need the first and last commands in the
-        # pipe to signal when they are ready.
-        first_ready, last_ready = await asyncio.gather(first_fut, last_fut)
+        # When capturing, every command in the pipe signals when it is ready.
+        # We need the streams from the first and last commands.
+        ready = await asyncio.gather(*futs)
+        first_ready, last_ready = ready[0], ready[-1]
 
         stdin, stdout, stderr = (
             first_ready.stdin,
@@ -1244,6 +1243,17 @@ class PipeRunner:
         return result.output
 
 
+def _propagate_failure(fut: "asyncio.Future[Runner]", task: asyncio.Task[Any]):
+    "Done callback: resolve `fut` if the task ended without ever setting it."
+    if fut.done():
+        return
+    ex = None if task.cancelled() else task.exception()
+    if ex is not None:
+        fut.set_exception(ex)
+    else:
+        fut.cancel()
+
+
 def _uses_process_substitution(cmd: "shellous.Command[Any]") -> bool:
     "Return True if command uses process substitution."
     return any(
-- 
2.43.0


From 4130ec53953958800fefc79b38b7a40f0bce9c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 03/44] fix: don't close the pipes of a pipeline twice after a
 failed start

When 'async with' on a pipeline was cancelled or failed while starting, the
pipe descriptors were closed again by number, although the commands had
already closed them; the numbers might belong to someone else by then.
---
 shellous/runner.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shellous/runner.py b/shellous/runner.py
index 638ecdd..9aa59c9 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -1143,6 +1143,10 @@ class PipeRunner:
 
             cmds = self._setup_pipeline(open_fds)
 
+            # From here on, each command owns its end of the pipes (close=True)
+            # and closes it exactly once.
+            open_fds.clear()
+
             if self._capturing:
                 stdin, stdout, stderr = await self._setup_capturing(cmds)
             else:
-- 
2.43.0


From 2a235725285d54929c5d1f5aa184e1aa6976108a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 04/44] fix: raise TimeoutError when the timeout of a pipeline
 command expires

The timeout of a command in a pipeline was treated like a cancellation
caused by another command, so the pipeline reported success (or the exit
status of another command) instead of raising TimeoutError.
---
 shellous/command.py |  7 ++++++-
 shellous/runner.py  | 24 +++++++++++++++++++++---
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/shellous/command.py b/shellous/command.py
index 2b896a2..847a0a2 100644
--- a/shellous/command.py
+++ b/shellous/command.py
@@ -662,11 +662,16 @@ class Command(Generic[_RT]):
         self,
         *,
         _run_future: Optional[asyncio.Future[Runner]] = None,
+        _raise_timeout: bool = False,
     ) -> Coroutine[Any, Any, _RT]:
         "Return coroutine object to run awaitable."
         return cast(
             Coroutine[Any, Any, _RT],
-            Runner.run_command(self, _run_future=_run_future),
+            Runner.run_command(
+                self,
+                _run_future=_run_future,
+                _raise_timeout=_raise_timeout,
+            ),
         )
 
     @contextlib.asynccontextmanager
diff --git a/shellous/runner.py b/shellous/runner.py
index 9aa59c9..fac8807 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -974,8 +974,13 @@ class Runner:
         command: "shellous.Command[Any]",
         *,
         _run_future: Optional[asyncio.Future["Runner"]] = None,
+        _raise_timeout: bool = False,
     ) -> Union[str, Result]:
-        "Run a command. This is the main entry point for Runner."
+        """Run a command. This is the main entry point for Runner.
+
+        Set `_raise_timeout` to raise `TimeoutError` when the command's timeout
+        expires, even if `_catch_cancelled_error` is set.
+        """
         if not _run_future and _is_multiple_capture(command):
             LOGGER.warning("run_command: multiple capture requires 'async with'")
             _cleanup(command)
@@ -986,6 +991,9 @@ class Runner:
                 # Return streams to caller in another task.
                 _run_future.set_result(run)
 
+        if _raise_timeout and run.cancelled and run._timed_out:
+            raise asyncio.TimeoutError()
+
         result = run.result()
         if command.options._return_result:
             return result
@@ -1116,8 +1124,17 @@ class PipeRunner:
         except asyncio.CancelledError:
             LOGGER.warning("PipeRunner cancelled inside _finish %r", self)
             self._cancelled = True
+        # If a command's `timeout` expired, raise TimeoutError.
+        if exc_value is None and not self._cancelled:
+            for item in self._results or ():
+                if isinstance(item, asyncio.TimeoutError):
+                    raise item
         return suppress
 
+    def _raise_timeout(self) -> bool:
+        "Return true if an expired timeout should raise a TimeoutError."
+        return not self._pipe.options._catch_cancelled_error
+
     @log_method(LOG_DETAIL)
     async def _finish(self, exc_value: Optional[BaseException]) -> bool:
         "Wait for pipeline to exit and handle cancellation."
@@ -1151,7 +1168,7 @@ class PipeRunner:
                 stdin, stdout, stderr = await self._setup_capturing(cmds)
             else:
                 for cmd in cmds:
-                    self.add_task(cmd.coro())
+                    self.add_task(cmd.coro(_raise_timeout=self._raise_timeout()))
 
             self.stdin = stdin
             self.stdout = stdout
@@ -1195,7 +1212,8 @@ class PipeRunner:
             fut = loop.create_future()
             futs.append(fut)
             # Tag each task name with the index of the command in the pipe.
-            task = self.add_task(cmd.coro(_run_future=fut), str(i))
+            coro = cmd.coro(_run_future=fut, _raise_timeout=self._raise_timeout())
+            task = self.add_task(coro, str(i))
             # If the command fails to launch, don't wait for it to be ready.
             task.add_done_callback(functools.partial(_propagate_failure, fut))
 
-- 
2.43.0


From 1126e5a63e701efe06622ecb2581c476014faa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 05/44] fix: raise CancelledError when async for or prompt() is
 cancelled

---
 shellous/command.py  |  2 ++
 shellous/pipeline.py |  2 ++
 shellous/runner.py   | 10 ++++++++++
 3 files changed, 14 insertions(+)

diff --git a/shellous/command.py b/shellous/command.py
index 847a0a2..d860f6a 100644
--- a/shellous/command.py
+++ b/shellous/command.py
@@ -709,6 +709,7 @@ class Command(Generic[_RT]):
                 )
                 yield cli
                 cli.close()
+            run._check_cancelled()  # pyright: ignore[reportPrivateUsage]
         finally:
             if cli is not None:
                 cli._finish_()  # pyright: ignore[reportPrivateUsage]
@@ -739,6 +740,7 @@ class Command(Generic[_RT]):
         async with Runner(self) as run:
             async for line in run:
                 yield line
+        run._check_cancelled()  # pyright: ignore[reportPrivateUsage]
 
     def __call__(self, *args: Any) -> "Command[_RT]":
         "Apply more arguments to the end of the command."
diff --git a/shellous/pipeline.py b/shellous/pipeline.py
index 7f5b608..12d39f8 100644
--- a/shellous/pipeline.py
+++ b/shellous/pipeline.py
@@ -137,6 +137,7 @@ class Pipeline(Generic[_RT]):
                 )
                 yield cli
                 cli.close()
+            run._check_cancelled()  # pyright: ignore[reportPrivateUsage]
         finally:
             if cli is not None:
                 cli._finish_()  # pyright: ignore[reportPrivateUsage]
@@ -240,3 +241,4 @@ class Pipeline(Generic[_RT]):
         async with PipeRunner(self, capturing=True) as run:
             async for line in run:
                 yield line
+        run._check_cancelled()  # pyright: ignore[reportPrivateUsage]
diff --git a/shellous/runner.py b/shellous/runner.py
index fac8807..3b9d266 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -502,6 +502,11 @@ class Runner:
             self._timed_out,
         )
 
+    def _check_cancelled(self) -> None:
+        "Raise CancelledError if the run was cancelled (exiting suppresses it)."
+        if self._cancelled and not self.options._catch_cancelled_error:
+            raise asyncio.CancelledError()
+
     def add_task(
         self,
         coro: Coroutine[Any, Any, _T],
@@ -1072,6 +1077,11 @@ class PipeRunner:
 
         return check_result(result, self._pipe.options, self._cancelled)
 
+    def _check_cancelled(self) -> None:
+        "Raise CancelledError if the run was cancelled (exiting suppresses it)."
+        if self._cancelled and not self.options._catch_cancelled_error:
+            raise asyncio.CancelledError()
+
     def add_task(
         self,
         coro: Coroutine[Any, Any, _T],
-- 
2.43.0


From e859f1f701ec689641751e8386c81ac9b7dccb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 06/44] fix: make the hash of EnvironmentDict independent of
 insertion order

---
 shellous/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shellous/util.py b/shellous/util.py
index e3e23b3..0462722 100644
--- a/shellous/util.py
+++ b/shellous/util.py
@@ -208,7 +208,7 @@ class EnvironmentDict(abc.Mapping[str, str]):
         return iter(self._data)
 
     def __hash__(self) -> int:
-        return hash(tuple((key, value) for key, value in self._data.items()))
+        return hash(frozenset(self._data.items()))
 
     def __eq__(self, rhs: object) -> bool:
         if isinstance(rhs, dict):
-- 
2.43.0


From fc504b4c6798e60e88fddb9ca6622434b9f5f638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 07/44] fix: don't let a broken stdin pipe replace
 CancelledError or TimeoutError

---
 shellous/runner.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 3b9d266..4a9193a 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -891,6 +891,7 @@ class Runner:
         "Finish the run. Return True only if `exc_value` should be suppressed."
         assert self._proc
 
+        failed = True
         try:
             if exc_value is not None:
                 if _is_cancelled(exc_value):
@@ -899,14 +900,19 @@ class Runner:
                 return self._cancelled
 
             await self._wait()
+            failed = self._cancelled
             return False
 
         finally:
-            await self._close()
+            await self._close(failed)
 
     @log_method(LOG_DETAIL)
-    async def _close(self):
-        "Make sure that our resources are properly closed."
+    async def _close(self, failed: bool = False):
+        """Make sure that our resources are properly closed.
+
+        If the run has `failed`, ignore a broken pipe when closing stdin; it
+        must not replace the original exception (or the cancellation).
+        """
         assert self._proc is not None
 
         if self._options.pty_fds:
@@ -936,6 +942,10 @@ class Runner:
         except asyncio.TimeoutError:
             LOGGER.critical("Runner._close %r timeout stdin=%r", self, self._proc.stdin)
 
+        except (BrokenPipeError, ConnectionResetError):
+            if not failed:
+                raise
+
     def _audit_callback(
         self,
         phase: str,
-- 
2.43.0


From 4a994f886c27af921a13d6f5edd7d3ba45f02e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 08/44] fix: close the descriptors already opened when a
 command fails to launch

---
 shellous/pty_util.py | 24 ++++++++++++++----------
 shellous/runner.py   | 38 ++++++++++++++++++++++++++++++--------
 2 files changed, 44 insertions(+), 18 deletions(-)

diff --git a/shellous/pty_util.py b/shellous/pty_util.py
index b3413d0..33536f6 100644
--- a/shellous/pty_util.py
+++ b/shellous/pty_util.py
@@ -82,16 +82,20 @@ def open_pty(pty_func: PtyAdapterOrBool) -> PtyFds:
     "Open pseudo-terminal (pty) descriptors. Returns (PtyFds, child_fd)."
     parent_fd, child_fd = pty.openpty()
 
-    # If pty_func is a callable, call it here with `child_fd` as argument. This
-    # gives the client an opportunity to configure the tty.
-    if callable(pty_func):
-        pty_func(child_fd)
-
-    return PtyFds(
-        parent_fd,
-        ChildFd(child_fd),
-        _get_eof(child_fd),
-    )
+    try:
+        # If pty_func is a callable, call it here with `child_fd` as argument.
+        # This gives the client an opportunity to configure the tty.
+        if callable(pty_func):
+            pty_func(child_fd)
+
+        return PtyFds(
+            parent_fd,
+            ChildFd(child_fd),
+            _get_eof(child_fd),
+        )
+    except BaseException:
+        close_fds([parent_fd, child_fd])
+        raise
 
 
 def set_ctty(ttypath: str) -> None:
diff --git a/shellous/runner.py b/shellous/runner.py
index 4a9193a..b9a6cca 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -8,7 +8,17 @@ import sys
 from logging import Logger
 from pathlib import Path
 from types import TracebackType
-from typing import Any, AsyncIterator, Coroutine, Optional, TextIO, TypeVar, Union, cast
+from typing import (
+    Any,
+    AsyncIterator,
+    Coroutine,
+    Iterable,
+    Optional,
+    TextIO,
+    TypeVar,
+    Union,
+    cast,
+)
 
 import shellous
 import shellous.redirect as redir
@@ -122,7 +132,13 @@ class _RunOptions:
         except Exception as ex:
             if LOG_DETAIL:
                 LOGGER.debug("_RunOptions.enter %r ex=%r", self.command.name, ex)
-            _cleanup(self.command)
+            # `__exit__` is not called. Close everything opened so far, together
+            # with the remaining descriptors that the command must close.
+            _cleanup(self.command, self.open_fds)
+            if self.pty_fds:
+                self.pty_fds.close()
+            for subcmd in self.subcmds:
+                _cleanup(subcmd)
             raise
 
         assert _cmd is self.command, "self.command should remain unchanged"
@@ -1310,22 +1326,28 @@ def _is_multiple_capture(cmd: "shellous.Command[Any]"):
     return output == Redirect.CAPTURE and error == Redirect.CAPTURE
 
 
-def _cleanup(command: "Union[shellous.Command[Any], shellous.Pipeline[Any]]"):
-    "Close remaining file descriptors that need to be closed."
+def _cleanup(
+    command: "Union[shellous.Command[Any], shellous.Pipeline[Any]]",
+    opened: Iterable[Any] = (),
+):
+    """Close remaining file descriptors that need to be closed.
+
+    Also close the descriptors already `opened` (each descriptor only once).
+    """
 
     def _add_close(close: bool, fdesc: Any):
-        if close:
+        if close and fdesc not in open_fds:
             if isinstance(fdesc, (int, io.IOBase)):
                 open_fds.append(fdesc)
 
-    open_fds: list[Any] = []
+    open_fds: list[Any] = list(opened)
 
     _add_close(command.options.input_close, command.options.input)
     _add_close(command.options.output_close, command.options.output)
     _add_close(command.options.error_close, command.options.error)
 
-    if command.options.pass_fds_close:
-        open_fds.extend(command.options.pass_fds)
+    for fdesc in command.options.pass_fds:
+        _add_close(command.options.pass_fds_close, fdesc)
 
     close_fds(open_fds)
 
-- 
2.43.0


From 67797b983673ef596b6630b62381fe8aa8cca0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 09/44] fix: don't leak the pty when a run is cancelled while
 it is starting

---
 shellous/runner.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index b9a6cca..e34b851 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -137,6 +137,7 @@ class _RunOptions:
             _cleanup(self.command, self.open_fds)
             if self.pty_fds:
                 self.pty_fds.close()
+                self.pty_fds = None
             for subcmd in self.subcmds:
                 _cleanup(subcmd)
             raise
@@ -715,8 +716,12 @@ class Runner:
             LOGGER.debug("Runner._start %r ex=%r", self, ex)
             if _is_cancelled(ex):
                 self._set_cancelled()
-            if self._proc:
-                await self._kill()
+            try:
+                if self._proc:
+                    await self._kill()
+            finally:
+                if self._options.pty_fds:
+                    self._options.pty_fds.close()
             raise
 
         # Make final streams available. These may be different from `self.proc`
@@ -739,9 +744,9 @@ class Runner:
         "Start the subprocess."
         assert self._proc is None
 
-        # Second half of pty setup.
+        # Second half of pty setup (always completes even if cancelled).
         if opts.pty_fds:
-            opts.pty_fds = await opts.pty_fds.open_streams()
+            await uninterrupted(self._open_pty_streams(opts))
 
         # Check for task cancellation and yield right before exec'ing. If the
         # current task is already cancelled, this will raise a CancelledError,
@@ -756,6 +761,12 @@ class Runner:
         for cmd in opts.subcmds:
             self.add_task(cmd.coro(), "procsub")
 
+    @log_method(LOG_DETAIL)
+    async def _open_pty_streams(self, opts: _RunOptions):
+        "Open the pty streams and assign to `opts.pty_fds`."
+        assert opts.pty_fds is not None
+        opts.pty_fds = await opts.pty_fds.open_streams()
+
     @log_method(LOG_DETAIL)
     async def _subprocess_exec(self, opts: _RunOptions):
         "Start the subprocess and assign to `self.proc`."
-- 
2.43.0


From 897935f1d072a024d049b8606d53ea77c1d537cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:46 +0000
Subject: [PATCH 10/44] fix: don't report success when a later stage fails
 after an allowed status

---
 shellous/result.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/shellous/result.py b/shellous/result.py
index e35e71e..a8edebc 100644
--- a/shellous/result.py
+++ b/shellous/result.py
@@ -118,6 +118,12 @@ def _find_key_result(result_list: list[Union[Result, BaseException]]) -> Result:
     "Scan a result list and return the 'key' result."
     acc = None
 
+    # A command that failed takes precedence over an earlier command that
+    # exited with a non-zero status allowed by its `exit_codes`.
+    for item in result_list:
+        if isinstance(item, ResultError) and not item.result.cancelled:
+            return item.result
+
     for item in result_list:
         item = _get_result(item)
         acc = _compare_result(acc, item)
-- 
2.43.0


From 440efa6df1e8e9a3c2e6c4df1f577ab8a233a546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:11 +0000
Subject: [PATCH 11/44] fix: close descriptors when audit_callback raises at
 start

---
 shellous/runner.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index e34b851..25c567f 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -651,7 +651,11 @@ class Runner:
     @log_method(LOG_DETAIL)
     async def __aenter__(self):
         "Set up redirections and launch subprocess."
-        self._audit_callback("start")
+        try:
+            self._audit_callback("start")
+        except BaseException:
+            _cleanup(self.command)
+            raise
         try:
             return await self._start()
         except BaseException as ex:
-- 
2.43.0


From 0c7c04f2fc0a9b2ed9e5c113da4f78d5beebe0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:15 +0000
Subject: [PATCH 12/44] fix: raise the errors of pipeline commands when async
 with or async for ends

---
 shellous/runner.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 25c567f..0df5421 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -26,7 +26,7 @@ from shellous import pty_util
 from shellous.harvest import harvest, harvest_results
 from shellous.log import LOG_DETAIL, LOGGER, log_method, log_timer
 from shellous.redirect import Redirect
-from shellous.result import Result, check_result, convert_result_list
+from shellous.result import Result, ResultError, check_result, convert_result_list
 from shellous.util import (
     BSD_DERIVED,
     SupportsClose,
@@ -1175,10 +1175,11 @@ class PipeRunner:
         except asyncio.CancelledError:
             LOGGER.warning("PipeRunner cancelled inside _finish %r", self)
             self._cancelled = True
-        # If a command's `timeout` expired, raise TimeoutError.
+        # If a command failed with an exception other than ResultError (e.g.
+        # TimeoutError when its `timeout` expired), raise it.
         if exc_value is None and not self._cancelled:
             for item in self._results or ():
-                if isinstance(item, asyncio.TimeoutError):
+                if isinstance(item, Exception) and not isinstance(item, ResultError):
                     raise item
         return suppress
 
-- 
2.43.0


From d131a0efb5319f8e6e4d7f21d6450c8a71f93a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:07 +0000
Subject: [PATCH 13/44] fix: close a substitution pipeline's descriptors when
 the launch fails

---
 shellous/runner.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 0df5421..d896299 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -1358,12 +1358,18 @@ def _cleanup(
 
     open_fds: list[Any] = list(opened)
 
-    _add_close(command.options.input_close, command.options.input)
-    _add_close(command.options.output_close, command.options.output)
-    _add_close(command.options.error_close, command.options.error)
+    if isinstance(command, shellous.Pipeline):
+        cmds = command.commands
+    else:
+        cmds = (command,)
+
+    for cmd in cmds:
+        _add_close(cmd.options.input_close, cmd.options.input)
+        _add_close(cmd.options.output_close, cmd.options.output)
+        _add_close(cmd.options.error_close, cmd.options.error)
 
-    for fdesc in command.options.pass_fds:
-        _add_close(command.options.pass_fds_close, fdesc)
+        for fdesc in cmd.options.pass_fds:
+            _add_close(cmd.options.pass_fds_close, fdesc)
 
     close_fds(open_fds)
 
-- 
2.43.0


From 71c94e3b9f20c98999728e1a78d6210ad3c57d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:57 +0000
Subject: [PATCH 14/44] fix: don't cancel pipeline commands twice when the
 pipeline is killed

---
 shellous/runner.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/shellous/runner.py b/shellous/runner.py
index d896299..cfda192 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -1143,6 +1143,14 @@ class PipeRunner:
             LOGGER.debug("PipeRunner.wait killing pipe %r", self)
             for task in self._tasks:
                 task.cancel()
+            # Wait for all commands here, because `harvest_results` cancels the
+            # remaining commands *again* as soon as one of them raises, which
+            # kills them before their `cancel_timeout`.
+            if self._tasks:
+                try:
+                    await asyncio.wait(self._tasks)
+                except asyncio.CancelledError:
+                    self._cancelled = True
 
         cancelled, self._results = await harvest_results(*self._tasks, trustee=self)
         if cancelled:
-- 
2.43.0


From 5db799362599b5f300a86515f3d72cc9666212ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:57 +0000
Subject: [PATCH 15/44] fix: wait for the killed process even if cancelled
 again

---
 shellous/runner.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index cfda192..0fabfbb 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -639,7 +639,12 @@ class Runner:
 
         try:
             self._signal(None)
-            await harvest(self._waiter(), timeout=_KILL_TIMEOUT, trustee=self)
+            await harvest(
+                self._waiter(),
+                timeout=_KILL_TIMEOUT,
+                cancel_finish=True,  # wait for process even if cancelled
+                trustee=self,
+            )
         except asyncio.TimeoutError as ex:
             # Manually check if the process is still running.
             if poll_wait_pid(self._proc):
-- 
2.43.0


From bf9beae11a186f8045026a1fd12f9063141a6cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:39 +0000
Subject: [PATCH 16/44] fix: close a pty with unwritten data when the run ends

---
 shellous/pty_util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shellous/pty_util.py b/shellous/pty_util.py
index 33536f6..0394d78 100644
--- a/shellous/pty_util.py
+++ b/shellous/pty_util.py
@@ -73,6 +73,9 @@ class PtyFds(NamedTuple):
             LOGGER.debug("PtyFds.close")
         self.child_fd.close()
         if self.writer:
+            # Nobody reads from the pty anymore; don't wait for unwritten data.
+            if self.writer.transport.get_write_buffer_size() > 0:
+                self.writer.transport.abort()
             self.writer.close()
         else:
             close_fds([self.parent_fd])
-- 
2.43.0


From 6c2885c561a1529c2498b1f039218214b8be7310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:37 +0000
Subject: [PATCH 17/44] fix: finish waiting for cancelled tasks when harvest is
 cancelled again

---
 shellous/harvest.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/shellous/harvest.py b/shellous/harvest.py
index 0e71288..8dfaf4e 100644
--- a/shellous/harvest.py
+++ b/shellous/harvest.py
@@ -143,8 +143,9 @@ async def harvest_wait(
         _consume_exceptions(tasks)
         raise
 
-    if pending:
-        await _cancel_wait(pending, trustee, cancel_timeout)
+    if pending and await _cancel_wait(pending, trustee, cancel_timeout):
+        _consume_exceptions(tasks)
+        raise asyncio.CancelledError()
 
     assert all(task.done() for task in tasks)
 
@@ -160,20 +161,26 @@ async def _cancel_wait(
     trustee: Any,
     cancel_timeout: float,
     cancel_finish: bool = False,
-):
-    "Cancel tasks and wait for them to finish."
-    try:
-        if not cancel_finish:
-            # Cancel all tasks.
-            for task in tasks:
-                task.cancel()
+) -> bool:
+    """Cancel tasks and wait for them to finish.
 
-        await _cancel_waiter(tasks, trustee, cancel_timeout)
+    Return True if cancelled while waiting; the tasks are done nevertheless.
+    """
+    if not cancel_finish:
+        # Cancel all tasks.
+        for task in tasks:
+            task.cancel()
 
-    except asyncio.CancelledError:
-        # Retry once if _cancel_wait is itself cancelled.
-        LOGGER.warning("Harvest._cancel_wait cancelled itself trustee=%r", trustee)
-        await _cancel_waiter(tasks, trustee, cancel_timeout)
+    cancelled = False
+    while True:
+        try:
+            await _cancel_waiter(tasks, trustee, cancel_timeout)
+            return cancelled
+
+        except asyncio.CancelledError:
+            # Keep waiting if _cancel_wait is itself cancelled.
+            LOGGER.warning("Harvest._cancel_wait cancelled itself trustee=%r", trustee)
+            cancelled = True
 
 
 async def _cancel_waiter(
-- 
2.43.0


From 26acd43a9b846d991f0c806872d5a10fe4ad4230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:37 +0000
Subject: [PATCH 18/44] fix: close the pipes of a command cancelled while it is
 starting

---
 shellous/runner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shellous/runner.py b/shellous/runner.py
index 0fabfbb..c5ca315 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -729,6 +729,9 @@ class Runner:
                 if self._proc:
                     await self._kill()
             finally:
+                if self._proc:
+                    # Close the pipes; there may be unread output.
+                    self._proc._transport.close()  # pyright: ignore
                 if self._options.pty_fds:
                     self._options.pty_fds.close()
             raise
-- 
2.43.0


From 86f34e70c224e746eb5ebdce49914be4872504cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:37 +0000
Subject: [PATCH 19/44] fix: don't fail an assertion for stdout=DEVNULL,
 stderr=STDOUT with a pty

---
 shellous/runner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index c5ca315..87152d9 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -699,7 +699,6 @@ class Runner:
                     error = opts.error_bytes
                     limit = opts.command.options.error_limit
                 elif opts.is_stderr_only:
-                    assert stdout is None
                     assert opts.output_bytes is not None
                     error = opts.output_bytes
                 else:
@@ -708,7 +707,8 @@ class Runner:
                     stderr, error, opts.encoding, "stderr", limit
                 )
 
-            if stdout is not None:
+            # (When `is_stderr_only`, stdout can only be the terminal of a pty.)
+            if stdout is not None and not opts.is_stderr_only:
                 limit = None
                 if opts.output_bytes is not None:
                     output = opts.output_bytes
-- 
2.43.0


From 59c98f503c4186e2b7f8a84226135a5dde820e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:04 +0000
Subject: [PATCH 20/44] fix: don't wait for unread output of a killed process

---
 shellous/runner.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/shellous/runner.py b/shellous/runner.py
index 87152d9..fdfc4b2 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -639,6 +639,12 @@ class Runner:
 
         try:
             self._signal(None)
+            # Waiting for the process also waits until its output pipes are
+            # closed. Nobody is going to read what is left there.
+            for fdesc in (1, 2):
+                pipe = self._proc._transport.get_pipe_transport(fdesc)  # pyright: ignore
+                if pipe is not None:
+                    pipe.close()
             await harvest(
                 self._waiter(),
                 timeout=_KILL_TIMEOUT,
-- 
2.43.0


From 6436071f5e2aa21b6a3de1f543101caaf113b023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:22 +0000
Subject: [PATCH 21/44] fix: report the exit status of a process reaped while
 sending it a signal

---
 shellous/runner.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/shellous/runner.py b/shellous/runner.py
index fdfc4b2..d0c45bb 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -425,6 +425,7 @@ class Runner:
     _timer: Optional[asyncio.TimerHandle] = None
     _timed_out: bool = False
     _last_signal: Optional[int] = None
+    _reaped_status: Optional[int] = None
 
     def __init__(self, command: "shellous.Command[Any]"):
         self._options = _RunOptions(command)
@@ -461,6 +462,8 @@ class Runner:
                 return CANCELLED_EXIT_CODE
             return None
         code = self._proc.returncode
+        if code == _UNKNOWN_EXIT_CODE and self._reaped_status is not None:
+            return self._reaped_status
         if code == _UNKNOWN_EXIT_CODE and self._last_signal is not None:
             # After sending a signal, `waitpid` may fail to locate the child
             # process. In this case, map the status to the last signal we sent.
@@ -622,11 +625,15 @@ class Runner:
             LOGGER.debug("Runner.signal %r signal=%r", self, sig)
         self._audit_callback("signal", signal=sig)
 
+        popen = getattr(self._proc._transport, "_proc", None)  # pyright: ignore
         if sig is None:
             self._proc.kill()
         else:
             self._proc.send_signal(sig)
             self._last_signal = sig
+        # Before sending a signal, `Popen` polls the process. If that reaped the
+        # process, `waitpid` fails later and only `Popen` knows the exit status.
+        self._reaped_status = getattr(popen, "returncode", None)
 
     @log_method(LOG_DETAIL)
     async def _kill_wait(self):
-- 
2.43.0


From 6c1c800b486acff6bb40e15e5b0c9d4a6b08377f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:48 +0000
Subject: [PATCH 22/44] fix: don't cancel a pipeline command twice when async
 with is cancelled while starting

---
 shellous/runner.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index d0c45bb..3d5485d 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -1054,8 +1054,9 @@ class Runner:
             raise ValueError("multiple capture requires 'async with'")
 
         async with Runner(command) as run:
-            if _run_future is not None:
-                # Return streams to caller in another task.
+            if _run_future is not None and not _run_future.cancelled():
+                # Return streams to caller in another task. (If the caller was
+                # cancelled, it is about to cancel this command too.)
                 _run_future.set_result(run)
 
         if _raise_timeout and run.cancelled and run._timed_out:
-- 
2.43.0


From 64d1760953634af23a589b6b9f0c3cca3a710478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:47 +0000
Subject: [PATCH 23/44] fix: don't hang when a pty process exits without
 reading all of its input

---
 shellous/pty_util.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/shellous/pty_util.py b/shellous/pty_util.py
index 0394d78..20176bf 100644
--- a/shellous/pty_util.py
+++ b/shellous/pty_util.py
@@ -115,6 +115,7 @@ class PtyStreamReaderProtocol(asyncio.StreamReaderProtocol):
 
     pty__child_fd: Optional[ChildFd] = None
     pty__timer: Optional[asyncio.TimerHandle] = None  # Issue #378
+    pty__writer: Optional[asyncio.WriteTransport] = None
 
     def connection_lost(self, exc: Optional[Exception]) -> None:
         "Intercept EIO error and treat it as EOF."
@@ -124,6 +125,9 @@ class PtyStreamReaderProtocol(asyncio.StreamReaderProtocol):
             self.pty__timer.cancel()
         if isinstance(exc, OSError) and exc.errno == errno.EIO:
             exc = None
+            # The other side is gone; nobody is going to read unwritten data.
+            if self.pty__writer and self.pty__writer.get_write_buffer_size() > 0:
+                self.pty__writer.abort()
         super().connection_lost(exc)
 
     if BSD_DERIVED:
@@ -175,6 +179,7 @@ async def _open_pty_streams(parent_fd: int, child_fd: ChildFd):
         os.fdopen(parent_fd, "wb", 0, closefd=True),
     )
     writer = asyncio.StreamWriter(writer_transport, writer_protocol, reader, loop)
+    reader_protocol.pty__writer = writer_transport
 
     # Patch writer_transport.close so it also closes the reader_transport.
     def _close():
-- 
2.43.0


From c18b7f4c0a271087ad1e32f00f1f702c532f01b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:25 +0000
Subject: [PATCH 24/44] fix: stop the timeout timer when a process is being
 terminated

---
 shellous/runner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shellous/runner.py b/shellous/runner.py
index 3d5485d..628d413 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -592,6 +592,8 @@ class Runner:
         "Kill process and wait for it to finish."
         assert self._proc
 
+        self._stop_timer()  # process is already being terminated
+
         cancel_timeout = self.command.options.cancel_timeout
         cancel_signal = self.command.options.cancel_signal
 
-- 
2.43.0


From c0c0d3a7fb55bb8345f6c0430f4cf69f8d6a7411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:59 +0000
Subject: [PATCH 25/44] fix: undo the cancellation of the task when the timeout
 has been raised

---
 shellous/runner.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/shellous/runner.py b/shellous/runner.py
index 628d413..39f6103 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -424,6 +424,7 @@ class Runner:
     _cancelled: bool = False
     _timer: Optional[asyncio.TimerHandle] = None
     _timed_out: bool = False
+    _timer_task: Optional[asyncio.Task[Any]] = None
     _last_signal: Optional[int] = None
     _reaped_status: Optional[int] = None
 
@@ -842,6 +843,7 @@ class Runner:
         "Set a flag when the timer expires and cancel the main task."
         self._timed_out = True
         self._timer = None
+        self._timer_task = main_task
         main_task.cancel()
 
     def _stop_timer(self):
@@ -930,6 +932,9 @@ class Runner:
             self._set_cancelled()
         finally:
             self._stop_timer()  # failsafe just in case
+            if self._timer_task and sys.version_info >= (3, 11):
+                # The request to cancel the task came from our timer.
+                self._timer_task.uncancel()
             self._audit_callback("stop")
         # If `timeout` expired, raise TimeoutError rather than CancelledError.
         if (
-- 
2.43.0


From aad524851e5fc408e46d43b74a982213c90a26c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:32 +0000
Subject: [PATCH 26/44] fix: raise CancelledError when a task is cancelled
 while its timeout expires

---
 shellous/runner.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 39f6103..46d8b16 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -425,6 +425,7 @@ class Runner:
     _timer: Optional[asyncio.TimerHandle] = None
     _timed_out: bool = False
     _timer_task: Optional[asyncio.Task[Any]] = None
+    _cancelling: int = 0
     _last_signal: Optional[int] = None
     _reaped_status: Optional[int] = None
 
@@ -833,6 +834,8 @@ class Runner:
             loop = asyncio.get_running_loop()
             task = asyncio.current_task()
             assert task is not None
+            if sys.version_info >= (3, 11):
+                self._cancelling = task.cancelling()
             self._timer = loop.call_later(
                 timeout,
                 self._set_timer_expired,
@@ -846,6 +849,15 @@ class Runner:
         self._timer_task = main_task
         main_task.cancel()
 
+    def _undo_timer_cancel(self) -> bool:
+        """Take back the cancellation requested by the timer.
+
+        Return false if someone else also requested to cancel the task.
+        """
+        if not self._timer_task or sys.version_info < (3, 11):
+            return True
+        return self._timer_task.uncancel() <= self._cancelling
+
     def _stop_timer(self):
         if self._timer:
             self._timer.cancel()
@@ -925,6 +937,7 @@ class Runner:
     ):
         "Wait for process to exit and handle cancellation."
         suppress = False
+        timed_out = True
         try:
             suppress = await self._finish(exc_value)
         except asyncio.CancelledError:
@@ -932,9 +945,7 @@ class Runner:
             self._set_cancelled()
         finally:
             self._stop_timer()  # failsafe just in case
-            if self._timer_task and sys.version_info >= (3, 11):
-                # The request to cancel the task came from our timer.
-                self._timer_task.uncancel()
+            timed_out = self._undo_timer_cancel()
             self._audit_callback("stop")
         # If `timeout` expired, raise TimeoutError rather than CancelledError.
         if (
@@ -942,6 +953,8 @@ class Runner:
             and self._timed_out
             and not self.command.options._catch_cancelled_error
         ):
+            if not timed_out:
+                raise asyncio.CancelledError()
             raise asyncio.TimeoutError()
         return suppress
 
-- 
2.43.0


From 453d3b67c9cb7bf8a8db3d8b99e695ea5f977905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:34 +0000
Subject: [PATCH 27/44] fix: report an error of the concurrent reader in
 Prompt.send()

---
 shellous/prompt.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/shellous/prompt.py b/shellous/prompt.py
index 21e45af..7e6eb7f 100644
--- a/shellous/prompt.py
+++ b/shellous/prompt.py
@@ -496,16 +496,27 @@ class Prompt:
 
     async def _drain(self, stream: asyncio.StreamWriter) -> None:
         "Drain stream while reading into buffer concurrently."
+        drain_task = asyncio.current_task()
+        assert drain_task is not None
+
+        def _read_done(task: "asyncio.Task[None]"):
+            # If reading fails, nobody empties the output pipe anymore; stop
+            # waiting for the drain.
+            if not task.cancelled() and task.exception():
+                drain_task.cancel()
+
         read_task = asyncio.create_task(
             self._read_some(tag="@drain", concurrent_cancel=True)
         )
+        read_task.add_done_callback(_read_done)
         try:
             await stream.drain()
 
         finally:
             if not read_task.done():
                 read_task.cancel()
-                await read_task
+            # Report a failure to read, e.g. UnicodeDecodeError.
+            await read_task
 
     async def _read_some(
         self,
-- 
2.43.0


From 36a8d44008b9a3b9894bc928469c1f0c29067f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:51 +0000
Subject: [PATCH 28/44] fix: keep the matched text when Prompt.expect() is
 cancelled as it matches

---
 shellous/prompt.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/shellous/prompt.py b/shellous/prompt.py
index 7e6eb7f..ca36d5e 100644
--- a/shellous/prompt.py
+++ b/shellous/prompt.py
@@ -323,6 +323,11 @@ class Prompt:
             timeout=timeout or self._default_timeout,
         )
         if cancelled:
+            if isinstance(result, tuple):
+                # The match was found just before we were cancelled. Put back
+                # what we will not return.
+                text, found = result
+                self._pending = text + found[0] + self._pending
             raise asyncio.CancelledError()
         if isinstance(result, Exception):
             raise result
-- 
2.43.0


From 5692f38722211c394a629bb32f540abf71247eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:08 +0000
Subject: [PATCH 29/44] fix: accept iterators in harvest_wait()

---
 shellous/harvest.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shellous/harvest.py b/shellous/harvest.py
index 8dfaf4e..803fc92 100644
--- a/shellous/harvest.py
+++ b/shellous/harvest.py
@@ -111,6 +111,8 @@ async def harvest_wait(
     consumed before raising `CancelledError`. If `cancel_finish` is True,
     the tasks are not cancelled, but allowed to finish.
     """
+    tasks = list(tasks)  # `tasks` may be an iterator
+
     try:
         # Wait for all tasks to complete, the first one to raise an
         # exception, or a timeout.
-- 
2.43.0


From b7e39b064e0c814c4d1520c36ba213c65592de74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:13 +0000
Subject: [PATCH 30/44] fix: start the timeout timer before the task that stops
 it

---
 shellous/runner.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 46d8b16..1ff359c 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -759,13 +759,14 @@ class Runner:
         self.stdout = stdout
         self.stderr = stderr
 
+        # Set a timer to cancel the current task after a timeout. The waiter
+        # stops the timer; an eager task may do this right away.
+        self._start_timer(self.command.options.timeout)
+
         # Add a task to monitor for when the process finishes.
         if not self._is_bsd_pty():
             self.add_task(self._waiter(), "waiter")
 
-        # Set a timer to cancel the current task after a timeout.
-        self._start_timer(self.command.options.timeout)
-
         return self
 
     @log_method(LOG_DETAIL)
-- 
2.43.0


From 8a70b9cfd84c92cfed023db1b6c395acbd669296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:51 +0000
Subject: [PATCH 31/44] fix: a failing process substitution does not replace
 the exception that ended the run

---
 shellous/runner.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 1ff359c..8f60d1b 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -605,7 +605,11 @@ class Runner:
                 self._signal(cancel_signal)
 
             if self._tasks:
-                await harvest(*self._tasks, timeout=cancel_timeout, trustee=self)
+                await harvest(
+                    *(self._finish_task(task) for task in self._tasks),
+                    timeout=cancel_timeout,
+                    trustee=self,
+                )
 
             if self._proc.returncode is None:
                 await harvest(self._waiter(), timeout=cancel_timeout, trustee=self)
@@ -621,6 +625,17 @@ class Runner:
             await self._kill_wait()
             raise
 
+    async def _finish_task(self, task: asyncio.Task[Any]) -> None:
+        """Wait for background task to finish when process is being killed.
+
+        If it fails (e.g. a process substitution), this must not replace the
+        original exception (or the cancellation), or hurry the other tasks.
+        """
+        try:
+            await task
+        except Exception as ex:
+            LOGGER.warning("Runner.kill %r task=%r ex=%r", self, task, ex)
+
     def _signal(self, sig: Optional[int]):
         "Send a signal to the process."
         assert self._proc is not None  # (pyright)
-- 
2.43.0


From 562ade9f4d315b7e92fea73da2c364de6a4bc7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:35 +0000
Subject: [PATCH 32/44] fix: output still in the pty when its process exits is
 not lost

The last command of a pipeline is awaited by its own task, which closes the
pty as soon as the process has exited. Output that the reader (an iteration
or an async with block) had not taken out of the pty yet was lost.
---
 shellous/pty_util.py | 23 +++++++++++++++++++++++
 shellous/runner.py   |  2 ++
 2 files changed, 25 insertions(+)

diff --git a/shellous/pty_util.py b/shellous/pty_util.py
index 20176bf..de7f5a2 100644
--- a/shellous/pty_util.py
+++ b/shellous/pty_util.py
@@ -24,6 +24,8 @@ from .log import LOG_DETAIL, LOGGER, log_method
 from .util import BSD_DERIVED, BSD_FREEBSD, close_fds
 
 _STDOUT_FILENO = 1
+_DRAIN_SIZE = 4096
+_DRAIN_LIMIT = 32
 _LFLAG = 3
 _CC = 6
 
@@ -67,6 +69,27 @@ class PtyFds(NamedTuple):
             writer,
         )
 
+    def drain(self) -> None:
+        """Move output that is still in the pty to the reader.
+
+        The process has exited, but the reader may be used by another task that
+        has not read everything yet (e.g. the last command of a pipeline).
+        """
+        if self.reader is None or self.reader._eof:  # pyright: ignore
+            return
+        if self.writer is None or self.writer.transport.is_closing():
+            return
+        try:
+            # (The output left is limited; somebody else may still write.)
+            for _ in range(_DRAIN_LIMIT):
+                data = os.read(self.parent_fd, _DRAIN_SIZE)
+                if not data:
+                    break
+                self.reader.feed_data(data)
+        except OSError as ex:
+            if LOG_DETAIL:
+                LOGGER.debug("PtyFds.drain ex=%r", ex)
+
     def close(self) -> None:
         "Close pty file descriptors."
         if LOG_DETAIL:
diff --git a/shellous/runner.py b/shellous/runner.py
index 8f60d1b..dce3c1b 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -1004,6 +1004,8 @@ class Runner:
         assert self._proc is not None
 
         if self._options.pty_fds:
+            if not failed:
+                self._options.pty_fds.drain()
             self._options.pty_fds.close()
 
         # Make sure the transport is closed (for asyncio and uvloop).
-- 
2.43.0


From 3eee9c5f76275c95ba95cb247f32ac5e88850e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:48 +0000
Subject: [PATCH 33/44] fix: a text sent with no_echo is not revealed by the
 log of an encoding error

---
 shellous/prompt.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/shellous/prompt.py b/shellous/prompt.py
index ca36d5e..e0bb90c 100644
--- a/shellous/prompt.py
+++ b/shellous/prompt.py
@@ -184,6 +184,8 @@ class Prompt:
 
         if isinstance(text, bytes):
             data = text + encode_bytes(end, self._encoding)
+        elif no_echo:
+            data = _encode_hidden(text + end, self._encoding)
         else:
             data = encode_bytes(text + end, self._encoding)
 
@@ -613,6 +615,20 @@ class Prompt:
             )
 
 
+def _encode_hidden(text: str, encoding: str) -> bytes:
+    """Encode sensitive text.
+
+    A UnicodeEncodeError contains the text, and exceptions may be logged.
+    """
+    try:
+        return encode_bytes(text, encoding)
+    except UnicodeEncodeError as ex:
+        hidden = UnicodeEncodeError(
+            ex.encoding, "*" * len(ex.object), ex.start, ex.end, ex.reason
+        )
+    raise hidden
+
+
 def _make_decoder(encoding: str, normalize_newlines: bool) -> codecs.IncrementalDecoder:
     "Construct an incremental decoder for the specified encoding settings."
     enc = encoding.split(maxsplit=1)
-- 
2.43.0


From e943ba01c36df9ac38d1b88fbfddc262a6f18797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:48 +0000
Subject: [PATCH 34/44] fix: harvest functions accept futures when detailed
 logging is enabled

asyncio.Future has no get_name(); an AttributeError replaced the exception.
---
 shellous/harvest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shellous/harvest.py b/shellous/harvest.py
index 803fc92..493d5dd 100644
--- a/shellous/harvest.py
+++ b/shellous/harvest.py
@@ -230,4 +230,4 @@ def _consume_exceptions(tasks: Iterable[asyncio.Task[Any]]):
         if not task.cancelled():
             ex = task.exception()
             if ex and LOG_DETAIL:
-                LOGGER.debug("%r exception consumed %r", task.get_name(), ex)
+                LOGGER.debug("%r exception consumed %r", task, ex)
-- 
2.43.0


From 74abf45f9b1fb24eed9b78593432ae8c9618f747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:50 +0000
Subject: [PATCH 35/44] fix: descriptors leaked (and ValueError was raised)
 when a pipe could not be created

When os.pipe() fails, close the pipes already created for process
substitutions, and the descriptors that a pipeline must close. The
pipeline raises the OSError, not ValueError for an empty set of tasks.
---
 shellous/runner.py | 50 +++++++++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index dce3c1b..6c1de2d 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -189,13 +189,13 @@ class _RunOptions:
                 new_fds.append(read_fd)
                 subcmd = arg.stdout(write_fd, close=True)
 
+            # We also need to close our end after process launch.
+            self.open_fds.append(new_fds[-1])
             self.subcmds.append(subcmd)
 
-        # We need to include `new_fds` in our `pass_fds` list. We also need
-        # to close them after process launch.
+        # We need to include `new_fds` in our `pass_fds` list.
         self.kwd_args["pass_fds"] = new_fds
         self.kwd_args["close_fds"] = True
-        self.open_fds.extend(new_fds)
 
         if BSD_DERIVED:
             verify_dev_fd(new_fds[0])
@@ -1226,7 +1226,8 @@ class PipeRunner:
             LOGGER.warning("PipeRunner enter %r ex=%r", self, ex)
             if _is_cancelled(ex):
                 self._cancelled = True
-            await self._wait(kill=True)
+            if self._tasks:
+                await self._wait(kill=True)
             raise
 
     @log_method(LOG_DETAIL)
@@ -1273,33 +1274,32 @@ class PipeRunner:
         "Set up redirection and launch pipeline."
         open_fds: list[int] = []
 
-        try:
-            stdin = None
-            stdout = None
-            stderr = None
+        stdin = None
+        stdout = None
+        stderr = None
 
+        try:
             cmds = self._setup_pipeline(open_fds)
+        except BaseException:  # pylint: disable=broad-except
+            # No command has been started. Close the pipes opened so far, and
+            # the descriptors that the commands must close.
+            _cleanup(self._pipe, open_fds)
+            raise
 
-            # From here on, each command owns its end of the pipes (close=True)
-            # and closes it exactly once.
-            open_fds.clear()
-
-            if self._capturing:
-                stdin, stdout, stderr = await self._setup_capturing(cmds)
-            else:
-                for cmd in cmds:
-                    self.add_task(cmd.coro(_raise_timeout=self._raise_timeout()))
+        # From here on, each command owns its end of the pipes (close=True)
+        # and closes it exactly once.
 
-            self.stdin = stdin
-            self.stdout = stdout
-            self.stderr = stderr
+        if self._capturing:
+            stdin, stdout, stderr = await self._setup_capturing(cmds)
+        else:
+            for cmd in cmds:
+                self.add_task(cmd.coro(_raise_timeout=self._raise_timeout()))
 
-            return self
+        self.stdin = stdin
+        self.stdout = stdout
+        self.stderr = stderr
 
-        except BaseException:  # pylint: disable=broad-except
-            # Clean up after any exception *including* CancelledError.
-            close_fds(open_fds)
-            raise
+        return self
 
     def _setup_pipeline(self, open_fds: list[int]):
         """Return the pipeline stitched together with pipe fd's.
-- 
2.43.0


From 94f5de3ab1c100139f8591db8376050e6f7cd007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:14 +0000
Subject: [PATCH 36/44] fix: a descriptor given to two streams with close=True
 was closed twice

close_fds() closed every entry of the list of open descriptors.  A
descriptor that is redirected to both stdout and stderr (or also passed
with pass_fds) with a close flag appears in the list twice; by the time
of the second close its number may belong to somebody else.
---
 shellous/util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/shellous/util.py b/shellous/util.py
index 0462722..e739034 100644
--- a/shellous/util.py
+++ b/shellous/util.py
@@ -57,12 +57,14 @@ class SupportsClose(Protocol):
 
 
 def close_fds(open_fds: Iterable[Union[SupportsClose, int]]) -> None:
-    "Close open file descriptors or file objects."
+    "Close open file descriptors or file objects (each descriptor only once)."
+    closed: set[int] = set()
     with log_timer("close_fds"):
         try:
             for obj in open_fds:
                 if isinstance(obj, int):
-                    if obj >= 0:
+                    if obj >= 0 and obj not in closed:
+                        closed.add(obj)
                         try:
                             os.close(obj)
                         except OSError as ex:
-- 
2.43.0


From fa77ba0f1d8612dbe3791f8656b381db095fcada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:32 +0000
Subject: [PATCH 37/44] fix: descriptors of process substitutions leaked when a
 command could not start

When a command fails before its process substitutions are set up (or when
a substitution that is itself never launched contains another one), the
descriptors given to them with close=True were not closed. Clean up the
substitutions in the arguments, too.
---
 shellous/runner.py | 46 +++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 6c1de2d..15dce36 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -134,12 +134,10 @@ class _RunOptions:
                 LOGGER.debug("_RunOptions.enter %r ex=%r", self.command.name, ex)
             # `__exit__` is not called. Close everything opened so far, together
             # with the remaining descriptors that the command must close.
-            _cleanup(self.command, self.open_fds)
+            _cleanup(self.command, self.open_fds, self.subcmds)
             if self.pty_fds:
                 self.pty_fds.close()
                 self.pty_fds = None
-            for subcmd in self.subcmds:
-                _cleanup(subcmd)
             raise
 
         assert _cmd is self.command, "self.command should remain unchanged"
@@ -1413,10 +1411,13 @@ def _is_multiple_capture(cmd: "shellous.Command[Any]"):
 def _cleanup(
     command: "Union[shellous.Command[Any], shellous.Pipeline[Any]]",
     opened: Iterable[Any] = (),
+    subcmds: "Iterable[Union[shellous.Command[Any], shellous.Pipeline[Any]]]" = (),
 ):
     """Close remaining file descriptors that need to be closed.
 
-    Also close the descriptors already `opened` (each descriptor only once).
+    Also close the descriptors already `opened` (each descriptor only once), and
+    those of the process substitutions. `subcmds` are the process substitutions
+    that have been set up already.
     """
 
     def _add_close(close: bool, fdesc: Any):
@@ -1424,20 +1425,35 @@ def _cleanup(
             if isinstance(fdesc, (int, io.IOBase)):
                 open_fds.append(fdesc)
 
-    open_fds: list[Any] = list(opened)
+    def _add_command(
+        command: "Union[shellous.Command[Any], shellous.Pipeline[Any]]",
+    ):
+        if isinstance(command, shellous.Pipeline):
+            cmds = command.commands
+        else:
+            cmds = (command,)
 
-    if isinstance(command, shellous.Pipeline):
-        cmds = command.commands
-    else:
-        cmds = (command,)
+        for cmd in cmds:
+            _add_close(cmd.options.input_close, cmd.options.input)
+            _add_close(cmd.options.output_close, cmd.options.output)
+            _add_close(cmd.options.error_close, cmd.options.error)
+
+            for fdesc in cmd.options.pass_fds:
+                _add_close(cmd.options.pass_fds_close, fdesc)
 
-    for cmd in cmds:
-        _add_close(cmd.options.input_close, cmd.options.input)
-        _add_close(cmd.options.output_close, cmd.options.output)
-        _add_close(cmd.options.error_close, cmd.options.error)
+            for arg in cmd.args:
+                if isinstance(arg, (shellous.Command, shellous.Pipeline)):
+                    # Process substitution replaces this redirection by a pipe.
+                    if _is_writable(arg):
+                        _add_command(arg.stdin(Redirect.DEVNULL))
+                    else:
+                        _add_command(arg.stdout(Redirect.DEVNULL))
+
+    open_fds: list[Any] = list(opened)
 
-        for fdesc in cmd.options.pass_fds:
-            _add_close(cmd.options.pass_fds_close, fdesc)
+    _add_command(command)
+    for subcmd in subcmds:
+        _add_command(subcmd)
 
     close_fds(open_fds)
 
-- 
2.43.0


From bd84699a9cfc51969f170346795bf0694b98eb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:39 +0000
Subject: [PATCH 38/44] fix: pipeline raised AssertionError and leaked its
 pipes when a command's task was cancelled before it began

---
 shellous/runner.py | 55 +++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 50 insertions(+), 5 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 15dce36..76aeff6 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -802,7 +802,7 @@ class Runner:
 
         # Launch the process substitution commands (if any).
         for cmd in opts.subcmds:
-            self.add_task(cmd.coro(), "procsub")
+            _add_command_task(self, cmd, "procsub")
 
     @log_method(LOG_DETAIL)
     async def _open_pty_streams(self, opts: _RunOptions):
@@ -1210,11 +1210,26 @@ class PipeRunner:
                 except asyncio.CancelledError:
                     self._cancelled = True
 
-        cancelled, self._results = await harvest_results(*self._tasks, trustee=self)
+        cancelled, results = await harvest_results(*self._tasks, trustee=self)
         if cancelled:
             self._cancelled = True
+        self._results = [
+            self._not_started() if _is_cancelled(item) else item for item in results
+        ]
         self._tasks.clear()  # clear all tasks when done
 
+    def _not_started(self) -> ResultError:
+        "Result of a command whose task was cancelled before it began."
+        return ResultError(
+            Result(
+                exit_code=CANCELLED_EXIT_CODE,
+                output_bytes=b"",
+                error_bytes=b"",
+                cancelled=True,
+                encoding=self._encoding,
+            )
+        )
+
     @log_method(LOG_DETAIL)
     async def __aenter__(self) -> "PipeRunner":
         "Set up redirections and launch pipeline."
@@ -1291,7 +1306,7 @@ class PipeRunner:
             stdin, stdout, stderr = await self._setup_capturing(cmds)
         else:
             for cmd in cmds:
-                self.add_task(cmd.coro(_raise_timeout=self._raise_timeout()))
+                _add_command_task(self, cmd, _raise_timeout=self._raise_timeout())
 
         self.stdin = stdin
         self.stdout = stdout
@@ -1330,8 +1345,13 @@ class PipeRunner:
             fut = loop.create_future()
             futs.append(fut)
             # Tag each task name with the index of the command in the pipe.
-            coro = cmd.coro(_run_future=fut, _raise_timeout=self._raise_timeout())
-            task = self.add_task(coro, str(i))
+            task = _add_command_task(
+                self,
+                cmd,
+                str(i),
+                _run_future=fut,
+                _raise_timeout=self._raise_timeout(),
+            )
             # If the command fails to launch, don't wait for it to be ready.
             task.add_done_callback(functools.partial(_propagate_failure, fut))
 
@@ -1383,6 +1403,31 @@ class PipeRunner:
         return result.output
 
 
+def _add_command_task(
+    run: "Union[Runner, PipeRunner]",
+    cmd: "Union[shellous.Command[Any], shellous.Pipeline[Any]]",
+    tag: str = "",
+    **kwds: Any,
+) -> asyncio.Task[Any]:
+    "Add a background task to `run` that runs another command or pipeline."
+    started = False
+
+    async def _run() -> Any:
+        nonlocal started
+        started = True
+        return await cmd.coro(**kwds)
+
+    def _done(_task: asyncio.Task[Any]):
+        # If the task was cancelled before it began (e.g. by `asyncio.run`, which
+        # cancels all tasks), nobody else closes the command's descriptors.
+        if not started:
+            _cleanup(cmd)
+
+    task = run.add_task(_run(), tag)
+    task.add_done_callback(_done)
+    return task
+
+
 def _propagate_failure(fut: "asyncio.Future[Runner]", task: asyncio.Task[Any]):
     "Done callback: resolve `fut` if the task ended without ever setting it."
     if fut.done():
-- 
2.43.0


From 6d849176ef14a21419b92c940d3240fefc176329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:43 +0000
Subject: [PATCH 39/44] fix: a cancellation was lost if it arrived at the end
 of the clean-up after an exception or an early exit

---
 shellous/runner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shellous/runner.py b/shellous/runner.py
index 76aeff6..b694834 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -957,6 +957,7 @@ class Runner:
         except asyncio.CancelledError:
             LOGGER.debug("Runner cancelled inside _finish %r", self)
             self._set_cancelled()
+            suppress = exc_value is not None
         finally:
             self._stop_timer()  # failsafe just in case
             timed_out = self._undo_timer_cancel()
@@ -1257,6 +1258,7 @@ class PipeRunner:
         except asyncio.CancelledError:
             LOGGER.warning("PipeRunner cancelled inside _finish %r", self)
             self._cancelled = True
+            suppress = exc_value is not None
         # If a command failed with an exception other than ResultError (e.g.
         # TimeoutError when its `timeout` expired), raise it.
         if exc_value is None and not self._cancelled:
-- 
2.43.0


From 70454be802b0bf58f2be075181cc6fa79e35dfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:18 +0000
Subject: [PATCH 40/44] fix: a cancellation was lost if it arrived while a run
 that had failed was being terminated

---
 shellous/runner.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index b694834..8707ac6 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -573,7 +573,8 @@ class Runner:
             LOGGER.debug("Runner.wait exited with error %r ex=%r", self, ex)
             self._tasks.clear()  # all tasks were cancelled
             await self._kill()
-            raise  # re-raise exception
+            if not self._cancelled:
+                raise  # re-raise exception, unless cancelled meanwhile
 
     @log_method(LOG_DETAIL)
     async def _wait_pid(self):
@@ -764,6 +765,8 @@ class Runner:
                     self._proc._transport.close()  # pyright: ignore
                 if self._options.pty_fds:
                     self._options.pty_fds.close()
+            if self._cancelled and not _is_cancelled(ex):
+                raise asyncio.CancelledError() from ex  # cancelled meanwhile
             raise
 
         # Make final streams available. These may be different from `self.proc`
-- 
2.43.0


From 80b9429d8f52e345be204ae88506e3131f6e5619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:46 +0000
Subject: [PATCH 41/44] fix: a cancellation that arrived while a process was
 being launched was lost if the launch failed

---
 shellous/util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/shellous/util.py b/shellous/util.py
index e739034..feeccff 100644
--- a/shellous/util.py
+++ b/shellous/util.py
@@ -148,7 +148,11 @@ async def uninterrupted(coro: Coroutine[Any, Any, _T]) -> _T:
 
     except asyncio.CancelledError:
         if not task.cancelled():
-            await task
+            try:
+                await task
+            except Exception as ex:
+                # This must not replace the cancellation.
+                LOGGER.debug("uninterrupted cancelled %r ex=%r", task, ex)
         raise
 
 
-- 
2.43.0


From d8e15b52528569f7f21e898898d5c6a3c38e9585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:46 +0000
Subject: [PATCH 42/44] fix: a cancellation was lost if it arrived after a
 command of a pipeline had failed

---
 shellous/runner.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 8707ac6..acdd7cb 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -1174,6 +1174,10 @@ class PipeRunner:
         "Return `Result` object for PipeRunner."
         assert self._results is not None
 
+        if check:
+            # This takes precedence over an exception raised by a command.
+            self._check_cancelled()
+
         result = convert_result_list(self._results, self._cancelled)
         if not check:
             return result
@@ -1245,6 +1249,8 @@ class PipeRunner:
                 self._cancelled = True
             if self._tasks:
                 await self._wait(kill=True)
+            if self._cancelled and not _is_cancelled(ex):
+                raise asyncio.CancelledError() from ex  # cancelled meanwhile
             raise
 
     @log_method(LOG_DETAIL)
@@ -1361,8 +1367,10 @@ class PipeRunner:
             task.add_done_callback(functools.partial(_propagate_failure, fut))
 
         # When capturing, every command in the pipe signals when it is ready.
-        # We need the streams from the first and last commands.
-        ready = await asyncio.gather(*futs)
+        # We need the streams from the first and last commands. (Unlike
+        # `gather`, `wait` never loses a cancellation.)
+        await asyncio.wait(futs, return_when=asyncio.FIRST_EXCEPTION)
+        ready = [fut.result() for fut in futs if fut.done()]
         first_ready, last_ready = ready[0], ready[-1]
 
         stdin, stdout, stderr = (
@@ -1440,6 +1448,7 @@ def _propagate_failure(fut: "asyncio.Future[Runner]", task: asyncio.Task[Any]):
     ex = None if task.cancelled() else task.exception()
     if ex is not None:
         fut.set_exception(ex)
+        fut.exception()  # Only one exception is raised; don't log the others.
     else:
         fut.cancel()
 
-- 
2.43.0


From 51721cf263e3a3814523c0790c7be2f0ca8e2f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:01 +0000
Subject: [PATCH 43/44] fix: the exception of a pipeline's command replaced the
 CancelledError (or the exception) of a prompt block

---
 shellous/pipeline.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/shellous/pipeline.py b/shellous/pipeline.py
index 12d39f8..786686b 100644
--- a/shellous/pipeline.py
+++ b/shellous/pipeline.py
@@ -138,7 +138,14 @@ class Pipeline(Generic[_RT]):
                 yield cli
                 cli.close()
             run._check_cancelled()  # pyright: ignore[reportPrivateUsage]
-        finally:
+        except BaseException:
+            if cli is not None:
+                # There is no result when a command raised an exception; that
+                # must not replace the original exception (or cancellation).
+                with contextlib.suppress(Exception):
+                    cli._finish_()  # pyright: ignore[reportPrivateUsage]
+            raise
+        else:
             if cli is not None:
                 cli._finish_()  # pyright: ignore[reportPrivateUsage]
 
-- 
2.43.0


From fc9117b3aa47a0f5f9b67b7a0c88b1c23c3dcc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:05 +0000
Subject: [PATCH 44/44] fix: pass_fds given as an iterator was used up by the
 first use (descriptors were not closed), a list could be changed afterwards

---
 shellous/command.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shellous/command.py b/shellous/command.py
index d860f6a..5c23bd5 100644
--- a/shellous/command.py
+++ b/shellous/command.py
@@ -251,6 +251,9 @@ class Options:  # pylint: disable=too-many-instance-attributes
                 kwds["env"] = EnvironmentDict(None, new_env)
             else:
                 kwds["env"] = None
+        if "pass_fds" in kwds:
+            # Make a copy; an iterator can be used only once.
+            kwds["pass_fds"] = tuple(kwds["pass_fds"])
         return dataclasses.replace(self, **kwds)
 
     @overload
-- 
2.43.0

