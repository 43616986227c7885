"Core of the harness: cases, violations, event-loop runner, hygiene snapshots."

import asyncio
import gc
import itertools
import json
import logging
import os
import signal
import sys
import time
import traceback
import warnings
import zlib

warnings.filterwarnings("ignore", category=DeprecationWarning)


class Violation(Exception):
    "The property does not hold for the current case."


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def same(got, want, what):
    if got != want or type(got) is not type(want):
        raise Violation(f"{what}: got {short(got)}, expected {short(want)}")


def short(x, n=300):
    if isinstance(x, (bytes, bytearray)) and len(x) > 80:
        return f"{type(x).__name__}[{len(x)}] {bytes(x[:30])!r}...{bytes(x[-30:])!r}"
    if isinstance(x, str) and len(x) > 80:
        return f"str[{len(x)}] {x[:30]!r}...{x[-30:]!r}"
    r = repr(x)
    return r if len(r) <= n else r[: n - 3] + "..."


# ---- case (de)serialisation -------------------------------------------------


def enc(x):
    if isinstance(x, (bytes, bytearray)):
        return {"$b": bytes(x).hex()}
    if isinstance(x, dict):
        assert "$b" not in x
        return {k: enc(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [enc(v) for v in x]
    return x


def dec(x):
    if isinstance(x, dict):
        if "$b" in x:
            return bytes.fromhex(x["$b"])
        return {k: dec(v) for k, v in x.items()}
    if isinstance(x, list):
        return [dec(v) for v in x]
    return x


def dumps(case):
    return json.dumps(enc(case), ensure_ascii=True, sort_keys=True)


def loads(text):
    return dec(json.loads(text))


# ---- data patterns shared with vchild.c -------------------------------------

_TAB = bytes((j * 7) & 255 for j in range(256)) * 2
_INV7 = 183  # 7 * 183 == 1 (mod 256)
_TEXT = bytes(10 if c % 17 == 0 else 97 + c % 26 for c in range(256))


def pattern(seed, length):
    "Bytes written by op p:FD:SEED:LEN."
    out = []
    for hi in range((length + 255) // 256):
        base = (seed * 131 + hi * 13 + (hi >> 8) * 29) & 255
        r = (base * _INV7) & 255
        out.append(_TAB[r : r + 256])
    return b"".join(out)[:length]


def text_pattern(seed, length):
    "Bytes written by op t:FD:SEED:LEN."
    return pattern(seed, length).translate(_TEXT)


def cnt_line(data):
    return b"n=%d h=%08x\n" % (len(data), zlib.crc32(data) & 0xFFFFFFFF)


# ---- hygiene ----------------------------------------------------------------


def open_fds():
    out = {}
    d = os.open("/proc/self/fd", os.O_RDONLY | os.O_DIRECTORY)
    try:
        names = os.listdir(d)
    finally:
        os.close(d)
    for name in names:
        fd = int(name)
        if fd == d:
            continue
        try:
            out[fd] = os.readlink(f"/proc/self/fd/{name}")
        except OSError:
            pass
    return out


def children(pid=None):
    "Return {pid: state} of the direct children, zombies included."
    pid = pid or os.getpid()
    kids = {}
    pids = set()
    try:
        for tid in os.listdir(f"/proc/{pid}/task"):
            try:
                with open(f"/proc/{pid}/task/{tid}/children") as f:
                    pids.update(int(x) for x in f.read().split())
            except OSError:
                pass
    except OSError:
        pass
    for kid in pids:
        try:
            with open(f"/proc/{kid}/stat") as f:
                kids[kid] = f.read().rsplit(")", 1)[1].split()[0]
        except OSError:
            pass
    return kids


def alive(pid):
    "True if the process exists and is not a zombie."
    try:
        with open(f"/proc/{pid}/stat") as f:
            return f.read().rsplit(")", 1)[1].split()[0] not in "ZX"
    except OSError:
        return False


def reap_all():
    for kid in children():
        try:
            os.kill(kid, signal.SIGKILL)
        except OSError:
            pass
    end = time.monotonic() + 5
    while children() and time.monotonic() < end:
        try:
            pid, _ = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            break
        if pid == 0:
            time.sleep(0.002)


def slow_start(loop, exec_ms, pipe_ms):
    "Starting a process, and connecting a pipe to it, take their time."

    def delay(name, t):
        real = getattr(loop, name)
        factor = itertools.cycle([1, 0, 2])

        async def call(*args, **kwargs):
            await asyncio.sleep(t * next(factor) / 1000)
            return await real(*args, **kwargs)

        setattr(loop, name, call)

    if exec_ms:
        delay("subprocess_exec", exec_ms)
    if pipe_ms:
        delay("connect_read_pipe", pipe_ms)
        delay("connect_write_pipe", pipe_ms)


class Ctx:
    "Per-worker state handed to every case."

    def __init__(self, scratch, vchild, tier, hang=25.0):
        self.scratch = scratch
        self.vchild = vchild
        self.tier = tier
        self.hang = hang
        self.labels = {}
        self.case_labels = set()
        self.interesting = False
        self.n = 0
        self.dir = None
        self.loop_errors = []
        self.leftover = []
        self.confirming = False

    # case-level API
    def begin(self):
        self.n += 1
        self.case_labels = set()
        self.interesting = False
        self.loop_errors = []
        self.leftover = []
        self.dir = os.path.join(self.scratch, f"c{self.n}")
        os.mkdir(self.dir)
        self.baseline = open_fds()

    def end(self):
        "Put the worker back in a clean state whatever the case did."
        if children():
            reap_all()
        extra = [fd for fd in open_fds() if fd not in self.baseline]
        if extra:
            gc.collect()
            for fd in list(open_fds()):
                if fd not in self.baseline:
                    try:
                        os.close(fd)
                    except OSError:
                        pass
        import shutil

        shutil.rmtree(self.dir, ignore_errors=True)
        for lab in self.case_labels:
            self.labels[lab] = self.labels.get(lab, 0) + 1

    def label(self, *names):
        self.case_labels.update(names)

    def nontrivial(self, cond=True):
        if cond:
            self.interesting = True

    def path(self, name):
        return os.path.join(self.dir, name)

    # running coroutines
    def aio(self, fn, *, hang=None, eager=False, watcher=None, slow=None, keep=()):
        """Run `await fn()` in a fresh event loop, under the hang watchdog.

        Afterwards `self.leftover` lists tasks still pending at the end and
        `self.loop_errors` what reached the loop's exception handler.
        """
        hang = hang or self.hang
        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        if eager:
            loop.set_task_factory(asyncio.eager_task_factory)
        loop.set_exception_handler(lambda _l, c: self.loop_errors.append(c))
        if slow:
            slow_start(loop, *slow)
        w = None
        self.watcher = watcher
        if watcher:
            from shellous.watcher import DefaultChildWatcher

            w = DefaultChildWatcher(thread_strategy=(watcher == "thread"))
            asyncio.set_child_watcher(w)
        try:
            return self._aio(loop, fn, hang)
        finally:
            try:
                self._drain(loop)
            finally:
                asyncio.set_event_loop(None)
                loop.close()
                if w is not None:
                    w.close()
                    asyncio.set_child_watcher(None)

    def _aio(self, loop, fn, hang):
        async def main():
            task = loop.create_task(fn(), name="case-main")
            _, pending = await asyncio.wait({task}, timeout=hang)
            if pending:
                where = self._where(task)
                for kid in children():
                    try:
                        os.kill(kid, signal.SIGKILL)
                    except OSError:
                        pass
                for _ in range(3):
                    task.cancel()
                    await asyncio.wait({task}, timeout=1.0)
                    if task.done():
                        break
                raise Violation(f"hang: still running after {hang:g}s at {where}")
            me = asyncio.current_task()
            self.leftover = [
                t for t in asyncio.all_tasks(loop) if t is not me and not t.done()
            ]
            if task.cancelled():
                raise Violation("the case's own task ended cancelled")
            return task.result()

        return loop.run_until_complete(main())

    @staticmethod
    def _where(task):
        frames = task.get_stack(limit=6)
        return " < ".join(
            f"{os.path.basename(f.f_code.co_filename)}:{f.f_lineno}:{f.f_code.co_name}"
            for f in reversed(frames)
        )

    def _drain(self, loop):
        "Finish whatever a failed case left in the loop."

        async def drain():
            me = asyncio.current_task()
            for _ in range(3):
                tasks = [t for t in asyncio.all_tasks(loop) if t is not me]
                if not tasks:
                    break
                for t in tasks:
                    t.cancel()
                await asyncio.wait(tasks, timeout=1.0)
                for t in tasks:
                    if t.done() and not t.cancelled():
                        t.exception()
            kids = children()
            if kids:
                for kid in kids:
                    try:
                        os.kill(kid, signal.SIGKILL)
                    except OSError:
                        pass
                end = time.monotonic() + 0.3
                while children() and time.monotonic() < end:
                    await asyncio.sleep(0.005)

        try:
            loop.run_until_complete(drain())
            loop.run_until_complete(loop.shutdown_asyncgens())
        except Exception:  # the loop may be unusable after a violation
            pass

    async def base(self):
        "Take the baseline of descriptors inside the running loop."
        if self.watcher:
            # The watcher opens its own descriptors when it is first used.
            proc = await asyncio.create_subprocess_exec(self.vchild)
            await proc.wait()
            end = time.monotonic() + 2
            while any("pidfd" in v for v in open_fds().values()) and time.monotonic() < end:
                await asyncio.sleep(0.001)
        return open_fds()

    async def settle(self, fds=None, limit=3.0, tasks=True):
        """Wait until descriptors, children and tasks are back at the baseline.

        Returns None, or a description of what is left over.
        """
        base = self.baseline if fds is None else fds
        me = asyncio.current_task()
        end = time.monotonic() + limit
        while True:
            now = open_fds()
            extra = {k: v for k, v in now.items() if k not in base}
            kids = children()
            others = []
            if tasks:
                others = [
                    t
                    for t in asyncio.all_tasks()
                    if t is not me and not t.done() and not _harness_task(t)
                ]
            if not extra and not kids and not others:
                return None
            if time.monotonic() > end:
                return (
                    f"descriptors {extra} children {kids} "
                    f"tasks {[t.get_name() for t in others]}"
                )
            await asyncio.sleep(0.002)


def _harness_task(task):
    coro = task.get_coro()
    return "base.py" in getattr(getattr(coro, "cr_code", None), "co_filename", "")


async def outcome(awaitable):
    "Return ('ok', value) or ('exc', exception)."
    try:
        return ("ok", await awaitable)
    except asyncio.CancelledError as ex:
        return ("exc", ex)
    except Exception as ex:  # pylint: disable=broad-except
        return ("exc", ex)


def describe(out):
    if out[0] == "ok":
        return f"returned {short(out[1])}"
    return f"raised {type(out[1]).__name__}: {short(out[1])}"


class ListHandler(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.records = []

    def emit(self, record):
        self.records.append(record.getMessage())


def quiet_logging():
    for name in ("shellous", "asyncio"):
        lg = logging.getLogger(name)
        lg.propagate = False
        lg.addHandler(logging.NullHandler())


def env_error(ex):
    "True for failures of the environment rather than of the code under test."
    import errno

    seen = set()
    while ex is not None and id(ex) not in seen:
        seen.add(id(ex))
        if isinstance(ex, MemoryError):
            return True
        if isinstance(ex, OSError) and ex.errno in (
            errno.EMFILE, errno.ENFILE, errno.ENOSPC, errno.ENOMEM, errno.EAGAIN,
            errno.EDQUOT,
        ):
            return True
        ex = ex.__cause__ or ex.__context__
    return False


def tb_text(ex):
    return "".join(traceback.format_exception(ex))[-4000:]
