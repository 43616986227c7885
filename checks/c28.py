"C28: ending an event loop ends its runs; event loops do not disturb each other."

import asyncio
import logging
import os
import signal
import subprocess
import sys
import threading
import time

from hypothesis import strategies as st

import shellous
from shellous import raw, sh

from vlib.base import Violation, children, open_fds, text_pattern
from vlib.rt import pipe, read_to_end

META = {
    "level": "exploration",
    "technique": "property-based testing: programs of one to three event loops (threads, successive asyncio.run calls, asyncio.Runner) that end by return, exception, cancellation, SIGINT, SystemExit or loop.stop() at generated moments while runs are in progress; oracle over the audit history, the processes, descriptors, threads and the outcome of every run",
    "level_note": "Random search over 1-3 threads x 1-2 loops x 1-4 runs (await, async for finished/left/kept/dropped, async with, prompt; pipelines, substitutions, pty) and the moment of the end (0-60 loop steps or 0-40 ms).",
    "rule": "A case is a program of event loops. Non-trivial: a loop ends while a run is in progress, or two loops run at once.",
    "examples": {"quick": 4000, "thorough": 100000},
    "workers": 12,
    "budget": {"quick": 26, "thorough": 700},
}
HANG = 30.0
MODES = ["await", "await", "iter", "with", "prompt", "keep", "drop", "break"]
ENDS = ["all", "return", "raise", "cancel", "sigint", "sysexit", "sysexit_body", "stop"]


@st.composite
def use(draw):
    u = {"mode": draw(st.sampled_from(MODES)), "n": draw(st.sampled_from([1, 1, 1, 2, 3])), "kind": draw(st.sampled_from(["exit", "exit", "pause"])),
         "len": draw(st.sampled_from([0, 10, 3000, 200_000])), "ms": draw(st.sampled_from([0, 0, 1, 10])),
         "term": draw(st.sampled_from(["dfl", "dfl", "exit", "slow", "ign"])), "sub": draw(st.sampled_from([False, False, True])), "pty": False}
    if u["n"] == 1 and not u["sub"] and draw(st.integers(0, 5)) == 3:
        u["pty"] = True
        u["len"] = min(u["len"], 3000)
    return u


@st.composite
def strategy_(draw, tier):
    n = draw(st.sampled_from([1, 1, 1, 2, 3]))
    case = {"uses": draw(st.lists(use(), min_size=1, max_size=4)), "share": draw(st.booleans()), "loops": [],
            "watch": draw(st.sampled_from(["", "", "", "default", "thread"]))}
    for i in range(n):
        end = draw(st.sampled_from(ENDS))
        if i and end == "sigint":
            end = "cancel"
        case["loops"].append({
            "end": end, "at": [draw(st.sampled_from(["tick", "tick", "ms", "ready"])), draw(st.one_of(st.integers(0, 14), st.integers(0, 60)))],
            "rounds": draw(st.sampled_from([1, 1, 2])), "via": draw(st.sampled_from(["run", "run", "runner"])),
            "eager": draw(st.integers(0, 5)) == 2, "debug": draw(st.integers(0, 9)) == 4, "own": draw(st.booleans()),
        })
    return case


def strategy(tier):
    return strategy_(tier)


class Boom(Exception):
    pass


class Rec:
    "Audit events per thread."

    def __init__(self):
        self.events = {}

    def __call__(self, phase, info):
        r = info["runner"]
        self.events.setdefault(threading.get_ident(), []).append((phase, r, r.pid))

    def __repr__(self):
        return "Rec"


def build(ctx, case, rec):
    out = []
    for k, u in enumerate(case["uses"]):
        cmds = []
        expect = b"x\n"
        data = text_pattern(k + 1, u["len"])
        for i in range(u["n"]):
            final = i == u["n"] - 1
            ops, args = [], []
            if u["term"] in ("exit", "slow"):
                ops.append("sig:15:exit:3" + (":30" if u["term"] == "slow" else ""))
            elif u["term"] == "ign":
                ops.append("sig:15:ign")
            if final:
                ops.append("w:1:780a")
                if u["sub"]:
                    args = ["if:120", sh(ctx.vchild, "t:1:90:500").set(audit_callback=rec, alt_name=f"use{k}")]
                    ops += ["in:120", "cat", "in:0"]
                    expect += text_pattern(90, 500)
            if i == 0:
                ops += [f"t:1:{k + 1}:{u['len']}"] if u["len"] else []
                if u["ms"]:
                    ops.append(f"s:{u['ms']}")
                ops.append("pause" if u["kind"] == "pause" else "x:0")
            else:
                ops.append("cat")
            cmd = sh(ctx.vchild, *args, *ops).set(audit_callback=rec, alt_name=f"use{k}", encoding="latin-1", cancel_timeout=0.1 if u["term"] == "ign" else 5)
            if u["pty"]:
                cmd = cmd.set(pty=raw())
            cmds.append(cmd)
        target = pipe(cmds)
        if u["mode"] == "with":
            target = target.stdout(sh.CAPTURE)  # (One object, entered in several loops.)
        out.append((target, (expect + data).decode("latin-1")))
    return out


class Prog:
    "One event loop."

    def __init__(self, ctx, case, spec, cmds, rec):
        self.ctx, self.case, self.spec, self.cmds, self.rec = ctx, case, spec, cmds, rec
        self.boom = Boom("main")
        self.problems = []
        self.log = []
        self.reached = False

    async def one(self, k, target, expect):
        u = self.case["uses"][k]
        mode = u["mode"]
        self.log[k] = "running"
        try:
            if mode == "await":
                got = await target
            elif mode == "iter":
                got = "".join([x async for x in target])
            elif mode == "with":
                async with target as run:
                    got = (await read_to_end(run.stdout)).decode("latin-1")
                run.result()
            elif mode == "prompt":
                async with target.prompt() as cli:
                    got = await cli.read_all()
                    cli.close()
            else:
                it = aiter(target)
                if mode == "keep":
                    self.kept.append(it)
                got = await anext(it)
                expect = "x\n"
                if mode == "break":
                    await it.aclose()
                del it
                if mode == "drop":
                    # (asyncio closes the iterator in a task, which must begin.)
                    for _ in range(3):
                        await asyncio.sleep(0)
            self.log[k] = "done"
        except asyncio.CancelledError:
            self.log[k] = "cancelled"
            if not self.reached:
                self.problems.append(f"{mode}: CancelledError before the end")
            raise
        except (SystemExit, KeyboardInterrupt):
            raise
        except BaseException as ex:
            self.log[k] = "failed"
            self.problems.append(f"{mode}: {ex!r} ({'after' if self.reached else 'before'} the end)")
            return
        if got != expect:
            self.problems.append(f"{mode}: got {got[:40]!r} ({len(got)}), expected {expect[:40]!r} ({len(expect)})")

    async def body(self, target):
        "SystemExit raised in the body of async with, in a task of its own."
        async with target.stdout(sh.CAPTURE):
            await asyncio.sleep(0)
            self.reached = True
            raise SystemExit(7)

    async def main(self):
        loop = asyncio.get_running_loop()
        loop.set_exception_handler(lambda _l, c: self.contexts.append(c))
        self.log = ["not started"] * len(self.cmds)
        self.kept = []
        self.reached = False
        self.extra = None
        end = self.spec["end"]
        own = self.spec["own"] and end in ("cancel", "sigint")
        tasks = []
        for k, (target, expect) in enumerate(self.cmds[own:]):
            # (All of the same name.)
            tasks.append(asyncio.create_task(self.one(k + own, target, expect), name="run"))
        self.tasks = tasks
        me = asyncio.current_task()
        if end == "all":
            finite = [t for t, u in zip(tasks, self.case["uses"]) if u["kind"] != "pause" or u["mode"] in ("keep", "drop", "break")]
            await asyncio.gather(*finite)
            await self.stable()
            self.reached = True
            return "value"
        if own:
            ender = asyncio.create_task(self.moment(self.interrupt, me, end))
            self.extra = ender
            await self.one(0, *self.cmds[0])
            await asyncio.sleep(60)
        if end in ("cancel", "sigint"):
            self.extra = asyncio.create_task(self.moment(self.interrupt, me, end))
            await asyncio.sleep(60)
        await self.moment(lambda *a: None)
        if end == "sysexit_body":
            self.extra = asyncio.create_task(self.body(self.cmds[0][0]))
            await asyncio.sleep(60)
        self.reached = True
        if end == "return":
            return "value"
        if end == "raise":
            raise self.boom
        if end == "sysexit":
            raise SystemExit(7)
        loop.stop()
        await asyncio.sleep(60)

    async def moment(self, fn, *args):
        kind, k = self.spec["at"]
        if kind == "tick":
            for _ in range(k):
                await asyncio.sleep(0)
        elif kind == "ms":
            await asyncio.sleep(k / 1000)
        else:
            for _ in range(2000):
                if all(x in ("done", "failed") for x in self.log) or len(self.rec.events.get(threading.get_ident(), ())) >= k % 4 + 1:
                    break
                await asyncio.sleep(0.001)
        own = self.spec["own"] and self.spec["end"] in ("cancel", "sigint")
        at_once = kind == "tick" and k == 0 and not self.spec["eager"] and self.spec["end"] in ("return", "raise", "sysexit")
        if not (own and len(self.cmds) == 1) and not at_once:
            await self.stable()
        fn(*args)

    async def stable(self):
        "Wait until nothing is being launched: see the finding `launching`."
        for _ in range(5000):
            if not self.launching():
                break
            await asyncio.sleep(0 if self.spec["at"][0] == "tick" else 0.001)

    def launching(self):
        "True if a process of a run is still to be launched."
        for k, u in enumerate(self.case["uses"]):
            if self.log[k] in ("failed", "cancelled") or (self.log[k] == "done" and u["mode"] not in ("keep", "drop")):
                continue
            if u["mode"] == "drop" and self.log[k] != "done":
                return True  # asyncio forgets iterators dropped at the end
            ready = set()
            for phase, r, _ in self.rec.events.get(threading.get_ident(), ())[self.before:]:
                if r.name == f"use{k}" and (r.pid is not None or phase == "stop"):
                    ready.add(r)
            if len(ready) < u["n"] + u["sub"]:
                return True
        return False

    def interrupt(self, me, end):
        if me.done():
            return
        self.reached = True
        if end == "sigint":
            signal.raise_signal(signal.SIGINT)
        else:
            me.cancel()

    def factory(self):
        loop = asyncio.new_event_loop()
        if self.spec["eager"]:
            loop.set_task_factory(asyncio.eager_task_factory)
        return loop

    def execute(self):
        "Returns what came out of the loop."
        self.contexts = []
        try:
            if self.spec["via"] == "run":
                return ("ok", asyncio.run(self.main(), debug=self.spec["debug"], loop_factory=self.factory))
            with asyncio.Runner(debug=self.spec["debug"], loop_factory=self.factory) as runner:
                return ("ok", runner.run(self.main()))
        except BaseException as ex:  # pylint: disable=broad-except
            return ("exc", ex)

    def round(self):
        ident = threading.get_ident()
        self.before = before = len(self.rec.events.get(ident, ()))
        got = self.execute()
        where = f"{self.spec['via']} {self.spec['end']} at {self.spec['at']}: {got[1]!r}, runs {list(zip([u['mode'] for u in self.case['uses']], self.log))}"
        if any(x == "running" or x == "cancelled" for x in self.log):
            self.ctx.nontrivial()
        self.kept = []
        events = self.rec.events.get(ident, ())[before:]
        started, stopped = [], []
        for phase, r, pid in events:
            if phase == "start":
                started.append(r)
            elif phase == "stop":
                stopped.append(r)
                if pid is not None and os.path.exists(f"/proc/{pid}"):
                    raise Violation(f"{where}: process {pid} of the loop still exists")
        for r in started:
            if not any(r is s for s in stopped):
                raise Violation(f"{where}: {r.name} was started and never stopped: {r!r}")
        if self.problems:
            raise Violation(f"{where}: {self.problems}")
        end = self.spec["end"]
        want = {"all": ("ok", "value"), "return": ("ok", "value")}.get(end)
        kind = {"raise": Boom, "cancel": asyncio.CancelledError, "sigint": KeyboardInterrupt, "sysexit": SystemExit, "sysexit_body": SystemExit, "stop": RuntimeError}.get(end)
        if want and got != want:
            raise Violation(f"{where}: expected a normal return")
        if kind and (got[0] != "exc" or type(got[1]) is not kind or (end == "raise" and got[1] is not self.boom)):
            raise Violation(f"{where}: expected {kind.__name__}")
        bad = []
        for c in self.contexts:
            msg = c.get("message") or ""
            if isinstance(c.get("exception"), (SystemExit, KeyboardInterrupt)):
                continue
            if "during asyncio.run() shutdown" in msg:
                continue  # a stage of a cancelled pipeline ends with ResultError
            bad.append((msg, repr(c.get("exception")), c.get("task") and c["task"].get_name()))
        if bad:
            raise Violation(f"{where}: the loop's exception handler was called: {bad}")
        left = [t.get_name() for t in self.tasks if not t.done()]
        if left:
            raise Violation(f"{where}: tasks {left} are not done")


SCRIPT = """
import asyncio, sys
from shellous import sh
async def main():
    task = asyncio.create_task(sh(sys.argv[1], "x:0").coro())
    for _ in range(int(sys.argv[2])):
        await asyncio.sleep(0)
asyncio.run(main())
"""


def launching(case, ctx):
    "The loop ends while a process is being launched, in a process of its own."
    env = {**os.environ, "PYTHONPATH": os.path.dirname(os.path.dirname(shellous.__file__))}
    proc = subprocess.Popen([sys.executable, "-B", "-c", SCRIPT, ctx.vchild, str(case["launching"])], env=env, stderr=subprocess.DEVNULL, start_new_session=True)
    try:
        proc.wait(6)
    except subprocess.TimeoutExpired:
        raise Violation("asyncio.run never returns when the main coroutine returns while a process is being launched") from None
    finally:
        try:
            os.killpg(proc.pid, signal.SIGKILL)
        except OSError:
            pass
        proc.wait()


def run(case, ctx):
    if "launching" in case:
        launching(case, ctx)
        return
    ctx.label(f"loops:{len(case['loops'])}", *("end:" + s["end"] for s in case["loops"]), *("mode:" + u["mode"] for u in case["uses"]))
    ctx.nontrivial(len(case["loops"]) > 1)
    logging.getLogger("asyncio").setLevel(logging.ERROR)
    watcher = None
    if case["watch"]:
        from shellous.watcher import DefaultChildWatcher

        watcher = DefaultChildWatcher(thread_strategy=case["watch"] == "thread")
        asyncio.set_child_watcher(watcher)
    else:
        asyncio.set_child_watcher(None)
    old = signal.signal(signal.SIGINT, signal.default_int_handler)
    try:
        go(case, ctx)
    finally:
        signal.signal(signal.SIGINT, old)
        if watcher:
            watcher.close()
        asyncio.set_child_watcher(None)


def go(case, ctx):
    async def warm():
        await sh(ctx.vchild, "x:0")

    asyncio.run(warm())
    time.sleep(0)
    base = settled(None)
    threads0 = threading.active_count()
    rec = Rec()
    shared = build(ctx, case, rec)
    failures = []
    progs = []
    for spec in case["loops"]:
        cmds = shared if case["share"] else build(ctx, case, rec)
        progs.append(Prog(ctx, case, spec, cmds, rec))

    def work(p):
        try:
            for _ in range(p.spec["rounds"]):
                p.round()
                if len(progs) == 1:
                    tidy(base, f"{p.spec['via']} {p.spec['end']} at {p.spec['at']}")
        except BaseException as ex:  # pylint: disable=broad-except
            failures.append(ex)

    threads = [threading.Thread(target=work, args=(p,), daemon=True) for p in progs[1:]]
    for t in threads:
        t.start()
    work(progs[0])
    for t in threads:
        t.join(HANG)
        if t.is_alive():
            frame = sys._current_frames().get(t.ident)
            at = f"{frame.f_code.co_filename}:{frame.f_lineno}" if frame else ""
            for kid in children():
                os.kill(kid, signal.SIGKILL)
            t.join(5)
            raise Violation(f"hang: an event loop is still running after {HANG:g}s at {at}")
    for ex in failures:
        if isinstance(ex, Violation):
            raise ex
    for ex in failures:
        raise ex
    tidy(base, f"{[s['end'] for s in case['loops']]}")
    end = time.monotonic() + 3
    while threading.active_count() > threads0:
        if time.monotonic() > end:
            raise Violation(f"threads left over: {[t.name for t in threading.enumerate()]}")
        time.sleep(0.002)


def settled(_):
    "The descriptors, when the watcher is done with the first process."
    end = time.monotonic() + 2
    while any("pidfd" in v for v in open_fds().values()) and time.monotonic() < end:
        time.sleep(0.001)
    return open_fds()


def tidy(base, where):
    end = time.monotonic() + 3
    while True:
        kids = children()
        extra = {k: v for k, v in open_fds().items() if k not in base}
        if not kids and not extra:
            return
        if time.monotonic() > end:
            raise Violation(f"{where}: left over: children {kids} descriptors {extra}")
        time.sleep(0.002)
