"C14: cancellation at any moment kills the processes and leaks nothing."

import asyncio
import gc
import os

from hypothesis import strategies as st

from shellous import Pipeline, ResultError, sh
from vlib.base import Violation, children, describe, outcome
from vlib.rt import each, first, last, read_to_end, runner_of
from vlib.targets import SLOW, Canary, Target, overrides, targets

META = {
    "level": "exploration",
    "technique": "property-based testing with generated cancellation points: commands, pipelines, ptys, redirections and substitutions cancelled after k event-loop steps or t milliseconds of their lifetime, in every run mode and from every cancellation source; invariant over outcome, children, descriptors and tasks, then the same command is run again",
    "level_note": "Random search over targets x run mode x cancellation point (0-120 loop steps or 0-60 ms, optionally counted from the moment the processes exist) x source (task.cancel once or twice, asyncio.timeout, wait_for, TaskGroup).",
    "rule": "A case is a target with its resources, a run mode and a cancellation. Non-trivial: the cancellation reached the run before it had finished.",
    "examples": {"quick": 5000, "thorough": 100000},
    "budget": {"quick": 28, "thorough": 800},
}
MODES = ["await", "await", "result", "check", "iter", "iter_run", "iter_break", "with_boom", "prompt_boom", "with_sleep", "with_read", "with_pass", "with_stdin", "prompt_expect",
         "prompt_read", "prompt_send", "prompt_pass", "prompt_sleep"]
SOURCES = ["cancel", "cancel", "cancel", "double", "timeout", "wait_for", "group"]


@st.composite
def moment(draw):
    kind = draw(st.sampled_from(["tick", "tick", "started", "ms"]))
    n = draw(st.one_of(st.integers(0, 12), st.integers(0, 40), st.integers(0, 120)))
    if kind != "tick":
        n = draw(st.sampled_from([0, 0, 1, 2, 3, 5, 8, 13, 25, 60]))
    return [kind, n]


@st.composite
def strategy_(draw, tier):
    t = draw(targets(quick_only=draw(st.integers(0, 4)) == 2, faults=draw(st.integers(0, 4)) == 2))
    case = {"target": t, "mode": draw(st.sampled_from(MODES)), "source": draw(st.sampled_from(SOURCES)), "at": draw(moment()),
            "wide": draw(st.sampled_from([True, True, False])), "again": draw(st.booleans()), "eager": draw(st.integers(0, 6)) == 3}
    if draw(st.integers(0, 4)) == 1:
        teardown(draw, case)
    if case["source"] == "double":
        case["gap"] = draw(moment())
    case["slow"] = draw(SLOW)
    return case


def teardown(draw, case):
    "One command fails by itself, the others take their time to end; the cancellation comes meanwhile."
    t = case["target"]
    n = len(t["stages"])
    bad = draw(st.integers(0, n - 1))
    for i, b in enumerate(t["stages"]):
        if i != bad or n == 1:
            b.update(k="pause", term=draw(st.sampled_from(["slow", "ign", "ign"])), drain=False)
        else:
            b.update(k="exit", status=draw(st.sampled_from([0, 7, -9])), ms=draw(st.sampled_from([0, 1, 5, 20])))
    fault = draw(st.sampled_from(["", "missing", "noexec", "ebadexec", "badout", "baderr", "sub_status", "sub_missing", "badinput"]))
    if n == 1:
        fault = draw(st.sampled_from(["sub_status", "sub_missing", "badinput", "noexec", "ebadexec"]))
    if n > 1 and draw(st.integers(0, 3)) == 2:
        # The first command exits with a BrokenPipeError.
        fault, bad = "", 0
        t["stages"][0].update(k="exit", drain=False)
        for b in t["stages"][1:]:
            b.update(k="pause", term="ign")
        case["mode"] = "prompt_flood"
    t.pop("fault", None)
    if fault:
        t["fault"] = [fault, bad]
    if fault == "" and case["mode"].startswith("prompt"):
        case["mode"] = draw(st.sampled_from(["prompt_send", "prompt_flood"]))
    case["wide"] = case["wide"] and draw(st.booleans())
    case["source"] = draw(st.sampled_from(["cancel", "cancel", "double", "wait_for"]))
    case["at"] = draw(st.one_of(moment(), st.tuples(st.just("ms"), st.integers(1, 60)).map(list), st.tuples(st.just("tick"), st.integers(2, 9)).map(list)))


def strategy(tier):
    return strategy_(tier)


def run(case, ctx):
    t = case["target"]
    ctx.label("mode:" + case["mode"], "source:" + case["source"], f"n:{len(t['stages'])}", "at:" + case["at"][0])
    if t["pty"]:
        ctx.label("pty:" + t["pty"])
    if t["subs"]:
        ctx.label("subs")
    if t.get("fault"):
        ctx.label("fault")
    if case.get("slow"):
        ctx.label("slow start")
    ctx.aio(lambda: go(case, ctx), watcher=t["watch"] or None, eager=case["eager"], slow=case.get("slow"))


class Refused(Exception):
    pass


class Gated(Target):
    "pause means: wait until the gate file exists."

    def ops(self, b, i, n, err):
        return [x for o in super().ops(b, i, n, err) for x in (["wait", self.ctx.path("gate")] if o == "pause" else [o])]


async def go(case, ctx):
    loop = asyncio.get_running_loop()
    MARK.clear()
    base = await ctx.base()
    mode = case["mode"]
    if mode == "with_stdin" and case["target"]["pty"] in ("raw", "cbreak"):
        mode = "with_sleep"
    t = overrides(
        case["target"], stdin=mode.startswith("prompt") or mode == "with_stdin",
        stdout=mode.startswith("prompt") or mode in ("with_read", "with_sleep", "iter_run", "iter_break", "with_boom"),
    )
    canary = Canary()
    tgt = None
    try:
        tgt = Gated(ctx, t, canary)
        if t["stdout"] == "writer":
            await tgt.writer_sink()
        target = tgt.target
        if case["wide"]:
            target = each(target, lambda c: c.set(exit_codes=range(-64, 256)))
        rec = {}
        before_kids = set(children())
        task, by_source = start(case, target, mode, rec, loop)
        await reach(case["at"], task, rec, len(t["stages"]))
        in_time = not task.done() and "out" not in rec
        if by_source is not None:
            by_source()
        if in_time and case["source"] == "double":
            await reach(case["gap"], task, rec, len(t["stages"]))
            if not task.done():
                ctx.label("second cancellation in time")
                task.cancel()
        await asyncio.wait({task})
        whole = ("exc", asyncio.CancelledError()) if task.cancelled() else (("exc", task.exception()) if task.exception() else ("ok", task.result()))
        started = "started" in rec
        got = rec.get("out", ("exc", asyncio.CancelledError()))
        kids = rec.get("kids")
        where = f"{mode}, {case['source']} at {case['at']}{', slow start' if case.get('slow') else ''}: {describe(got)}"
        if kids:
            raise Violation(f"{where}: children left at that moment: {kids}")
        ctx.nontrivial(in_time and started)
        ctx.label("in time" if in_time else "late", "ended:" + (got[0] if got[0] == "ok" else type(got[1]).__name__))
        if in_time:
            judge(case, t, mode, got, whole, where, ctx)
        del whole, got, task
        rec.clear()
        bad = canary.finish()
        canary = None
        if not started:
            bad = [b for b in bad if "was not closed" not in b]
        if bad:
            raise Violation(f"{where}: " + "; ".join(bad))
        settled = {**base, **{f: "harness" for f in tgt_fds(tgt)}}
        left = await ctx.settle(settled)
        if left:
            raise Violation(f"{where}: left over {left}")
        if case["again"]:
            await again(case, t, mode, target, ctx, where)
        del target
        tgt.close()
        tgt = None
        left = await ctx.settle(base)
        if left:
            raise Violation(f"{where}: left over at the end {left}")
    finally:
        if canary:
            canary.finish()
        if tgt:
            tgt.close()


def tgt_fds(tgt):
    fds = [f.fileno() for f in tgt.files]
    for w, b in tgt.socks:
        fds.append(b.fileno())
        fds.append(w.get_extra_info("socket").fileno())
    return fds


def start(case, target, mode, rec, loop):
    async def inner():
        rec["started"] = True
        rec["out"] = await outcome(drive(target, mode))
        rec["kids"] = children()
        if rec["out"][0] == "exc":
            raise rec["out"][1]
        return rec["out"][1]

    source = case["source"]
    if source in ("cancel", "double"):
        task = loop.create_task(inner())
        return task, task.cancel
    if source == "timeout":
        box = {}

        async def timed():
            async with asyncio.timeout(None) as tm:
                box["tm"] = tm
                return await inner()

        task = loop.create_task(timed())

        def expire():
            if not task.done() and "tm" in box:
                box["tm"].reschedule(loop.time())
            else:
                task.cancel()

        return task, expire
    if source == "wait_for":
        task = loop.create_task(asyncio.wait_for(inner(), 3600))
        return task, task.cancel
    box = {}

    async def grouped():
        async def failing():
            await box["ev"].wait()
            raise Refused()

        box["ev"] = asyncio.Event()
        async with asyncio.TaskGroup() as tg:
            tg.create_task(failing())
            tg.create_task(inner())

    task = loop.create_task(grouped())

    def fail():
        if "ev" in box:
            box["ev"].set()
        else:
            task.cancel()

    return task, fail


async def reach(at, task, rec, n):
    kind, k = at
    if kind == "started":
        for _ in range(3000):
            if len(children()) >= n or task.done():
                break
            await asyncio.sleep(0)
    if kind == "tick":
        for _ in range(k):
            if task.done():
                return
            await asyncio.sleep(0)
    elif k:
        await asyncio.wait({task}, timeout=k / 1000)


def judge(case, t, mode, got, whole, where, ctx):
    fault = (t.get("fault") or [""])[0]
    # (A process that writes to a pipe can be killed by SIGPIPE.)
    n = len(t["stages"])
    pauses = [b["k"] == "pause" and (i == n - 1 or t["errs"][i] != "STDOUT") for i, b in enumerate(t["stages"])]
    pausing = any(pauses)
    ends = mode.endswith("_boom") or mode == "iter_break"  # the run is ended by the program
    if ends and case["source"] not in ("cancel", "double", "wait_for"):
        pausing = False  # the cancellation comes a little later
    strict = pausing and not fault and (case["wide"] or len(t["stages"]) == 1)
    if case["source"] in ("cancel", "double", "wait_for") and not isinstance(got[1], asyncio.CancelledError):
        # asyncio delivers a cancellation at the next step of the task, whatever happens to the run meanwhile.
        raise Violation(f"{where}: the cancellation was lost")
    if strict and got[0] == "exc" and isinstance(got[1], BrokenPipeError) and not pauses[0]:
        return  # the first command ended by itself without reading its input
    if strict:
        ctx.label("strict")
        if got[0] != "exc" or not isinstance(got[1], asyncio.CancelledError):
            raise Violation(f"{where}, although the process could not end by itself; expected CancelledError")
        if MARK.get("entered") and not MARK.get("left"):
            raise Violation(f"{where} out of the async with block; it should be suppressed there and raised by run.result()")
        if case["source"] == "timeout" and not isinstance(whole[1], (asyncio.TimeoutError, asyncio.CancelledError)):
            raise Violation(f"{where}: asyncio.timeout() gave {describe(whole)}")
        return
    if got[0] == "ok":
        return
    ex = got[1]
    if isinstance(ex, asyncio.CancelledError):
        return
    if isinstance(ex, (AssertionError, RuntimeError, asyncio.InvalidStateError)):
        raise Violation(f"{where}")
    if fault:
        return
    if isinstance(ex, ResultError):
        natural = {b["status"] for b in t["stages"]} | {s[1]["beh"]["status"] for s in t["subs"]} | {-13, -2, 1, -1}
        if ex.result.exit_code not in natural:
            raise Violation(f"{where}: an exit status caused by the cancellation was reported")
        return
    if isinstance(ex, (BrokenPipeError, ConnectionResetError)):
        return
    if isinstance(ex, EOFError) and mode.startswith("prompt"):
        return
    if isinstance(ex, Refused) and mode in ("with_boom", "prompt_boom"):
        return
    raise Violation(f"{where}: unexpected exception")


async def again(case, t, mode, target, ctx, where):
    "The same command object runs normally once the gate is open."
    if t.get("fault") or t["stdin"] in ("fdclose", "stream") or t["stdout"] in ("fdclose", "writer") or {"fdclose", "fdsame"} & set(t["errs"]):
        return
    if any(c for _, c in t["passfds"]) or "fd" in (t["stdin"], t["stdout"]) or "fd" in t["errs"] or t["passfds"] or any(s["fd"] or s["nest"] for _, s in t["subs"]):
        return  # closed with the canary
    if not case["wide"] or t["pty"]:
        return
    with open(ctx.path("gate"), "wb"):
        pass
    if mode in ("with_sleep", "with_pass", "prompt_sleep"):
        mode = "await"
    if mode in ("iter_break", "with_boom", "prompt_boom"):
        mode = "await"
    if mode in ("await", "result", "check"):
        # An earlier prompt or capture replaced these streams for that run only.
        if mode == "await" and case["mode"] in ("with_stdin",) or case["mode"].startswith("prompt"):
            target = first(target, lambda c: c.stdin(b"again\n"))
    if case["mode"].startswith("prompt") or case["mode"] in ("with_stdin", "with_read", "iter_run", "iter_break", "with_boom"):
        mode = "await"
        target = first(target, lambda c: c.stdin(b"again\n"))
    ctx.label("run again")
    got = await outcome(drive(target, mode))
    if got[0] != "ok" and not isinstance(got[1], BrokenPipeError):
        raise Violation(f"{where}: run again normally ({mode}): {describe(got)}")
    if children():
        raise Violation(f"{where}: children left after running it again: {children()}")


MARK = {}


async def drive(target, mode):
    MARK.clear()
    if mode in ("iter_run", "with_pass", "with_sleep", "with_read", "with_stdin", "with_boom"):
        async with prepare(target, mode) as r:
            MARK["entered"] = True
            await body(r, mode)
        MARK["left"] = True
        return r.result()
    return await drive_other(target, mode)


def prepare(target, mode):
    if mode == "with_pass":
        return target
    if mode == "with_stdin":
        return first(target, lambda c: c.stdin(sh.CAPTURE))
    return target.stdout(sh.CAPTURE)


async def body(r, mode):
    if mode == "with_boom":
        raise Refused("body")
    if mode == "iter_run":
        if r.stdin is not None and not getattr(r.options, "pty", False):
            r.stdin.close()
        async for _ in r:
            pass
    elif mode == "with_read" and r.stdout is not None:
        await read_to_end(r.stdout)
    elif mode in ("with_sleep", "with_read"):
        await asyncio.sleep(30 if mode == "with_sleep" else 0)
    elif mode == "with_stdin":
        try:
            for _ in range(40):
                r.stdin.write(b"0123456\n" * 1000)
                await r.stdin.drain()
        except (BrokenPipeError, ConnectionResetError):
            pass
        r.stdin.close()


async def drive_other(target, mode):
    if mode == "await":
        return await target
    if mode == "result":
        return await last(target, lambda c: c.result)
    if mode == "check":
        return await last(target, lambda c: c.set(_return_result=True))
    if mode == "iter":
        return [x async for x in target]
    if mode == "iter_break":
        # The cancellation may come while the iterator is being closed.
        it = aiter(target)
        async for _ in it:
            break
        await it.aclose()
        return None
    async with target.prompt() as cli:
        try:
            if mode == "prompt_flood":
                runner_of(cli).stdin.write(b"0123456\n" * 40_000)
                await asyncio.sleep(0.02)
            elif mode == "prompt_expect":
                await cli.expect("never in the output")
            elif mode == "prompt_read":
                await cli.read_all()
            elif mode == "prompt_send":
                await cli.send("0123456\n" * 20_000)
            elif mode == "prompt_boom":
                raise Refused("body")
            elif mode == "prompt_sleep":
                await asyncio.sleep(30)
        except (BrokenPipeError, ConnectionResetError, EOFError):
            pass
        cli.close()
    return cli.result
