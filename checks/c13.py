"C13: no run leaks descriptors, processes or tasks, even on failure."

import asyncio
import builtins
import errno
import gc
import os
import sys

from hypothesis import strategies as st

from shellous import Pipeline, sh
from vlib.base import Violation, check, children, describe, outcome
from vlib.rt import each, last, read_to_end
from vlib.targets import SLOW, Canary, Target, handlers, overrides, targets, timers

META = {
    "level": "exploration",
    "technique": "property-based testing with fault injection: generated commands, pipelines, redirections, substitutions, ptys and failures; invariant over descriptors, children, tasks, timers and loop handlers after each run, and close-exactly-once canaries",
    "level_note": "Random search over resources x failures x run modes. Children must be reaped when the run returns; descriptors, tasks and timers may take up to 3 s to settle (transports close on the next loop iterations).",
    "rule": "A case is a target with its resources, an optional injected failure, and a way to run and end it. Non-trivial: a failure is injected, the run is ended early, or the caller handed over descriptors.",
    "examples": {"quick": 6000, "thorough": 100000},
    "budget": {"quick": 26, "thorough": 800},
}
HANG = 20.0
QUICK = ["await", "result", "check", "iter", "with_read", "with_pass", "with_partial", "prompt", "prompt_expect", "bad_result"]
KILL = ["with_raise", "iter_break", "prompt_raise", "timeout", "with_kill", "iter_break_noclose"]


@st.composite
def strategy_(draw, tier):
    if draw(st.integers(0, 2)) == 1:
        mode = draw(st.sampled_from(KILL))
        t = draw(targets(quick_only=False))
    else:
        mode = draw(st.sampled_from(QUICK))
        t = draw(targets())
    if mode not in ("await", "result", "check", "timeout") and draw(st.integers(0, 4)) != 2:
        t["stdout"] = ""
    case = {"target": t, "mode": mode, "times": draw(st.sampled_from([1, 1, 1, 2]))}
    if not t.get("fault") and draw(st.integers(0, 3)) == 1:
        # The system runs out of descriptors at the nth one that is opened.
        case["emfile"] = draw(st.integers(1, 9))
    case["slow"] = draw(SLOW)
    return case


def strategy(tier):
    return strategy_(tier)


def run(case, ctx):
    t = case["target"]
    ctx.label("mode:" + case["mode"], f"n:{len(t['stages'])}")
    for name in ("fault",):
        if t.get(name):
            ctx.label("fault:" + t[name][0])
    if t["subs"]:
        ctx.label("subs")
    if t["pty"]:
        ctx.label("pty:" + t["pty"])
    handed = t["stdin"] in ("fd", "fdclose") or t["stdout"] in ("fd", "fdclose") or any(e.startswith("fd") for e in t["errs"]) or bool(t["passfds"])
    if handed:
        ctx.label("caller's descriptors")
    if case.get("emfile"):
        ctx.label("fault:emfile")
    ctx.nontrivial(bool(t.get("fault")) or bool(case.get("emfile")) or case["mode"] in KILL or handed)
    ctx.aio(lambda: go(case, ctx), watcher=t["watch"] or None, slow=case.get("slow"))


class Boom(Exception):
    pass


class Exhausted:
    """Lets the nth call that opens a descriptor fail with EMFILE."""

    def __init__(self, nth):
        self.left = nth
        self.hit = ""
        self.real = {}

    def wrap(self, mod, name, when=lambda *a: True):
        real = getattr(mod, name)
        self.real[mod, name] = real

        def call(*args, **kwargs):
            if self.left and not self.hit and when(*args):
                self.left -= 1
                if self.left == 0:
                    self.hit = name
                    raise OSError(errno.EMFILE, os.strerror(errno.EMFILE))
            return real(*args, **kwargs)

        setattr(mod, name, call)

    def __enter__(self):
        if self.left:
            self.wrap(os, "pipe")
            self.wrap(os, "openpty")
            self.wrap(builtins, "open", lambda *a: isinstance(a[0], os.PathLike))
        return self

    def __exit__(self, *exc):
        for (mod, name), real in self.real.items():
            setattr(mod, name, real)


async def go(case, ctx):
    base = await ctx.base()
    for _ in range(case["times"]):
        await once(case, ctx, base)


async def once(case, ctx, base):
    loop = asyncio.get_running_loop()
    mode = case["mode"]
    t = overrides(
        case["target"], stdin=mode.startswith("prompt"), stderr=mode == "bad_result",
        stdout=mode.startswith("prompt") or mode in ("with_read", "with_partial", "with_raise", "iter_break_noclose", "bad_result"),
    )
    if mode == "with_partial" and t["stdin"] == "bigbytes":
        # async with waits for a process that is blocked on unread output.
        t["stdin"] = "bytes"
    if mode == "with_partial" and "STDOUT" in t["errs"]:
        t["stages"] = [{**b, "err": min(b["err"], 5000)} for b in t["stages"]]
    if mode in ("timeout", "with_kill"):
        # The timer stops when the main process exits, a substitution may go on.
        t["subs"] = [[pos, {**s, "beh": {**s["beh"], "k": "exit" if s["beh"]["k"] == "pause" else s["beh"]["k"]}}] for pos, s in t["subs"]]
    canary = Canary()
    hook = None
    bad = []
    tgt = None
    try:
        tgt = Target(ctx, t, canary)
        if t["stdout"] == "writer":
            await tgt.writer_sink()
        before = timers(loop)
        if tgt.fault[0] == "audit_hook":
            hook = arm_hook()
        with Exhausted(case.get("emfile", 0)) as full:
            got = await outcome(drive(tgt.target, case["mode"]))
        if full.hit:
            ctx.label("ran out of descriptors")
        kids = children()
        if hook:
            disarm_hook()
        where = f"{case['mode']}{', ' + str(t['fault']) if t.get('fault') else ''}{f', {full.hit} failed' if full.hit else ''}: {describe(got)}"
        ctx.label("ended:" + (got[0] if got[0] == "ok" else type(got[1]).__name__))
        if kids:
            raise Violation(f"{where}: children left when the run ended: {kids}")
        got = None  # the traceback may keep things alive
        bad = canary.finish()
        canary = None
        if bad:
            raise Violation(f"{where}: " + "; ".join(bad))
        tgt.close()
        tgt_target = tgt
        tgt = None
        del tgt_target
        left = await ctx.settle(base)
        if left:
            raise Violation(f"{where}: left over {left}")
        after = timers(loop)
        extra = [h for k, h in after.items() if k not in before and "_set_result_unless" not in repr(h)]
        if extra:
            raise Violation(f"{where}: timers left over: {extra}")
    finally:
        if hook:
            disarm_hook()
        if canary:
            canary.finish()
        if tgt:
            tgt.close()


# sys.audit hooks cannot be removed: one is installed and armed when needed.
HOOK = {"installed": False, "armed": False}


def arm_hook():
    if not HOOK["installed"]:
        sys.addaudithook(_hook)
        HOOK["installed"] = True
    HOOK["armed"] = True
    return True


def disarm_hook():
    HOOK["armed"] = False


def _hook(event, args):
    if HOOK["armed"] and event == "shellous.exec":
        raise Boom("refused by an audit hook")


async def drive(target, mode):
    if mode == "await":
        return await target
    if mode == "result":
        return await last(target, lambda c: c.result)
    if mode == "check":
        return await last(target, lambda c: c.set(_return_result=True))
    if mode == "timeout":
        return await each(target, lambda c: c.set(timeout=0.01))
    if mode == "bad_result":
        # Refused: both streams captured.
        return await last(target, lambda c: c.stdout(sh.CAPTURE).stderr(sh.CAPTURE))
    if mode == "iter":
        return [x async for x in target]
    if mode in ("iter_break", "iter_break_noclose"):
        it = aiter(target)
        if mode == "iter_break":
            nxt = asyncio.ensure_future(anext(it, None))
            done, _ = await asyncio.wait({nxt}, timeout=0.02)
            if not done:
                nxt.cancel()
                try:
                    await nxt
                except (asyncio.CancelledError, Exception):
                    pass
            await it.aclose()
            if done:
                return nxt.result()
            return None
        # Break out of the loop inside a bounded run.
        async with target.stdout(sh.CAPTURE) as r:
            nxt = asyncio.ensure_future(anext(aiter(r), None))
            done, _ = await asyncio.wait({nxt}, timeout=0.01)
            if not done:
                nxt.cancel()
                await asyncio.wait({nxt})
            raise Boom("stop")
    if mode.startswith("prompt"):
        async with target.prompt() as cli:
            if mode == "prompt_raise":
                await asyncio.sleep(0.005)
                raise Boom("body")
            if mode == "prompt_expect":
                try:
                    await cli.send("hello")
                except (BrokenPipeError, ConnectionResetError):
                    pass
                cli.close()
                await cli.expect("no such text")
            cli.close()
            return await cli.read_all()
    if mode == "with_pass":
        async with target:
            pass
        return None
    if mode in ("with_read", "with_partial"):
        async with target.stdout(sh.CAPTURE) as r:
            if r.stdin is not None:
                r.stdin.close()
            if r.stdout is not None:
                if mode == "with_read":
                    await read_to_end(r.stdout)
                else:
                    await r.stdout.read(2)
        return r.result()
    if mode == "with_raise":
        async with target.stdout(sh.CAPTURE) as r:
            await asyncio.sleep(0.005)
            raise Boom("body")
    if mode == "with_kill":
        async with target as r:
            if isinstance(target, Pipeline):
                raise Boom("body")
            await asyncio.sleep(0.005)
            r.send_signal(9)
        return r.result()
    raise ValueError(mode)
