"C16: timeout raises TimeoutError when it expires and never otherwise."

import asyncio
import os
import time

from hypothesis import strategies as st

from shellous import ResultError, sh
from vlib.base import Violation, children, describe, outcome
from vlib.rt import last, pipe, read_to_end

META = {
    "level": "exploration",
    "technique": "property-based testing: generated commands and pipelines whose processes end on their own or not, with timeouts at any position, ended by completion, expiry, cancellation or an exception, in every run mode; judged against a timing-independent model (who can end by itself) and exact lower time bounds",
    "level_note": "Random search over 1-4 processes; lower time bounds are exact (TimeoutError and the first signal never before the timeout), upper bounds loose (3 s). A process that should complete but is overtaken by its timeout on a slow machine is not judged.",
    "rule": "A case is a set of processes with timeouts and a way to end. Non-trivial: a timeout expires, or is pending when the run ends in another way.",
    "examples": {"quick": 4000, "thorough": 80000},
    "budget": {"quick": 28, "thorough": 800},
    "workers": 16,
}
HANG = 30.0
EPS = 0.004
SHORT = [0, 0.01, 0.03, 0.05, 0.1, 0.2, 0.3]


@st.composite
def proc(draw):
    return {"t": draw(st.sampled_from([None, None, 0.5, 2, 30, 100000])), "term": draw(st.sampled_from(["dfl", "dfl", "exit", "slow", "ign"])),
            "code": draw(st.sampled_from([0, 0, 1, 143])), "ms": draw(st.sampled_from([0, 0, 5, 30])), "to": draw(st.sampled_from([0.05, 0.1, 0.2])),
            "status": 0, "pause": False}


@st.composite
def strategy_(draw, tier):
    kind = draw(st.sampled_from(["complete", "expire", "expire", "expire", "cancel", "raise", "nested", "nested", "breakout", "linger", "held", "close"]))
    n = draw(st.sampled_from([1, 1, 1, 2, 3])) if kind in ("complete", "expire", "cancel") else 1
    procs = [draw(proc()) for _ in range(n)]
    case = {"kind": kind, "procs": procs, "sub": None, "watch": draw(st.sampled_from(["", "", "", "", "default", "thread"])),
            "eager": draw(st.integers(0, 6)) == 3, "pty": False, "stdin": "", "repeat": draw(st.sampled_from([1, 1, 2])),
            "err": [draw(st.sampled_from(["", "", "bytearray", "DEVNULL", "BUFFER"])) for _ in range(n)]}
    if draw(st.integers(0, 4)) == 2:
        case["sub"] = draw(proc())
    if kind == "complete":
        bad = draw(st.integers(0, 6))
        if bad < n:
            procs[bad]["status"] = draw(st.sampled_from([1, 7, -9, -15]))
        case["mode"] = draw(st.sampled_from(["await", "result", "check", "with_read", "with_pass", "iter", "prompt_read"]))
    elif kind == "expire":
        k = draw(st.integers(0, n - 1))
        if case["sub"] and draw(st.booleans()):
            k = "sub"
        case["k"] = k
        p = case["sub"] if k == "sub" else procs[k]
        p["pause"], p["t"] = True, draw(st.sampled_from(SHORT))
        if draw(st.integers(0, 3)) == 2:
            q = procs[draw(st.integers(0, n - 1))]
            q["pause"], q["t"] = True, draw(st.sampled_from(SHORT))
        if case["sub"] and k != "sub" and draw(st.integers(0, 3)) == 2:
            case["sub"]["pause"] = True  # it ends because the command is ended
        modes = ["await", "result", "check", "with_read", "with_pass", "iter", "prompt_read", "gather"]
        if n == 1:
            modes += ["with_sleep", "iter_run", "prompt_expect", "prompt_sleep", "prompt_pass"]
        if k == "sub" or (case["sub"] and case["sub"]["pause"] and n > 1):
            modes = ["await", "result", "check", "with_pass"]
        case["mode"] = draw(st.sampled_from(modes))
        if n == 1 and k == 0 and not case["sub"] and draw(st.integers(0, 4)) == 2:
            case["pty"] = True
    elif kind in ("held", "close"):
        # The process is gone, but its output is still open; or it ends when its timeout elapses.
        procs[0].update(t=draw(st.sampled_from([0.01, 0.02, 0.05, 0.1])), status=draw(st.sampled_from([0, 0, 3, -9])), to=draw(st.sampled_from([0.02, 0.05])), term="dfl")
        if kind == "held":
            procs[0]["ms"], case["hold"] = 0, draw(st.sampled_from([1, 60, 150, 300]))
        else:
            procs[0]["ms"] = max(0, int(procs[0]["t"] * 1000) + draw(st.integers(-6, 1)))
        case["mode"] = draw(st.sampled_from(["await", "result", "check", "with_read", "with_pass", "iter", "iter_run", "prompt_read"]))
        case["sub"] = None
    elif kind == "linger":
        procs[0]["t"] = draw(st.sampled_from([0.3, 0.4]))
        procs[0]["ms"] = draw(st.sampled_from([0, 0, 10]))
        procs[0]["status"] = draw(st.sampled_from([0, 0, 0, 3]))
        case["mode"] = draw(st.sampled_from(["with_sleep", "with_sleep", "prompt_sleep"]))
        if draw(st.booleans()):
            case["sub"] = draw(proc())
            case["sub"]["t"] = draw(st.sampled_from([0.3, 0.4]))
            case["sub"]["ms"] = 0
    else:
        for p in procs:
            p["pause"] = True
            p["t"] = draw(st.sampled_from([0.35, 0.45, 0.6, 30]))
            p["term"] = draw(st.sampled_from(["dfl", "exit", "ign", "ign"]))
            p["to"] = draw(st.sampled_from([0.3, 0.5, 0.8])) if p["term"] == "ign" else 5
        case["sub"] = None
        modes = {"cancel": ["await", "result", "with_pass", "iter", "prompt_pass"] + (["with_sleep", "prompt_expect"] if n == 1 else []),
                 "raise": ["with_sleep", "prompt_sleep"], "nested": ["with_sleep", "prompt_sleep"], "breakout": ["iter"]}
        case["mode"] = draw(st.sampled_from(modes[kind]))
        if kind == "nested":
            q = draw(proc())
            q["pause"] = True
            q["to"] = 0.1
            case["inner"] = q
            which = draw(st.sampled_from(["inner", "outer", "both"]))
            q["t"] = draw(st.sampled_from([0.05, 0.15, 0.3])) if which != "outer" else 30
            procs[0]["t"] = draw(st.sampled_from([0.05, 0.15, 0.3])) if which != "inner" else 30
            procs[0]["to"] = 0.1
            case["which"] = which
            case["inner_mode"] = draw(st.sampled_from(["await", "result", "with_sleep", "iter"]))
    if n == 1 and not case["pty"] and not case["mode"].startswith("prompt") and kind != "nested":
        case["stdin"] = draw(st.sampled_from(["", "", "bytes", "big"]))
        if case["stdin"] == "big" and kind == "complete":
            case["stdin"] = "bytes"
    return case


def strategy(tier):
    return strategy_(tier)


def run(case, ctx):
    ctx.label("kind:" + case["kind"], "mode:" + case["mode"], f"n:{len(case['procs'])}")
    if case["pty"]:
        ctx.label("pty")
    if case["sub"]:
        ctx.label("substitution")
    if case["kind"] == "expire":
        ctx.label("position:" + str(case["k"]), "term:" + (case["sub"] if case["k"] == "sub" else case["procs"][case["k"]])["term"])
    ctx.nontrivial(case["kind"] != "complete" or any(p["t"] and p["t"] < 1 for p in case["procs"]))
    for i in range(case["repeat"] if case["kind"] in ("complete", "expire") else 1):
        ctx.aio(lambda i=i: go(case, ctx, i), watcher=case["watch"] or None, eager=case["eager"])


class Boom(Exception):
    pass


class Proc:
    def __init__(self, ctx, p, i):
        self.p, self.i = p, i
        self.ready = ctx.path(f"ready{i}")
        self.begin = self.stop = self.sig = None
        self.sigs = []
        self.code = None

    def audit(self, phase, info):
        now = time.monotonic()
        if phase == "start":
            # The timer starts when the process has been started, later than this.
            self.begin = now
        elif phase == "signal":
            self.sigs.append((info["signal"], now))
        else:
            self.stop = now
            self.code = info["runner"].returncode

    def ops(self, first, lastp):
        p = self.p
        ops = []
        if p["term"] in ("exit", "slow"):
            ops.append(f"sig:15:exit:{p['code']}:{30 if p['term'] == 'slow' else 0}")
        elif p["term"] == "ign":
            ops.append("sig:15:ign")
        if first:
            ops.append("w:1:68690a")
        ops += ["touch", self.ready]
        if p["pause"]:
            return ops + (["cat"] if not first else []) + ["pause"]
        if not first:
            ops.append("cat")
        if p["ms"]:
            ops.append(f"s:{p['ms']}")
        if p["status"] > 0:
            ops.append(f"x:{p['status']}")
        elif p["status"] < 0:
            ops.append(f"k:{-p['status']}")
        return ops

    def configure(self, cmd, err=""):
        p = self.p
        cmd = cmd.set(timeout=p["t"], cancel_timeout=p["to"], audit_callback=self.audit)
        if err == "bytearray":
            return cmd.stderr(bytearray())
        return cmd.stderr(getattr(sh, err)) if err else cmd


def build(case, ctx, tag):
    procs = [Proc(ctx, p, f"{tag}-{i}") for i, p in enumerate(case["procs"])]
    sub = Proc(ctx, case["sub"], f"{tag}-sub") if case["sub"] else None
    cmds = []
    for i, pr in enumerate(procs):
        args = []
        if sub and i == len(procs) - 1:
            # The command waits for the end of its substitution.
            inner = ["w:1:7375620a"] + sub.ops(False, True) if not sub.p["pause"] else sub.ops(False, True)
            args = ["if:120", sub.configure(sh(ctx.vchild, *[o for o in inner if o != "cat"])), "in:120", "drain", "in:0"]
        ops = pr.ops(i == 0, i == len(procs) - 1)
        if case["kind"] == "held":
            ops = ["fork:1", f"s:{case['hold']}"] + ops
        cmds.append(pr.configure(sh(ctx.vchild, *args, *ops), case["err"][i]))
    target = pipe(cmds)
    if case["stdin"]:
        target = target.stdin(b"line\n" * (60_000 if case["stdin"] == "big" else 3))
    if case["pty"]:
        target = target.set(pty=True)
    return procs, sub, target


async def drive(target, mode, box):
    if mode == "await":
        return await target
    if mode == "gather":
        return (await asyncio.gather(asyncio.create_task(target.coro()) if hasattr(target, "coro") else target, asyncio.sleep(0)))[0]
    if mode == "result":
        return (await last(target, lambda c: c.result)).output
    if mode == "check":
        return (await last(target, lambda c: c.set(_return_result=True))).output
    if mode == "iter":
        return "".join([x async for x in target])
    if mode.startswith("with") or mode == "iter_run":
        out = b""
        async with (target if mode == "with_pass" else target.stdout(sh.CAPTURE)) as r:
            if mode == "with_read":
                out = await read_to_end(r.stdout)
            elif mode == "iter_run":
                out = "".join([x async for x in r]).encode()
            elif mode == "with_sleep":
                await box["body"]()
        box["exited"] = True
        res = r.result()
        return res.output if mode == "with_pass" else out.decode()
    out = ""
    async with target.prompt() as cli:
        if mode == "prompt_expect":
            await cli.expect("never there")
        elif mode == "prompt_read":
            cli.close()
            out = await cli.read_all()
        elif mode == "prompt_sleep":
            await box["body"]()
        elif len(target.commands if hasattr(target, "commands") else [0]) > 1:
            cli.close()
    return out


async def sleep_body():
    await asyncio.sleep(100)


async def go(case, ctx, tag):
    base = await ctx.base()
    kind = case["kind"]
    if kind in ("complete", "expire"):
        await simple(case, ctx, tag)
    else:
        await globals()["do_" + kind](case, ctx, tag)
    left = await ctx.settle(base)
    if left:
        raise Violation(f"{kind} {case['mode']}: left over {left}")


async def usable(where):
    "The task can go on: no cancellation is pending, asyncio.timeout works."
    n = asyncio.current_task().cancelling()
    if n:
        raise Violation(f"{where}: afterwards the task still counts {n} cancellation requests")
    try:
        async with asyncio.timeout(0.001):
            await asyncio.sleep(5)
    except asyncio.TimeoutError:
        return
    raise Violation(f"{where}: a later asyncio.timeout() did not work")


async def simple(case, ctx, tag):
    mode = case["mode"]
    procs, sub, target = build(case, ctx, tag)
    everyone = procs + [sub] * bool(sub)
    box = {"body": sleep_body}
    t0 = time.monotonic()
    try:
        got = await outcome(drive(target, mode, box))
    except BaseException as ex:
        raise Violation(f"{mode}: {ex!r} escaped") from ex
    t1 = time.monotonic()
    kids = children()
    where = f"{case['kind']} {mode} n={len(procs)} k={case.get('k')}: {describe(got)} after {t1 - t0:.3f}s"
    if kids:
        raise Violation(f"{where}: children left {kids}")
    for p in everyone:
        if p.begin is not None and p.p["t"] is not None and p.sigs and p.sigs[0][1] - p.begin < p.p["t"] - EPS and not others_out(p, everyone) and not isinstance(got[1], BrokenPipeError):
            raise Violation(f"{where}: process {p.i} was signalled {p.sigs[0][1] - p.begin:.3f}s after its start, its timeout is {p.p['t']}")
    timed = got[0] == "exc" and isinstance(got[1], asyncio.TimeoutError)
    if timed:
        due = [p for p in everyone if p.begin is not None and p.p["t"] is not None and t1 - p.begin >= p.p["t"] - EPS]
        if not due:
            raise Violation(f"{where}: TimeoutError before any timeout has elapsed ({[p.p['t'] for p in everyone]})")
    if case["kind"] == "complete":
        if timed:
            ctx.label("overtaken by the timeout")
            return
        judge_complete(case, procs, got, where)
        pending = [p.p["t"] for p in everyone if p.p["t"] and p.p["t"] < 1]
        if pending:
            # A timer left running would strike now.
            ctx.label("outlived its timers")
            try:
                await asyncio.sleep(max(0, max(pending) - (t1 - t0) + 0.05))
            except asyncio.CancelledError as ex:
                raise Violation(f"{where}: a stray cancellation came later") from ex
        await usable(where)
        return
    if not timed:
        raise Violation(f"{where}; expected TimeoutError")
    if not isinstance(got[1], TimeoutError):
        raise Violation(f"{where}: not a TimeoutError")
    limit = min(p.p["t"] for p in everyone if p.p["pause"] and p.p["t"] is not None) + sum(p.p["to"] for p in everyone) + 3
    if t1 - t0 > limit + 1:
        raise Violation(f"{where}: took too long, expected at most {limit:.2f}")
    for p in everyone:
        if p.begin is not None and p.stop is None:
            raise Violation(f"{where}: process {p.i} was not ended")
    await usable(where)


def others_out(p, everyone):
    "True if the end of another process explains that p was signalled."
    return any(q is not p and (q.p["pause"] or q.p["status"]) and q.p["t"] is not None or q is not p and q.p["status"] for q in everyone)


def judge_complete(case, procs, got, where):
    statuses = [p.p["status"] for p in procs]
    bad = [s for s in statuses if s]
    mode = case["mode"]
    if bad:
        if len(procs) == 1 and mode in ("result", "prompt_read"):
            ok = got[0] == "ok"
        elif mode in ("result",):
            # .result of the last command allows its statuses.
            ok = got[0] == "ok" or isinstance(got[1], ResultError)
        elif mode == "iter" and len(procs) == 1:
            ok = got[0] == "ok"
        else:
            ok = got[0] == "exc" and isinstance(got[1], ResultError) or mode in ("prompt_read", "iter")
        ok = ok or (got[0] == "exc" and isinstance(got[1], (BrokenPipeError, ConnectionResetError)) and case["stdin"])
        if not ok:
            raise Violation(f"{where}; expected the outcome for the statuses {statuses}")
        return
    if got[0] == "exc" and isinstance(got[1], BrokenPipeError) and case["stdin"]:
        return  # the process ended before its (unread) input was written
    if got[0] != "ok":
        raise Violation(f"{where}: all processes end with status 0 before their timeouts")
    if mode != "with_pass" and got[1] != "hi\n":
        raise Violation(f"{where}: output {got[1]!r}, expected 'hi\\n'")


async def do_held(case, ctx, tag):
    "Either the timeout elapses, or the run completes; there is nothing else."
    mode = case["mode"]
    procs, _, target = build(case, ctx, tag)
    p = procs[0]
    t0 = time.monotonic()
    got = await outcome(drive(target, mode, {"body": sleep_body}))
    t1 = time.monotonic()
    where = f"{case['kind']} {mode} status {p.p['status']}, timeout {p.p['t']}: {describe(got)} after {t1 - t0:.3f}s"
    if children():
        raise Violation(f"{where}: children left")
    if got[0] == "exc" and isinstance(got[1], asyncio.TimeoutError):
        ctx.label(case["kind"] + ": expired")
        if t1 - p.begin < p.p["t"] - EPS:
            raise Violation(f"{where}: before the timeout")
    else:
        ctx.label(case["kind"] + ": completed")
        judge_complete(case, procs, got, where)
        if t1 - p.begin > p.p["t"] + p.p["to"] + 5:
            raise Violation(f"{where}: completed long after the timeout")
    await usable(where)


do_close = do_held


async def wait_ready(procs):
    end = time.monotonic() + 15
    while not all(os.path.exists(p.ready) for p in procs):
        if time.monotonic() > end:
            raise Violation("harness: the processes did not get ready")
        await asyncio.sleep(0.002)


async def do_cancel(case, ctx, tag):
    "Cancelled before the timeout, which passes while the process is ending."
    mode = case["mode"]
    procs, _, target = build(case, ctx, tag)
    task = asyncio.create_task(outcome(drive(target, mode, {"body": sleep_body})))
    await asyncio.wait({task, asyncio.create_task(wait_ready(procs))}, return_when="FIRST_COMPLETED")
    early = task.done()
    task.cancel()
    now = time.monotonic()
    got = await task
    t1 = time.monotonic()
    where = f"cancel {mode} n={len(procs)}: {describe(got)} {t1 - now:.3f}s after the cancellation"
    if children():
        raise Violation(f"{where}: children left")
    if early or any(p.begin is None or now - p.begin > p.p["t"] - 0.02 for p in procs):
        ctx.label("overtaken by the timeout")
        return
    if got[0] != "exc" or not isinstance(got[1], asyncio.CancelledError):
        raise Violation(f"{where}; cancelled before the timeout, expected CancelledError")
    grace(procs, where)


def grace(procs, where):
    "Nobody was killed before its cancel_timeout, nor long after it."
    for p in procs:
        if not p.sigs:
            raise Violation(f"{where}: process {p.i} got no signal")
        took = p.stop - p.sigs[0][1]
        if p.p["term"] == "ign" and took < p.p["to"] - EPS:
            raise Violation(f"{where}: process {p.i} was killed after {took:.3f}s, cancel_timeout is {p.p['to']}")
        if p.sigs[0][0] != "SIGTERM" or (p.p["term"] != "ign" and len(p.sigs) > 1):
            raise Violation(f"{where}: process {p.i} got the signals {p.sigs}")


async def do_raise(case, ctx, tag):
    "The body raises before the timeout, which passes while the process is ending."
    mode = case["mode"]
    procs, _, target = build(case, ctx, tag)
    boom = Boom("body")
    box = {}

    async def body():
        await wait_ready(procs)
        box["at"] = time.monotonic()
        raise boom

    got = await outcome(drive(target, mode, {"body": body}))
    where = f"raise {mode}: {describe(got)}"
    if children():
        raise Violation(f"{where}: children left")
    if "at" not in box or box["at"] - procs[0].begin > procs[0].p["t"] - 0.02:
        ctx.label("overtaken by the timeout")
        return
    if got[0] != "exc" or got[1] is not boom:
        raise Violation(f"{where}; the exception of the body was raised before the timeout")
    grace(procs, where)
    await usable(where)


async def do_breakout(case, ctx, tag):
    "The loop is left before the timeout; it must not strike afterwards."
    procs, _, target = build(case, ctx, tag)
    where = "breakout"
    out = []
    t0 = time.monotonic()
    try:
        if case["stdin"] == "bytes":
            it = aiter(target)
            out.append(await anext(it))
            await it.aclose()
        else:
            async for line in target:
                out.append(line)
                break
    except (asyncio.TimeoutError, asyncio.CancelledError) as ex:
        if time.monotonic() - t0 < procs[0].p["t"] - EPS:
            raise Violation(f"{where}: {ex!r} after {time.monotonic() - t0:.3f}s, timeout {procs[0].p['t']}") from ex
        if procs[0].p["t"] >= 30 or out:
            raise Violation(f"{where}: {ex!r}, although the line was read") from ex
        ctx.label("overtaken by the timeout")
        return
    try:
        t = procs[0].p["t"]
        await asyncio.sleep((t if t < 30 else 0) + 0.05)
        while children():
            await asyncio.sleep(0.005)
        await asyncio.sleep(0.005)
    except asyncio.CancelledError as ex:
        raise Violation(f"{where}: the timeout cancelled the task after it left the loop") from ex
    grace(procs, where)
    await usable(where)


async def do_linger(case, ctx, tag):
    "The process ends in time, but its run lasts longer than the timeout."
    mode = case["mode"]
    procs, sub, target = build(case, ctx, tag)
    p = procs[0]
    t = p.p["t"]
    box = {}

    async def body():
        end = time.monotonic() + t - 0.02
        while children() and time.monotonic() < end:
            await asyncio.sleep(0.002)
        await asyncio.sleep(0.01)
        box["gone"] = time.monotonic()
        await asyncio.sleep(max(0, end - time.monotonic()) + 0.12)

    got = await outcome(drive(target, mode, {"body": body}))
    where = f"linger {mode}: {describe(got)}"
    if "gone" not in box or any(box["gone"] > q.begin + q.p["t"] - 0.1 for q in procs + [sub] * bool(sub) if q.p["t"]):
        ctx.label("overtaken by the timeout")
        return
    if got[0] == "exc" and isinstance(got[1], ResultError) and p.p["status"]:
        pass
    elif got[0] == "exc" and isinstance(got[1], (BrokenPipeError, ConnectionResetError)) and case["stdin"]:
        pass
    elif got[0] != "ok" or (p.p["status"] and mode == "with_sleep"):
        raise Violation(f"{where}; the process ended with status {p.p['status']} long before its timeout of {t}s")
    await usable(where)


async def do_loopbody(case, ctx, tag):
    "The timeout expires while the body of the loop waits for something else."
    procs, _, target = build(case, ctx, tag)

    async def loop():
        async for _ in target:
            await asyncio.sleep(5)

    got = await outcome(asyncio.create_task(loop()))
    if got[0] != "exc" or not isinstance(got[1], asyncio.TimeoutError):
        raise Violation(f"loop body: {describe(got)}; expected TimeoutError")


async def do_nested(case, ctx, tag):
    "A run with a timeout inside the block of another one."
    procs, _, target = build(case, ctx, tag)
    inner = Proc(ctx, case["inner"], f"{tag}-inner")
    box = {}
    t0 = time.monotonic()

    async def body():
        cmd = inner.configure(sh(ctx.vchild, *inner.ops(True, True)))
        box["inner"] = ("exc", asyncio.CancelledError())
        try:
            box["value"] = await drive(cmd, case["inner_mode"], {"body": sleep_body})
            box["inner"] = ("ok", None)
        except asyncio.TimeoutError as ex:
            box["inner"] = ("exc", ex)
            box["took"] = time.monotonic() - t0
            if case["which"] == "inner":
                await usable("nested")
                box["fine"] = True
                return
            await asyncio.sleep(100)

    # (A body that catches the TimeoutError of the inner run leaves the outer one
    # running, which is then ended by an exception.)
    async def outer_body():
        await body()
        raise Boom("end")

    got = await outcome(drive(target, case["mode"], {"body": outer_body}))
    t1 = time.monotonic()
    where = f"nested {case['mode']}/{case['inner_mode']} {case['which']}: outer {describe(got)}, inner {describe(box.get('inner', ('ok', None)))}"
    if children():
        raise Violation(f"{where}: children left")
    outer_t, inner_t = procs[0].p["t"], inner.p["t"]
    if case["which"] == "inner":
        if not box.get("fine") or got[0] != "exc" or not isinstance(got[1], Boom):
            raise Violation(f"{where}; expected TimeoutError of the inner run only")
        if box["took"] < inner_t - EPS:
            raise Violation(f"{where}: TimeoutError after {box['took']:.3f}s")
    else:
        if got[0] != "exc" or not isinstance(got[1], asyncio.TimeoutError):
            raise Violation(f"{where}; expected TimeoutError of the outer run")
        if t1 - t0 < outer_t - EPS:
            raise Violation(f"{where}: TimeoutError after {t1 - t0:.3f}s, timeout {outer_t}")
    await usable(where)
