"C15: cancel_signal first, SIGKILL after cancel_timeout and not before."

import asyncio
import os
import signal
import time

from hypothesis import strategies as st

from shellous import ResultError, sh
from vlib.base import Violation, children, describe, outcome
from vlib.rt import last, pipe

META = {
    "level": "exploration",
    "technique": "property-based testing: generated processes (signal dispositions, handler delays), cancel_signal/cancel_timeout settings and ways to end a run early, judged against the processes' own time-stamped signal logs and exit statuses",
    "level_note": "Random search over 1-3 processes per run with their own settings; time is only bounded from below exactly (no SIGKILL before cancel_timeout) and loosely from above (2 s + 2 x cancel_timeout).",
    "rule": "A case is a set of processes with signal behaviour and settings, and a way to end the run. Non-trivial: a process handles, delays or ignores its signal, or the signal is not the default.",
    "examples": {"quick": 2500, "thorough": 60000},
    "budget": {"quick": 28, "thorough": 800},
    "workers": 16,
}
HANG = 40.0
SIGS = ["SIGTERM", "SIGTERM", "SIGINT", "SIGHUP", "SIGUSR1", "SIGUSR2", "SIGQUIT", "SIGALRM", None, "SIGWINCH"]
HOW = ["cancel", "cancel", "raise", "raise", "run_cancel", "send_signal", "timeout", "aclose", "fail", "tm"]
EPS = 0.005


@st.composite
def proc(draw):
    p = {"sig": draw(st.sampled_from(SIGS)), "act": draw(st.sampled_from(["dfl", "exit", "exit", "slow", "slow", "log", "ign", "late"]))}
    p["code"] = draw(st.sampled_from([0, 0, 1, 3, 143, 254]))
    if p["act"] in ("log", "ign", "late") or (p["sig"] == "SIGWINCH" and p["act"] == "dfl"):
        p["to"] = draw(st.sampled_from([0, 0.02, 0.05, 0.1, 0.2]))
    else:
        p["to"] = draw(st.sampled_from([0.5, 1, 3, 10]))
    p["ms"] = draw(st.sampled_from([5, 20, 60]))
    p["err"] = draw(st.sampled_from(["", "", "", "STDOUT", "DEVNULL", "bytearray", "BUFFER"]))
    return p


@st.composite
def strategy_(draw, tier):
    n = draw(st.sampled_from([1, 1, 1, 2, 3]))
    case = {"procs": [draw(proc()) for _ in range(n)], "how": draw(st.sampled_from(HOW)), "mode": draw(st.sampled_from(["await", "result", "with", "with", "iter", "prompt"])),
            "sub": draw(st.one_of(st.none(), st.none(), st.none(), proc())), "stdin": draw(st.sampled_from(["", "", "", "big", "bytes"])),
            "pty": False, "wide": draw(st.booleans()), "watch": draw(st.sampled_from(["", "", "", "", "default", "thread"]))}
    how = case["how"]
    if how in ("raise", "run_cancel", "send_signal"):
        case["mode"] = "with" if how != "raise" else draw(st.sampled_from(["with", "with", "prompt"]))
    if how in ("run_cancel", "send_signal"):
        case["procs"] = case["procs"][:1]
        case["sub"] = None
        case["send"] = draw(st.sampled_from(SIGS[:-2]))
    if how == "aclose":
        case["mode"] = "iter"
    if how == "timeout" and n > 1:
        case["mode"] = draw(st.sampled_from(["await", "result"]))
    if how == "fail":
        case["where"] = draw(st.integers(0, n))
        case["mode"] = draw(st.sampled_from(["await", "result"]))
        if case["where"] == n and case["mode"] == "result":
            case["mode"] = "await"  # any status is allowed by .result
    # A substitution that fails while its command is being terminated.
    if how in ("raise", "raise", "aclose", "cancel", "tm") and draw(st.integers(0, 2)) == 1:
        case["extra"] = draw(st.sampled_from(["eof", "trig"]))
    if n == 1 and how != "fail" and not case["sub"] and not case.get("extra") and draw(st.integers(0, 4)) == 2:
        case["pty"] = True
    if case["mode"] == "prompt" or (case["pty"] and how == "aclose"):
        case["stdin"] = ""  # a pty echoes its input
    return case


def strategy(tier):
    return strategy_(tier)


def run(case, ctx):
    ctx.label("how:" + case["how"], "mode:" + case["mode"], f"n:{len(case['procs'])}")
    for p in case["procs"] + [case["sub"]] * bool(case["sub"]):
        ctx.label("act:" + p["act"], "sig:" + str(p["sig"]))
    if case["sub"]:
        ctx.label("substitution")
    if case.get("extra"):
        ctx.label("failing substitution: " + case["extra"])
    if case["pty"]:
        ctx.label("pty")
    ctx.nontrivial(any(p["act"] != "dfl" or p["sig"] != "SIGTERM" for p in case["procs"]))
    ctx.aio(lambda: go(case, ctx), watcher=case["watch"] or None)


class Boom(Exception):
    pass


def touch(path):
    with open(path, "wb"):
        pass


class Proc:
    def __init__(self, ctx, p, i):
        self.p, self.i = p, i
        self.log = ctx.path(f"log{i}")
        self.ready = ctx.path(f"ready{i}")
        self.events = []
        self.code = None
        self.stopped = None

    def audit(self, phase, info):
        self.events.append((phase, info["signal"], time.monotonic()))
        if phase == "stop":
            self.code = info["runner"].returncode
            self.stopped = time.monotonic()

    def ops(self, send):
        p = self.p
        name = send or p["sig"]
        ops = ["logfile", self.log]
        if name:
            n = int(getattr(signal, name))
            ms = {"exit": 0, "slow": p["ms"], "late": 20_000}.get(p["act"])
            if ms is not None:
                ops.append(f"sig:{n}:exit:{p['code']}:{ms}")
            elif p["act"] == "log":
                ops.append(f"sig:{n}:log")
            elif p["act"] == "ign":
                ops.append(f"sig:{n}:ign")
        return ops + ["log:ready"]

    def configure(self, cmd, wide):
        cmd = cmd.set(cancel_signal=getattr(signal, self.p["sig"]) if self.p["sig"] else None, cancel_timeout=self.p["to"], audit_callback=self.audit)
        if wide:
            cmd = cmd.set(exit_codes=range(-64, 256))
        err = self.p["err"]
        if err == "bytearray":
            return cmd.stderr(bytearray())
        if err:
            return cmd.stderr(getattr(sh, err))
        return cmd

    def lines(self):
        "[(tag, time, text)]"
        try:
            with open(self.log) as f:
                return [(a, int(b) / 1e9, d) for a, b, _, d in (x.split(" ", 3) for x in f.read().splitlines())]
        except FileNotFoundError:
            return []

    def expected(self, send=None):
        "(exit status, signals logged, killed)"
        p = self.p
        name = send or p["sig"]
        if name is None:
            return -9, 0, False
        n = int(getattr(signal, name))
        act = p["act"]
        if act == "dfl":
            return (-9, 0, True) if name == "SIGWINCH" else (-n, 0, False)
        if act in ("exit", "slow"):
            return p["code"], 1, False
        return -9, (0 if act == "ign" else 1), True


async def go(case, ctx):
    how = case["how"]
    procs = [Proc(ctx, p, i) for i, p in enumerate(case["procs"])]
    send = case.get("send") if how == "send_signal" else None
    sub = Proc(ctx, case["sub"], 9) if case["sub"] else None
    cmds = []
    for pr in procs:
        args = []
        if sub and pr.i == len(procs) - 1:
            args = ["if:120", sub.configure(sh(ctx.vchild, *sub.ops(None), "touch", sub.ready, "pause"), True)]
        if case.get("extra") and pr.i == len(procs) - 1:
            if case["extra"] == "eof":
                args += ["of:121", sh(ctx.vchild, "drain", "x:3").writable]
            else:
                args += ["if:121", sh(ctx.vchild, "wait", ctx.path("trig"), "x:3")]
        lead = ["w:1:780a"] if pr.i == len(procs) - 1 else []
        cmds.append(pr.configure(sh(ctx.vchild, *args, *pr.ops(send), *lead, "touch", pr.ready, "pause"), case["wide"]))
    if how == "fail":
        cmds.insert(case["where"], sh(ctx.vchild, "wait", ctx.path("go"), "x:1"))
    target = pipe(cmds)
    if case["stdin"]:
        data = b"line\n" * (40_000 if case["stdin"] == "big" else 3)
        target = target.stdin(data) if len(cmds) == 1 else type(target)((cmds[0].stdin(data),) + target.commands[1:])
    if case["pty"]:
        target = target.set(pty=True)
    if how == "timeout":
        target = last(target, lambda c: c.set(timeout=0.3))
    everyone = procs + [sub] * bool(sub)
    boom = Boom("body")
    box = {}
    got = None

    async def ready():
        end = time.monotonic() + 15
        while not all(os.path.exists(p.ready) for p in everyone):
            if time.monotonic() > end:
                raise Violation("harness: the processes did not get ready")
            await asyncio.sleep(0.002)
        box["t0"] = time.monotonic()
        asyncio.get_running_loop().call_later(0.008, touch, ctx.path("trig"))

    async def body(run):
        if how == "raise":
            await ready()
            raise boom
        if how in ("run_cancel", "send_signal"):
            await ready()
            if how == "run_cancel":
                run.cancel()
            else:
                run.send_signal(getattr(signal, send))
            status, n, killed = procs[0].expected(send)
            if killed:
                await asyncio.sleep(procs[0].p["to"] + 0.1)
                if run.returncode is not None or not children():
                    raise Violation(f"{how}: the process ended with {run.returncode}, although it does not end on its signal")
                run.send_signal(9)
            return
        await asyncio.sleep(100)

    async def runit():
        if case["mode"] == "await":
            return await target
        if case["mode"] == "result":
            return await last(target, lambda c: c.result)
        if case["mode"] == "iter":
            async for x in target:
                pass
            return None
        if case["mode"] == "prompt":
            async with target.prompt() as cli:
                box["run"] = cli.runner if hasattr(cli, "runner") else None
                await body(None)
            return None
        async with target as r:
            box["run"] = r
            await body(r)
        box["with_done"] = True
        return r.result()

    task = asyncio.ensure_future(outcome(runit()))
    if how == "aclose":
        task.cancel()
        await asyncio.wait({task})
        it = aiter(target)
        line = await anext(it)
        if line not in ("x\n", "x\r\n"):
            raise Violation(f"harness: unexpected line {line!r}")
        await ready()
        await it.aclose()
        got = ("ok", None)
    elif how in ("cancel", "tm"):
        await ready()
        if how == "cancel":
            task.cancel()
            # outcome() is inside the task and receives the cancellation.
        else:
            task.cancel("with a message")
        got = await task
    elif how == "fail":
        await ready()
        with open(ctx.path("go"), "wb"):
            pass
        got = await task
    else:
        got = await task
    end = time.monotonic()
    kids = children()
    where = f"{how} ({case['mode']}): {describe(got)}"
    if got[0] == "exc" and isinstance(got[1], Violation):
        raise got[1]
    if kids:
        raise Violation(f"{where}: children left {kids}")
    if how == "timeout" and any(not p.lines() or p.stopped is None for p in everyone):
        ctx.label("expired before it was ready")
        return
    judge_outcome(case, got, boom, where)
    t0 = box.get("t0")
    for p in everyone:
        judge_proc(case, p, t0, end, where, send if p is not sub else None)
    run_ = box.get("run")
    if case["mode"] == "with" and len(procs) == 1 and how != "fail" and run_ is not None:
        res = run_.result(check=False)
        if res.exit_code != procs[0].expected(send)[0]:
            raise Violation(f"{where}: result() says {res.exit_code}, the process ended with {procs[0].expected(send)[0]}")
        if res.cancelled != (how in ("cancel", "tm", "timeout")):
            raise Violation(f"{where}: result().cancelled is {res.cancelled}")


def judge_outcome(case, got, boom, where):
    how = case["how"]
    if how == "raise":
        ok = got[0] == "exc" and got[1] is boom
    elif how in ("cancel", "tm"):
        ok = got[0] == "exc" and isinstance(got[1], asyncio.CancelledError)
    elif how == "timeout":
        ok = got[0] == "exc" and isinstance(got[1], asyncio.TimeoutError)
    elif how == "fail":
        ok = True
    else:
        ok = got[0] == "ok" or isinstance(got[1], (ResultError, BrokenPipeError, ConnectionResetError))
    if not ok:
        raise Violation(f"{where}: not the expected outcome")


def judge_proc(case, pr, t0, end, where, send):
    status, nsig, killed = pr.expected(send)
    p = pr.p
    name = send or p["sig"]
    where = f"{where}: process {pr.i} (cancel_signal={p['sig']}, cancel_timeout={p['to']}, {p['act']}, send={send})"
    lines = pr.lines()
    sigs = [x for x in lines if x[0] == "S"]
    sent = [e for e in pr.events if e[0] == "signal"]
    if not any(x[0] == "L" for x in lines):
        raise Violation(f"{where}: harness: not ready")
    ready = [x[1] for x in lines if x[0] == "L"][0]
    if sent and sent[0][2] < ready:
        return
    if case["how"] == "fail" and not sent:
        # It may have ended by itself (nobody reads its output any more).
        return
    got_sigs = [signal.Signals(int(x[2])).name for x in sigs]
    hurry = p["to"] < 0.1 and killed  # it may be killed before its handler runs
    if got_sigs != [name] * nsig and not (hurry and not got_sigs):
        raise Violation(f"{where}: the process saw the signals {got_sigs}, expected {[name] * nsig}")
    if pr.code != status:
        raise Violation(f"{where}: exit status {pr.code}, expected {status}")
    if status == p["code"] and nsig and p["act"] in ("exit", "slow") and not any(x[0] == "E" for x in lines):
        raise Violation(f"{where}: the signal handler did not finish")
    if pr.stopped is None:
        raise Violation(f"{where}: no stop event")
    if killed and not case["how"] in ("run_cancel", "send_signal"):
        since = sigs[0][1] if sigs else (sent[0][2] if sent else t0)
        if pr.stopped - since < p["to"] - EPS:
            raise Violation(f"{where}: killed {pr.stopped - since:.3f}s after its signal")
        if pr.stopped - since > 2 * p["to"] + 3:
            raise Violation(f"{where}: killed only {pr.stopped - since:.3f}s after its signal")
    elif not killed and sent and pr.stopped - sent[0][2] > 2 * p["to"] + 3:
        raise Violation(f"{where}: took {pr.stopped - sent[0][2]:.3f}s to end")
