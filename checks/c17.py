"C17: audit_callback sees start, signals, stop; sys.audit sees every launch."

import asyncio
import os
import pathlib
import signal
import sys

from hypothesis import strategies as st

from shellous import ResultError, sh
from vlib.base import Violation, children, describe, outcome
from vlib.rt import last, pipe, read_to_end
from vlib.targets import SLOW

META = {
    "level": "exploration",
    "technique": "property-based testing: generated commands, pipelines and substitutions with audit callbacks, ended by success, failure, launch errors, refusing audit hooks, signals, timeouts and cancellation at generated moments; the recorded event histories are judged against a grammar, the exit statuses and the processes' own signal logs",
    "level_note": "Random search over 1-3 commands plus up to 2 substitutions; the cancellation point ranges over loop steps and milliseconds, so that launches are interrupted too.",
    "rule": "A case is a set of commands with callbacks and a way to end. Non-trivial: two or more processes, or an ending other than success.",
    "examples": {"quick": 6000, "thorough": 120000},
    "workers": 16,
    "budget": {"quick": 24, "thorough": 700},
}
HANG = 25.0
FAULTS = ["missing", "noexec", "badin", "badout", "hook", "badfd"]
SIGS = ["SIGUSR1", "SIGUSR2", "SIGHUP", "SIGINT", "SIGALRM", "SIGWINCH", "SIGTERM"]

EVENTS = None  # the current list of sys.audit events
REFUSE = {}  # program: exception


def hook(event, args):
    if EVENTS is None:
        return
    if event == "shellous.exec":
        EVENTS.append(("exec", os.fspath(args[0])))
        if args[0] in REFUSE:
            raise REFUSE[args[0]]
    elif event == "subprocess.Popen":
        EVENTS.append(("popen", os.fspath(args[0])))


_installed = []


class Refused(Exception):
    pass


@st.composite
def proc(draw):
    return {"status": draw(st.sampled_from([0, 0, 0, 1, 7, 254, -9, -15])), "ms": draw(st.sampled_from([0, 0, 1, 10])),
            "named": draw(st.booleans()), "act": draw(st.sampled_from(["dfl", "dfl", "exit", "ign"])),
            "to": draw(st.sampled_from([0.02, 0.1, 5])), "sig": draw(st.sampled_from(["SIGTERM", "SIGTERM", "SIGINT", "SIGUSR1", None])),
            "plain": draw(st.booleans())}


@st.composite
def strategy_(draw, tier):
    how = draw(st.sampled_from(["end", "end", "fault", "fault", "cancel", "cancel", "cancel", "send", "raise", "timeout"]))
    n = draw(st.sampled_from([1, 1, 2, 3]))
    case = {"procs": [draw(proc()) for _ in range(n)], "subs": [draw(proc()) for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2])))],
            "how": how, "mode": draw(st.sampled_from(["await", "result", "with", "iter", "prompt"])), "same": draw(st.booleans()),
            "watch": draw(st.sampled_from(["", "", "", "", "default", "thread"])), "eager": draw(st.integers(0, 6)) == 3, "pty": False, "runs": 1}
    if how == "end":
        case["runs"] = draw(st.sampled_from([1, 1, 2]))
        if draw(st.booleans()):
            for p in case["procs"] + case["subs"]:
                p["status"] = 0
    if how == "fault":
        case["fault"] = [draw(st.sampled_from(FAULTS)), draw(st.integers(0, n + len(case["subs"]) - 1))]
    if how == "cancel":
        case["at"] = [draw(st.sampled_from(["tick", "tick", "ms", "started"])), draw(st.one_of(st.integers(0, 14), st.integers(0, 60)))]
        case["pause"] = draw(st.sampled_from([True, True, False]))
    if how in ("send", "raise", "timeout"):
        case["procs"], case["subs"] = case["procs"][:1], []
        if how == "send":
            case["mode"] = "with"
            case["sends"] = draw(st.lists(st.tuples(st.sampled_from(SIGS), st.booleans()).map(list), min_size=1, max_size=4))
            case["finish"] = draw(st.sampled_from(["go", "go", "cancel", "raise", "kill"]))
            # Signals requested when the process has exited, in the block or after it.
            case["after"] = draw(st.lists(st.sampled_from(["cancel", "cancel", "SIGUSR1", "SIGKILL"]), max_size=3))
        elif how == "raise":
            case["mode"] = draw(st.sampled_from(["with", "prompt"]))
    for p in case["procs"] + case["subs"]:
        if p["act"] == "ign":
            p["to"] = min(p["to"], 0.1)
    if n == 1 and not case["subs"] and how != "fault" and draw(st.integers(0, 4)) == 2:
        case["pty"] = True
    case["slow"] = draw(SLOW)
    return case


def strategy(tier):
    return strategy_(tier)


def run(case, ctx):
    ctx.label("how:" + case["how"], "mode:" + case["mode"], f"n:{len(case['procs'])}+{len(case['subs'])}")
    if case["how"] == "fault":
        ctx.label("fault:" + case["fault"][0])
    if case["pty"]:
        ctx.label("pty")
    ctx.nontrivial(len(case["procs"]) + len(case["subs"]) > 1 or case["how"] != "end")
    if not _installed:
        sys.addaudithook(hook)
        _installed.append(1)
    global EVENTS
    EVENTS = []
    REFUSE.clear()
    try:
        ctx.aio(lambda: go(case, ctx), watcher=case["watch"] or None, eager=case["eager"], slow=case.get("slow"))
    finally:
        EVENTS = None
        REFUSE.clear()


class Boom(Exception):
    pass


class Rec:
    "Event histories, one per Runner."

    def __init__(self):
        self.runs = []  # [runner, events]

    def __call__(self, phase, info):
        runner = info["runner"]
        entry = None
        for r, ev in self.runs:
            if r is runner:
                entry = ev
        if entry is None:
            entry = []
            self.runs.append((runner, entry))
        pid = runner.pid
        gone = None
        if phase == "stop" and pid is not None:
            gone = not os.path.exists(f"/proc/{pid}")
        entry.append({"phase": phase, "failure": info["failure"], "signal": info["signal"], "pid": pid, "code": runner.returncode, "gone": gone,
                      "keys": sorted(info), "name": runner.name, "execs": len(EVENTS or ())})

    def __repr__(self):
        return "Rec"


def program(ctx, i):
    "A program file of its own for command i, so that launches can be told apart."
    d = ctx.path(f"bin{i}")
    os.mkdir(d)
    os.symlink(ctx.vchild, os.path.join(d, f"prog{i}"))
    return d, os.path.join(d, f"prog{i}")


def build(case, ctx):
    n = len(case["procs"])
    everyone = case["procs"] + case["subs"]
    fault, where = case.get("fault") or (None, None)
    pause = case["how"] in ("send", "raise", "timeout") or case.get("pause")
    shared = Rec() if case["same"] else None
    items = []
    for i, p in enumerate(everyone):
        d, prog = program(ctx, i)
        rec = shared or Rec()
        log = ctx.path(f"log{i}")
        ops = []
        if p["sig"] and p["act"] != "dfl":
            ops.append(f"sig:{int(getattr(signal, p['sig']))}:" + ("ign" if p["act"] == "ign" else f"exit:{9}:0"))
        if case["how"] == "send":
            ops = ["logfile", log] + [f"sig:{int(getattr(signal, s))}:log" for s in SIGS]
        ops += ["touch", ctx.path(f"ready{i}")]
        if case["how"] == "send" and case["finish"] == "go":
            ops += ["wait", ctx.path("go")]
        elif pause:
            ops += ["pause"]
        elif i < n and i > 0:
            ops += ["drain"]
        if p["ms"]:
            ops.append(f"s:{p['ms']}")
        ops.append(f"x:{p['status']}" if p["status"] >= 0 else f"k:{-p['status']}")
        name = f"prog{i}"
        cmd = sh(name).set(path=d) if p["named"] else sh(prog)
        resolved = prog
        if fault and where == i:
            if fault == "missing":
                cmd = sh(name + "x").set(path=d) if p["named"] else sh(prog + "x")
                resolved = None if p["named"] else prog + "x"
            elif fault == "noexec":
                os.unlink(prog)
                with open(prog, "w") as f:
                    f.write("#!/bin/sh\n")
                os.chmod(prog, 0o644)
                resolved = None if p["named"] else prog
            elif fault == "hook":
                REFUSE[prog] = Refused("hook")
            elif fault != "badfd":
                resolved = None
        items.append({"cmd": cmd, "ops": ops, "rec": rec, "p": p, "prog": resolved, "i": i, "log": log, "fault": fault if where == i else None})

    def finish(it, args):
        p = it["p"]
        cmd = it["cmd"](*args, *it["ops"]).set(audit_callback=it["rec"], cancel_signal=getattr(signal, p["sig"]) if p["sig"] else None, cancel_timeout=p["to"])
        if it["fault"] == "badin":
            cmd = cmd.stderr(pathlib.Path(ctx.path("nodir/x")))
        elif it["fault"] == "badout":
            cmd = cmd.stderr(pathlib.Path(ctx.dir))
        elif it["fault"] == "badfd":
            cmd = cmd.stderr(9999)
        return cmd

    subs = [finish(it, []) for it in items[n:]]
    cmds = []
    for it in items[:n]:
        args = []
        if it["i"] == n - 1:
            for j, s in enumerate(subs):
                args += [f"if:{120 + j}", s]
            args += [x for j in range(len(subs)) for x in ([f"in:{120 + j}", "drain"] if not pause else [])]
            if subs:
                args += ["in:0"]
        cmds.append(finish(it, args))
    target = pipe(cmds)
    if case["pty"]:
        target = target.set(pty=True)
    if case["how"] == "timeout":
        target = target.set(timeout=0.05)
    return target, items


async def drive(target, mode, body):
    if mode == "await":
        return await target
    if mode == "result":
        return await last(target, lambda c: c.result)
    if mode == "iter":
        return [x async for x in target]
    if mode == "prompt":
        async with target.prompt() as cli:
            if body:
                await body(None)
            cli.close()
            try:
                await cli.read_all()
            except EOFError:
                pass
        return cli.result
    async with target.stdout(sh.CAPTURE) as r:
        if body:
            await body(r)
        else:
            await read_to_end(r.stdout)
    return r.result()


async def go(case, ctx):
    base = await ctx.base()
    EVENTS.clear()
    target, items = build(case, ctx)
    how, mode = case["how"], case["mode"]
    boom = Boom("body")

    async def ready():
        for _ in range(5000):
            if os.path.exists(ctx.path("ready0")):
                return
            await asyncio.sleep(0.002)
        raise Violation("harness: not ready")

    def signals_after(run, when):
        "There is no process any more: these do nothing."
        for name in case.get("after") or ():
            try:
                if name == "cancel":
                    run.cancel()
                else:
                    run.send_signal(getattr(signal, name))
            except BaseException as ex:
                raise Violation(f"{name} after the process exited ({when}): {ex!r}")

    async def body(run):
        box["run"] = run
        await ready()
        if how == "raise":
            raise boom
        if how == "timeout":
            await asyncio.sleep(30)
        for k, (name, as_int) in enumerate(case["sends"]):
            num = getattr(signal, name)
            run.send_signal(int(num) if as_int else num)
            for _ in range(3000):
                with open(items[0]["log"]) as f:
                    if len([x for x in f if x.startswith("S ")]) > k:
                        break
                await asyncio.sleep(0.002)
        if case["finish"] == "go":
            with open(ctx.path("go"), "wb"):
                pass
        elif case["finish"] == "cancel":
            raise asyncio.CancelledError()
        elif case["finish"] == "raise":
            raise boom
        else:
            run.send_signal(signal.SIGKILL)
        if case.get("after") and case["finish"] in ("go", "kill"):
            for _ in range(5000):
                if run.returncode is not None:
                    break
                await asyncio.sleep(0.002)
            else:
                raise Violation("run.returncode is still None 10 s after the process exited")
            signals_after(run, "in the block")

    outs = []
    box = {}
    for _ in range(case["runs"]):
        if how == "cancel":
            task = asyncio.create_task(outcome(drive(target, mode, None)))
            kind, k = case["at"]
            if kind == "started":
                for _ in range(3000):
                    if children() or task.done():
                        break
                    await asyncio.sleep(0)
            if kind == "tick":
                for _ in range(k):
                    await asyncio.sleep(0)
            else:
                await asyncio.wait({task}, timeout=k / 1000)
            box = task.done()
            task.cancel()
            try:
                got = await task
            except asyncio.CancelledError as ex:
                got = ("exc", ex)
            ctx.label("late" if box else "in time")
        else:
            got = await outcome(drive(target, mode, body if how in ("send", "raise", "timeout") and mode in ("with", "prompt") else None))
        if got[0] == "exc" and isinstance(got[1], Violation):
            raise got[1]
        outs.append(got)
        if how == "send" and "run" in box:
            signals_after(box["run"], "after the block")
        if children():
            raise Violation(f"{how} {mode}: {describe(got)}: children left")
    left = await ctx.settle(base)
    if left:
        raise Violation(f"{how} {mode}: {describe(outs[-1])}: left over {left}")
    judge(case, ctx, items, outs)


def judge(case, ctx, items, outs):
    how, mode = case["how"], case["mode"]
    where = f"{how} {mode} {case.get('fault') or case.get('at') or ''}: {describe(outs[-1])}"
    by_prog = {}
    for it in items:
        by_prog[it["i"]] = []
    seen = []
    for it in items:
        if any(it["rec"] is r for r in seen):
            continue
        seen.append(it["rec"])
        for runner, ev in it["rec"].runs:
            owner = next((x for x in items if os.path.basename(str(runner.command.args[0])).rstrip("x") == f"prog{x['i']}"), None)
            if owner is None:
                raise Violation(f"{where}: event for the unknown command {runner.name!r}")
            if owner["rec"] is not it["rec"]:
                raise Violation(f"{where}: the callback of command {it['i']} was called for command {owner['i']}")
            by_prog[owner["i"]].append(ev)
    # (With .result, a stage that fails is reported by a normal return.)
    failed = mode == "result" and any(it["p"]["status"] for it in items)
    broken = how == "fault" or how == "cancel" or failed or any(o[0] == "exc" for o in outs)
    for it in items:
        runs = by_prog[it["i"]]
        who = f"{where}: command {it['i']}: {[[(e['phase'], e['signal'], e['failure'], e['code']) for e in ev] for ev in runs]}"
        if len(runs) > case["runs"] or (len(runs) < case["runs"] and not broken):
            raise Violation(f"{who}: executed {case['runs']} times")
        if len(items) == 1 and how != "cancel" and not runs:
            raise Violation(f"{who}: no events")
        for k, ev in enumerate(runs):
            one(case, it, ev, who, outs[k] if k < len(outs) else outs[-1], len(items), where)
    execs = [e[1] for e in EVENTS if e[0] == "exec"]
    popens = [e[1] for e in EVENTS if e[0] == "popen"]
    for it in items:
        runs = by_prog[it["i"]]
        ne = execs.count(it["prog"])
        np = popens.count(it["prog"])
        started = sum(1 for ev in runs if any(e["pid"] is not None for e in ev))
        who = f"{where}: command {it['i']}: {ne} shellous.exec events, {np} launches, {started} processes"
        if it["fault"] == "hook":
            if np:
                raise Violation(f"{who}: launched although the audit hook refused")
            if ne != len(runs) and len(items) == 1:
                raise Violation(f"{who}: expected one event per run")
            continue
        if it["prog"] is not None and ne != np:
            raise Violation(f"{who}: every launch is announced once")
        if started > np and it["prog"] is not None:
            raise Violation(f"{who}: more processes than launches")
        if not broken and ne != case["runs"]:
            raise Violation(f"{who}: expected {case['runs']}")
    # every launch is announced before it happens
    balance = {}
    for kind, prog in EVENTS:
        if "prog" not in os.path.basename(prog):
            continue
        balance[prog] = balance.get(prog, 0) + (1 if kind == "exec" else -1)
        if balance[prog] < 0:
            raise Violation(f"{where}: {prog} was launched before it was announced")
    unknown = [p for p in execs if not any(p == it["prog"] for it in items)]
    if unknown:
        raise Violation(f"{where}: shellous.exec events for {unknown}")


def one(case, it, ev, who, got, total, where):
    how = case["how"]
    p = it["p"]
    phases = [e["phase"] for e in ev]
    if phases[0] != "start" or phases[-1] != "stop" or phases.count("start") != 1 or phases.count("stop") != 1 or set(phases[1:-1]) - {"signal"}:
        raise Violation(f"{who}: not start, signal*, stop")
    for e in ev:
        if e["keys"] != ["failure", "runner", "signal"]:
            raise Violation(f"{who}: info has the keys {e['keys']}")
        if (e["phase"] == "signal") != bool(e["signal"]):
            raise Violation(f"{who}: signal name in a {e['phase']} event")
        if e["phase"] != "stop" and e["failure"]:
            raise Violation(f"{who}: failure in a {e['phase']} event")
    start, stop = ev[0], ev[-1]
    if start["pid"] is not None or start["code"] is not None:
        raise Violation(f"{who}: start came when the process existed already")
    sigs = [e["signal"] for e in ev[1:-1]]
    if any(e["pid"] is None for e in ev[1:-1]):
        raise Violation(f"{who}: signal event without a process")
    if stop["failure"]:
        if stop["pid"] is not None and not stop["gone"]:
            raise Violation(f"{who}: stop came before the process was gone")
        if how in ("send", "raise", "end") and (total == 1 or not any(x["status"] for x in case["procs"] + case["subs"])):
            raise Violation(f"{who}: failure is reported, although the command was started")
        fail = stop["failure"]
        if it["fault"]:
            want = {"missing": "FileNotFoundError", "noexec": "FileNotFoundError" if p["named"] else "PermissionError", "badin": "FileNotFoundError",
                    "badout": "IsADirectoryError", "hook": "Refused", "badfd": None}[it["fault"]]
            if want and fail != want and (total == 1 or fail != "CancelledError"):
                raise Violation(f"{who}: failure should be {want}")
            if total == 1 and fail != type(got[1]).__name__:
                raise Violation(f"{who}: failure is {fail}")
        elif fail != "CancelledError":
            raise Violation(f"{who}: failure is {fail}, but there was only a cancellation")
        return
    if it["fault"]:
        raise Violation(f"{who}: no failure is reported for {it['fault']}")
    if stop["pid"] is None or not stop["gone"]:
        raise Violation(f"{who}: stop came before the process was gone")
    if stop["code"] is None:
        raise Violation(f"{who}: no exit status at stop")
    code = stop["code"]
    if not sigs:
        # Nobody ended it: its own status, or SIGPIPE is not possible here.
        if code != p["status"]:
            raise Violation(f"{who}: exit status {code} at stop, the process ended with {p['status']}")
    name = p["sig"] or "SIGKILL"
    if how == "send":
        want = [str(int(getattr(signal, s))) if as_int else s for s, as_int in case["sends"]]
        fin = case["finish"]
        if fin == "kill":
            want.append("SIGKILL")
        if fin in ("cancel", "raise"):
            want.append(name)
        extra = sigs[len(want):]
        if sigs[:len(want)] != want or extra not in ([], ["SIGKILL"]) or (extra and fin not in ("cancel", "raise")):
            raise Violation(f"{who}: signals {sigs}, sent {want}")
        with open(it["log"]) as f:
            seen = [signal.Signals(int(x.split()[3])).name for x in f if x.startswith("S ")]
        sent = [s for s, _ in case["sends"]]
        if seen[:len(sent)] != sent:
            raise Violation(f"{who}: the process saw {seen}, the callback {sigs}")
        if fin == "go" and code != p["status"]:
            raise Violation(f"{who}: exit status {code} at stop")
        return
    if sigs and (sigs[0] != name or sigs[1:] not in ([], ["SIGKILL"])):
        raise Violation(f"{who}: signals {sigs}, cancel_signal is {p['sig']}")
    if sigs and how == "end" and total == 1:
        raise Violation(f"{who}: signalled without reason")
    if sigs:
        possible = {p["status"], -9, -int(getattr(signal, name)), 9}
        if code not in possible:
            raise Violation(f"{who}: exit status {code} at stop, possible {possible}")
        if len(sigs) == 1 and code == -9 and name != "SIGKILL" and p["status"] != -9:
            raise Violation(f"{who}: killed without a SIGKILL event")
    if how in ("raise", "timeout") and not sigs and how != "timeout":
        raise Violation(f"{who}: no signal event")
