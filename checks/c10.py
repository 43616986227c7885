"C10: pipelines report failure like pipefail; launch errors never hang."

import asyncio
import os
import pathlib

from hypothesis import strategies as st

from shellous import Pipeline, Result, ResultError, sh
from vlib import gen
from vlib.base import Violation, check, describe, outcome, same
from vlib.rt import execute, pipe, read_to_end
from vlib.targets import SLOW

HANG = 15.0

META = {
    "level": "exploration",
    "technique": "property-based testing with fault injection: generated stages, statuses, delays and launch failures at every position and in every run mode, against a pipefail model",
    "level_note": "Random search. Which of several racing failures is reported is judged as a set: the status and stderr must belong to the same failing stage. It is judged exactly when one failure is certain to come first. 'Promptly' is judged by a 15 s limit, confirmed by a re-run.",
    "rule": "A case is 2-5 stages (status, stderr, delay, reaction to SIGTERM), allowed exit codes, a run mode and optionally a stage that cannot be launched. Non-trivial: at least one stage fails or cannot be launched.",
    "examples": {"quick": 5000, "thorough": 80000},
    "budget": {"quick": 24, "thorough": 600},
}

CODES = {
    "none": (None, lambda c: c == 0), "zero3": ({0, 3}, lambda c: c in (0, 3)), "three": ({3}, lambda c: c == 3),
    "range": (range(0, 10), lambda c: 0 <= c < 10), "sigs": ({0, -9, -15}, lambda c: c in (0, -9, -15)),
}
BAD = ["missing", "noexec", "dir", "missing_abs", "badstdin", "badstdout", "badstderr", "audit"]

STATUS = st.one_of(
    st.just(0), st.just(0), st.just(0), st.sampled_from([1, 2, 3, 4, 7, 100, 254]), st.sampled_from([-9, -15, -2, -6]),
)


@st.composite
def stage(draw):
    return {
        "status": draw(STATUS),
        "err": draw(st.one_of(st.just({"k": "h", "b": b""}), gen.blobs(4000))),
        "delay": draw(st.sampled_from([0, 0, 0, 1, 3, 10, 30])),
        "drain": draw(st.booleans()),
        "out": draw(st.sampled_from([0, 0, 10, 4000])),
        "term": draw(st.sampled_from(["dfl", "dfl", "exit", "ign"])),
    }


@st.composite
def strategy_(draw, tier):
    n = draw(st.integers(2, 5 if tier == "thorough" else 4))
    if draw(st.integers(0, 29)) == 7:
        n = draw(st.sampled_from([6, 8, 11]))
    stages = [draw(stage()) for _ in range(n)]
    kind = draw(st.sampled_from(["plain", "plain", "plain", "mixed", "single", "launch", "launch"]))
    case = {
        "stages": stages, "kind": kind, "out": draw(gen.blobs(100_000)),
        "codes": draw(st.sampled_from(["none", "none", "none", "zero3", "three", "range", "sigs"])),
        "mode": draw(st.sampled_from(["await", "await", "resultmod", "check", "with", "with", "iter", "prompt"])),
        "watch": draw(st.sampled_from(["", "", "", "", "default", "thread"])),
    }
    if kind == "mixed":
        case["each"] = [draw(st.sampled_from(["none", "none", "zero3", "range", "three"])) for _ in range(n)]
    if kind == "launch":
        case["bad"] = draw(st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from(BAD)).map(list), min_size=1, max_size=2))
        case["input"] = draw(st.sampled_from(["", "", "big"]))
    if kind == "single":
        case["which"] = draw(st.integers(0, n - 1))
        case["rest"] = draw(st.sampled_from(["pause", "cat", "pause"]))
    case["slow"] = draw(SLOW)
    return case


def strategy(tier):
    return strategy_(tier)


def run(case, ctx):
    ctx.label("kind:" + case["kind"], "mode:" + case["mode"], "codes:" + case["codes"], f"n:{len(case['stages'])}")
    if case["kind"] == "launch":
        for p, b in case["bad"]:
            ctx.label("bad:" + b)
    fn = {"plain": plain, "mixed": mixed, "single": single, "launch": launch}[case["kind"]]
    ctx.aio(lambda: fn(case, ctx), watcher=case["watch"] or None, slow=case.get("slow"))


def end_op(s):
    return f"x:{s}" if s >= 0 else f"k:{-s}"


def stage_cmd(ctx, s, i, n, case, codes):
    ops = []
    if s["term"] == "exit":
        ops.append("sig:15:exit:9")
    elif s["term"] == "ign":
        ops.append("sig:15:ign")
    if i > 0 and s["drain"]:
        ops.append("drain")
    ops.append(gen.write_op(2, s["err"]))
    if i == n - 1:
        ops.append(gen.write_op(1, case["out"]))
    elif case["stages"][i + 1]["drain"] and s["out"]:
        ops.append(f"p:1:1:{s['out']}")
    if s["delay"]:
        ops.append(f"s:{s['delay']}")
    ops.append(end_op(s["status"]))
    cmd = sh(ctx.vchild, *ops).set(encoding="latin-1", cancel_timeout=0.2)
    if codes is not None:
        cmd = cmd.set(exit_codes=codes)
    return cmd


async def run_mode(target, mode):
    """Returns ('ok', (output or None, Result or None)) or ('exc', ex)."""
    if mode in ("await", "check"):
        if mode == "check":
            target = Pipeline(target.commands[:-1] + (target.commands[-1].set(_return_result=True),))
        got = await outcome(target)
        if got[0] == "ok":
            if mode == "check":
                return ("ok", (got[1].output_bytes, got[1]))
            return ("ok", (got[1].encode("latin-1"), None))
        return got
    if mode == "with":

        async def body():
            async with target.stdout(sh.CAPTURE) as r:
                out = await read_to_end(r.stdout)
            return out, r

        got = await outcome(body())
        if got[0] == "exc":
            return got
        out, r = got[1]
        res = await outcome(call(r.result, check=False))
        got = await outcome(call(r.result))
        if got[0] == "exc":
            if isinstance(got[1], ResultError):
                check(res[0] == "ok" and res[1] == got[1].result, "result(check=False) differs from the ResultError: %s", describe(res))
                got[1].partial = out
            return got
        check(res[0] == "ok" and res[1] == got[1], "result(check=False) %s differs from result() %s", describe(res), describe(got))
        return ("ok", (out, got[1]))
    if mode == "resultmod":
        return await outcome(execute(target, "await"))
    return await outcome(execute(target, mode))


async def call(fn, **kw):
    return fn(**kw)


async def plain(case, ctx):
    stages = case["stages"]
    n = len(stages)
    codes, allowed = CODES[case["codes"]]
    out = gen.data(case["out"])
    cmds = [stage_cmd(ctx, s, i, n, case, codes) for i, s in enumerate(stages)]
    mode = case["mode"]
    got = await run_mode(pipe(cmds), mode)
    where = f"{mode}, statuses {[s['status'] for s in stages]}, exit_codes {case['codes']}"
    bad = [i for i, s in enumerate(stages) if not allowed(s["status"])]
    ctx.nontrivial(bool(bad))
    if mode in ("iter", "prompt"):
        # No stage waits for another to fail: the output is complete.
        if got[0] == "exc":
            raise Violation(f"{where}: {describe(got)}")
        same(got[1][0], out, f"{where}: output")
        return
    if not bad:
        if got[0] == "exc":
            raise Violation(f"{where}: {describe(got)}")
        same(got[1][0], out, f"{where}: output")
        res = got[1][1]
        if res is not None:
            # An allowed status that is not zero is reported like that of a failing stage.
            # If there is none, the result is the last stage's.
            nonzero = [i for i, s in enumerate(stages) if s["status"] != 0] or [n - 1]
            check_key(case, ctx, res, where, nonzero, False)
            check(bool(res) == (res.exit_code == 0), "%s: bool(result) %s", where, res)
        return
    # With .result on the last stage nothing is raised for it, whatever the others did.
    if mode == "resultmod":
        if got[0] == "exc":
            raise Violation(f"{where}: .result raised: {describe(got)}")
        res = got[1][1]
        ok_last = True
    else:
        if got[0] == "ok":
            raise Violation(f"{where}: the pipeline succeeded although stage {bad} failed: {describe(got)}")
        if type(got[1]) is not ResultError:
            raise Violation(f"{where}: {describe(got)}")
        res = got[1].result
        ok_last = False
    check_key(case, ctx, res, where, bad, ok_last)
    if not out.startswith(res.output_bytes):
        raise Violation(f"{where}: output_bytes is not the last stage's output")
    part = getattr(got[1], "partial", None) if got[0] == "exc" else None
    if part is not None:
        same(part, out, f"{where}: captured output")
    if len(bad) == 1 and bad[0] == n - 1 and mode != "with":
        same(res.output_bytes, out, f"{where}: output of the failing last stage")


def check_key(case, ctx, res, where, bad, resultmod):
    "The reported status and stderr belong to one and the same failing stage."
    stages = case["stages"]
    check(type(res) is Result, "%s: result is %r", where, res)
    check(res.cancelled is False, "%s: result.cancelled is %r", where, res.cancelled)
    cands = bad
    if resultmod:
        # .result allows every status of the last stage.
        cands = [i for i, s in enumerate(stages) if s["status"] != 0 or i in bad]
    pairs = [(stages[i]["status"], gen.data(stages[i]["err"])[:1024]) for i in cands]
    if (res.exit_code, res.error_bytes) not in pairs:
        raise Violation(
            f"{where}: reported status {res.exit_code} with stderr {len(res.error_bytes)} bytes "
            f"{res.error_bytes[:40]!r}, which is not that of a failing stage {cands}"
        )


async def mixed(case, ctx):
    "Every stage has its own exit_codes."
    stages = case["stages"]
    n = len(stages)
    cmds, sure, unsure = [], [], []
    last_ok = CODES[case["each"][-1]][1]
    for i, s in enumerate(stages):
        codes, allowed = CODES[case["each"][i]]
        cmds.append(stage_cmd(ctx, s, i, n, case, codes))
        if not allowed(s["status"]):
            # The final verdict uses the last command's exit_codes (recorded finding).
            (unsure if last_ok(s["status"]) and not case.get("force") else sure).append(i)
    if unsure:
        ctx.label("mixed: not judged")
        return
    ctx.nontrivial()
    got = await run_mode(pipe(cmds), "check")
    where = f"statuses {[s['status'] for s in stages]}, exit_codes {case['each']}"
    if sure:
        if got[0] == "ok" or type(got[1]) is not ResultError:
            raise Violation(f"{where}: stage {sure} failed: {describe(got)}")
        check_key(case, ctx, got[1].result, where, sure, False)
    elif all(s["status"] == 0 for s in stages):
        if got[0] == "exc":
            raise Violation(f"{where}: {describe(got)}")
        same(got[1][0], gen.data(case["out"]), f"{where}: output")


async def single(case, ctx):
    "One stage fails while the others would go on for ever."
    base = await ctx.base()
    stages = case["stages"]
    n = len(stages)
    which = case["which"]
    mode = case["mode"]
    codes, allowed = CODES[case["codes"]]
    s = stages[which]
    if allowed(s["status"]):
        s = dict(s, status=77)
    ctx.nontrivial()
    cmds = []
    for i, other in enumerate(stages):
        if i == which:
            ops = [gen.write_op(2, s["err"])] + ([f"s:{s['delay']}"] if s["delay"] else []) + [end_op(s["status"])]
        else:
            ops = []
            if other["term"] == "exit":
                ops.append("sig:15:exit:9:20")
            elif other["term"] == "ign":
                ops.append("sig:15:ign")
            ops += ["w:2:6f74686572", "pause" if case["rest"] == "pause" or i == 0 or not allowed(0) else "cat"]
        cmd = sh(ctx.vchild, *ops).set(encoding="latin-1", cancel_timeout=0.2)
        if codes is not None:
            cmd = cmd.set(exit_codes=codes)
        cmds.append(cmd)
    if mode in ("iter", "prompt"):
        mode = "check"
    if mode == "resultmod" and which == n - 1:
        mode = "await"
    target = pipe(cmds)
    where = f"{mode}, stage {which} of {n} fails with {s['status']}"
    if mode == "with":

        async def body():
            async with target.stdout(sh.CAPTURE) as r:
                pass
            return r.result()

        got = await outcome(body())
    else:
        got = await run_mode(target, mode)
    if mode == "resultmod":
        if got[0] == "exc":
            raise Violation(f"{where}: {describe(got)}")
        res = got[1][1]
    else:
        if got[0] == "ok" or type(got[1]) is not ResultError:
            raise Violation(f"{where}: {describe(got)}")
        res = got[1].result
    check(res.exit_code == s["status"], "%s: reported status %r", where, res.exit_code)
    same(res.error_bytes, gen.data(s["err"])[:1024], f"{where}: reported stderr")
    check(res.cancelled is False, "%s: cancelled", where)
    same(res.output_bytes, b"", f"{where}: output")
    left = await ctx.settle(base)
    if left:
        raise Violation(f"{where}: left over {left}")


async def launch(case, ctx):
    base = await ctx.base()
    stages = case["stages"]
    n = len(stages)
    ctx.nontrivial()
    bad = {}
    for p, b in case["bad"]:
        bad.setdefault(p, b)
    expect = []
    cmds = []
    mode = case["mode"]
    for i, s in enumerate(stages):
        if s["term"] == "exit":
            ops = ["sig:15:exit:9"]
        elif s["term"] == "ign":
            ops = ["sig:15:ign"]
        else:
            ops = []
        ops += ["cat" if s["drain"] else "pause"]
        prog, b = ctx.vchild, bad.get(i)
        setup = None
        if b == "missing":
            prog = "no-such-program-xyz"
            expect.append(FileNotFoundError)
        elif b == "missing_abs":
            prog = ctx.path("nope")
            expect.append(FileNotFoundError)
        elif b == "noexec":
            prog = ctx.path(f"noexec{i}")
            with open(prog, "w") as f:
                f.write("x")
            expect.append(PermissionError)
        elif b == "dir":
            prog = ctx.dir
            expect.append(PermissionError)
        cmd = sh(prog, *ops).set(cancel_timeout=0.2)
        gone = pathlib.Path(ctx.path("nodir")) / "f"
        if b == "badstdin":
            if i == 0 and case["input"] != "big" and mode != "prompt":
                cmd = cmd.stdin(gone)
            else:
                cmd = cmd.stderr(gone)
            expect.append(FileNotFoundError)
        elif b == "badstdout":
            if i == n - 1 and mode not in ("with", "prompt", "iter"):
                cmd = cmd.stdout(gone)
            else:
                cmd = cmd.stderr(gone)
            expect.append(FileNotFoundError)
        elif b == "badstderr":
            cmd = cmd.stderr(gone)
            expect.append(FileNotFoundError)
        elif b == "audit":

            def refuse(phase, info):
                if phase == "start":
                    raise ZeroDivisionError("refused")

            cmd = cmd.set(audit_callback=refuse)
            expect.append(ZeroDivisionError)
        cmds.append(cmd)
    target = pipe(cmds)
    if case["input"] == "big":
        target = b"z" * 300_000 | target
    where = f"{mode}, {n} stages, cannot launch {bad}"
    got = await run_mode(target, mode)
    if got[0] == "ok" or type(got[1]) not in expect:
        raise Violation(f"{where}: {describe(got)}, expected {expect}")
    left = await ctx.settle(base)
    if left:
        raise Violation(f"{where}: left over {left}")
