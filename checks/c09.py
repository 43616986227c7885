"C09: results report the true exit status; ResultError iff not allowed."

import asyncio
import signal

from hypothesis import strategies as st

from shellous import Result, ResultError, sh
from vlib import gen
from vlib.base import Violation, check, describe, outcome, same, short

META = {
    "level": "exploration",
    "technique": "property-based testing: generated exit statuses, exit_codes containers and run modes against a reference model of the outcome",
    "level_note": "Random search; every exit code 0-255 and every terminating signal is in the generator's domain. exit_signal is judged for signals that signal.Signals can name (the others are a recorded finding).",
    "rule": "A case is a child that writes generated stdout/stderr and ends with a generated status, an exit_codes container and a run mode. Non-trivial: non-zero status or exit_codes set.",
    "examples": {"quick": 12000, "thorough": 150000},
    "budget": {"quick": 20, "thorough": 500},
}

SIGNALS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 24, 25, 26, 27, 29, 30, 31, 34, 35, 40, 64]


class Odd:
    "A container without __len__ or __iter__."

    def __contains__(self, x):
        return x % 2 != 0


CODES = {
    "none": (None, lambda c: c == 0), "zero": ({0}, lambda c: c == 0), "one": ({1}, lambda c: c == 1),
    "zero3": ([0, 3], lambda c: c in (0, 3)), "range": (range(0, 10), lambda c: 0 <= c < 10),
    "signals": (range(-64, 0), lambda c: -64 <= c < 0), "big": (frozenset({255, 128, -9, -15}), lambda c: c in (255, 128, -9, -15)),
    "odd": (Odd(), lambda c: c % 2 != 0), "dict": ({0: "a", 7: "b"}, lambda c: c in (0, 7)), "all": (range(-255, 256), lambda c: True),
}


@st.composite
def strategy_(draw, tier):
    status = draw(st.one_of(
        st.sampled_from([0, 0, 1, 2, 3, 7, 126, 127, 128, 255]), st.integers(0, 255),
        st.sampled_from(SIGNALS).map(lambda s: -s),
    ))
    return {
        "status": status,
        "codes": draw(st.sampled_from(sorted(CODES))),
        "out": draw(gen.blobs(20_000)), "err": draw(gen.blobs(3000)),
        "delay": draw(st.sampled_from([0, 0, 0, 2, 10])),
        "mode": draw(st.sampled_from(["await", "await", "result", "result_then", "with", "with_check", "prompt", "coro", "pipe1", "iter", "ctx_result"])),
        "pty": draw(st.integers(0, 7)) == 5,
        "watch": draw(st.sampled_from(["", "", "", "", "default", "thread"])),
    }


def strategy(tier):
    return strategy_(tier)


def run(case, ctx):
    ctx.label("mode:" + case["mode"], "codes:" + case["codes"], "signal" if case["status"] < 0 else "exit")
    ctx.nontrivial(case["status"] != 0 or case["codes"] != "none")
    ctx.aio(lambda: go(case, ctx), watcher=case["watch"] or None)


def check_result(res, case, out, err, where, mode):
    s = case["status"]
    check(isinstance(res, Result), "%s: not a Result: %s", where, short(res))
    check(res.exit_code == s, "%s: exit_code is %r, expected %r", where, res.exit_code, s)
    check(bool(res) is (s == 0), "%s: bool(result) is %r for status %r", where, bool(res), s)
    check(res.cancelled is False, "%s: cancelled is %r", where, res.cancelled)
    names = {int(x) for x in signal.Signals}
    if s >= 0 or -s in names or case.get("force"):
        want_sig = None if s >= 0 else -s
        check(res.exit_signal == want_sig, "%s: exit_signal is %r for status %r", where, res.exit_signal, s)
    if mode not in ("with", "with_check", "prompt", "iter"):
        same(res.output_bytes, out, f"{where}: output_bytes")
    if not case["pty"]:
        same(res.error_bytes, err[:1024], f"{where}: error_bytes")
    check(res.encoding == "latin-1", "%s: encoding is %r", where, res.encoding)


async def go(case, ctx):
    s = case["status"]
    out, err = gen.data(case["out"]), gen.data(case["err"])
    mode = case["mode"]
    ops = [gen.write_op(1, case["out"]), gen.write_op(2, case["err"])]
    if case["pty"]:
        ops = [gen.write_op(1, case["out"])]
        err = b""
    if case["delay"]:
        ops.append(f"s:{case['delay']}")
    ops.append(f"x:{s}" if s >= 0 else f"k:{-s}")
    codes, allowed = CODES[case["codes"]]
    ok = allowed(s)
    ctxt = sh.result if mode == "ctx_result" else sh
    cmd = ctxt(ctx.vchild, *ops).set(encoding="latin-1")
    if case["pty"]:
        from shellous import raw

        cmd = cmd.set(pty=raw())
    if codes is not None or mode == "result_then":
        cmd = cmd.set(exit_codes=codes)
    where = f"status {s}, exit_codes {case['codes']}, {mode}{', pty' if case['pty'] else ''}"
    if mode in ("await", "coro"):
        got = await outcome(cmd if mode == "await" else cmd.coro())
        if ok:
            if got[0] == "exc":
                raise Violation(f"{where}: {describe(got)}")
            same(got[1], out.decode("latin-1"), f"{where}: output")
            return
        if got[0] == "ok" or type(got[1]) is not ResultError:
            raise Violation(f"{where}: {describe(got)}")
        check_result(got[1].result, case, out, err, where, mode)
    elif mode in ("result", "ctx_result"):
        if mode == "result":
            cmd = cmd.result
            ok = True
        elif codes is None:
            ok = True
        got = await outcome(cmd)
        if ok and got[0] == "exc":
            raise Violation(f"{where}: {describe(got)}")
        if not ok and (got[0] == "ok" or type(got[1]) is not ResultError):
            raise Violation(f"{where}: {describe(got)}")
        check_result(got[1] if ok else got[1].result, case, out, err, where, mode)
    elif mode == "result_then":
        got = await outcome(cmd.result.set(exit_codes=codes))
        if not ok:
            if got[0] == "ok" or type(got[1]) is not ResultError:
                raise Violation(f"{where}: {describe(got)}")
            check_result(got[1].result, case, out, err, where, mode)
        else:
            if got[0] == "exc":
                raise Violation(f"{where}: {describe(got)}")
            check_result(got[1], case, out, err, where, mode)
    elif mode in ("with", "with_check"):
        async with cmd.stdout(sh.CAPTURE) as run_:
            try:
                run_.result()
            except TypeError:
                pass
            except ResultError:
                check(run_.returncode is not None, "%s: run.result() raised ResultError before the exit", where)
            else:
                # Allowed only if the process has really exited already.
                check(run_.returncode is not None, "%s: run.result() inside the block did not raise TypeError", where)
            data = b""
            while True:
                b = await run_.stdout.read(4096)
                if not b:
                    break
                data += b
        same(data, out, f"{where}: captured output")
        got = await outcome(_call(run_.result, check=(mode == "with_check")))
        check(run_.returncode == s, "%s: run.returncode is %r", where, run_.returncode)
        if ok or mode == "with":
            if got[0] == "exc":
                raise Violation(f"{where}: {describe(got)}")
            check_result(got[1], case, b"", err, where, mode)
        else:
            if got[0] == "ok" or type(got[1]) is not ResultError:
                raise Violation(f"{where}: {describe(got)}")
            check_result(got[1].result, case, b"", err, where, mode)
    elif mode == "prompt":
        async with cmd.prompt() as cli:
            try:
                cli.result
            except Exception:  # any refusal
                pass
            else:
                raise Violation(f"{where}: prompt result available inside the block")
            if not case["pty"]:  # closing a raw pty's writer hangs up the terminal
                cli.close()
            text = await cli.read_all()
        same(text.encode("latin-1"), out, f"{where}: prompt output")
        check_result(cli.result, case, b"", err, where, mode)
    elif mode == "iter":
        got = await outcome(_iterate(cmd))
        if got[0] == "exc":
            raise Violation(f"{where}: {describe(got)}")
        same(got[1].encode("latin-1"), out, f"{where}: iterated output")
    elif mode == "pipe1":
        # As the last stage of a pipeline whose first stage succeeds.
        cmd = sh(ctx.vchild, "x:0") | cmd
        got = await outcome(cmd)
        # With a non-zero status of the last stage only, that is the result.
        if ok and s == 0:
            if got[0] == "exc":
                raise Violation(f"{where}: {describe(got)}")
            same(got[1], out.decode("latin-1"), f"{where}: output")
        elif not ok and s != 0:
            if got[0] == "ok" or type(got[1]) is not ResultError:
                raise Violation(f"{where}: {describe(got)}")
            check_result(got[1].result, case, out, err, where, mode)


async def _call(fn, **kw):
    return fn(**kw)


async def _iterate(cmd):
    return "".join([x async for x in cmd])
