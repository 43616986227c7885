"C21: iteration yields exactly the output lines, and may stop at any point."

import asyncio
import contextlib
import os

from hypothesis import strategies as st

from shellous import raw, sh
from vlib.base import Violation, children, describe, outcome, short
from vlib.rt import each, first, last, pipe

META = {
    "level": "exploration",
    "technique": "property-based testing: generated outputs written by a real process in generated pieces are iterated over in every way and compared line by line with the bytes written; gates that open only when a line has been received decide promptness; generated stops (break and aclose, an exception in the loop, athrow, before the first step) are followed by a check that nothing is left",
    "level_note": "Random search over outputs of up to about 300 kB with lines up to 60 kB (the 64 KiB line limit of asyncio is outside the property), 1 to 3 stages, 6 capture configurations, stop positions, slow readers and exit statuses.",
    "rule": "A case is an output, how it is written, what is iterated over and where it stops. Non-trivial: a line arrives in pieces, iteration stops early, a gate depends on a line, or the configuration must be refused.",
    "examples": {"quick": 5000, "thorough": 150000},
    "budget": {"quick": 24, "thorough": 700},
}


class Boom(Exception):
    pass


@st.composite
def line(draw):
    k = draw(st.integers(0, 11))
    if k == 0:
        return b""
    if k == 1:
        return b"z" * draw(st.sampled_from([8191, 8192, 16384, 60000]))
    if k == 2:
        return draw(st.sampled_from([b"\r", b"a\rb", b"\0", b"\x85x", b"\x1c\x1d", b"\x0b\x0c", b"\xe2\x80\xa8", b" ", b"\t", b"  x ", b"\xef\xbb\xbf", b"\xef\xbb\xbfx",
                                     b"x\0", b"\x1a", b"\x04", b"\x08x", b"\xc2\x85", b"x\r", b"\x1b[0m", b"#", b"%s", b"\\n"]))
    if k == 3:
        return draw(st.binary(max_size=6)).replace(b"\n", b"")
    return draw(st.sampled_from([b"a", b"hello", b"line", b"x y"]))


@st.composite
def strategy_(draw, tier):
    case = {
        "how": draw(st.sampled_from(["cmd", "cmd", "cmd", "pipe", "pipe", "run", "runpipe"])),
        "cap": draw(st.sampled_from(["default", "default", "default", "capture", "err", "err", "errcap", "join", "pty", "both", "stderr"])),
        "lines": draw(st.lists(line(), max_size=10)),
        "enc": draw(st.sampled_from(["latin-1", "utf-8 surrogateescape"])),
        "rep": draw(st.sampled_from([1, 1, 1, 1, 40, 400])),
        "open": draw(st.booleans()),
        "cuts": draw(st.lists(st.integers(1, 20), max_size=6)),
        "noise": draw(st.sampled_from([0, 0, 5, 3000, 200000])),
        "gates": draw(st.lists(st.integers(0, 10), max_size=3)),
        "stop": draw(st.sampled_from(["", "", "", "break", "break", "raise", "athrow", "unstarted"])),
        "at": draw(st.integers(0, 100)),
        "tail": draw(st.sampled_from(["exit", "exit", "linger", "forever", "kill"])),
        "code": draw(st.sampled_from([0, 0, 1, 7, 255])),
        "slow": draw(st.integers(0, 3)),
        "stdin": draw(st.sampled_from(["", "", "big"])),
        "stages": draw(st.integers(1, 2)),
        "eager": draw(st.integers(0, 7)) == 1,
        "watch": draw(st.sampled_from(["", "", "", "", "default", "thread"])),
        "again": draw(st.booleans()),
    }
    return case


def strategy(tier):
    return strategy_(tier)


def run(case, ctx):
    ctx.aio(lambda: go(case, ctx), eager=case["eager"], watcher=case["watch"] or None)


def refused(case):
    return case["cap"] in ("both", "stderr")


def build(case, ctx):
    "The command or pipeline, its lines, and {line index: gate file}."
    lines = [x + b"\n" for x in case["lines"]] * case["rep"]
    if sum(map(len, lines)) > 300000:
        lines = lines[: max(1, 300000 // max(map(len, lines)))]
    if lines and case["open"] and lines[-1] != b"\n" and case["tail"] != "forever":
        lines[-1] = lines[-1][:-1]
    fd = 2 if case["cap"] in ("err", "errcap") else 1
    data = b"".join(lines)
    ops, gates = [], {}
    if case["stdin"]:
        ops.append("drain")
    if case["noise"] and case["cap"] not in ("join", "pty", "both", "stderr"):
        ops.append(f"t:{3 - fd}:5:{case['noise']}")
    ends = []
    pos = 0
    for x in lines:
        pos += len(x)
        ends.append(pos)
    points = {}
    if lines:
        for g in case["gates"]:
            k = g % len(lines)
            if lines[k].endswith(b"\n") and k + 1 < len(lines):
                points[ends[k]] = k
    cuts = set(points)
    pos = 0
    for c in case["cuts"]:
        pos += c
        if pos < len(data):
            cuts.add(pos)
            if case["cap"] != "join":
                cuts.add(len(data) - pos)
    pos = 0
    for i, c in enumerate(sorted(cuts | {len(data)})):
        out = 2 if case["cap"] == "join" and i % 2 else fd
        for j in range(pos, c, 30000):
            ops.append(f"w:{out}:{data[j:min(j + 30000, c)].hex()}")
        pos = c
        if c in points:
            k = points[c]
            gates[k] = ctx.path(f"gate{k}")
            ops += ["wait", gates[k]]
        elif i % 3 == 1:
            ops.append("s:1")
    if case["tail"] == "linger":
        ops += ["close:1", "close:2", "s:3"] if case["cap"] != "pty" else ["s:3"]
    elif case["tail"] == "forever":
        ops.append("pause")
    elif case["tail"] == "kill":
        ops.append("k:9")
    ops.append(f"x:{case['code']}")
    cmd = sh(ctx.vchild, *ops)
    opts = {"encoding": case["enc"]}
    if case["cap"] == "pty":
        opts["pty"] = raw()
    if case["how"] in ("pipe", "runpipe"):
        stages = [sh(ctx.vchild, "cat") for _ in range(case["stages"])]
        # The stage that is looked at is the last one.
        if case["cap"] in ("default", "capture", "both", "stderr"):
            target = pipe([cmd] + stages)
        else:
            target = pipe(stages + [cmd])
    else:
        target = cmd
    if case["stdin"]:
        target = first(target, lambda c: c.stdin(b"some input\n" * 10000))
    elif case["cap"] == "pty" and case["how"] in ("cmd", "run"):
        target = target.stdin(sh.CAPTURE)
    target = last(target, lambda c: c.set(**opts))
    cap = case["cap"]
    plain = case["how"] in ("run", "runpipe")
    if cap in ("err", "errcap"):
        target = last(target, lambda c: c.stdout(sh.DEVNULL).stderr(sh.STDOUT if cap == "err" and not plain else sh.CAPTURE))
    elif cap == "join":
        target = last(target, lambda c: c.stderr(sh.STDOUT))
    elif cap == "both":
        target = last(target, lambda c: c.stdout(sh.CAPTURE).stderr(sh.CAPTURE))
    elif cap == "stderr":
        target = last(target, lambda c: c.stderr(sh.CAPTURE))
    if (cap == "capture" or plain) and cap not in ("err", "errcap"):
        target = last(target, lambda c: c.stdout(sh.CAPTURE))
    return target, lines, gates


async def go(case, ctx):
    base = await ctx.base()
    if case["cap"] == "pty" and case["stdin"]:
        case = dict(case, stdin="")
    plain = case["how"] in ("run", "runpipe")
    if plain and refused(case):
        case = dict(case, cap="default")
    target, lines, gates = build(case, ctx)
    ctx.label("how:" + case["how"], "cap:" + case["cap"], "stop:" + (case["stop"] or "no"), "tail:" + case["tail"])
    ctx.nontrivial(bool(case["cuts"]) or bool(gates) or refused(case) or bool(case["stop"]))
    where = f"{case['how']}, {case['cap']}"
    if refused(case):
        got = await outcome(drain(target))
        if got[0] != "exc" or not isinstance(got[1], RuntimeError):
            raise Violation(f"{where}: capturing both streams was not refused: {describe(got)}")
        await nothing_left(ctx, base, where)
        return
    if plain:
        await iterate_run(case, ctx, target, lines, gates, where)
    else:
        await iterate(case, ctx, target, lines, gates, where)
        if case["again"] and case["tail"] != "forever":
            for g in gates.values():
                with open(g, "wb"):
                    pass
            got = [x async for x in target]
            judge(got, lines, where + ", again", True, case["enc"])
    await nothing_left(ctx, base, where)


async def drain(target):
    return [x async for x in target]


async def nothing_left(ctx, base, where):
    if children():
        raise Violation(f"{where}: children left {children()}")
    left = await ctx.settle(base)
    if left:
        raise Violation(f"{where}: left over {left}")


def judge(got, lines, where, whole, enc):
    want = [x.decode(*enc.split()) for x in (lines if whole else lines[: len(got)])]
    if got != want:
        k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        raise Violation(f"{where}: {len(got)} lines, expected {len(want)}; line {k}: {short(got[k]) if k < len(got) else 'missing'}, expected {short(want[k]) if k < len(want) else 'no more'}")


def arrived(gates, n, lines, got, where):
    "n lines have been received: let the process go on."
    if n - 1 in gates:
        with open(gates[n - 1], "wb"):
            pass


async def step(it, where, n):
    try:
        return await asyncio.wait_for(anext(it), 15)
    except asyncio.TimeoutError:
        raise Violation(f"{where}: line {n} was written and did not come in 15 s") from None


async def iterate(case, ctx, target, lines, gates, where):
    it = aiter(target)
    stop = case["stop"]
    if not stop and case["tail"] == "forever":
        stop = "break"
        case = dict(case, at=100)
    at = len(lines) * case["at"] // 100 if stop else -1
    if stop == "unstarted":
        await it.aclose()
        if children():
            raise Violation(f"{where}: closing an iterator that was not started left {children()}")
        return
    got = []
    boom = Boom()
    try:
        if at != 0 or stop == "break" and not lines:
            while len(got) != at:
                if not stop and len(got) == len(lines):
                    break
                got.append(await step(it, where, len(got)))
                arrived(gates, len(got), lines, got, where)
                if case["slow"]:
                    for _ in range(case["slow"]):
                        await asyncio.sleep(0)
                    if case["slow"] == 3 and len(got) < 10:
                        await asyncio.sleep(0.001)
            if stop and not lines:
                stop = "break"
        if not stop:
            try:
                extra = await asyncio.wait_for(anext(it), 15)
                raise Violation(f"{where}: {short(extra)} after the last line")
            except StopAsyncIteration:
                pass
            except asyncio.TimeoutError:
                raise Violation(f"{where}: the iterator does not end") from None
            if children():
                raise Violation(f"{where}: the iterator has ended, children {children()}")
            try:
                extra = await anext(it)
                raise Violation(f"{where}: {short(extra)} after the end")
            except StopAsyncIteration:
                pass
        elif stop == "athrow":
            try:
                await it.athrow(boom)
                raise Violation(f"{where}: athrow returned")
            except Boom as ex:
                if ex is not boom:
                    raise Violation(f"{where}: athrow raised {ex!r}") from None
        elif stop == "raise":
            raise boom
    except Boom:
        pass
    except Violation:
        raise
    except Exception as ex:  # pylint: disable=broad-except
        raise Violation(f"{where}: after {len(got)} of {len(lines)} lines, {case['tail']} {case['code']}: {describe(('exc', ex))}") from ex
    finally:
        if stop:
            # (Whoever leaves the loop early closes the iterator.)
            closed = await outcome(it.aclose())
    judge(got, lines, where, not stop, case["enc"])
    if stop:
        if closed[0] != "ok":
            raise Violation(f"{where}: closing it after {len(got)} of {len(lines)} lines {describe(closed)}")
        if children():
            raise Violation(f"{where}: closed after {len(got)} lines, children {children()}")
        for g in gates.values():
            if not os.path.exists(g):
                with open(g, "wb"):
                    pass


async def iterate_run(case, ctx, target, lines, gates, where):
    "async for over an open run; the rest may be read otherwise, or iterated again."
    got = []
    stop = case["stop"] in ("break", "raise")
    at = len(lines) * case["at"] // 100
    rest = b""

    async def body():
        nonlocal rest
        async with target as run:
            if at or not stop:
                async for x in run:
                    got.append(x)
                    arrived(gates, len(got), lines, got, where)
                    if stop and len(got) == at:
                        break
                    if case["tail"] == "forever" and len(got) == len(lines):
                        break
            if case["tail"] == "forever":
                kill(run)
            elif stop:
                for g in gates.values():
                    with open(g, "wb"):
                        pass
                stream = run.stdout or run.stderr
                if case["stop"] == "raise":
                    async for x in run:
                        got.append(x)
                else:
                    rest = await stream.read()
                    got.append(rest.decode(*case["enc"].split()))
            box.append(run)

    box = []
    if case["tail"] == "forever" and not lines:
        return
    out = await outcome(body())
    if not box:
        raise Violation(f"{where}: after {len(got)} of {len(lines)} lines: {describe(out)}")
    if case["tail"] == "forever":
        judge(got, lines, where, False, case["enc"])
    elif "".join(got).encode(*case["enc"].split()) != b"".join(lines):
        raise Violation(f"{where}: iterating, then reading the rest, gave {short(''.join(got))}, expected {short(b''.join(lines))}")
    elif case["stop"] != "break":
        judge(got, lines, where, True, case["enc"])


def kill(run):
    if hasattr(run, "cancel"):
        run.cancel()
    else:
        for kid in children():
            with contextlib.suppress(ProcessLookupError):
                os.kill(kid, 15)
