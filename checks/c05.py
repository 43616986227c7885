"C05: standard input is delivered complete, in order, then EOF."

import asyncio
import io
import os
import sys
from pathlib import Path

from hypothesis import strategies as st

from shellous import sh
from vlib import gen
from vlib.base import Violation, check, cnt_line, describe, outcome, same
from vlib.rt import lines_ok

META = {
    "level": "exploration",
    "technique": "property-based testing: generated stdin sources and child read behaviours against a byte-exact oracle",
    "level_note": "Random search over source kind, size, encoding, chunking, route and child behaviour; trusts the scripted C child and the kernel.",
    "rule": "A case is one stdin source (kind, content, encoding, chunk plan) bound to a child (read all/partly/none, delays) through a route (operator, method, pipeline, async with). Non-trivial: at least one byte of input.",
    "examples": {"quick": 9000, "thorough": 120000},
    "budget": {"quick": 20, "thorough": 600},
}

KINDS = ["str", "bytes", "bytearray", "path", "file", "rawfile", "textfile", "stringio", "bytesio", "fd_file",
         "fd_pipe", "reader", "devnull", "inherit", "capture", "default"]


@st.composite
def strategy_(draw, tier):
    kind = draw(st.sampled_from(KINDS))
    case = {"kind": kind, "enc": "utf-8"}
    if kind in ("str", "stringio"):
        case["enc"] = draw(gen.encodings())
        case["text"] = draw(gen.texts(30))
        case["rep"] = draw(st.sampled_from([1, 1, 1, 7, 400, 5000]))
    elif kind not in ("devnull", "default"):
        case["blob"] = draw(gen.blobs(300_000 if tier == "quick" else 2_000_000))
    case["route"] = draw(st.sampled_from(["op", "method", "pipe", "pipe3"]))
    if kind == "default":
        case["route"] = draw(st.sampled_from(["method", "pipe"]))
    case["mode"] = "with" if kind == "capture" else draw(st.sampled_from(["await", "await", "with", "iter"]))
    case["plan"] = draw(gen.chunk_plan()) if kind in ("reader", "capture") else []
    case["delay"] = draw(st.lists(st.integers(0, 3), max_size=4)) if kind in ("reader", "capture") else []
    case["close"] = draw(st.booleans()) if kind.startswith("fd_") else False
    case["child"] = draw(st.sampled_from(["cnt", "cnt", "cat", "cat", "slow", "part", "none"]))
    case["n"] = draw(gen.sizes(100_000)) if case["child"] in ("cat", "part") else 0
    case["again"] = draw(st.booleans())
    return case


def strategy(tier):
    return strategy_(tier)


def child_ops(case):
    c = case["child"]
    if c == "cnt":
        return ["cnt"]
    if c == "slow":
        return ["s:3", "rd:1", "s:2", "cat:997", "w:1:2e"]
    if c == "cat":
        return [f"cat:{max(1, case['n'])}" if case["n"] else "cat"]
    if c == "part":
        return [f"take:{case['n']}", "x:0"]
    return ["x:0"]


def expected(case, want):
    c = case["child"]
    if c == "cnt":
        return cnt_line(want)
    if c == "slow":
        return want[1:] + b"."
    if c == "cat":
        return want
    if c == "part":
        return want[: case["n"]]
    return b""


def run(case, ctx):
    kind = case["kind"]
    ctx.label("kind:" + kind, "child:" + case["child"], "route:" + case["route"], "mode:" + case["mode"])
    enc = case["enc"]
    if kind in ("str", "stringio"):
        text = case["text"] * case["rep"]
        if kind == "stringio":
            text = io.StringIO(text, newline="").getvalue()
        try:
            want = text.encode(*enc.split())
        except UnicodeError as ex:
            want = ex
    elif kind in ("devnull", "default"):
        want = b""
    else:
        want = gen.data(case["blob"])
    nbytes = len(want) if isinstance(want, bytes) else 0
    ctx.nontrivial(nbytes > 0)
    if nbytes > 65536:
        ctx.label("big")
    if isinstance(want, Exception):
        ctx.label("unencodable")
    if case["mode"] == "iter" and isinstance(want, bytes) and not lines_ok(expected(case, want)):
        case["mode"] = "with"  # a single line is limited to 64 KiB
    saved_stdin = sys.stdin
    held = []
    try:
        ctx.aio(lambda: go(case, ctx, want, held))
    finally:
        sys.stdin = saved_stdin
        for f in held:
            try:
                f.close()
            except (OSError, ValueError):
                pass


def make_source(case, ctx, want, held, feeders):
    kind = case["kind"]
    if kind in ("str",):
        return case["text"] * case["rep"]
    if kind == "stringio":
        return io.StringIO(case["text"] * case["rep"], newline="")
    if kind == "bytes":
        return want
    if kind == "bytearray":
        return bytearray(want)
    if kind == "bytesio":
        return io.BytesIO(want)
    if kind in ("path", "file", "rawfile", "textfile", "fd_file", "inherit"):
        p = ctx.path("in")
        with open(p, "wb") as f:
            f.write(want)
        if kind == "path":
            return Path(p)
        if kind == "fd_file":
            return os.open(p, os.O_RDONLY)
        if kind == "inherit":
            sys.stdin = open(p, "r")
            held.append(sys.stdin)
            return sh.INHERIT
        f = open(p, "r" if kind == "textfile" else "rb", buffering=0 if kind == "rawfile" else -1)
        held.append(f)
        return f
    if kind == "fd_pipe":
        r, w = os.pipe()
        os.set_blocking(w, False)

        async def feed():
            pos = 0
            try:
                while pos < len(want):
                    try:
                        pos += os.write(w, want[pos : pos + 65536])
                    except BlockingIOError:
                        await asyncio.sleep(0.001)
            except BrokenPipeError:
                pass
            finally:
                os.close(w)

        feeders.append(feed)
        return r
    if kind == "reader":
        reader = asyncio.StreamReader()
        pieces = gen.cut(want, case["plan"])

        async def feed():
            delays = case["delay"]
            for i, piece in enumerate(pieces):
                reader.feed_data(piece)
                if i < len(delays):
                    await asyncio.sleep(delays[i] / 1000)
            reader.feed_eof()

        feeders.append(feed)
        return reader
    if kind == "devnull":
        return sh.DEVNULL
    if kind == "capture":
        return sh.CAPTURE
    return None


async def go(case, ctx, want, held):
    kind = case["kind"]
    feeders = []
    source = make_source(case, ctx, want, held, feeders)
    cmd = sh(ctx.vchild, *child_ops(case)).set(encoding=case["enc"])
    cat = sh(ctx.vchild, "cat")
    route = case["route"]
    target = cmd
    if route == "pipe":
        target = cmd | cat
    elif route == "pipe3":
        target = cmd | cat | cat
    if source is None:
        pass
    elif route == "method":
        if isinstance(source, int) and not kind == "devnull" and kind.startswith("fd_"):
            target = target.stdin(source, close=case["close"])
        else:
            target = target.stdin(source)
    else:
        target = source | target
    rounds = 2 if case["again"] and kind in ("str", "bytes", "bytearray", "path", "stringio", "bytesio", "devnull", "default") else 1
    for i in range(rounds):
        tasks = [asyncio.ensure_future(f()) for f in feeders]
        out = await execute(case, target, want)
        if kind == "fd_pipe":
            # The command never closes (or drains) what it was not given to close.
            if not (route == "method" and case["close"]):
                os.close(source)
        elif kind == "fd_file" and not (route == "method" and case["close"]):
            os.lseek(source, 0, os.SEEK_CUR)
            os.close(source)
        for t in tasks:
            await t
        judge(case, out, want, i)


async def execute(case, target, want):
    from shellous import Command, Pipeline

    if case["mode"] == "await":
        if isinstance(target, Pipeline):
            target = Pipeline(target.commands[:-1] + (target.commands[-1].result,))
        else:
            target = target.result
        out = await outcome(target)
        if out[0] == "ok":
            return ("ok", out[1].output_bytes, out[1].exit_code)
        return out
    if case["mode"] == "iter":
        async def it():
            return "".join([line async for line in target.stdout(sh.CAPTURE)])

        first = target[0] if isinstance(target, Pipeline) else target
        del first
        if isinstance(target, Pipeline):
            last = target.commands[-1].set(encoding="latin-1")
            target = Pipeline(target.commands[:-1] + (last,))
        elif case["kind"] not in ("str", "stringio"):
            target = target.set(encoding="latin-1")
        else:
            target = target | sh("cat").set(encoding="latin-1")
        out = await outcome(it())
        if out[0] == "ok":
            return ("ok", out[1].encode("latin-1"), 0)
        return out

    async def with_():
        chunks = []
        async with target.stdout(sh.CAPTURE) as run:
            async def collect():
                while True:
                    b = await run.stdout.read(10000)
                    if not b:
                        return
                    chunks.append(b)

            t = asyncio.ensure_future(collect())
            try:
                if case["kind"] == "capture":
                    check(run.stdin is not None, "stdin is None with CAPTURE")
                    try:
                        for j, piece in enumerate(gen.cut(want, case["plan"])):
                            run.stdin.write(piece)
                            await run.stdin.drain()
                            if j < len(case["delay"]):
                                await asyncio.sleep(case["delay"][j] / 1000)
                    except (BrokenPipeError, ConnectionResetError):
                        pass
                    run.stdin.close()
                else:
                    check(run.stdin is None, "stdin exposed without CAPTURE")
            finally:
                await t
        res = run.result(check=False)
        return (b"".join(chunks), res.exit_code)

    out = await outcome(with_())
    if out[0] == "ok":
        return ("ok", *out[1])
    return out


def judge(case, out, want, i):
    where = f"run {i + 1}: " if i else ""
    if isinstance(want, Exception):
        if out[0] == "ok" or not isinstance(out[1], UnicodeEncodeError):
            raise Violation(f"{where}unencodable input did not raise UnicodeEncodeError: {describe(out)}")
        return
    undelivered = case["child"] in ("part", "none")
    if out[0] == "exc":
        if isinstance(out[1], Violation):
            raise out[1]
        if undelivered and isinstance(out[1], BrokenPipeError):
            return
        raise Violation(f"{where}stdin {case['kind']} {len(want)} bytes: {describe(out)}")
    exp = expected(case, want)
    same(bytes(out[1]), exp, f"{where}child's view of stdin ({case['kind']}, {len(want)} bytes)")
    if out[2] != 0:
        raise Violation(f"{where}exit code {out[2]}, expected 0")
