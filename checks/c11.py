"C11: a pipeline computes the composition of its stages."

import asyncio
import io
import os
import pathlib

from hypothesis import strategies as st

from shellous import sh
from vlib import gen
from vlib.base import Violation, check, describe, outcome, same
from vlib.rt import execute, last, lines_ok, read_to_end

META = {
    "level": "exploration",
    "technique": "property-based testing: generated stage transformations, data, speeds and early exits against function composition; differential over the run modes and input sources",
    "level_note": "Random search; sizes are drawn around the pipe and read-chunk boundaries, stages are slowed at generated points and may stop reading early. Termination is judged by a 20 s limit, confirmed by a re-run.",
    "rule": "A case is 2-12 stages (each a chain of byte transformations), an input and its source, a run mode. Non-trivial: at least one stage changes its input and there is data.",
    "examples": {"quick": 4000, "thorough": 60000},
    "budget": {"quick": 24, "thorough": 700},
}
HANG = 20.0

OP = st.one_of(
    st.just(["cat"]), st.just(["cat"]), st.sampled_from([1, 2, 7, 100, 4096, 65536]).map(lambda n: ["cat", n]),
    st.integers(1, 255).map(lambda n: ["map", n]), st.just(["dup"]),
    st.integers(0, 255).map(lambda n: ["del", n]),
    st.sampled_from([0, 1, 5, 1000, 65536, 70000]).map(lambda n: ["drop", n]),
    st.sampled_from([0, 1, 5, 100, 8192, 65536, 100000]).map(lambda n: ["take", n]),
)


@st.composite
def stage(draw):
    return {
        "op": draw(OP), "pre": draw(st.sampled_from([0, 0, 0, 1, 5, 20])), "post": draw(st.sampled_from([0, 0, 0, 3])),
        "drain": draw(st.booleans()), "err": draw(gen.blobs(6000)),
        "sink": draw(st.sampled_from(["", "", "bytearray", "bytesio", "path", "devnull", "stdout", "stdout"])),
        "head": draw(st.one_of(st.just(b""), st.binary(max_size=6))),
        "tail": draw(st.one_of(st.just(b""), st.binary(max_size=6))),
    }


@st.composite
def strategy_(draw, tier):
    n = draw(st.integers(2, 7 if tier == "thorough" else 5))
    if draw(st.integers(0, 15)) == 7:
        n = draw(st.sampled_from([7, 9, 12]))
    stages = [draw(stage()) for _ in range(n)]
    data = draw(gen.blobs(250_000))
    if n >= 7 and draw(st.booleans()):
        # More data than all the pipes hold, and a late stage that stops early.
        data = {"k": "p", "n": 200_000 * n, "s": draw(st.integers(0, 255))}
        stop = n - draw(st.integers(1, 3))
        for i, s in enumerate(stages[:stop]):
            stages[i] = {**s, "op": [s["op"][0], s["op"][1]] if s["op"][0] in ("map", "del") else ["cat"], "drain": False}
        stages[stop] = {**stages[stop], "op": ["take", draw(st.sampled_from([0, 1, 8192]))], "drain": False}
    return {
        "stages": stages,
        "input": data,
        "source": draw(st.sampled_from(["gen", "gen", "bytes", "path", "bytesio", "fd", "capture", "stream"])),
        "mode": draw(st.sampled_from(["await", "check", "iter", "with", "with_slow", "prompt"])),
        "group": draw(st.integers(0, 3)),
        "repeat": draw(st.sampled_from([1, 1, 1, 2])),
        "watch": draw(st.sampled_from(["", "", "", "", "default"])),
    }


def strategy(tier):
    return strategy_(tier)


def apply(op, data):
    k = op[0]
    if k == "cat":
        return data
    if k == "map":
        return data.translate(bytes((i + op[1]) & 255 for i in range(256)))
    if k == "dup":
        out = bytearray(2 * len(data))
        out[0::2] = data
        out[1::2] = data
        return bytes(out)
    if k == "del":
        return data.translate(None, bytes([op[1]]))
    if k == "drop":
        return data[op[1]:]
    return data[: op[1]]


def model(case):
    data = gen.data(case["input"])
    for s in case["stages"]:
        err = gen.data(s["err"]) if s["sink"] == "stdout" else b""
        data = err + s["head"] + apply(s["op"], data) + s["tail"]
    return data


def run(case, ctx):
    data = gen.data(case["input"])
    out = model(case)
    ctx.label("mode:" + case["mode"], "source:" + case["source"], f"n:{len(case['stages'])}")
    early = any(s["op"][0] == "take" and not s["drain"] for s in case["stages"])
    if early:
        ctx.label("early exit")
    ctx.nontrivial(len(data) > 0 and (out != data or early))
    ctx.aio(lambda: go(case, ctx, data, out, early), watcher=case["watch"] or None)


def opname(op):
    return ":".join(str(x) for x in op)


async def go(case, ctx, data, out, early):
    mode, source = case["mode"], case["source"]
    if mode == "iter" and not lines_ok(out):
        mode = "with"
    if mode == "prompt":
        source = "gen"
    if early and source in ("bytes", "bytesio", "capture", "stream"):
        # The writer would (rightly) get a BrokenPipeError.
        source = "path"
    if source == "capture":
        mode = "with_slow" if mode == "with_slow" else "with"
    for _ in range(case["repeat"]):
        await once(case, ctx, data, out, mode, source)


async def once(case, ctx, data, out, mode, source):
    cmds, sinks = [], []
    for i, s in enumerate(case["stages"]):
        ops = []
        if s["pre"]:
            ops.append(f"s:{s['pre']}")
        ops.append(gen.write_op(2, s["err"]))
        if s["head"]:
            ops.append(f"w:1:{s['head'].hex()}")
        if i == 0 and source == "gen":
            # A private pipe stands in for the standard input.
            ops += ["if:0", put(ctx, "input", data)]
        ops.append(opname(s["op"]))
        if s["tail"]:
            ops.append(f"w:1:{s['tail'].hex()}")
        if s["op"][0] == "take" and s["drain"]:
            ops.append("drain")
        if s["post"]:
            ops.append(f"s:{s['post']}")
        cmd = sh(ctx.vchild, *ops).set(exit_codes={0, -13})
        sink = None
        if s["sink"] == "bytearray":
            sink = bytearray()
        elif s["sink"] == "bytesio":
            sink = io.BytesIO()
        elif s["sink"] == "path":
            sink = pathlib.Path(ctx.path(f"err{i}"))
        if sink is not None:
            cmd = cmd.stderr(sink)
        elif s["sink"] == "devnull":
            cmd = cmd.stderr(sh.DEVNULL)
        elif s["sink"] == "stdout":
            cmd = cmd.stderr(sh.STDOUT)
        sinks.append(sink)
        cmds.append(cmd)
    target = join(cmds, case["group"])
    fd = None
    if source == "bytes":
        target = data | target
    elif source == "path":
        target = pathlib.Path(put(ctx, "input", data)) | target
    elif source == "bytesio":
        target = io.BytesIO(data) | target
    elif source == "fd":
        fd = os.open(put(ctx, "input", data), os.O_RDONLY)
        target = target.stdin(fd)
    elif source == "stream":
        reader = asyncio.StreamReader()
        target = target.stdin(reader)
        asyncio.get_running_loop().call_later(0.003, feed, reader, data)
    where = f"{mode}, input from {source}, {len(data)} bytes through {[opname(s['op']) for s in case['stages']]}"
    got = await outcome(with_mode(target, data, mode, source) if mode.startswith("with") else execute(target, mode))
    if fd is not None:
        os.close(fd)
    if got[0] == "exc":
        raise Violation(f"{where}: {describe(got)}")
    outb, res = got[1]
    same(outb, out, where)
    if res is not None:
        check(res.exit_code in (0, -13), "%s: exit code %r", where, res.exit_code)
        check(not res.cancelled, "%s: cancelled", where)
    for i, (s, sink) in enumerate(zip(case["stages"], sinks)):
        if sink is None:
            continue
        err = bytes(sink) if isinstance(sink, bytearray) else sink.getvalue() if isinstance(sink, io.BytesIO) else sink.read_bytes()
        want = gen.data(s["err"])
        # A stage killed by SIGPIPE before it wrote its stderr is impossible: it
        # writes it first; only its first output byte comes later.
        same(err, want, f"{where}: stderr of stage {i}")
    if res is not None and res.exit_code == 0 and not sinks[-1]:
        want = b"" if case["stages"][-1]["sink"] in ("devnull", "stdout") else gen.data(case["stages"][-1]["err"])[:1024]
        if all(s["op"][0] != "take" for s in case["stages"]):
            same(res.error_bytes, want if sinks[-1] is None else b"", f"{where}: stderr in the result")


def feed(reader, data):
    for i in range(0, len(data), 50_000):
        reader.feed_data(data[i:i + 50_000])
    reader.feed_eof()


def join(cmds, group):
    if group == 0:
        t = cmds[0]
        for c in cmds[1:]:
            t = t | c
        return t
    if group == 1:
        t = cmds[-1]
        for c in reversed(cmds[:-1]):
            t = c | t
        return t
    k = max(1, len(cmds) // 2)
    return join(cmds[:k], 0) | join(cmds[k:], group - 2)


def put(ctx, name, data):
    path = ctx.path(name)
    with open(path, "wb") as f:
        f.write(data)
    return path


async def with_mode(target, data, mode, source):
    target = target.stdout(sh.CAPTURE)
    if source == "capture":
        target = target.stdin(sh.CAPTURE)
    async with target as r:
        writer = asyncio.ensure_future(write(r.stdin, data)) if source == "capture" else None
        if mode == "with_slow":
            chunks = []
            for i in range(10**9):
                b = await r.stdout.read(3000)
                if not b:
                    break
                chunks.append(b)
                if i < 10:
                    await asyncio.sleep(0.001)
            out = b"".join(chunks)
        else:
            out = await read_to_end(r.stdout)
        if writer:
            await writer
    return out, r.result(check=False)


async def write(stdin, data):
    for i in range(0, len(data), 30_000):
        stdin.write(data[i:i + 30_000])
        await stdin.drain()
    stdin.close()
