"C08: text encoding and decoding do not depend on chunking."

import asyncio
import io

from hypothesis import strategies as st

from shellous import Pipeline, ResultError, sh
from vlib import gen
from vlib.base import Violation, check, describe, outcome, same, short
from vlib.rt import last, lines_ok, read_to_end

META = {
    "level": "exploration",
    "technique": "property-based differential testing against Python's whole-buffer codecs, over generated codecs, error handlers, data and write chunkings",
    "level_note": "Random search; splits are placed inside multi-byte characters, between CR and LF and around the 8 KiB read size. Line iteration is judged for codecs where the byte 0x0A is always a newline; the others are a recorded finding.",
    "rule": "A case is a codec, an error handler, a direction (input or output), data and its chunking. Non-trivial: non-ASCII or undecodable/unencodable data, or more than one write.",
    "examples": {"quick": 9000, "thorough": 150000},
    "budget": {"quick": 20, "thorough": 600},
}

CODECS = ["utf-8", "utf-8", "utf-8", "latin-1", "ascii", "utf-16", "utf-16-le", "utf-16-be", "utf-32", "cp1252", "shift_jis",
          "utf-8-sig", "gb18030", "iso2022_jp", "utf-7", "euc_kr", "big5", "cp437"]
HANDLERS = ["", "", "strict", "replace", "ignore", "backslashreplace", "surrogateescape"]
LINE_CODECS = {"utf-8", "latin-1", "ascii", "cp1252", "shift_jis", "gb18030", "euc_kr", "big5", "cp437"}

ALPHA = st.one_of(
    st.sampled_from(list("ab \n\n\r\té€ß日本한語ü\u0301\u2028\x85𝄞😀\ufeff\udc80\udcff")),
    st.characters(),
)


@st.composite
def strategy_(draw, tier):
    codec, handler = draw(st.sampled_from(CODECS)), draw(st.sampled_from(HANDLERS))
    case = {"codec": codec, "handler": handler, "dir": draw(st.sampled_from(["in", "out", "out", "both"]))}
    text = draw(st.text(ALPHA, max_size=25))
    if case["dir"] == "in":
        case["text"] = text
        case["rep"] = draw(st.sampled_from([1, 1, 3, 1000, 6000]))
        case["kind"] = draw(st.sampled_from(["str", "stringio"]))
        case["first"] = draw(st.booleans())
    elif case["dir"] == "both":
        case["text"] = text
        case["rep"] = draw(st.sampled_from([1, 3, 1000]))
    else:
        raw = draw(st.integers(0, 3))
        if raw == 3:
            data = draw(st.binary(max_size=40))
        else:
            try:
                data = text.encode(codec, "replace" if raw < 2 else "ignore")
            except UnicodeError:
                data = text.encode("utf-8", "replace")
            if raw == 2 and data:
                cut = draw(st.integers(0, len(data)))
                data = data[:cut]
        case["data"] = data
        case["rep"] = draw(st.sampled_from([1, 1, 1, 2, 500, 3000]))
        # Padding puts characters across the 8 KiB read boundary.
        case["pad"] = draw(st.sampled_from([0, 0, 0, 8187, 8190, 8191, 8192, 16383, 65533]))
        case["plan"] = draw(st.lists(st.integers(1, 9), max_size=8))
        case["fd"] = draw(st.sampled_from([1, 1, 1, 2]))
    case["mode"] = draw(st.sampled_from(["await", "await", "result", "stringio", "iter", "with_iter", "error", "pipe", "resulterror"]))
    return case


def strategy(tier):
    return strategy_(tier)


def decode(data, codec, handler):
    try:
        return data.decode(codec, handler or "strict")
    except UnicodeError as ex:
        return ex


def encode(text, codec, handler):
    try:
        return text.encode(codec, handler or "strict")
    except UnicodeError as ex:
        return ex


def run(case, ctx):
    codec, handler = case["codec"], case["handler"]
    ctx.label("dir:" + case["dir"], "codec:" + codec, "handler:" + (handler or "strict"))
    ctx.aio(lambda: go(case, ctx, codec, handler))


async def go(case, ctx, codec, handler):
    enc = f"{codec} {handler}".strip()
    if case["dir"] in ("in", "both"):
        text = case["text"] * case["rep"]
        if case["dir"] == "in" and case["kind"] == "stringio":
            source = io.StringIO(text, newline="")
        else:
            source = text
        want = encode(text, codec, handler)
        ctx.nontrivial(isinstance(want, Exception) or not text.isascii())
        if case["dir"] == "both":
            await round_trip(case, ctx, enc, text, want)
            return
        target = sh(ctx.vchild, "cat").set(encoding=enc)
        if case["first"]:
            target = target | sh(ctx.vchild, "cat")
        got = await outcome(last(source | target, lambda c: c.result))
        if isinstance(want, Exception):
            ctx.label("unencodable")
            check(got[0] == "exc" and isinstance(got[1], UnicodeEncodeError), "input not encodable in %s: %s", enc, describe(got))
            return
        if got[0] == "exc":
            raise Violation(f"input in {enc}: {describe(got)}")
        same(got[1].output_bytes, want, f"bytes read by the child, {enc}")
        return
    unit = case["data"]
    pad = b"x" * case["pad"]
    if codec.startswith(("utf-16", "utf-32")):
        pad = pad[: len(pad) // 4 * 4]
    data = pad + unit * case["rep"]
    want = decode(data, codec, handler)
    ctx.nontrivial(isinstance(want, Exception) or len(case["plan"]) > 0 or not data.isascii())
    if isinstance(want, Exception):
        ctx.label("undecodable")
    mode = case["mode"]
    fd = case["fd"]
    if mode in ("iter", "with_iter"):
        # "force" is only set by the recorded finding's corpus case.
        if (codec not in LINE_CODECS and not case.get("force")) or not lines_ok(data):
            mode = "await"
    if mode == "error":
        fd = 2
    ops = write_ops(data, case["plan"], fd)
    ctx.label("mode:" + mode)
    cmd = sh(ctx.vchild, *ops).set(encoding=enc, error_limit=None)
    if fd == 2 and mode not in ("error", "result"):
        cmd = cmd.stdout(sh.DEVNULL).stderr(sh.STDOUT)
    where = f"{enc}, {mode}, {len(data)} bytes"
    await judge(mode, cmd, data, want, where, fd, ctx)


def write_ops(data, plan, fd):
    "Write data cut by the plan, with pauses so that the pieces arrive apart."
    ops = []
    tail = data[-sum(plan):] if plan else b""
    head = data[: len(data) - len(tail)]
    chunks = [head] if head else []
    chunks += gen.cut(tail, plan)
    for i, c in enumerate(chunks):
        for j in range(0, len(c), 40000):
            ops.append(f"w:{fd}:{c[j:j + 40000].hex()}")
        if 0 < i < 4:
            ops.append("s:1")
    return ops


def expect(got, want, where):
    if isinstance(want, Exception):
        if got[0] == "ok" or not isinstance(got[1], UnicodeDecodeError):
            raise Violation(f"{where}: undecodable output did not raise UnicodeDecodeError: {describe(got)}")
        return
    if got[0] == "exc":
        raise Violation(f"{where}: {describe(got)}")
    same(got[1], want, where)


async def prop(fn):
    return fn()


async def judge(mode, cmd, data, want, where, fd, ctx):
    if mode == "pipe":
        enc = cmd.options.encoding
        cmd = cmd.set(encoding="utf-8") | sh(ctx.vchild, "cat").set(encoding=enc)
        if fd == 2:
            cmd = cmd[0].stdout(sh.BUFFER).stderr(sh.STDOUT) | cmd[1]
        mode = "await"
    if mode == "await":
        expect(await outcome(cmd), want, where)
    elif mode in ("result", "error"):
        res = await cmd.result
        part = "error" if fd == 2 else "output"
        same(res.error_bytes if fd == 2 else res.output_bytes, data, f"{where}: raw bytes on the result")
        expect(await outcome(prop(lambda: getattr(res, part))), want, f"{where}: result.{part}")
    elif mode == "resulterror":
        try:
            await (cmd.set(exit_codes={77}))
        except ResultError as ex:
            res = ex.result
        except UnicodeDecodeError as ex:
            raise Violation(f"{where}: a failing command raised {ex!r} instead of ResultError") from ex
        else:
            raise Violation(f"{where}: no ResultError")
        same(res.output_bytes, data, f"{where}: raw bytes on the ResultError")
        expect(await outcome(prop(lambda: res.output)), want, f"{where}: result.output")
    elif mode == "stringio":
        sink = io.StringIO(newline="")
        target = cmd.stdout(sink)
        if fd == 2:
            target = cmd.stderr(sink)

        async def go():
            await target
            return sink.getvalue()

        expect(await outcome(go()), want, where)
    elif mode in ("iter", "with_iter"):
        lines = []

        async def go():
            if mode == "iter":
                async for line in cmd:
                    lines.append(line)
            else:
                target = cmd.stdout(sh.CAPTURE) if fd == 1 else cmd.stderr(sh.CAPTURE)
                async with target as run:
                    async for line in run:
                        lines.append(line)
            return "".join(lines)

        expect(await outcome(go()), want, where)
        if not isinstance(want, Exception):
            pieces = data.split(b"\n")
            exp = [decode(p + b"\n", *split(cmd.options.encoding)) for p in pieces[:-1]]
            if pieces[-1]:
                exp.append(decode(pieces[-1], *split(cmd.options.encoding)))
            same(lines, exp, f"{where}: lines")


def split(enc):
    codec, _, handler = enc.partition(" ")
    return codec, handler


async def round_trip(case, ctx, enc, text, data):
    "Text given as input and echoed back equals decode(encode(text))."
    target = sh(ctx.vchild, "cat:7").set(encoding=enc)
    got = await outcome(text | target)
    if isinstance(data, Exception):
        check(got[0] == "exc" and isinstance(got[1], UnicodeEncodeError), "input not encodable in %s: %s", enc, describe(got))
        return
    expect(got, decode(data, case["codec"], case["handler"]), f"round trip in {enc}")
