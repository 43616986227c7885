"C20: prompt decoding and newline normalization ignore chunk boundaries."

import asyncio
import codecs
import re

from hypothesis import strategies as st

from shellous import sh
from shellous.prompt import Prompt
from vlib.base import Violation, describe, outcome, short
from vlib.gen import TEXT_ALPHABET

META = {
    "level": "exploration",
    "technique": "property-based testing, metamorphic: the same generated bytes are delivered in different pieces and through different read paths (read_all, expect, timeouts, reads during send, a real process), always compared with the one-call decoding of the whole stream and a regular expression for the newlines",
    "level_note": "Random search over 16 codecs, 6 error handlers, valid and damaged byte streams and their splits. Cases in which the codec of the standard library itself depends on the split are skipped.",
    "rule": "A case is a byte stream, an encoding and a list of deliveries. Non-trivial: a character or CR-LF pair is split between two arrivals, or the stream has invalid or truncated characters.",
    "examples": {"quick": 5000, "thorough": 200000},
    "budget": {"quick": 20, "thorough": 700},
}
CODECS = ["utf-8", "utf-8", "UTF8", "utf-8-sig", "utf-16", "utf-16-le", "utf-16-be", "utf-32", "utf-32-le", "gb18030", "shift_jis", "euc_jp", "latin-1", "ascii", "cp1252", "big5", "cp437", "utf-7", "iso2022_jp"]
ERRORS = ["", "", "strict", "replace", "ignore", "backslashreplace", "surrogateescape"]
NASTY = ["\r", "\n", "\r\n", "\r\r\n", "\n\r", "\r\r", "é", "日本", "😀", "\ufeff", "\u0301", "x", " ", "\x85", "\u2028", "€"]
BYTES = [b"\xff", b"\x80", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xed\xa0\x80", b"\x00", b"\xfe\xff", b"\xff\xfe", b"\xef\xbb", b"\x00\xd8", b"\x81", b"\x1b$B", b"\x1b", b"\r", b"\n", b"+", b"\xc0\xaf", b"\xf4\x90\x80\x80"]


@st.composite
def strategy_(draw, tier):
    text = "".join(draw(st.lists(st.sampled_from(NASTY) | st.text(TEXT_ALPHABET, max_size=4), max_size=14)))
    case = {"codec": draw(st.sampled_from(CODECS)), "errors": draw(st.sampled_from(ERRORS)), "text": text}
    case["big"] = draw(st.sampled_from([4000, 16380, 16384, 33000])) if draw(st.integers(0, 9)) == 7 else 0
    case["inject"] = draw(st.lists(st.tuples(st.integers(0, 60), st.sampled_from(BYTES) | st.binary(min_size=1, max_size=3)), max_size=3)) if draw(st.integers(0, 2)) == 1 else []
    case["cut"] = draw(st.sampled_from([0, 0, 0, 1, 2, 3]))
    plays = []
    for _ in range(draw(st.integers(1, 4))):
        plays.append({
            "nl": draw(st.booleans()),
            "how": draw(st.sampled_from(["all", "all", "expect", "one", "timeout", "send", "real"])),
            "split": draw(st.one_of(st.just([1]), st.just([2]), st.lists(st.integers(1, 9), min_size=1, max_size=6), st.just([100000]))),
            "chunk": draw(st.sampled_from([0, 0, 1, 2, 5])),
        })
    case["plays"] = plays
    return case


def strategy(tier):
    return strategy_(tier)


def make(case):
    "The byte stream."
    text = case["text"]
    if case["big"]:
        text = text + "é\r\nx" * (case["big"] // 5) + text
    data = text.encode(case["codec"], "ignore" if case["codec"] not in ("utf-7",) else "strict")
    for pos, b in case["inject"]:
        pos = min(pos, len(data))
        data = data[:pos] + b + data[pos:]
    if case["cut"]:
        data = data[: max(0, len(data) - case["cut"])]
    return data


def decoder(case):
    return codecs.getincrementaldecoder(case["codec"])(*([case["errors"]] if case["errors"] else []))


def newlines(text):
    return re.sub("\r\n?", "\n", text)


def pieces(data, split):
    out, i, k = [], 0, 0
    many = len(data) > 3000
    while i < len(data):
        n = split[k % len(split)] * (997 if many else 1)
        out.append(data[i : i + n])
        i += n
        k += 1
    return out


def library(case, chunks):
    "What the codec makes of these chunks: (text, error)."
    dec, out = decoder(case), []
    try:
        for c in chunks:
            out.append(dec.decode(c))
        out.append(dec.decode(b"", True))
    except UnicodeError as ex:
        return "".join(out), ex
    return "".join(out), None


def run(case, ctx):
    data = make(case)
    ref, err = library(case, [data])
    if err:
        # All the text before the first invalid sequence.
        ref = library(case, [data[i : i + 1] for i in range(len(data))])[0]
    ctx.label("codec:" + case["codec"], "errors:" + (case["errors"] or "default"), "invalid" if err else "valid")
    ctx.nontrivial(bool(err) or bool(case["inject"]) or bool(case["cut"]) or any(p["split"][0] < 9 for p in case["plays"]) and (not case["text"].isascii() or "\r\n" in case["text"]))
    ctx.aio(lambda: go(case, ctx, data, ref, err))


def strict_codec(codec):
    return codec


async def go(case, ctx, data, ref, err):
    base = await ctx.base()
    enc = case["codec"] + (" " + case["errors"] if case["errors"] else "")
    fed = [p for p in case["plays"] if p["how"] not in ("send", "real")]
    if fed:
        async with sh(ctx.vchild, "drain").set(encoding=enc).stdin(sh.CAPTURE).stdout(sh.CAPTURE) as r:
            real = r.stdout
            for p in fed:
                await play(case, ctx, p, r, data, ref, err)
            r.stdout = real
            r.stdin.close()
    for i, p in enumerate(p for p in case["plays"] if p["how"] == "send"):
        go_file = ctx.path(f"go{i}")
        async with sh(ctx.vchild, "wait", go_file, "drain").set(encoding=enc).stdin(sh.CAPTURE).stdout(sh.CAPTURE) as r:
            real = r.stdout
            await play(case, ctx, p, r, data, ref, err, go_file)
            r.stdout = real
            r.stdin.close()
    for p in case["plays"]:
        if p["how"] == "real" and len(data) < 3000:
            await play_real(case, ctx, p, enc, data, ref, err)
    left = await ctx.settle(base)
    if left:
        raise Violation(f"left over {left}")


def fail(case, p, what):
    raise Violation(f"{case['codec']} {case['errors'] or '(default)'}{' normalized' if p['nl'] else ''}, {p['how']}, pieces of {p['split'][:6]}: {what}")


def settings(p):
    kw = {"normalize_newlines": True} if p["nl"] else {}
    if p["chunk"]:
        kw["_chunk_size"] = p["chunk"]
    return kw


def judge(case, ctx, p, data, ref, err, got, end):
    "got: the text delivered, end: the exception that ended it, or None."
    chunks = pieces(data, p["split"])
    if p["chunk"]:
        size = p["chunk"]
        chunks = [c[i : i + size] for c in chunks for i in range(0, len(c), size)]
    lib, lib_err = library(case, chunks)
    if bool(lib_err) != bool(err) or (not err and lib != ref):
        ctx.label("codec depends on chunks")
        return
    want = newlines(ref) if p["nl"] else ref
    if err:
        if not isinstance(end, type(lib_err)):
            fail(case, p, f"{describe(('exc', end)) if end else 'no error'}; {short(data)} is invalid")
        # What was returned before is the start of the text.
        if not want.startswith(got) and not (p["nl"] and (want + "\n").startswith(got)):
            fail(case, p, f"{short(got)} came before the error, expected the start of {short(want)}")
        return
    if end is not None:
        fail(case, p, f"{describe(('exc', end))} after {short(got)}; expected {short(want)}")
    if got != want:
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        fail(case, p, f"delivered {short(got)}, expected {short(want)} (different from character {i}), data {short(data)}")


async def yields(n=3):
    for _ in range(n):
        await asyncio.sleep(0)


async def play(case, ctx, p, r, data, ref, err, go_file=None):
    ctx.label("how:" + p["how"])
    reader = asyncio.StreamReader()
    r.stdout = reader
    cli = Prompt(r, **settings(p))
    chunks = pieces(data, p["split"])
    got, end = "", None
    stuck = False
    how = p["how"]
    if how == "timeout":
        chunks, tail = chunks[:6], b"".join(chunks[6:])
        p = dict(p, split=[len(c) for c in chunks] + [len(tail) or 1]) if len(data) <= 3000 else p

    async def feeder():
        for c in chunks:
            reader.feed_data(c)
            end = asyncio.get_running_loop().time() + 5
            while reader._buffer and asyncio.get_running_loop().time() < end:
                await asyncio.sleep(0)
            await yields()
        if how != "timeout":
            reader.feed_eof()

    if how == "all":
        task = asyncio.create_task(feeder())
        res = await outcome(cli.read_all(timeout=20))
        task.cancel()
        await outcome(task)
        got, end = (res[1], None) if res[0] == "ok" else (cli.pending, res[1])
    elif how in ("expect", "one"):
        pat = re.compile("(?s)." if how == "one" and len(data) < 400 else "[xé\n]")
        task = asyncio.create_task(feeder())
        while True:
            res = await outcome(cli.expect(pat, timeout=20))
            if res[0] == "ok":
                got += res[1][0] + res[1][1][0]
            else:
                break
        task.cancel()
        await outcome(task)
        got += cli.read_pending()
        end = None if isinstance(res[1], EOFError) else res[1]
    elif how == "timeout":
        # Every piece is collected by a read that times out.
        for c in chunks:
            reader.feed_data(c)
            res = await outcome(cli.read_all(timeout=0.002))
            if not (res[0] == "exc" and isinstance(res[1], asyncio.TimeoutError)):
                break
        else:
            if tail:
                reader.feed_data(tail)
            reader.feed_eof()
            res = await outcome(cli.read_all(timeout=20))
        got, end = (res[1], None) if res[0] == "ok" else (cli.pending, res[1])
    else:
        # The process does not read: send() has to wait, and collects.
        task = asyncio.create_task(feeder())
        sent = asyncio.create_task(outcome(cli.send(b"x" * 600_000, end=None)))
        await outcome(asyncio.wait({task, sent}, timeout=20, return_when="FIRST_COMPLETED"))
        if err and end_error(case, p, data):
            # Nobody reads any more: send() must not wait for the process.
            await outcome(asyncio.wait({sent}, timeout=15))
            stuck = not sent.done()
        with open(go_file, "w"):
            pass
        res = await sent
        if res[0] == "ok":
            await outcome(task)
            res = await outcome(cli.read_all(timeout=20))
        task.cancel()
        await outcome(task)
        got, end = (res[1], None) if res[0] == "ok" else (cli.pending, res[1])
    if stuck:
        fail(case, p, f"send() went on waiting after the output could not be decoded: {short(data)}")
    judge(case, ctx, p, data, ref, err, got, end)


def end_error(case, p, data):
    chunks = pieces(data, p["split"])
    if p["chunk"]:
        chunks = [c[i : i + p["chunk"]] for c in chunks for i in range(0, len(c), p["chunk"])]
    return library(case, chunks)[1]


async def play_real(case, ctx, p, enc, data, ref, err):
    ctx.label("how:real")
    ops = []
    for c in pieces(data, p["split"])[:200]:
        ops += [f"w:1:{c.hex()}"] + (["s:1"] if len(ops) < 16 else [])
    rest = b"".join(pieces(data, p["split"])[200:])
    if rest:
        ops.append(f"w:1:{rest.hex()}")
    cmd = sh(ctx.vchild, *ops).set(encoding=enc)
    got, end = "", None
    try:
        async with cmd.prompt(normalize_newlines=p["nl"]) as cli:
            cli.close()
            got = await cli.read_all(timeout=20)
    except UnicodeError as ex:
        end = ex
        got = ""
    judge(case, ctx, dict(p, chunk=0), data, ref, err, got, end)
