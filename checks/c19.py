"C19: a prompt session is lossless and deadlock-free in both directions."

import asyncio
import re
import time

from hypothesis import strategies as st

from shellous import Result, cbreak, cooked, raw, sh
from vlib.base import Violation, children, describe, outcome, pattern, short, text_pattern

META = {
    "level": "exploration",
    "technique": "model-based property-based testing: generated dialogues with a scripted process that reads, writes, echoes and pauses by a generated program, over pipes, pipelines and terminals; a model of the program says at every moment how much output there is, and everything received and read is compared with it",
    "level_note": "Random search over dialogues of up to 5 rounds with up to 400 kB each way per round, 6 encodings, 3 terminal modes, timeouts and cancellations placed by the generator; real processes. Calls that cannot complete are timed: a TimeoutError may come up to 8 s late, but never early.",
    "rule": "A case is a process program and a session of sends, expects, timeouts and cancellations. Non-trivial: both directions carry more than a pipe buffer in one round, or a send, expect, command or read_all is timed out or cancelled.",
    "examples": {"quick": 2500, "thorough": 80000},
    "budget": {"quick": 26, "thorough": 700},
}
SIZES = [0, 1, 3, 40, 40, 700, 4096, 5000, 20000, 66000, 70000, 140000, 300000]
ENDS = ["\n", "\n", "\n", "\r\n", "\r", None, "", ";", "é\n", "\n\n"]


class Boom(Exception):
    pass


@st.composite
def payload(draw, big):
    if draw(st.integers(0, 2)) and big:
        return {"n": draw(st.sampled_from(SIZES[3:])), "seed": draw(st.integers(0, 40)), "u": draw(st.booleans())}
    return {"t": draw(st.one_of(st.text("abc é\n日", max_size=12), st.sampled_from(["", "hello", "a b", "\udc80x", "x\r\ny"])))}


@st.composite
def act(draw):
    k = draw(st.sampled_from(["get", "get", "get", "lit", "lit", "pend", "miss", "cmiss", "cget", "cget", "tget", "res"]))
    return [k, draw(st.integers(0, 100)), draw(st.integers(0, 8))]


@st.composite
def limits(draw):
    "Calls that cannot complete, with every combination of timeouts."
    call = st.fixed_dictionaries({
        "op": st.sampled_from(["send", "expect", "read_all", "command send", "command expect"]),
        "timeout": st.sampled_from([None, None, 0.01, 0.03, 0.12]),
        "again": st.booleans(),
    })
    return {"default": draw(st.sampled_from([None, 0.02, 0.02, 0.05, 15.0])), "io": draw(st.sampled_from(["pipe", "pipe", "last", "first"])),
            "calls": draw(st.lists(call, min_size=1, max_size=4))}


@st.composite
def strategy_(draw, tier):
    if draw(st.integers(0, 11)) == 5:
        return {"limits": draw(limits()), "eager": False}
    io = draw(st.sampled_from(["pipe", "pipe", "pipe", "pipe", "first", "last", "raw", "cbreak", "cooked", "cooked"]))
    tty = io in ("raw", "cbreak", "cooked")
    encs = ["utf-8", "utf-8", "latin-1", "utf-8 surrogateescape"] + ([] if tty else ["utf-16-le", "ascii backslashreplace"])
    case = {"io": io, "enc": draw(st.sampled_from(encs)), "eager": draw(st.integers(0, 7)) == 1, "dt": draw(st.sampled_from([None, None, 20.0])), "rounds": []}
    for _ in range(draw(st.integers(1, 5))):
        r = {"gate": io == "pipe" and draw(st.integers(0, 5)) == 0}
        if r["gate"]:
            r["how"] = draw(st.sampled_from(["timeout", "default", "cancel"]))
            r["ms"] = draw(st.sampled_from([1, 5, 30]))
        if draw(st.integers(0, 9)) or r["gate"]:
            r["send"] = draw(payload(io != "cooked" or draw(st.booleans())))
            r["bytes"] = draw(st.integers(0, 4)) == 0
            r["end"] = draw(st.sampled_from(ENDS[:5] if io in ("cooked",) else ENDS))
        steps = []
        for _ in range(draw(st.integers(0, 4))):
            k = draw(st.sampled_from(["r", "r", "w", "w", "e", "s"]))
            if k == "w":
                steps.append([k, draw(st.integers(0, 40)), draw(st.sampled_from(SIZES)), draw(st.sampled_from([65536, 65536, 1000, 7]))])
            elif k == "s":
                steps.append([k, draw(st.sampled_from([1, 5]))])
            else:
                steps.append([k, draw(st.sampled_from([10, 50, 90, 100]))])
        r["steps"] = steps + [[draw(st.sampled_from(["r", "e"])), 100]]
        r["acts"] = draw(st.lists(act(), max_size=4))
        r["cmd"] = draw(st.integers(0, 3)) == 0
        case["rounds"].append(r)
    case["end"] = draw(st.sampled_from(["exit", "eof", "eof"])) if io not in ("raw", "cbreak") else "exit"
    # (Closing a terminal that has no end of file would hang it up.)
    case["leave"] = draw(st.sampled_from(["leave", "leave", "close", "all", "eoferror", "boom"] if io not in ("raw", "cbreak") else ["all", "all", "eoferror", "boom"]))
    # An unfinished line before the end of the input.
    case["tail"] = draw(st.sampled_from(["", "", "x", "unfinished", "y" * 300])) if case["end"] == "eof" else ""
    case["code"] = draw(st.sampled_from([0, 0, 1, 3, 255]))
    case["err"] = draw(st.sampled_from([0, 0, 10, 900])) if io == "pipe" else 0
    return case


def strategy(tier):
    return strategy_(tier)


def run(case, ctx):
    if "limits" in case:
        ctx.aio(lambda: timeouts(case["limits"], ctx))
    else:
        ctx.aio(lambda: go(case, ctx), eager=case["eager"])


async def timeouts(case, ctx):
    "The timeout of a call, or else the default of the session, ends the call. Nothing else does."
    base = await ctx.base()
    gate = ctx.path("gate")
    cmd = sh(ctx.vchild, "w:1:" + b"hello> ".hex(), "wait", gate, "drain", "w:1:" + b"bye".hex())
    if case["io"] == "first":
        cmd = cmd | sh(ctx.vchild, "cat")
    elif case["io"] == "last":
        cmd = sh(ctx.vchild, "cat") | cmd
    ctx.nontrivial()
    ctx.label("limits")
    sent, text = 0, "hello> "
    async with cmd.prompt(timeout=case["default"]) as cli:
        for i, c in enumerate(case["calls"]):
            limit = c["timeout"] or case["default"]
            kw = {"timeout": c["timeout"]} if c["timeout"] else {}
            line = "x" * 400_000 if c["op"].endswith("send") else "y" * 8
            sending = c["op"] == "send" or c["op"].startswith("command")
            if sending and sent and not c["op"].endswith("send"):
                continue  # (This send would not complete either.)
            if c["op"] == "send":
                aw = cli.send(line, **kw)
            elif c["op"] == "expect":
                aw = cli.expect("never", **kw)
            elif c["op"] == "read_all":
                aw = cli.read_all(**kw)
            else:
                aw = cli.command(line, prompt="never", **kw)
            if sending and c["op"].endswith("send"):
                sent += len(line)
            where = f"{case['io']}: {c['op']}, timeout {c['timeout']}, default {case['default']} (call {i})"
            task = asyncio.ensure_future(aw)
            start = time.monotonic()
            if not limit or limit > 5:
                ctx.label("limits: none")
                await asyncio.wait({task}, timeout=0.08)
                if task.done():
                    raise Violation(f"{where}: {describe(await outcome(task))}, it cannot have completed")
                task.cancel()
                got = await outcome(task)
                if got[0] != "exc" or not isinstance(got[1], asyncio.CancelledError):
                    raise Violation(f"{where}, cancelled: {describe(got)}")
            else:
                ctx.label("limits: " + ("given" if c["timeout"] else "default"))
                got = await outcome(task)
                took = time.monotonic() - start
                if got[0] != "exc" or not isinstance(got[1], asyncio.TimeoutError):
                    raise Violation(f"{where}: {describe(got)}")
                if took < limit - 0.004:
                    raise Violation(f"{where}: TimeoutError after {took:.3f}s")
                if took > limit + 8:
                    raise Violation(f"{where}: TimeoutError after {took:.3f}s only")
            if not text.startswith(cli.pending):
                raise Violation(f"{where}: pending is {short(cli.pending)}, the process wrote {text!r}")
        with open(gate, "wb"):
            pass
        cli.close()
        got = await cli.read_all(timeout=20)
        if got != text + "bye":
            raise Violation(f"{case}: the output is {short(got)} after the timeouts, the process wrote {text + 'bye'!r}")
    if cli.result.exit_code != 0:
        raise Violation(f"{case}: {cli.result}")
    left = await ctx.settle(base)
    if left:
        raise Violation(f"left over {left}")


def data_of(case, r):
    "What a round sends: (text or bytes argument, end, the bytes)."
    p = r["send"]
    codec = case["enc"].split()[0]
    if "n" in p:
        text = text_pattern(p["seed"], max(p["n"], 1)).decode()
        if p["u"] and case["io"] != "cooked":
            text = text.replace("c", "é")
    else:
        text = p["t"]
    if r["gate"]:
        text = text + "gate" * 100000
    if case["io"] == "cooked":
        text = text.replace("\udc80", "")
    errors = case["enc"].split()[1:] or ["strict"]
    if errors == ["strict"]:
        text = text.encode(codec, "ignore").decode(codec)
    end = r["end"]
    if codec == "ascii" and end == "é\n":
        end = "\n"
    raw_end = (end or "").encode(codec, *errors)
    if r["bytes"]:
        body = text.encode(codec, *errors)
        return body, end, body + raw_end
    return text, end, text.encode(codec, *errors) + raw_end


class Model:
    "The process's program, and what it has written when it has been given so much."

    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        self.ops = ["of:100", ctx.path("input")]
        self.avail = b""
        self.file = b""
        self.marks = []  # per round: output available after it
        self.sends = []
        cooked_ = case["io"] == "cooked"
        codec = case["enc"].split()[0]
        errors = (case["enc"].split() + ["strict"])[1]
        out = []
        for i, r in enumerate(case["rounds"]):
            if r["gate"]:
                self.ops += ["wait", ctx.path(f"gate{i}")]
            data = b""
            if "send" in r:
                arg, end, data = data_of(case, r)
                self.sends.append((arg, end, data))
            else:
                self.sends.append(None)
            if case["io"] in ("cooked", "cbreak"):
                data = data.replace(b"\r", b"\n")
            both = 0
            for step in r["steps"]:
                k = step[0]
                if k == "s":
                    self.ops.append(f"s:{step[1]}")
                elif k == "w":
                    n = step[2] & ~1
                    if codec == "latin-1" and not cooked_:
                        self.ops.append(f"p:1:{step[1]}:{n}:{max(step[3], n // 200 + 1)}")
                        out.append(pattern(step[1], n))
                    else:
                        self.ops.append(f"t:1:{step[1]}:{n}:{max(step[3], n // 200 + 1)}")
                        out.append(text_pattern(step[1], n))
                    both += n
                else:
                    n = len(data) * step[1] // 100
                    if codec == "utf-16-le":
                        n &= ~1
                    while codec == "utf-8" and 0 < n < len(data) and data[n] & 0xC0 == 0x80:
                        n -= 1  # (What is echoed is whole characters.)
                    part, data = data[:n], data[n:]
                    if not part:
                        continue
                    if k == "r" or codec == "ascii":
                        self.ops += ["out:100", f"take:{n}", "out:1"]
                        self.file += part
                    else:
                        self.ops.append(f"take:{n}")
                        out.append(part)
                        both += n
            if both > 65536 and self.sends[-1] and len(self.sends[-1][2]) > 65536:
                ctx.nontrivial()
                ctx.label("both directions full")
            assert not data
            self.marks.append(sum(map(len, out)))
        if case["err"]:
            self.ops.append(f"t:2:9:{case['err']}")
        if case["end"] == "eof":
            self.ops += ["out:100", "cat"]
            if case["leave"] != "boom":
                self.file += case["tail"].encode(codec, errors)
        self.ops.append(f"x:{case['code']}")
        raw_out = b"".join(out)
        tr = (lambda b: b.replace(b"\n", b"\r\n")) if case["io"] in ("cooked", "cbreak") else (lambda b: b)
        # Characters available after each round (a mark can be inside a character).
        import codecs

        inc = codecs.getincrementaldecoder(codec)
        self.text = inc(errors).decode(tr(raw_out), True)
        self.chars = [len(inc(errors).decode(tr(raw_out[:m]))) for m in self.marks]


async def go(case, ctx):
    base = await ctx.base()
    m = Model(case, ctx)
    io = case["io"]
    cmd = sh(ctx.vchild, *m.ops).set(encoding=case["enc"])
    if io in ("raw", "cbreak", "cooked"):
        cmd = cmd.set(pty={"raw": raw(), "cbreak": cbreak(), "cooked": cooked(echo=False)}[io])
    if io == "first":
        cmd = cmd | sh(ctx.vchild, "cat").set(encoding=case["enc"])
    elif io == "last":
        cmd = sh(ctx.vchild, "cat") | cmd
    ctx.label("io:" + io, "leave:" + case["leave"], "enc:" + case["enc"])
    box = {}
    boom = Boom()
    try:
        async with cmd.prompt(timeout=case["dt"]) as cli:
            if io == "cbreak":
                cli.echo = False
            box["cli"] = cli
            try:
                await session(case, ctx, m, cli, boom)
            except BaseException as ex:
                # What a failing session leaves behind is not looked at.
                box["body"] = ex
                raise
    except Boom as ex:
        if ex is not boom:
            raise
    except Violation:
        raise
    except Exception as ex:  # pylint: disable=broad-except
        where = "in the session" if box.get("body") is ex else "leaving the block"
        raise Violation(f"{io}, {where}: {describe(('exc', ex))}") from ex
    cli = box["cli"]
    if children():
        raise Violation(f"children after the block: {children()}")
    try:
        res = cli.result
    except RuntimeError as ex:
        raise Violation(f"no result after the block: {ex}") from None
    if not isinstance(res, Result):
        raise Violation(f"{res=}")
    if case["leave"] != "boom":
        if res.exit_code != case["code"] or res.cancelled:
            raise Violation(f"{io}: result {res}, the process exits with {case['code']}")
        if res.error_bytes != text_pattern(9, case["err"]):
            raise Violation(f"{io}: error_bytes {short(res.error_bytes)}, expected {case['err']} bytes")
        with open(ctx.path("input"), "rb") as f:
            got = f.read()
        if got != m.file:
            raise Violation(f"{io}: the process received {short(got)}, expected {short(m.file)}; first difference at {differ(got, m.file)}")
    left = await ctx.settle(base)
    if left:
        raise Violation(f"left over {left}")


def differ(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return i
    return min(len(a), len(b))


class Reader:
    "Takes output through the prompt and compares it with the model."

    def __init__(self, case, ctx, m, cli):
        self.case, self.ctx, self.m, self.cli = case, ctx, m, cli
        self.pos = 0

    def take(self, text, how, _limit=None):
        want = self.m.text[self.pos : self.pos + len(text)]
        if text != want:
            k = differ(text, want)
            raise Violation(f"{self.case['io']} {self.case['enc']}: {how} at character {self.pos}: got {short(text)}, expected {short(want)}; first difference at {k}")
        self.pos += len(text)

    def pending(self, how):
        p = self.cli.pending
        if not self.m.text.startswith(p, self.pos):
            raise Violation(f"{self.case['io']}: pending after {how} is {short(p)}, expected a beginning of {short(self.m.text[self.pos:])}")

    async def get(self, n, limit, **kw):
        if n <= 0:
            return
        pat = re.compile("(?s).{%d}" % n)
        before, found = await self.cli.expect(pat, **kw)
        if before:
            raise Violation(f"expect any {n} characters: skipped {short(before)}")
        self.take(found[0], "expect", limit)

    async def interrupted(self, aw, how, may_finish):
        "A call that times out or is cancelled."
        self.ctx.nontrivial()
        self.ctx.label(how)
        try:
            await aw
            if not may_finish:
                raise Violation(f"{how} did not end it")
        except asyncio.TimeoutError:
            if "timeout" not in how:
                raise Violation(f"{how}: TimeoutError") from None
        except asyncio.CancelledError:
            if "cancel" not in how or asyncio.current_task().cancelling():
                raise Violation(f"{how}: CancelledError") from None
        self.pending(how)

    async def act(self, a, limit, more):
        k, x, y = a
        n = (limit - self.pos) * x // 100
        cli = self.cli
        never = re.compile("\x00never\x00")
        if k == "get":
            await self.get(n, limit)
        elif k == "lit":
            if limit > self.pos:
                at = self.pos + (limit - self.pos - 1) * x // 100
                lit = self.m.text[at : min(at + y + 1, limit)]
                want = self.m.text.index(lit, self.pos)
                before, found = await cli.expect(lit)
                if found[0] != lit:
                    raise Violation(f"expect {lit!r}: matched {found[0]!r}")
                if self.pos + len(before) != want:
                    raise Violation(f"{self.case['io']}: expect {lit!r}: found it at {self.pos + len(before)}, it is at {want}")
                self.take(before + lit, "expect", limit)
        elif k == "pend":
            self.take(cli.read_pending(), "read_pending", limit)
            if cli.pending:
                raise Violation("pending is not empty after read_pending")
        elif k == "miss" and more:
            await self.interrupted(cli.expect(never, timeout=(1 + x) / 2000), "expect timeout", False)
        elif k == "cmiss" and more:
            await self.interrupted(cancelled(cli.expect(never), x % 12, y % 3), "expect cancelled", False)
        elif k == "cget":
            await self.interrupted(cancelled(self.get(n, limit), x % 12, y % 3), "expect cancelled any time", True)
        elif k == "tget":
            await self.interrupted(self.get(n, limit, timeout=(1 + y) / 2000), "expect timeout any time", True)
        elif k == "res":
            self.refused()

    def refused(self):
        try:
            res = self.cli.result
        except RuntimeError:
            return
        raise Violation(f"result inside the block gave {res}")


async def cancelled(aw, yields, ms):
    task = asyncio.ensure_future(aw)
    for _ in range(yields):
        await asyncio.sleep(0)
    if ms:
        await asyncio.sleep(ms / 1000)
    task.cancel()
    return await task


async def session(case, ctx, m, cli, boom):
    rd = Reader(case, ctx, m, cli)
    rounds = case["rounds"]
    rd.refused()
    for i, r in enumerate(rounds):
        limit = m.chars[i]
        before = m.chars[i - 1] if i else 0
        if m.sends[i]:
            arg, end, data = m.sends[i]
            kw = {} if end == "\n" else {"end": end}
            if r["gate"]:
                # The process does not read now, and this cannot fit.
                if r["how"] == "cancel":
                    aw = cancelled(cli.send(arg, **kw), r["ms"], r["ms"])
                    await rd.interrupted(aw, "send cancelled", False)
                else:
                    await rd.interrupted(cli.send(arg, timeout=(r["ms"] + 1) / 1000, **kw), "send timeout", False)
                # What was sent is still delivered, and what comes can be read.
                if i:
                    await rd.act(["miss", 10, 0], before, True)
                with open(ctx.path(f"gate{i}"), "wb"):
                    pass
            elif r["cmd"] and limit > rd.pos and end is not None and not r["bytes"]:
                ctx.label("command")
                at = rd.pos + (limit - rd.pos) // 2
                lit = m.text[at : at + 3 if at + 3 <= limit else limit]
                # (Output that is pending already counts, too.)
                want = m.text.index(lit, rd.pos)
                got = await cli.command(arg, prompt=lit, **kw)
                rd.take(got + lit, "command", limit)
                if rd.pos != want + len(lit):
                    raise Violation(f"command: found {lit!r} at {rd.pos - len(lit)}, it is at {want}")
            elif data or case["end"] == "eof" or any(x and x[2] for x in m.sends[i:]):
                await cli.send(arg, **kw)
            # (Otherwise, the process does not wait for it, and may be gone.)
        elif r["gate"]:
            with open(ctx.path(f"gate{i}"), "wb"):
                pass
        more = i + 1 < len(rounds) and bool(m.sends[i + 1]) and len(m.sends[i + 1][2]) > 0 or case["end"] == "eof"
        for a in r["acts"]:
            await rd.act(a, limit, more)
    rd.refused()
    limit = m.chars[-1]
    leave = case["leave"]
    if leave == "boom":
        raise boom
    if case["tail"]:
        ctx.label("unfinished line at the end")
        await cli.send(case["tail"], end=None)
    if leave == "leave":
        # Output that is left must fit in the pipe (and the reader's buffer).
        if len(m.text) - rd.pos > (1000 if case["io"] == "cooked" else 8000):
            await rd.get(limit - rd.pos, limit)
        return
    if case["end"] == "eof" or leave == "close":
        if case["io"] == "cooked" and case["end"] == "exit":
            pass  # (It may be gone.)
        else:
            cli.close()
    if leave in ("close", "all"):
        rd.take(await cli.read_all(), "read_all", len(m.text))
        again = await cli.read_all()
        if again:
            raise Violation(f"read_all again gave {short(again)}")
    else:
        try:
            got = await cli.expect(re.compile("\x00never\x00"))
            raise Violation(f"expect at the end of the output returned {short(got)}")
        except EOFError:
            pass
        rd.take(cli.read_pending(), "pending after EOFError", len(m.text))
    if rd.pos != len(m.text):
        raise Violation(f"{case['io']} {case['enc']}: the output ended at character {rd.pos} of {len(m.text)}")
    if not cli.at_eof:
        raise Violation("at_eof is False at the end")
