"C22: a pty command gets a real terminal and loses no data."

import asyncio
import io
import os
import pathlib
import pty
import termios
import tty

from hypothesis import strategies as st

from shellous import ResultError, cbreak, cooked, raw, sh
from vlib.base import Violation, children, describe, outcome, pattern, short, text_pattern
from vlib.rt import pipe, read_to_end

META = {
    "level": "exploration",
    "technique": "property-based differential testing: generated terminal modes, sizes, redirections, inputs and outputs; the child reports what its terminal looks like (isatty, size, flags, session, controlling terminal), which is compared with a terminal set up by the standard library, and data in both directions is compared with a model of the line discipline",
    "level_note": "Random search; inputs avoid control characters and lines over 4000 bytes, which the kernel itself changes in canonical mode. Differences must reproduce in a fresh process, as the kernel rarely drops the last byte written to a terminal that is closed at once.",
    "rule": "A case is a set of up to 3 concurrent pty commands with their mode, input, output, redirections and end. Non-trivial: a mode other than the default, a redirection, more than 4 kB of data, or input without a final newline.",
    "examples": {"quick": 4000, "thorough": 120000},
    "budget": {"quick": 24, "thorough": 700},
}
MODES = ["true", "cooked", "cooked", "noecho", "noecho", "raw", "raw", "cbreak", "custom_eof", "custom_noop", "custom_noopost", "custom_noicrnl"]


@st.composite
def one(draw):
    mode = draw(st.sampled_from(MODES))
    c = {
        "mode": mode,
        "rows": draw(st.sampled_from([0, 0, 1, 24, 50, 999])), "cols": draw(st.sampled_from([0, 0, 1, 80, 132, 65535])),
        "in": draw(st.sampled_from(["", "", "bytes", "bytes", "str", "bytesio", "stringio", "stream", "path", "fd", "DEVNULL", "capture"])),
        "data": draw(st.one_of(st.sampled_from(["", "x", "x\n", "\n", "a\rb", "no newline", "line\r", "line\nhalf", "tab\tx\n", "é\n", "\r\n"]), st.text("ab c\n\ré~", max_size=30))),
        "big": draw(st.sampled_from([0, 0, 0, 0, 500, 4000, 20000, 100000])),
        "read": draw(st.sampled_from(["file", "file", "file", "echo", "no"])),
        "out": draw(st.lists(st.tuples(st.sampled_from(["w", "t", "p", "e", "s"]), st.integers(0, 30), st.sampled_from([0, 1, 2, 100, 5000, 70000])), max_size=4)),
        "stdout": draw(st.sampled_from(["", "", "", "", "path", "DEVNULL", "fd", "bytearray", "stringio"])),
        "stderr": draw(st.sampled_from(["", "", "", "STDOUT", "BUFFER", "path", "DEVNULL", "bytearray"])),
        "how": draw(st.sampled_from(["await", "result", "result", "iter", "with", "with"])),
        "code": draw(st.sampled_from([0, 0, 0, 3, 255, -9, -15])),
        "end": draw(st.sampled_from(["", "", "", "", "", "cancel", "close1", "linger"])),
    }
    c["late"] = draw(st.sampled_from([0, 0, 0, 0, 2, 30]))  # the output is read later
    if draw(st.integers(0, 6)) == 4:
        c["pos"] = draw(st.sampled_from(["first", "last", "last"]))
        if draw(st.integers(0, 1)):
            # More output than is read ahead: it is still in the terminal at the end.
            c["out"] = [[draw(st.sampled_from(["t", "p"])), 3, draw(st.sampled_from([132_000, 134_000, 136_000, 150_000]))], ["w", 1, 0]]
            c["how"], c["late"] = draw(st.sampled_from(["iter", "iter", "iter", "result"])), draw(st.sampled_from([0, 2, 30]))
    return c


@st.composite
def strategy_(draw, tier):
    return {"cmds": draw(st.lists(one(), min_size=1, max_size=draw(st.sampled_from([1, 1, 2, 3])))), "eager": draw(st.integers(0, 6)) == 3,
            "watch": draw(st.sampled_from(["", "", "", "default", "thread"]))}


def strategy(tier):
    return strategy_(tier)


def run(case, ctx):
    ctx.aio(lambda: go(case, ctx), eager=case["eager"], watcher=case["watch"] or None)


def set_eof(fd):
    attrs = termios.tcgetattr(fd)
    attrs[6][termios.VEOF] = b"\x05"
    attrs[3] &= ~termios.ECHO
    termios.tcsetattr(fd, termios.TCSANOW, attrs)


def noop(fd):
    pass


def noopost(fd):
    attrs = termios.tcgetattr(fd)
    attrs[1] &= ~termios.OPOST
    attrs[3] &= ~termios.ECHO
    termios.tcsetattr(fd, termios.TCSANOW, attrs)


def noicrnl(fd):
    attrs = termios.tcgetattr(fd)
    attrs[0] &= ~termios.ICRNL
    attrs[3] &= ~termios.ECHO
    termios.tcsetattr(fd, termios.TCSANOW, attrs)


def adapter(c):
    m, size = c["mode"], (c["rows"], c["cols"])
    return {
        "true": True, "cooked": cooked(*size), "noecho": cooked(*size, echo=False), "raw": raw(*size), "cbreak": cbreak(rows=size[0], cols=size[1]),
        "custom_eof": set_eof, "custom_noop": noop, "custom_noopost": noopost, "custom_noicrnl": noicrnl,
    }[m]


def flags(c):
    "What the terminal should be like, by the standard library."
    a, b = pty.openpty()
    try:
        m = c["mode"]
        if m == "raw":
            tty.setraw(b)
        elif m == "cbreak":
            tty.setcbreak(b)
        elif m == "noecho":
            attrs = termios.tcgetattr(b)
            attrs[3] &= ~termios.ECHO
            termios.tcsetattr(b, termios.TCSANOW, attrs)
        elif m.startswith("custom"):
            adapter(c)(b)
        i, o, _, lf, *_ = termios.tcgetattr(b)
        return {"canon": bool(lf & termios.ICANON), "echo": bool(lf & termios.ECHO), "isig": bool(lf & termios.ISIG), "opost": bool(o & termios.OPOST), "icrnl": bool(i & termios.ICRNL)}
    finally:
        os.close(a)
        os.close(b)


class One:
    def __init__(self, ctx, c, i):
        self.ctx, self.c, self.i = ctx, c, i
        self.f = f = flags(c)
        self.sized = c["mode"] in ("cooked", "noecho", "raw", "cbreak")
        self.pos = c.get("pos")
        self.in_ = c["in"] if self.pos != "last" else "pipe"
        self.out_ = c["stdout"] if self.pos != "first" else "pipe"
        self.end = c["end"]
        self.how = c["how"]
        self.err_ = c["stderr"]
        if self.out_ and self.err_ == "STDOUT":
            self.err_ = ""  # (unspecified)
        if self.pos:
            self.how = "result" if self.how == "with" else self.how
            self.end = ""
        if self.end == "cancel":
            self.how = "await"
        self.tty_in = self.in_ in ("", "bytes", "str", "bytesio", "stringio", "stream", "capture")
        # The terminal has an end of file only in canonical mode.
        text = c["data"]
        if c["big"] and self.in_ != "":
            text = text + "\n" + text_pattern(c["big"] % 30, c["big"]).decode() + text[:3]
        if f["echo"] and len(text) > 900:
            text = text[:900]
        if self.in_ in ("", "DEVNULL", "pipe") or self.end == "cancel":
            text = ""
        self.text = text
        self.sent = text.encode()
        self.read = c["read"]
        if self.in_ == "" and self.pos != "last":
            # With nothing to read there is no end of file either, in "with" etc.
            self.read = "no"
        if self.in_ == "capture" and self.how != "with":
            self.in_, self.read, self.text, self.sent = "", "no", "", b""
        if self.read == "echo" and (f["echo"] or self.end == "cancel"):
            self.read = "file"
        self.got_in = self.sent
        if self.tty_in and f["icrnl"]:
            self.got_in = self.got_in.replace(b"\r", b"\n")
        self.build()

    def path(self, name):
        return self.ctx.path(f"{name}{self.i}")

    def build(self):
        c, ctx = self.c, self.ctx
        ops = ["of:199", self.path("tty"), "out:199", "tty", "out:1", "close:199"]
        terminal = bytearray()  # what arrives on the terminal, before output processing
        outs, errs = bytearray(), bytearray()
        out_tty = not self.out_ or self.out_ in ("bytearray", "stringio")
        err_tty = self.err_ in ("", "STDOUT")
        eof = self.f["canon"] or not self.tty_in
        if self.f["echo"] and self.tty_in and self.sent and self.read == "no" and self.end != "cancel":
            self.read = "file"  # (so that the echo comes first)
        if self.end == "cancel":
            ops += ["touch", self.path("ready"), "pause"]
        elif self.read == "no":
            pass
        else:
            if self.read == "file":
                ops += ["of:100", self.path("input"), "out:100"]
            ops.append("cat" if eof else f"take:{len(self.got_in)}")
            ops += ["out:1"]
            if self.read == "file":
                ops.append("close:100")
        if self.f["echo"] and self.tty_in:
            terminal += self.got_in
        if self.read == "echo":
            (terminal if out_tty else outs).extend(self.got_in)
        utf8 = True
        for k, seed, n in c["out"]:
            if self.end == "cancel":
                break
            if k == "s":
                ops.append("s:1")
                continue
            fd = 2 if k == "e" else 1
            if fd == 2 and not err_tty:
                n = min(n, 1000 - len(errs))
            elif fd == 2 and not out_tty:
                n = min(n, 100)  # (the terminal is not read while stdout goes somewhere else)
            if k == "w":
                data = b"word\nx\r"[: max(1, seed % 8)]
                ops.append(f"w:1:{data.hex()}")
            elif k == "p":
                data = pattern(seed, n)
                ops.append(f"p:1:{seed}:{n}")
                utf8 = False
            else:
                data = text_pattern(seed, n)
                ops.append(f"t:{fd}:{seed}:{n}:{max(n // 20, 1)}")
            is_tty = out_tty if fd == 1 else err_tty
            (terminal if is_tty else outs if fd == 1 else errs).extend(data)
        if self.end == "close1":
            ops += ["close:1", "s:3"]
        elif self.end == "linger":
            ops.append("s:10")
        self.code = c["code"] if self.pos != "first" else 0  # (a result is that of the failing stage)
        ops.append(f"x:{self.code}" if self.code >= 0 else f"k:{-self.code}")
        self.terminal = bytes(terminal).replace(b"\n", b"\r\n") if self.f["opost"] else bytes(terminal)
        self.outs, self.errs, self.out_tty, self.err_tty = bytes(outs), bytes(errs), out_tty, err_tty
        self.encoding = "latin-1"
        cmd = sh(ctx.vchild, *ops).set(pty=adapter(c), encoding="latin-1", error_limit=None)
        i = self.in_
        if i in ("bytes",):
            cmd = cmd.stdin(self.sent)
        elif i == "str":
            if utf8 and self.pos != "first":
                self.encoding = "utf-8"
                cmd = cmd.stdin(self.text).set(encoding="utf-8")
            else:
                cmd = cmd.stdin(self.sent.decode("latin-1"))
        elif i == "bytesio":
            cmd = cmd.stdin(io.BytesIO(self.sent))
        elif i == "stringio":
            cmd = cmd.stdin(io.StringIO(self.sent.decode("latin-1"), newline=""))
        elif i == "stream":
            r = asyncio.StreamReader()
            r.feed_data(self.sent)
            r.feed_eof()
            cmd = cmd.stdin(r)
        elif i in ("path", "fd"):
            p = pathlib.Path(self.path("in"))
            p.write_bytes(self.sent)
            cmd = cmd.stdin(p if i == "path" else os.open(p, os.O_RDONLY), **({"close": True} if i == "fd" else {}))
        elif i == "DEVNULL":
            cmd = cmd.stdin(sh.DEVNULL)
        self.sink = None
        o = self.out_
        if o == "path":
            cmd = cmd.stdout(pathlib.Path(self.path("out")))
        elif o == "DEVNULL":
            cmd = cmd.stdout(sh.DEVNULL)
        elif o == "fd":
            cmd = cmd.stdout(os.open(self.path("out"), os.O_WRONLY | os.O_CREAT), close=True)
        elif o in ("bytearray", "stringio"):
            self.sink = bytearray() if o == "bytearray" else io.StringIO(newline="")
            cmd = cmd.stdout(self.sink)
        if self.how == "with" and not o:
            cmd = cmd.stdout(sh.CAPTURE)
        if i == "capture":
            cmd = cmd.stdin(sh.CAPTURE)
        e = self.err_
        self.esink = None
        if e == "path":
            cmd = cmd.stderr(pathlib.Path(self.path("err")))
        elif e == "bytearray":
            self.esink = bytearray()
            cmd = cmd.stderr(self.esink)
        elif e:
            cmd = cmd.stderr(getattr(sh, e))
        if self.pos == "first":
            cmd = pipe([cmd, sh(ctx.vchild, "cat").set(encoding="latin-1")])
        elif self.pos == "last":
            # (A pipe from another command replaces the terminal as input.)
            cmd = pipe([sh(ctx.vchild, "cat"), cmd])
        self.target = cmd

    def fail(self, what):
        c = self.c
        raise Violation(f"pty {c['mode']} in={self.in_} out={self.out_} err={self.err_} {self.how}: {what}")

    def nontrivial(self):
        c = self.c
        return c["mode"] != "true" or bool(self.out_ or self.err_) or len(self.sent) + len(self.terminal) > 4000 or bool(self.sent) and not self.sent.endswith(b"\n")

    async def go(self):
        got = await outcome(self.drive())
        if got[0] == "exc" and isinstance(got[1], Violation):
            raise got[1]
        if self.end == "cancel":
            if got[0] != "exc" or not isinstance(got[1], asyncio.CancelledError):
                self.fail(f"cancelled: {describe(got)}")
            self.judge_tty()
            return
        out = err = None
        if self.how == "result":
            if got[0] != "ok":
                self.fail(describe(got))
            res = got[1]
            if res.exit_code != self.code:
                self.fail(f"exit status {res.exit_code}, expected {self.code}")
            out, err = res.output_bytes, res.error_bytes
        elif self.how == "with":
            if got[0] != "ok":
                self.fail(describe(got))
            out, code, err = got[1]
            if code != self.code:
                self.fail(f"exit status {code}, expected {self.code}")
        elif self.how == "iter":
            if got[0] != "ok":
                self.fail(describe(got))
            lines = got[1]
            out = "".join(lines).encode(self.encoding)
            if any(not x.endswith("\n") for x in lines[:-1]) or any("\n" in x[:-1] for x in lines):
                self.fail(f"not split into lines: {short(lines)}")
        elif self.code:
            if got[0] != "exc" or not isinstance(got[1], ResultError) or got[1].result.exit_code != self.code:
                self.fail(f"{describe(got)}, expected ResultError with {self.code}")
            out, err = got[1].result.output_bytes, got[1].result.error_bytes
        else:
            if got[0] != "ok":
                self.fail(describe(got))
            out = got[1].encode(self.encoding)
        self.judge_tty()
        self.judge_data(out, err)

    async def drive(self):
        t = self.target
        if self.end == "cancel":
            task = asyncio.ensure_future(t.coro())
            for _ in range(8000):
                if os.path.exists(self.path("ready")) or task.done():
                    break
                await asyncio.sleep(0.002)
            task.cancel()
            return await task
        if self.how == "await":
            return await t
        if self.how == "result":
            return await (t.result if not self.pos else type(t)(t.commands[:-1] + (t.commands[-1].result,)))
        if self.how == "iter":
            lines = []
            async for x in t:
                lines.append(x)
                if len(lines) == 1 and self.c.get("late"):
                    await asyncio.sleep(self.c["late"] / 1000)
            return lines
        async with t as run:
            out = None
            writer = None
            if self.in_ == "capture":
                writer = asyncio.create_task(self.write(run))
            if run.stdout is not None:
                if self.c.get("late"):
                    await asyncio.sleep(self.c["late"] / 1000)
                out = await read_to_end(run.stdout, 5000)
                again = await run.stdout.read(10)
                if again:
                    self.fail(f"{again!r} after the end of file")
            if writer:
                await writer
            esc = run
        res = esc.result(check=False)
        return out, res.exit_code, res.error_bytes

    async def write(self, run):
        data = self.sent
        step = max(1, len(data) // 7)
        try:
            for i in range(0, len(data), step):
                run.stdin.write(data[i : i + step])
                await run.stdin.drain()
            if self.f["canon"]:
                run.stdin.write((b"\x05" if self.c["mode"] == "custom_eof" else b"\x04") * 2)
        except (BrokenPipeError, ConnectionResetError):
            if self.read != "no":
                raise

    def judge_tty(self):
        with open(self.path("tty")) as f:
            t = dict((k, int(v)) for k, v in (x.split("=") for x in f.read().split()))
        c = self.c
        mask = (1 if self.tty_in else 0) | (2 if self.out_tty else 0) | (4 if self.err_tty else 0)
        want = {"tty": mask, "leader": 1, "ctty": 1}
        if mask:
            want["same"] = 1
            want["rows"], want["cols"] = (c["rows"], c["cols"]) if self.sized else (0, 0)
            for k, v in self.f.items():
                want[k] = int(v)
        bad = {k: (t[k], v) for k, v in want.items() if t[k] != v}
        if bad:
            self.fail(f"the child's terminal (found, expected): {bad}")

    def judge_data(self, out, err):
        if self.read == "file":
            with open(self.path("input"), "rb") as f:
                got = f.read()
            if got != self.got_in:
                self.fail(f"the child read {short(got)}, expected {short(self.got_in)}")
        want = self.terminal
        if self.out_ in ("bytearray", "stringio"):
            got = bytes(self.sink) if self.out_ == "bytearray" else self.sink.getvalue().encode(self.encoding)
            if got != want:
                self.fail(f"the sink got {short(got)}, expected {short(want)}")
        elif self.out_ in ("path", "fd"):
            with open(self.path("out"), "rb") as f:
                got = f.read()
            if got != self.outs:
                self.fail(f"the file got {short(got)}, expected {short(self.outs)}")
        elif self.out_ == "DEVNULL":
            pass
        else:
            want = self.outs if self.pos == "first" else self.terminal
            if out is not None and out != want:
                k = next((i for i, (a, b) in enumerate(zip(out, want)) if a != b), min(len(out), len(want)))
                self.fail(f"output {short(out)}, expected {short(want)}; first difference at {k}")
        if self.err_ == "path":
            with open(self.path("err"), "rb") as f:
                got = f.read()
        elif self.err_ == "bytearray":
            got = bytes(self.esink)
        elif self.err_ == "BUFFER" and err is not None and self.pos != "first":
            got = err
        else:
            return
        if got != self.errs:
            self.fail(f"stderr {short(got)}, expected {short(self.errs)}")


async def go(case, ctx):
    base = await ctx.base()
    todo = [One(ctx, c, i) for i, c in enumerate(case["cmds"])]
    for o in todo:
        ctx.label("mode:" + o.c["mode"], "in:" + (o.in_ or "default"), "how:" + o.how, "read:" + o.read)
        ctx.nontrivial(o.nontrivial())
    for got in await asyncio.gather(*[outcome(o.go()) for o in todo]):
        if got[0] != "ok":
            raise got[1]
    if children():
        raise Violation(f"children left {children()}")
    del todo
    left = await ctx.settle(base)
    if left:
        raise Violation(f"left over {left}")
