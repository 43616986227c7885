"C27: tracing never changes behaviour and hides no_echo secrets."

import asyncio
import contextlib
import importlib
import logging
import os
import re
import sys

from hypothesis import strategies as st

from vlib.base import Violation, children, describe, outcome, short

META = {
    "level": "exploration",
    "technique": "property-based differential testing: the package is imported once for each trace setting; generated cases of the other checks (runs, pipelines, iteration, prompts, cancellation, faults, each judged by its reference model) are run with tracing and, when one fails, without it; generated prompt sessions with secrets are searched for any trace of a secret in every log record",
    "level_note": "Random search over trace settings x log levels x the cases of 19 other checks; a difference must show in every one of three runs with tracing and in none of three without. Secrets are recognised by an alphabet used nowhere else.",
    "rule": "A case is either a case of another check under a trace setting, or a prompt session with secrets and faults. Non-trivial: the other check's own rule, or at least one secret sent.",
    "examples": {"quick": 4000, "thorough": 120000},
    "budget": {"quick": 26, "thorough": 800},
}
HANG = 30.0
OTHERS = [5, 6, 7, 8, 9, 10, 11, 12, 13, 13, 14, 14, 14, 14, 14, 14, 16, 17, 17, 18, 19, 19, 20, 21, 21, 22, 22, 23, 23, 24, 26]
TRACES = ["detail", "prompt", "all", "all", "prompt,detail", " All , x", "DETAIL"]
LEVELS = ["DEBUG", "DEBUG", "INFO", "INFO", "WARNING", "NOTSET"]
SECRET = "QXZJ"


# ---- copies of the package ----------------------------------------------------

OURS = ("shellous", "checks", "vlib.rt", "vlib.gen", "vlib.targets")
COPIES = {}


def ours():
    return {k: v for k, v in sys.modules.items() if any(k == p or k.startswith(p + ".") for p in OURS)}


@contextlib.contextmanager
def swapped(modules):
    "Make `modules` the imported ones; returns with the old ones in place."
    old = ours()
    vlib = sys.modules["vlib"]
    attrs = {k: getattr(vlib, k) for k in ("rt", "gen", "targets") if hasattr(vlib, k)}
    for k in old:
        del sys.modules[k]
    for k in attrs:
        delattr(vlib, k)
    sys.modules.update(modules)
    for k in ("rt", "gen", "targets"):
        if "vlib." + k in modules:
            setattr(vlib, k, modules["vlib." + k])
    try:
        yield
    finally:
        modules.update(ours())
        for k in ours():
            del sys.modules[k]
        sys.modules.update(old)
        for k in ("rt", "gen", "targets"):
            if hasattr(vlib, k):
                delattr(vlib, k)
        for k, v in attrs.items():
            setattr(vlib, k, v)


def copy(trace):
    "The modules of the package imported with SHELLOUS_TRACE=trace."
    if trace not in COPIES:
        modules = {}
        old = os.environ.pop("SHELLOUS_TRACE", None)
        if trace is not None:
            os.environ["SHELLOUS_TRACE"] = trace
        try:
            with swapped(modules):
                importlib.import_module("shellous")
                importlib.import_module("shellous.prompt")
        finally:
            os.environ.pop("SHELLOUS_TRACE", None)
            if old is not None:
                os.environ["SHELLOUS_TRACE"] = old
        COPIES[trace] = modules
    return COPIES[trace]


class Capture(logging.Handler):
    "Formats every record and keeps the text."

    def __init__(self):
        super().__init__(0)
        self.lines = []

    def emit(self, record):
        try:
            text = record.getMessage()
        except Exception as ex:  # (what logging itself reports on stderr)
            text = f"?{record.msg!r} {ex!r}"
        if record.exc_info and record.exc_info[0]:
            text += "".join(logging.Formatter().formatException(record.exc_info))
        if record.stack_info:
            text += str(record.stack_info)
        self.lines.append(text)


@contextlib.contextmanager
def logged(level):
    cap = Capture()
    logs = [logging.getLogger("shellous"), logging.getLogger("asyncio")]
    old = [(lg.level, lg.propagate) for lg in logs]
    for lg in logs:
        lg.addHandler(cap)
        lg.setLevel(level)
    try:
        yield cap
    finally:
        for lg, (lv, pr) in zip(logs, old):
            lg.removeHandler(cap)
            lg.setLevel(lv)
            lg.propagate = pr


# ---- cases ---------------------------------------------------------------------


@st.composite
def step(draw):
    k = draw(st.sampled_from(["send", "send", "secret", "secret", "secret", "csecret", "csend"]))
    secret = "secret" in k
    if secret:
        n = draw(st.sampled_from([8, 8, 13, 40, 200, 1990, 2000, 2001, 3500]))
        text = draw(st.text(SECRET, min_size=min(n, 12), max_size=min(n, 12)))
        text = (text * (n // len(text) + 1))[:n]
        mix = draw(st.sampled_from(["", "", "", "", "é", "日", "'", "\\", " ", "%s", "{}", "\udc80"]))
        pos = draw(st.integers(0, n))
        text = text[:pos] + mix + text[pos:]
    else:
        text = draw(st.text("abcdefgh", min_size=8, max_size=8))
    return {"k": k, "text": text, "bytes": draw(st.integers(0, 3)) == 0 and k in ("send", "secret"), "end": draw(st.sampled_from(["\n", "\n", "\n", "\r\n", None, "", "#"])),
            "slow": draw(st.integers(0, 3)) == 0, "ms": draw(st.sampled_from([0, 0, 20, 200])),
            "fault": draw(st.sampled_from(["", "", "", "", "", "", "timeout", "cancel", "exited", "badregex", "boom", "waitcancel"]))}


@st.composite
def session(draw):
    return {"io": draw(st.sampled_from(["pipe", "pipe", "pipe", "pipeline", "noecho", "raw", "cbreak", "cooked", "cooked"])),
            "enc": draw(st.sampled_from(["utf-8", "utf-8", "ascii", "latin-1", "utf-8 surrogateescape", "utf-16-le"])),
            "steps": draw(st.lists(step(), min_size=1, max_size=4)), "how": draw(st.sampled_from(["prompt", "prompt", "direct"])),
            "end": draw(st.sampled_from(["close", "close", "raise", "leave", "read"])), "debug": draw(st.integers(0, 5)) == 2}


@st.composite
def strategy_(draw, tier):
    case = {"trace": draw(st.sampled_from(TRACES)), "level": draw(st.sampled_from(LEVELS))}
    if draw(st.integers(0, 3)) == 1:
        case["sessions"] = draw(st.lists(session(), min_size=1, max_size=draw(st.sampled_from([1, 1, 2, 3]))))
        if draw(st.integers(0, 5)) == 0:
            case["trace"] = None
    else:
        prop = f"c{draw(st.sampled_from(OTHERS)):02d}"
        case["check"] = prop
        case["case"] = draw(strategies(prop, tier))
    return case


STRATEGIES = {}


def strategies(prop, tier):
    if (prop, tier) not in STRATEGIES:
        STRATEGIES[prop, tier] = importlib.import_module("checks." + prop).strategy(tier)
    return STRATEGIES[prop, tier]


def strategy(tier):
    return strategy_(tier)


def run(case, ctx):
    if "check" not in case:
        with swapped(copy(case["trace"])):
            with logged(case["level"]) as cap:
                secrets(case, ctx, cap)
        return
    ctx.label("other:" + case["check"], "trace:" + case["trace"].strip().lower())
    labels = set(ctx.case_labels)
    msg = other(case, ctx, True)
    ctx.case_labels = labels
    if msg is None:
        return
    # It failed. With tracing it must fail every time, and without it never.
    for _ in range(2):
        if other(case, ctx, False) is not None or other(case, ctx, True) is None:
            ctx.label("not due to tracing")
            return
    if other(case, ctx, False) is None:
        raise Violation(f"only with SHELLOUS_TRACE={case['trace']!r}: {msg}")


def other(case, ctx, traced):
    "Run a case of another check; returns the failure."
    with swapped(copy(case["trace"] if traced else None)):
        with logged(case["level"]) if traced else contextlib.nullcontext():
            mod = importlib.import_module("checks." + case["check"])
            hang, ctx.hang = ctx.hang, getattr(mod, "HANG", 25.0)
            try:
                if hasattr(mod, "setup"):
                    mod.setup(ctx)
                mod.run(case["case"], ctx)
            except Violation as ex:
                return str(ex)
            except Exception as ex:  # pylint: disable=broad-except
                return f"{type(ex).__name__}: {ex}"
            finally:
                ctx.hang = hang
                ctx.end()
                labels = ctx.case_labels
                seen = ctx.interesting
                ctx.begin()
                ctx.case_labels, ctx.interesting = labels, seen
    return None


# ---- secrets -------------------------------------------------------------------


class Boom(Exception):
    pass


LEAK = re.compile(f"[{SECRET}]{{4}}")
FILLER = re.compile(r"\\x00|\\u....|\\\\|\s")


def secrets(case, ctx, cap):
    todo = [Session(ctx, s, i, case["trace"] or "", case["level"], cap) for i, s in enumerate(case["sessions"])]

    async def go():
        base = await ctx.base()
        if any(s.c["debug"] for s in todo):
            asyncio.get_running_loop().set_debug(True)
        for got in await asyncio.gather(*[outcome(s.go()) for s in todo]):
            if got[0] != "ok":
                raise got[1]
        if children():
            raise Violation(f"children left {children()}")
        left = await ctx.settle(base)
        if left:
            raise Violation(f"left over {left}")

    try:
        ctx.aio(go)
    finally:
        for s in todo:
            ctx.nontrivial(any("secret" in x["k"] for x in s.steps))
            ctx.label("session:" + s.c["io"], *["fault:" + (x["fault"] or "none") for x in s.steps])
    for line in cap.lines:
        found = LEAK.search(line) or LEAK.search(FILLER.sub("", line))
        if found:
            at = max(found.start() - 150, 0)
            raise Violation(f"a text sent with no_echo is in the log: ...{short(line[at : at + 400], 500)}")
    for s in todo:
        s.judge_log(cap.lines)


class Session:
    def __init__(self, ctx, c, i, trace, level, cap):
        self.ctx, self.c, self.i = ctx, c, i
        self.cap = cap
        self.tty = c["io"] in ("noecho", "raw", "cbreak", "cooked")
        self.enc = "utf-8" if self.tty and c["enc"] == "utf-16-le" else c["enc"]
        self.trace = [x.strip().lower() for x in trace.split(",")]
        self.on = ("all" in self.trace or "prompt" in self.trace) and level in ("DEBUG", "INFO")
        self.steps = c["steps"]
        self.sent_words, self.got_words = [], []
        self.plan()

    def path(self, name):
        return self.ctx.path(f"{name}{self.i}")

    def data(self, x):
        "Bytes of one send, or None if it cannot be encoded."
        end = x["end"] or ""
        if x["k"].startswith("c"):
            end = "\n"
        if self.tty:
            end = "\n"
        enc = self.enc.split()
        try:
            if x["bytes"]:
                return x["text"].encode("utf-8", "replace") + end.encode(*enc)
            return (x["text"] + end).encode(*enc)
        except UnicodeEncodeError:
            return None

    def plan(self):
        "The process reads each text, stores it, and then answers with a word."
        ops = ["of:101", self.path("got"), "out:101"]
        self.want = b""
        echo = self.c["io"] == "cooked"
        for j, x in enumerate(self.steps):
            data = self.data(x)
            x["data"] = data
            x["word"] = f"r{j}w" + "mnop"[j] * 8
            if data is None or x["fault"] in ("boom", "exited"):
                break
            if "secret" in x["k"] and echo:
                ops += ["wait", self.path(f"off{j}")]
                ops += ["stty:echo:0"]
            elif echo:
                ops += ["stty:echo:1"]
            if x["fault"] == "waitcancel" and "secret" in x["k"] and echo:
                # Cancelled while the echo is on: nothing is ever written.
                ops += ["w:1:" + (x["word"] + "> ").encode(*self.enc.split()).hex()]
                continue
            if x["fault"] in ("timeout", "cancel") and not self.tty:
                # The process reads nothing until the send was given up.
                ops += ["wait", self.path(f"go{j}")]
            elif x["ms"]:
                ops.append(f"s:{x['ms']}")
            ops.append(f"take:{len(data)}")
            self.want += data
            ops.append("w:1:" + (x["word"] + "> ").encode(*self.enc.split()).hex())
        self.ops = ops

    def fail(self, what):
        raise Violation(f"prompt over {self.c['io']} ({self.enc}): {what}")

    async def go(self):
        from shellous import cbreak, cooked, raw, sh
        from shellous.prompt import Prompt

        c = self.c
        cmd = sh(self.ctx.vchild, *self.ops).set(encoding=self.enc)
        if self.tty:
            cmd = cmd.set(pty={"noecho": cooked(echo=False), "raw": raw(), "cbreak": cbreak(), "cooked": cooked(echo=True)}[c["io"]])
        elif c["io"] == "pipeline":
            cmd = sh(self.ctx.vchild, "cat").set(encoding=self.enc) | cmd
        out = await outcome(self.drive(cmd, Prompt, sh))
        expected = self.expected
        if out[0] == "exc" and isinstance(out[1], Violation):
            raise out[1]
        if expected == "boom":
            if out[0] != "exc" or not isinstance(out[1], Boom):
                self.fail(f"{describe(out)}, expected Boom")
        elif expected == "encode":
            if out[0] != "exc" or not isinstance(out[1], UnicodeEncodeError):
                self.fail(f"{describe(out)}, expected UnicodeEncodeError")
        elif out[0] != "ok" and expected != "any":
            self.fail(describe(out))
        if os.path.exists(self.path("got")):
            with open(self.path("got"), "rb") as f:
                got = f.read()
        else:
            got = b""
        if not (self.want.startswith(got) if self.cut else got == self.want):
            self.fail(f"the process read {short(got)}, expected {short(self.want)}")

    expected = None
    cut = False

    async def drive(self, cmd, Prompt, sh):
        if self.c["how"] == "direct":
            async with cmd.stdin(sh.CAPTURE).stdout(sh.CAPTURE) as run:
                cli = Prompt(run)
                await self.talk(cli)
                if not self.tty:
                    cli.close()  # (nobody else does)
        else:
            async with cmd.prompt() as cli:
                await self.talk(cli)

    async def talk(self, cli):
        for j, x in enumerate(self.steps):
            if await self.one(cli, j, x):
                break
        else:
            if self.c["end"] == "raise":
                self.expected = "boom"
                raise Boom("end")
            if self.c["end"] == "read":
                rest = await cli.read_all()
                if rest.strip():
                    self.fail(f"{short(rest)} after the last answer")
            elif self.c["end"] == "close":
                cli.close()

    async def one(self, cli, j, x):
        secret = "secret" in x["k"]
        cooked = self.c["io"] == "cooked"
        text = x["text"].encode("utf-8", "replace") if x["bytes"] else x["text"]
        end = "\n" if self.tty else x["end"]
        if x["data"] is None:
            self.expected, self.cut = "encode", True
        elif x["fault"] == "boom":
            self.expected, self.cut = "boom", True
            raise Boom("x")
        elif x["fault"] == "exited":
            # Send to a process that has ended (what happens is not specified).
            self.expected, self.cut = "any", True
            await outcome(cli.read_all(timeout=10))
            if secret and cooked:
                text = "gone"
            for _ in range(2):
                await outcome(cli.send(text, end=end, no_echo=secret and not cooked, timeout=5))
            return True
        off = self.path(f"off{j}")
        if cooked and secret and x["data"] is not None:
            cli.echo = True
            task = asyncio.ensure_future(cli.send(text, end=end, no_echo=True))
            try:
                for _ in range(3 if x["slow"] else 1):
                    await asyncio.sleep(0.06)
                    if x["slow"]:
                        await asyncio.sleep(0.15)
                if task.done():
                    self.fail(f"send(no_echo) ended while the echo was on: {task!r}"[:300])
                if x["fault"] == "waitcancel":
                    task.cancel()
                    got = await outcome(task)
                    if got[0] != "exc" or not isinstance(got[1], asyncio.CancelledError):
                        self.fail(f"cancelled send: {describe(got)}")
                    open(off, "w").close()
                    await self.answer(cli, x)
                    return False
                open(off, "w").close()
                await asyncio.wait_for(task, 10)
            finally:
                task.cancel()
                await asyncio.wait([task])
            await self.answer(cli, x)
            return False
        if cooked and secret:
            # (Encoding fails, but only once the echo is off.)
            cli.echo = False
        if x["fault"] in ("timeout", "cancel") and not self.tty and x["data"] is not None:
            task = asyncio.ensure_future(self.exchange(cli, x, text, end, secret, 0.02 if x["fault"] == "timeout" else None))
            await asyncio.sleep(0.03)
            if x["fault"] == "cancel":
                task.cancel()
            got = await outcome(task)
            want = asyncio.TimeoutError if x["fault"] == "timeout" else asyncio.CancelledError
            if got[0] != "exc" or not isinstance(got[1], want):
                self.fail(f"expected {want.__name__}: {describe(got)}")
            open(self.path(f"go{j}"), "w").close()
            await self.answer(cli, x)
            return False
        if x["k"].startswith("c") or x["fault"] == "badregex":
            before = await self.exchange(cli, x, text, end, secret, None)
        else:
            await cli.send(text, end=end, no_echo=secret)
            before = None
        if before is None:
            await self.answer(cli, x)
        else:
            self.judge_echo(before, x)
        if not secret:
            self.sent_words.append(x["text"])
        if not self.tty:
            self.got_words.append(x["word"])
        return False

    async def exchange(self, cli, x, text, end, secret, timeout):
        "Send and wait for the answer."
        if not isinstance(text, bytes) and x["k"].startswith("c"):
            return await cli.command(text, end="\n", no_echo=secret, prompt=x["word"] + "> ", timeout=timeout)
        await cli.send(text, end=end if not x["k"].startswith("c") else "\n", no_echo=secret, timeout=timeout)
        out, _ = await cli.expect(x["word"] + "> ", timeout=timeout)
        return out

    async def answer(self, cli, x):
        out, _ = await cli.expect(x["word"] + "> ", timeout=20)
        self.judge_echo(out, x)

    def judge_echo(self, out, x):
        if LEAK.search(out):
            self.fail(f"the text sent with no_echo was echoed: {short(out)}")
        if out.strip() and not (self.c["io"] == "cooked" and "secret" not in x["k"]):
            self.fail(f"{short(out)} before the answer")

    def judge_log(self, lines):
        if not self.on:
            return
        for w in self.sent_words + self.got_words:
            wide = w.encode("utf-16-le").decode("latin-1").replace("\0", "\\x00")
            if not any(w in line or wide in line for line in lines):
                self.fail(f"{w!r} was sent or received, but is in no log record")
