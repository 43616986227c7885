"C18: expect() matches the stream exactly and loses no character."

import asyncio
import codecs
import re
import time

from hypothesis import strategies as st

from shellous import sh
from shellous.prompt import Prompt
from vlib.base import Violation, check, describe, outcome, short

META = {
    "level": "exploration",
    "technique": "stateful property-based testing: generated sessions of feed/expect/read_pending/read_all/command/send/timeout/cancel against a reference model of the remaining stream, in lock step so that every arrival boundary is a known buffer state",
    "level_note": "Random search over sessions; the process is real, its output stream is replaced by one the check feeds itself, so each buffer state, end of file and cancellation point is placed exactly. A match may be found in any state between two arrivals.",
    "rule": "A case is a set of sessions on one process, each a list of operations. Non-trivial: some expect() finds a match that spans an arrival boundary, ends in EOF, timeout or cancellation with text pending, or is cancelled while a match arrives.",
    "examples": {"quick": 6000, "thorough": 200000},
    "budget": {"quick": 20, "thorough": 700},
}
EPS = 0.004
SPECIAL = ["a", "b", ">", "ab", "aab", "ba", ">>> ", "> ", "\n", "\r", "\r\n", ".", ".*", "a+", "[a", "(", "\\", "$", "^a", "|", "a|b", "é", "日本", "日", "b\n", " "]
REGEX = ["a+", "a+b", "[ab]+>", "(a)(b)?", "a|ab", "ab|a", "[^a]b", "\\S+> ", "(?:a|>)b", "\\d+", "a.b", "(?s)a.b", "(?P<x>b)\\s", "日+", "\\w\\W", "(?i)AB", "a*b", ".+\n", "[\r\n]+", "(a|b|é){3}", "(b)(?=a)", "b(?!a)", "\\bab\\b"]
# Lists that are easily confused with each other, a string or an expression.
ALIKE = [["a", "b"], ["b", "a"], ["a|b"], ["ab"], ["a"], ["a,b"], ["a, b"], ["a b"], ["a", "|", "b"], ["a", "b", "|"], [".", "*"], [".*"], ["a+"], ["a", "+"], ["['a', 'b']"]]
QUICK = ["a+", "a+b", "(a)(b)?", "ab|a", "[^a]b", "a.b", "\\w\\W", "日+"]
PIECE = st.one_of(
    st.text(st.sampled_from(list("aab>b \n")), max_size=8),
    st.text(st.sampled_from(list("ab>\r\n é日本.*+[(\\$^|0")), max_size=12),
    st.sampled_from(SPECIAL),
)


@st.composite
def pattern_(draw):
    k = draw(st.sampled_from(["str", "str", "list", "re", "re", "default"]))
    if k == "str":
        return {"k": "str", "v": draw(st.sampled_from(SPECIAL + ["a|b"]))}
    if k == "list":
        if draw(st.integers(0, 3)) == 0:
            return {"k": "list", "v": draw(st.sampled_from(ALIKE))}
        return {"k": "list", "v": draw(st.lists(st.sampled_from(SPECIAL), min_size=1, max_size=4))}
    if k == "re":
        return {"k": "re", "v": draw(st.sampled_from(REGEX))}
    return {"k": "default"}


@st.composite
def op_(draw):
    o = draw(st.sampled_from(["feed", "expect", "expect", "expect", "expect", "pending", "all", "command", "send", "eof", "check"]))
    op = {"o": o}
    if o in ("expect", "all", "command"):
        op["p"] = draw(pattern_())
        op["feeds"] = draw(st.lists(st.integers(0, 14), max_size=5))
        op["end"] = draw(st.sampled_from(["timeout", "cancel", "cancel", "eof", "wait_for", "default"]))
        op["k"] = draw(st.integers(0, 8))  # loop passes between the last arrival and the cancellation
        op["race"] = draw(st.integers(0, 2)) == 0  # cancel right after an arrival
        op["eof_ok"] = draw(st.booleans())
    elif o == "feed":
        op["n"] = draw(st.integers(1, 14))
    return op


@st.composite
def session_(draw):
    s = {
        "text": "".join(draw(st.lists(PIECE, max_size=12))),
        "nl": draw(st.integers(0, 2)) == 0,
        "default": draw(pattern_()),
        "timeout": draw(st.sampled_from([None, None, 0.02])),
        "chunk": draw(st.sampled_from([0, 0, 0, 1, 3])),
        "ops": draw(st.lists(op_(), min_size=1, max_size=10)),
        "big": 0,
    }
    if draw(st.integers(0, 12)) == 5:
        s["big"] = draw(st.sampled_from([16383, 16384, 16385, 25000, 90_000, 200_000]))
        s["chunk"] = draw(st.sampled_from([0, 4096, 16384] if s["big"] < 50_000 else [0, 65536, 1_000_000]))
        for p in [s["default"]] + [op["p"] for op in s["ops"] if "p" in op]:
            if p["k"] == "re" and p["v"] not in QUICK:
                p["v"] = "a+b"  # (quadratic searches take too long)
    return s


def strategy(tier):
    return st.builds(
        lambda s, e: {"sessions": s, "enc": e},
        st.lists(session_(), min_size=1, max_size=4),
        st.sampled_from(["utf-8", "utf-8 strict", "utf-8 replace", "utf-16-le", "gb18030"]),
    )


def run(case, ctx):
    ctx.aio(lambda: go(case, ctx))


async def go(case, ctx):
    base = await ctx.base()
    async with sh(ctx.vchild, "drain").set(encoding=case["enc"]).stdin(sh.CAPTURE).stdout(sh.CAPTURE) as run_:
        real = run_.stdout
        for i, s in enumerate(case["sessions"]):
            await Session(dict(s, enc=case["enc"]), run_, ctx, i).play()
        run_.stdout = real
        run_.stdin.close()
    left = await ctx.settle(base)
    if left:
        raise Violation(f"left over {left}")


def compiled(p):
    if p["k"] == "re":
        return re.compile(p["v"])
    vals = [p["v"]] if p["k"] == "str" else p["v"]
    return vals


def value(p):
    return re.compile(p["v"]) if p["k"] == "re" else p["v"]


class Session:
    def __init__(self, s, runner, ctx, i):
        self.s, self.ctx, self.i = s, ctx, i
        self.runner = runner
        text = s["text"]
        if s["big"]:
            text = text[: len(text) // 2] + "xyz w" * (s["big"] // 5) + text[len(text) // 2 :]
        self.enc = s["enc"].split()
        self.data = text.encode(self.enc[0])
        self.fed = 0
        self.eof = False
        self.used = 0  # characters already returned
        self.reader = asyncio.StreamReader()
        runner.stdout = self.reader
        kw = {}
        if s["default"]["k"] != "default":
            kw["default_prompt"] = value(s["default"])
        if s["timeout"]:
            kw["default_timeout"] = s["timeout"]
        if s["nl"]:
            kw["normalize_newlines"] = True
        if s["chunk"]:
            kw["_chunk_size"] = s["chunk"]
        self.cli = Prompt(runner, **kw)
        self.trail = []

    # ---- model ---------------------------------------------------------
    def texts(self, unread=0, eof=True):
        "(guaranteed, possible) decoded text of everything fed so far."
        dec = codecs.getincrementaldecoder(self.enc[0])(*self.enc[1:])
        eof = eof and self.eof and not unread
        t = dec.decode(self.data[: self.fed - unread], final=eof)
        if not self.s["nl"]:
            return t, t
        sure = t[:-1] if t.endswith("\r") and not eof else t
        norm = lambda x: re.sub("\r\n?", "\n", x)
        return norm(sure), norm(t)

    def rest(self):
        a, b = self.texts()
        return a[self.used :], b[self.used :]

    def feed(self, n):
        if self.eof:
            return
        if self.s["big"] and n > 9:
            n *= 3000 if self.s["big"] < 50_000 else 12_000
        piece = self.data[self.fed : self.fed + n]
        self.fed += len(piece)
        if piece:
            self.reader.feed_data(piece)

    def feed_eof(self):
        if not self.eof:
            # Never end inside a character: C20 looks at that.
            rest = self.data[self.fed :]
            dec = codecs.getincrementaldecoder(self.enc[0])(*self.enc[1:])
            dec.decode(self.data[: self.fed])
            while dec.getstate()[0] and rest:
                dec.decode(rest[:1])
                self.reader.feed_data(rest[:1])
                self.fed += 1
                rest = rest[1:]
            self.eof = True
            self.reader.feed_eof()

    def fail(self, what):
        raise Violation(f"session {self.i} ({self.s['enc']}{', normalize_newlines' if self.s['nl'] else ''}), after {self.trail[-4:]}: {what}")

    def invariant(self, drained=False):
        sure, full = self.rest()
        got = self.cli.pending
        if not full.startswith(got) or (drained and len(got) < len(sure)):
            self.fail(f"pending is {short(got)}, the unread text is {short(full)}")

    async def yields(self, n=6):
        for _ in range(n):
            await asyncio.sleep(0)

    async def until_read(self, task):
        "Wait until everything fed has been seen, or the task is done."
        end = time.monotonic() + 10
        while not task.done():
            sure, _ = self.rest()
            if len(self.cli.pending) >= len(sure) and not self.reader._buffer:
                await self.yields()
                return
            await asyncio.sleep(0)
            if time.monotonic() > end:
                self.fail(f"{task.get_name()} does not read: pending {short(self.cli.pending)}, unread {short(sure)}")

    # ---- operations -----------------------------------------------------
    async def play(self):
        s = self.s
        self.ctx.label("enc:" + s["enc"], "newlines" if s["nl"] else "plain")
        for op in s["ops"]:
            o = op["o"]
            self.ctx.label("op:" + o)
            if o == "feed":
                self.feed(op["n"])
            elif o == "eof":
                self.feed_eof()
            elif o == "pending":
                self.take(self.cli.read_pending(), "read_pending")
                if self.cli.pending:
                    self.fail(f"pending is {short(self.cli.pending)} after read_pending()")
            elif o == "send":
                await self.cli.send("x" * 5)
            elif o == "check":
                pass
            elif o == "all":
                await self.read_all(op)
            else:
                await self.expect(op)
            self.trail.append(o)
            self.invariant()
            at_eof = self.cli.at_eof
            if at_eof and (not self.eof or self.rest()[0]):
                self.fail(f"at_eof is True with {short(self.rest()[0])} unread")
        # What is left comes out at the end.
        self.feed(len(self.data) + 1)
        self.feed_eof()
        got = await outcome(self.cli.read_all(timeout=10))
        if got[0] != "ok":
            self.fail(f"the last read_all {describe(got)}")
        self.take(got[1], "the last read_all")
        if self.rest()[1]:
            self.fail(f"the end of the stream was lost: {short(self.rest()[1])}")
        check(self.cli.at_eof, "at_eof is false at the end")
        got = await outcome(self.cli.expect("a", timeout=5))
        if got[0] != "exc" or not isinstance(got[1], EOFError):
            self.fail(f"expect at the end {describe(got)}")

    def take(self, text, what):
        full = self.rest()[1]
        if not full.startswith(text):
            self.fail(f"{what} returned {short(text)}, the unread text is {short(full)}")
        self.used += len(text)

    async def read_all(self, op):
        use = {"timeout": 0.01} if op["end"] == "timeout" else {}
        if op["end"] == "default" and not self.s["timeout"]:
            op = dict(op, end="cancel")
        task = asyncio.create_task(self.cli.read_all(**use), name="read_all")
        t0 = time.monotonic()
        await self.yields(2)
        for n in op["feeds"]:
            if task.done():
                break
            self.feed(n)
            await self.until_read(task)
        if not task.done() and op["end"] == "eof":
            self.feed_eof()
        elif not task.done() and op["end"] in ("cancel", "wait_for"):
            if op["race"]:
                self.feed(5)
                await self.yields(op["k"])
            task.cancel()
        got = await outcome(task)
        if got[0] == "ok":
            if not self.eof:
                self.fail(f"read_all returned {short(got[1])} before the end of the stream")
            self.take(got[1], "read_all")
            if self.rest()[1]:
                self.fail(f"read_all left {short(self.rest()[1])}")
            return
        self.why(op, got, t0, use, "read_all")

    def why(self, op, got, t0, use, what):
        "A timeout or cancellation must be one that was asked for."
        ex = got[1]
        limit = use.get("timeout") or self.s["timeout"]
        if isinstance(ex, asyncio.TimeoutError):
            if not limit:
                self.fail(f"{what}: TimeoutError without a timeout")
            if time.monotonic() - t0 < limit - EPS:
                self.fail(f"{what}: TimeoutError after {time.monotonic() - t0:.4f}s, timeout {limit}")
        elif not (isinstance(ex, asyncio.CancelledError) and op["end"] in ("cancel", "wait_for")):
            self.fail(f"{what} {describe(got)}")
        self.ctx.label("interrupted:" + type(ex).__name__)
        if self.cli.pending:
            self.ctx.nontrivial()

    async def expect(self, op):
        cli, ctx = self.cli, self.ctx
        p = op["p"]
        given = p["k"] != "default"
        pat = p if given else self.s["default"]
        if op["end"] == "default" and not self.s["timeout"]:
            op = dict(op, end="timeout")
        use = {"timeout": 0.01} if op["end"] == "timeout" else {}
        command = op["o"] == "command"
        if pat["k"] == "default":
            got = await outcome(cli.expect(**use))
            if got[0] != "exc" or not isinstance(got[1], TypeError):
                self.fail(f"expect() without a default prompt {describe(got)}")
            return
        val = value(pat)
        args = [val] if given else []
        if command:
            if given:
                use["prompt"] = val
            coro = cli.command("line", allow_eof=op["eof_ok"], **use)
        else:
            coro = cli.expect(*args, **use)
        what = f"{op['o']}({val!r})"
        self.trail.append(what[:60])
        start = cli.pending  # the first buffer state
        was_eof = self.eof and cli.at_eof
        now = spans(val, start)
        task = asyncio.create_task(coro, name=what)
        t0 = time.monotonic()
        low = len(start)
        timed = bool(use.get("timeout") or self.s["timeout"])
        raced = False

        async def settle():
            "Everything fed is in the buffer: a match must have been found."
            nonlocal low
            await self.until_read(task)
            if task.done():
                return
            sure, _ = self.rest()
            m = find(val, sure)
            if m:
                # (The sending part of a command may still be on its way.)
                end = time.monotonic() + 5
                while not task.done() and time.monotonic() < end:
                    await asyncio.sleep(0)
                if not task.done():
                    self.fail(f"{what} does not see its match {m} in {short(sure)}")
                return
            low = len(sure)

        await self.yields(2)
        await settle()
        for n in op["feeds"]:
            if task.done():
                break
            self.feed(n)
            await settle()
        if not task.done():
            if op["end"] == "eof":
                self.feed_eof()
            elif op["end"] in ("cancel", "wait_for"):
                if op["race"]:
                    self.feed(5)
                    await self.yields(op["k"])
                    raced = True
                task.cancel()
        got = await outcome(task)
        sure, full = self.rest()
        if got[0] == "exc":
            ex = got[1]
            if isinstance(ex, EOFError):
                if not self.eof:
                    self.fail(f"{what}: EOFError before the end of the stream")
                if not (command and was_eof):
                    if command and cli.at_eof and not start and not full:
                        pass
                    m = find(val, full)
                    if m and not command:
                        self.fail(f"{what}: EOFError although the stream has a match {m} in {short(full)}")
                    if cli.pending != full and not command:
                        self.fail(f"{what}: pending is {short(cli.pending)} after EOFError, expected {short(full)}")
                ctx.label("eof")
                ctx.nontrivial(bool(full))
                return
            self.why(op, got, t0, use, what)
            if raced:
                ctx.label("raced")
                ctx.nontrivial()
            if now and not command:
                self.fail(f"{what} {describe(got)} although its match {now} was pending")
            if isinstance(ex, asyncio.TimeoutError) and len(cli.pending) < len(sure) and not timed:
                self.fail("timeout")
            return
        if command:
            before, m0 = got[1], None
            if op["eof_ok"] and self.eof and before == full and not find(val, full):
                self.used += len(before)
                return
        else:
            before, m = got[1]
            if not isinstance(m, re.Match):
                self.fail(f"{what} returned {m!r}")
            m0 = m[0]
            if p["k"] in ("str", "list") and given:
                vals = [val] if isinstance(val, str) else val
                if m0 not in vals:
                    self.fail(f"{what} matched {m0!r}")
        if now and not command:
            if (len(before), len(before) + len(m0)) not in now:
                self.fail(f"{what} returned {short(before)}, {short(m0)}; pending was {short(start)}: expected {now}")
        found = None
        lengths = [len(full), *range(low + 1, len(full))] if not now or command else [len(start)]
        if len(full) - low > 2000:
            lengths = [len(full), len(before) + len(m0 or ""), *range(low + 1, low + 200), *range(low + 200, len(full), 997)]
        if command and start:
            lengths.insert(0, len(start))
        hidden = len(self.reader._buffer)
        ends = [len(t) - self.used - len(cli.pending) for t in self.texts(hidden) + self.texts(hidden, eof=False)]
        for n in lengths:
            for m in spans(val, full[:n]):
                if m[0] != len(before) or found:
                    continue
                if command:
                    # The end of the match shows in what is pending.
                    if m[1] in ends and full[m[1] :].startswith(cli.pending):
                        found = m
                elif m[1] == len(before) + len(m0):
                    found = m
        if not found:
            self.fail(f"{what} returned {short(before)}, {m0!r}; the stream was {short(full)}, without a match in its first {low} characters")
        text = full[: found[0]]
        if before != text or (m0 is not None and m0 != full[found[0] : found[1]]):
            self.fail(f"{what} returned {short(before)}, {m0!r}; expected {short(text)}, {short(full[found[0]:found[1]])}")
        if found[1] > len(start) and found[0] < low:
            ctx.nontrivial()
            ctx.label("match across arrivals")
        self.used += found[1]
        self.invariant()


def spans(val, text):
    "Spans of the leftmost match; of several strings any one at that place."
    if isinstance(val, re.Pattern):
        m = val.search(text)
        return [m.span()] if m else []
    found = [(text.find(v), v) for v in ([val] if isinstance(val, str) else val)]
    at = min((i for i, _ in found if i >= 0), default=-1)
    return [(i, i + len(v)) for i, v in found if i == at and i >= 0]


def find(val, text):
    return (spans(val, text) or [None])[0]
