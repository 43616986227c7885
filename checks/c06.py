"C06: output and error go completely and only to the configured sinks."

import asyncio
import io
import logging
import os
import pathlib
import sys

from hypothesis import strategies as st

from shellous import sh
from vlib import gen
from vlib.base import ListHandler, Violation, check, describe, outcome, same, short
from vlib.rt import FdCollector, last, pipe, read_to_end

META = {
    "level": "exploration",
    "technique": "property-based testing: generated interleaved writes and sink pairs against byte-exact expected sink contents",
    "level_note": "Random search over all pairs of sink kinds for stdout and stderr, append/close flags, write interleavings and sizes; trusts the C child and the kernel.",
    "rule": "A case is a list of writes to stdout/stderr and a sink for each. Non-trivial: both streams or at least two writes, with at least one sink other than the default buffer.",
    "examples": {"quick": 9000, "thorough": 120000},
    "budget": {"quick": 20, "thorough": 600},
}

SINKS = ["default", "BUFFER", "bytearray", "bytesio", "stringio", "path", "file", "rawfile", "textfile", "fd_file", "fd_pipe",
         "logger", "writer", "INHERIT", "DEVNULL", "CAPTURE"]


@st.composite
def strategy_(draw, tier):
    big = 150_000 if tier == "quick" else 1_000_000
    parts = draw(st.lists(
        st.tuples(st.sampled_from([1, 1, 2]), gen.blobs(big), st.sampled_from([0, 0, 0, 1, 2]), st.sampled_from([0, 0, 1, 17, 4096])).map(list),
        max_size=6))
    return {
        "parts": parts,
        "out": draw(st.sampled_from(SINKS)),
        "err": draw(st.sampled_from(SINKS + ["STDOUT", "STDOUT", "STDOUT"])),
        "oflag": draw(st.sampled_from(["", "append", "close"])),
        "eflag": draw(st.sampled_from(["", "append", "close"])),
        "prior": draw(st.binary(max_size=20)),
        "mode": draw(st.sampled_from(["await", "await", "with"])),
        "pos": draw(st.sampled_from(["alone", "alone", "last"])),
        "code": draw(st.sampled_from([0, 0, 3])),
        "again": draw(st.booleans()),
        "how": draw(st.sampled_from(["method", "op"])),
    }


def strategy(tier):
    return strategy_(tier)


class Sink:
    "One configured sink, its expected content and how to look at it."

    def __init__(self, kind, flag, prior, name, ctx):
        self.kind, self.flag, self.prior, self.name, self.ctx = kind, flag, prior, name, ctx
        self.value = None
        self.path = ctx.path(name)
        self.fd = None
        self.coll = None
        self.fobj = None
        self.writer = None
        self.saved = None
        self.expected = b""  # what the sink should hold now

    async def open(self):
        k = self.kind
        append = self.flag == "append"
        if k == "bytearray":
            self.value = bytearray(self.prior)
        elif k == "bytesio":
            self.value = io.BytesIO(self.prior)
        elif k == "stringio":
            self.value = io.StringIO(newline="")
            self.value.write(self.prior.decode("latin-1"))
            self.value.seek(0)
        elif k in ("path", "file", "rawfile", "textfile", "fd_file", "INHERIT"):
            with open(self.path, "wb") as f:
                f.write(self.prior)
            if k == "path":
                self.value = pathlib.Path(self.path)
            elif k == "fd_file":
                self.fd = self.value = os.open(self.path, os.O_WRONLY | os.O_APPEND)
            elif k == "INHERIT":
                self.fobj = open(self.path, "a")
                self.value = sh.INHERIT
                self.saved = getattr(sys, self.name)
                setattr(sys, self.name, self.fobj)
            else:
                self.fobj = open(self.path, "r+" if k == "textfile" else "r+b", buffering=0 if k == "rawfile" else -1)
                self.value = self.fobj
        elif k == "fd_pipe":
            self.coll = FdCollector()
            self.fd = self.value = self.coll.w
        elif k == "logger":
            self.handler = ListHandler()
            self.value = logging.Logger("verif.c06." + self.name)
            self.value.addHandler(self.handler)
        elif k == "writer":
            self.coll = FdCollector(sock=True)
            _, self.writer = await asyncio.open_connection(sock=self.coll.peer)
            self.value = self.writer
        elif k == "default":
            self.value = None
        else:
            self.value = getattr(sh, k)
        if self.prior and k in ("bytearray", "bytesio", "stringio", "path", "file", "rawfile", "textfile"):
            self.expected = self.prior if append else b""
        elif k in ("fd_file", "INHERIT"):
            self.expected = self.prior
        if self.fd is not None:
            self.ino = os.fstat(self.fd)

    def apply(self, cmd, stream, how):
        if self.value is None:
            return cmd
        kw = {}
        if self.flag == "append":
            kw["append"] = True
        if self.flag == "close" and self.kind.startswith("fd_"):
            kw["close"] = True
        if stream == "stdout" and how == "op" and "close" not in kw:
            return cmd >> self.value if kw else cmd | self.value
        return getattr(cmd, stream)(self.value, **kw)

    def check_fd(self):
        "The command closed the descriptor exactly if it was told to."
        if self.fd is None:
            return
        try:
            now = os.fstat(self.fd)
            is_open = (now.st_dev, now.st_ino) == (self.ino.st_dev, self.ino.st_ino)
        except OSError:
            is_open = False
        if self.flag == "close":
            check(not is_open, "%s: descriptor given with close=True is still open", self.name)
        else:
            check(is_open, "%s: descriptor given without close=True was closed", self.name)
            os.close(self.fd)

    async def content(self):
        "The sink's content as bytes (None: nothing to look at)."
        k = self.kind
        if k in ("bytearray", "bytesio"):
            return bytes(self.value) if k == "bytearray" else self.value.getvalue()
        if k == "stringio":
            return self.value.getvalue().encode("latin-1")
        if k in ("path", "file", "rawfile", "textfile", "fd_file", "INHERIT"):
            with open(self.path, "rb") as f:
                return f.read()
        if k in ("fd_pipe", "writer"):
            check(await self.coll.finish(), "%s: no end-of-file on the %s after the command finished", self.name, k)
            return bytes(self.coll.data)
        return None

    def close(self):
        if self.saved is not None:
            setattr(sys, self.name, self.saved)
        if self.fobj:
            self.fobj.close()
        if self.writer:
            self.writer.transport.abort()
        if self.coll:
            self.coll.close()


def run(case, ctx):
    ctx.label("out:" + case["out"], "err:" + case["err"], "mode:" + case["mode"])
    total = {1: b"", 2: b""}
    merged = []
    for fd, blob, _, _ in case["parts"]:
        d = gen.data(blob)
        total[fd] += d
        merged.append(d)
    ctx.nontrivial((bool(total[1]) and bool(total[2]) or len(merged) > 1) and (case["out"], case["err"]) != ("default", "default"))
    if len(total[1]) > 65536 and len(total[2]) > 65536:
        ctx.label("both big")
    ctx.aio(lambda: go(case, ctx, total, b"".join(merged)))


async def go(case, ctx, total, merged):
    ops = []
    for fd, blob, ms, chunk in case["parts"]:
        n = len(gen.data(blob))
        ops.append(gen.write_op(fd, blob, chunk if chunk and (chunk > 100 or n < 4000) else None))
        if ms:
            ops.append(f"s:{ms}")
    ops.append(f"x:{case['code']}")
    base = sh(ctx.vchild, *ops).set(encoding="latin-1", error_limit=None)
    mode = case["mode"]
    if "CAPTURE" in (case["out"], case["err"]):
        mode = "with"
    out = Sink(case["out"], case["oflag"], case["prior"], "stdout", ctx)
    err = Sink(case["err"], case["eflag"], case["prior"], "stderr", ctx)
    try:
        await out.open()
        await err.open()
        cmd = out.apply(base, "stdout", case["how"])
        cmd = err.apply(cmd, "stderr", "method")
        if case["pos"] == "last":
            # The operator form binds to the last command of the pipeline.
            cmd = sh(ctx.vchild, "x:0") | cmd
        single_use = {"fd_pipe", "writer", "fd_file"} & {out.kind, err.kind} or "close" in (out.flag, err.flag)
        for i in range(2 if case["again"] and not single_use else 1):
            captured, res = await start(cmd, mode, out, err)
            await judge(case, out, err, captured, res, total, merged, i)
    finally:
        out.close()
        err.close()


async def start(cmd, mode, out, err):
    captured = {}
    if mode == "await":
        got = await outcome(last(cmd, lambda c: c.result))
    else:
        async def with_():
            async with cmd as run:
                tasks = {}
                if out.kind == "CAPTURE":
                    tasks["out"] = asyncio.ensure_future(read_to_end(run.stdout))
                else:
                    check(run.stdout is None, "run.stdout exposed although stdout is not CAPTURE")
                if err.kind == "CAPTURE":
                    tasks["err"] = asyncio.ensure_future(read_to_end(run.stderr))
                else:
                    check(run.stderr is None, "run.stderr exposed although stderr is not CAPTURE")
                for k, t in tasks.items():
                    captured[k] = await t
            return run.result(check=False)

        got = await outcome(with_())
    if got[0] == "exc":
        if isinstance(got[1], Violation):
            raise got[1]
        raise Violation(f"stdout={out.kind} stderr={err.kind}: {describe(got)}")
    return captured, got[1]


def split_lines(data):
    parts = data.split(b"\n")
    if parts[-1] == b"":
        parts.pop()
    return [p.decode("latin-1").rstrip() for p in parts]


async def judge(case, out, err, captured, res, total, merged, i):
    where = f"stdout={out.kind}/{out.flag} stderr={err.kind}/{err.flag} run {i + 1}"
    if res.exit_code != case["code"]:
        raise Violation(f"{where}: exit code {res.exit_code}, expected {case['code']}")
    want_out, want_err = total[1], total[2]
    res_out, res_err = b"", b""
    if err.kind == "STDOUT":
        if out.kind == "DEVNULL":
            # Only stderr is wanted: it becomes the command's output.
            want_out, res_out = b"", total[2]
        else:
            want_out = merged
        want_err = None
    if out.kind in ("default", "BUFFER"):
        res_out = want_out
    if err.kind in ("default", "BUFFER"):
        res_err = want_err
    out.check_fd()
    err.check_fd()
    if out.kind == "CAPTURE":
        same(captured["out"], want_out, f"{where}: captured stdout")
    if err.kind == "CAPTURE":
        same(captured["err"], want_err, f"{where}: captured stderr")
    same(res.output_bytes, res_out, f"{where}: result.output_bytes")
    same(res.error_bytes, res_err, f"{where}: result.error_bytes")
    for sink, want in ((out, want_out), (err, want_err)):
        if sink.kind in ("default", "BUFFER", "DEVNULL", "CAPTURE", "STDOUT"):
            continue
        if sink.kind == "logger":
            got = [r.rstrip() for r in sink.handler.records]
            sink.handler.records.clear()
            exp = split_lines(want)
            if got != exp:
                for n, (g, w) in enumerate(zip(got + [None] * len(exp), exp)):
                    if g != w:
                        raise Violation(f"{where}: logger line {n} is {short(g)}, expected {short(w)}")
                raise Violation(f"{where}: logger got {len(got)} lines, expected {len(exp)}")
            continue
        if i and sink.flag != "append" and sink.kind != "INHERIT":
            sink.expected = b""
        sink.expected += want
        same(await sink.content(), sink.expected, f"{where}: {sink.name} sink {sink.kind}")
