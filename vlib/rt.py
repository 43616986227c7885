"Shared runtime helpers: run a command or pipeline in each of its modes."

import asyncio
import os
import socket

from shellous import Command, Pipeline, sh


def last(target, fn):
    "Apply fn to the last command of a command or pipeline."
    if isinstance(target, Pipeline):
        return Pipeline(target.commands[:-1] + (fn(target.commands[-1]),))
    return fn(target)


def first(target, fn):
    if isinstance(target, Pipeline):
        return Pipeline((fn(target.commands[0]),) + target.commands[1:])
    return fn(target)


def each(target, fn):
    "Apply fn to every command."
    if isinstance(target, Pipeline):
        return Pipeline(tuple(fn(c) for c in target.commands))
    return fn(target)


def pipe(cmds):
    "Join commands with |, giving a Command when there is only one."
    target = cmds[0]
    for cmd in cmds[1:]:
        target = target | cmd
    return target


async def read_to_end(reader, size=10000):
    chunks = []
    while True:
        b = await reader.read(size)
        if not b:
            return b"".join(chunks)
        chunks.append(b)


async def execute(target, mode):
    """Run target. Returns (stdout bytes, Result or None).

    Stdout must be unset on the target. Raises what the run raises. In "iter"
    and "prompt" modes text is carried as latin-1.
    """
    if mode == "await":
        res = await last(target, lambda c: c.result)
        return res.output_bytes, res
    if mode == "check":
        res = await last(target, lambda c: c.set(_return_result=True))
        return res.output_bytes, res
    if mode == "iter":
        target = last(target, lambda c: c.set(encoding="latin-1"))
        return "".join([x async for x in target]).encode("latin-1"), None
    if mode == "with":
        async with target.stdout(sh.CAPTURE) as run:
            out = await read_to_end(run.stdout)
        return out, run.result(check=False)
    if mode == "prompt":
        target = last(target, lambda c: c.set(encoding="latin-1"))
        async with target.prompt() as cli:
            cli.close()
            text = await cli.read_all()
        return text.encode("latin-1"), cli.result
    raise ValueError(mode)


def lines_ok(data, limit=60000):
    "True if no line of data is longer than limit (the 64 KiB reader limit)."
    return len(max(data.split(b"\n"), key=len)) < limit


async def later(delay, fn, *args):
    await asyncio.sleep(delay)
    return fn(*args)


class FdCollector:
    "Collects everything written to the write end of a pipe (or a socket)."

    def __init__(self, sock=False):
        if sock:
            self.sock, self.peer = socket.socketpair()
            self.r = self.sock.fileno()
            self.w = None
        else:
            self.r, self.w = os.pipe()
            self.sock = None
        os.set_blocking(self.r, False)
        self.data = bytearray()
        self.eof = asyncio.Event()
        self.loop = asyncio.get_running_loop()
        self.loop.add_reader(self.r, self._ready)

    def _ready(self):
        try:
            b = os.read(self.r, 65536)
        except BlockingIOError:
            return
        except OSError:
            b = b""
        if b:
            self.data += b
        else:
            self.loop.remove_reader(self.r)
            self.eof.set()

    async def finish(self, timeout=10):
        "Wait for EOF; returns True if it came."
        try:
            await asyncio.wait_for(self.eof.wait(), timeout)
            return True
        except asyncio.TimeoutError:
            return False

    def close(self):
        if not self.eof.is_set():
            self.loop.remove_reader(self.r)
        if self.sock:
            self.sock.close()
        else:
            os.close(self.r)


def runner_of(cli):
    "The run that a Prompt object talks to."
    return next(v for v in vars(cli).values() if hasattr(v, "stdin") and hasattr(v, "result"))
