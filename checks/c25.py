"C25: the child inherits exactly the intended descriptors."

import asyncio
import os
import socket
import stat
import sys

from hypothesis import strategies as st

from shellous import cooked, sh
from vlib.base import Violation, children, describe, outcome
from vlib.rt import last, pipe

META = {
    "level": "exploration",
    "technique": "property-based testing: generated sets of concurrent runs (commands, pipelines, nested process substitutions, ptys, pass_fds) are launched in a parent with generated inheritable descriptors, some opened and closed while they start; every process reports its descriptors and what they refer to, which is compared with the exact set and the exact files and pipes it is meant to have",
    "level_note": "Random search over up to 4 concurrent runs of up to 3 stages, 2 levels of substitutions and 3 passed descriptors per process, with close_fds at its default; the reports come from /proc/self/fd and fstat in real processes that are all alive at the same time.",
    "rule": "A case is a set of runs and of descriptors of the parent. Non-trivial: the parent has an inheritable descriptor that is not meant for a child, or there are several processes with pipes between them, or descriptors are passed.",
    "examples": {"quick": 4500, "thorough": 80000},
    "budget": {"quick": 24, "thorough": 700},
}
KINDS = ["file", "pipe_r", "pipe_w", "sock", "null"]


@st.composite
def proc(draw, depth):
    return {
        "pass": draw(st.lists(st.tuples(st.sampled_from(KINDS), st.booleans()), max_size=3)) if draw(st.integers(0, 2)) == 1 else [],
        "close": draw(st.booleans()),
        "share": draw(st.integers(0, 3)) == 2, "as": draw(st.sampled_from(["list", "tuple", "set", "keys", "iter", "gen"])),
        "err": draw(st.sampled_from(["", "", "STDOUT", "DEVNULL", "BUFFER", "INHERIT", "path", "fd", "bytearray"])),
        "subs": draw(st.lists(sub(depth + 1), max_size=2)) if depth < 2 and draw(st.integers(0, 3)) == 1 else [],
    }


@st.composite
def sub(draw, depth):
    n = draw(st.sampled_from([1, 1, 2]))
    return {"w": draw(st.booleans()), "wpos": draw(st.booleans()), "procs": [draw(proc(depth)) for _ in range(n)]}


@st.composite
def strategy_(draw, tier):
    runs = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3, 4]))):
        n = draw(st.sampled_from([1, 1, 2, 3]))
        r = {"procs": [draw(proc(0)) for _ in range(n)], "mode": draw(st.sampled_from(["await", "await", "result", "with", "iter", "prompt"])),
             "stdin": draw(st.sampled_from(["", "", "bytes", "path", "fd", "fdclose", "DEVNULL"])), "stdout": draw(st.sampled_from(["", "", "", "path", "fd", "fdclose", "DEVNULL"])),
             "pty": n == 1 and draw(st.integers(0, 4)) == 2}
        runs.append(r)
    return {"runs": runs, "inh": draw(st.lists(st.sampled_from(KINDS), max_size=4)), "churn": draw(st.booleans()),
            "eager": draw(st.integers(0, 6)) == 3, "watch": draw(st.sampled_from(["", "", "", "default", "thread"])),
            "stagger": draw(st.integers(0, 3))}


def strategy(tier):
    return strategy_(tier)


def run(case, ctx):
    ctx.aio(lambda: go(case, ctx), eager=case["eager"], watcher=case["watch"] or None)


def ident(fd):
    s = os.fstat(fd)
    return (s.st_dev, s.st_ino)


class World:
    def __init__(self, ctx):
        self.ctx = ctx
        self.opened = []  # descriptors of the parent: (fd, kind, identity)
        self.procs = {}  # name -> what it should have
        self.mine = []
        self.n = 0
        self.shared = None
        self.files = {}

    def open(self, kind, inheritable=False):
        "A descriptor of the parent; its other end, if any, is kept as well."
        other = None
        if kind == "file":
            self.n += 1
            p = self.ctx.path(f"f{self.n}")
            fd = os.open(p, os.O_RDWR | os.O_CREAT)
            os.write(fd, f"content of {p}".encode())
        elif kind == "null":
            fd = os.open("/dev/null", os.O_RDWR)
        elif kind == "sock":
            a, b = socket.socketpair()
            fd, other = a.detach(), b.detach()
        else:
            r, w = os.pipe()
            fd, other = (r, w) if kind == "pipe_r" else (w, r)
        if inheritable:
            os.set_inheritable(fd, True)
        if other is not None:
            self.mine.append(other)
        return fd

    def close(self):
        for fd in self.mine:
            try:
                os.close(fd)
            except OSError:
                pass


AS = {"list": list, "tuple": tuple, "set": set, "keys": lambda fds: dict.fromkeys(fds).keys(), "iter": iter, "gen": lambda fds: (f for f in fds)}


def build_proc(w, p, name, gate, drain=False):
    "One command; what its process should find is noted in w.procs[name]."
    ctx = w.ctx
    fds = []
    want = {"pass": {}, "subs": [], "err": p["err"], "stdio": {}}
    w.procs[name] = want
    close = p["close"]
    for kind, inh in p["pass"]:
        fd = w.open(kind, inh)
        fds.append(fd)
        want["pass"][fd] = ident(fd)
        w.opened.append((fd, close, ident(fd), f"passed to {name}" + (" with pass_fds_close" if close else "")))
    if p["share"] and not (close and fds):
        if w.shared is None:
            w.shared = w.open("file", True)
            w.opened.append((w.shared, False, ident(w.shared), "passed to several processes"))
        fds.append(w.shared)
        want["pass"][w.shared] = ident(w.shared)
        close = False
    subs = []
    for i, s in enumerate(p["subs"]):
        cmds = []
        for j, q in enumerate(s["procs"]):
            cmds.append(build_proc(w, q, f"{name}.sub{i}.{j}", gate))
            if j:
                w.procs[f"{name}.sub{i}.{j}"]["link"] = f"{name}.sub{i}.{j - 1}"
        if s["w"]:
            if s["wpos"]:
                cmds[0] = cmds[0].writable
                t = pipe(cmds)
            else:
                t = pipe(cmds).writable
            t = last(t, lambda c: c.stdout(bytearray()))
            want["subs"].append((f"{name}.sub{i}.0", 0))
        else:
            t = pipe(cmds)
            want["subs"].append((f"{name}.sub{i}.{len(cmds) - 1}", 1))
        subs.append(t)
    rep = ctx.path("report-" + name)
    ready = ctx.path("ready-" + name)
    cmd = sh(ctx.vchild, "of:199", rep, "out:199", "argv", "w:199:2d0a", "fds", "touch", ready, "wait", gate, *(["drain"] if drain else []), "x:0", "--", *subs)
    if fds:
        cmd = cmd.set(pass_fds=AS[p.get("as", "list")](fds), pass_fds_close=close)
    err = p["err"]
    if err == "path":
        cmd = cmd.stderr(ctx_path(ctx, "err-" + name))
        want["errpath"] = ctx.path("err-" + name)
    elif err == "fd":
        fd = w.open("file")
        w.opened.append((fd, False, ident(fd), f"stderr of {name}"))
        want["errid"] = ident(fd)
        cmd = cmd.stderr(fd)
    elif err == "bytearray":
        cmd = cmd.stderr(bytearray())
    elif err:
        cmd = cmd.stderr(getattr(sh, err))
    return cmd


def ctx_path(ctx, name):
    import pathlib

    return pathlib.Path(ctx.path(name))


async def go(case, ctx):
    base = await ctx.base()
    w = World(ctx)
    gate = ctx.path("gate")
    churner = None
    try:
        for kind in case["inh"]:
            fd = w.open(kind, True)
            w.opened.append((fd, False, ident(fd), "an inheritable descriptor of the parent"))
            w.mine.append(fd)
        runs = []
        for i, r in enumerate(case["runs"]):
            runs.append((r, build_run(w, r, f"r{i}", gate)))
        ctx.nontrivial(bool(case["inh"]) or len(w.procs) > 1 or any(x["pass"] for x in w.procs.values()))
        ctx.label(f"processes:{min(len(w.procs), 9)}")
        for x in w.procs.values():
            if x["pass"]:
                ctx.label("pass_fds")
            if x["pass"] and x["subs"]:
                ctx.label("pass_fds and substitutions")
        if case["churn"]:
            churner = asyncio.create_task(churn(w))
        opened = asyncio.Event()
        tasks = []
        for i, (r, target) in enumerate(runs):
            tasks.append(asyncio.create_task(outcome(drive(r, target, opened))))
            for _ in range(case["stagger"] * 3):
                await asyncio.sleep(0)
        failed = await wait_ready(w, tasks)
        with open(gate, "wb"):
            pass
        opened.set()
        for t in tasks:
            got = await t
            if got[0] != "ok":
                raise Violation(f"the run failed: {describe(got)}")
        if failed:
            raise Violation(failed)
        if churner:
            churner.cancel()
            await asyncio.wait({churner})
        reports = {name: report(ctx, name) for name in w.procs}
        for name in w.procs:
            judge(w, name, reports)
        for fd, closed, was, what in w.opened:
            try:
                now = ident(fd)
            except OSError:
                now = None
            if closed and now == was:
                raise Violation(f"descriptor {fd}, {what}, is still open in the parent")
            if not closed and now != was:
                raise Violation(f"descriptor {fd}, {what}, was closed in the parent")
            if not closed:
                os.set_inheritable(fd, False)  # usable
                os.close(fd)
        w.close()
        if children():
            raise Violation(f"children left {children()}")
        left = await ctx.settle(base)
        if left:
            raise Violation(f"left over {left}")
    finally:
        if churner:
            churner.cancel()
        w.close()


def build_run(w, r, name, gate):
    cmds = []
    for j, p in enumerate(r["procs"]):
        if r["pty"]:
            p = dict(p, err="")
        if r["mode"] == "iter" and j == len(r["procs"]) - 1 and p["err"] == "STDOUT" and r["stdout"] == "DEVNULL":
            p = dict(p, err="")
        cmds.append(build_proc(w, p, f"{name}.{j}", gate, drain=j == 0 and r["stdin"] == "bytes" and not r["pty"]))
        if j:
            w.procs[f"{name}.{j}"]["link"] = f"{name}.{j - 1}"
    prompt = r["mode"] == "prompt"
    sin, sout = ("", "") if prompt or r["pty"] else (r["stdin"], r["stdout"])
    first, lastp = w.procs[f"{name}.0"], w.procs[f"{name}.{len(cmds) - 1}"]
    if sin == "path":  # (Only given bytes are drained.)
        p = ctx_path(w.ctx, "in-" + name)
        p.write_bytes(b"input\n")
        cmds[0] = cmds[0].stdin(p)
        first["stdio"][0] = (os.stat(p).st_dev, os.stat(p).st_ino)
    elif sin in ("fd", "fdclose"):
        fd = w.open("file")
        first["stdio"][0] = ident(fd)
        w.opened.append((fd, sin == "fdclose", ident(fd), "stdin of " + name))
        cmds[0] = cmds[0].stdin(fd, close=sin == "fdclose")
    elif sin == "DEVNULL":
        cmds[0] = cmds[0].stdin(sh.DEVNULL)
        first["stdio"][0] = null()
    elif sin == "bytes":
        cmds[0] = cmds[0].stdin(b"some input\n")
    if sout == "path":
        p = ctx_path(w.ctx, "out-" + name)
        p.write_bytes(b"")
        cmds[-1] = cmds[-1].stdout(p)
        lastp["stdio"][1] = (os.stat(p).st_dev, os.stat(p).st_ino)
    elif sout in ("fd", "fdclose"):
        fd = w.open("file")
        lastp["stdio"][1] = ident(fd)
        w.opened.append((fd, sout == "fdclose", ident(fd), "stdout of " + name))
        cmds[-1] = cmds[-1].stdout(fd, close=sout == "fdclose")
    elif sout == "DEVNULL":
        cmds[-1] = cmds[-1].stdout(sh.DEVNULL)
        lastp["stdio"][1] = null()
    if r["pty"]:
        first["pty"] = True
        cmds[0] = cmds[0].set(pty=cooked(echo=False))
    return pipe(cmds)


def null():
    s = os.stat("/dev/null")
    return (s.st_dev, s.st_ino)


async def churn(w):
    "Keep opening and closing inheritable descriptors."
    mine = []
    try:
        while True:
            a, b = os.pipe()
            os.set_inheritable(a, True)
            os.set_inheritable(b, True)
            mine += [a, b]
            await asyncio.sleep(0)
            while len(mine) > 6:
                os.close(mine.pop(0))
            if len(mine) == 6:
                await asyncio.sleep(0.0005)
    finally:
        for fd in mine:
            os.close(fd)


async def wait_ready(w, tasks):
    waiting = set(w.procs)
    for _ in range(10000):
        waiting = {n for n in waiting if not os.path.exists(w.ctx.path("ready-" + n))}
        if not waiting:
            return None
        if any(t.done() for t in tasks):
            return f"a run ended before its processes were ready: {[describe(t.result()) for t in tasks if t.done()]}"
        await asyncio.sleep(0.002)
    return f"processes {sorted(waiting)} did not start"


async def drive(r, target, opened):
    mode = r["mode"]
    if mode == "await":
        return await target
    if mode == "result":
        res = await last(target, lambda c: c.result)
        if res.exit_code:
            raise Violation(f"exit status {res.exit_code}: {res.error_bytes}")
        return res
    if mode == "iter":
        return [x async for x in target]
    if mode == "with":
        async with target as run:
            await opened.wait()
        return run.result()
    async with target.prompt() as cli:
        await opened.wait()
    return cli.result


def report(ctx, name):
    "(arguments, {fd: (type, (dev, ino))}) of a process."
    with open(ctx.path("report-" + name)) as f:
        lines = f.read().splitlines()
    k = lines.index("-")
    args = [bytes.fromhex(x).decode() for x in lines[:k]]
    fds = {}
    for x in lines[k + 1 :]:
        fd, mode, dev, ino = x.split()
        fds[int(fd)] = (int(mode, 8), (int(dev), int(ino)))
    fds.pop(199, None)
    return args, fds


def judge(w, name, reports):
    want = w.procs[name]
    args, fds = reports[name]
    subs = []
    for a in args:
        if not a.startswith("/dev/fd/"):
            raise Violation(f"{name}: substitution argument {a!r}")
        subs.append(int(a[8:]))
    expected = {0, 1, 2} | set(want["pass"]) | set(subs)
    if set(fds) != expected:
        raise Violation(f"process {name} has the descriptors {sorted(fds)}, expected {sorted(expected)}: stdio, passed {sorted(want['pass'])}, substitutions {subs}; extra: { {k: v for k, v in fds.items() if k not in expected} }")
    for fd, was in want["pass"].items():
        if fds[fd][1] != was:
            raise Violation(f"{name}: passed descriptor {fd} is {fds[fd]} in the child, {was} in the parent")
    for fd, was in want["stdio"].items():
        if fds[fd][1] != was:
            raise Violation(f"{name}: descriptor {fd} is {fds[fd]}, expected {was}")
    for fd, (other, end) in zip(subs, want["subs"]):
        mine, theirs = fds[fd], reports[other][1].get(end)
        if mine != theirs or not stat.S_ISFIFO(mine[0]):
            raise Violation(f"{name}: substitution {fd} is {mine}, descriptor {end} of {other} is {theirs}")
    if "link" in want:
        a, b = reports[want["link"]][1].get(1), fds[0]
        if a != b or not stat.S_ISFIFO(a[0]):
            raise Violation(f"stdout of {want['link']} is {a}, stdin of {name} is {b}")
    err = want["err"]
    exp = None
    if want.get("pty"):
        if len({fds[0][1], fds[1][1], fds[2][1]}) != 1 or not stat.S_ISCHR(fds[0][0]):
            raise Violation(f"{name}: not on one terminal: {fds}")
    elif err == "STDOUT":
        exp = fds[1][1]
    elif err == "DEVNULL":
        exp = null()
    elif err == "INHERIT":
        exp = ident(sys.stderr.fileno())
    elif err == "path":
        s = os.stat(want["errpath"])
        exp = (s.st_dev, s.st_ino)
    elif err == "fd":
        exp = want["errid"]
    if exp is not None and fds[2][1] != exp and not (err == "STDOUT" and want["stdio"].get(1) == null()):
        raise Violation(f"{name}: stderr ({err}) is {fds[2]}, expected {exp}")
    # Pipes of its own are nobody else's.
    for fd in (0, 1, 2):
        if want.get("pty") or fd in want["stdio"] or not (stat.S_ISFIFO(fds[fd][0]) or stat.S_ISSOCK(fds[fd][0])):
            continue
        if fd == 2 and err in ("STDOUT", "INHERIT"):
            continue
        holders = sorted((n, k) for n, (_, f) in reports.items() for k, v in f.items() if v == fds[fd])
        allowed = {(name, fd)}
        if fd == 0 and "link" in want:
            allowed.add((want["link"], 1))
        allowed |= {(n, 0) for n, x in w.procs.items() if x.get("link") == name and fd == 1}
        for n, x in w.procs.items():
            if (name, fd) in x["subs"]:
                allowed.add((n, int(reports[n][0][x["subs"].index((name, fd))][8:])))
        extra = [h for h in holders if h not in allowed and not (h[1] == 2 and w.procs[h[0]]["err"] == "STDOUT" and (h[0], 1) in allowed)]
        if extra:
            raise Violation(f"descriptor {fd} of {name} is open in {extra} too")
