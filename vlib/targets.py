"Generated commands and pipelines with every kind of resource attached."

import asyncio
import io
import logging
import os
import pathlib
import signal
import socket

from hypothesis import strategies as st

from shellous import cbreak, cooked, raw, sh
from vlib.rt import first, last, pipe

SINKS = ["", "", "", "path", "append", "file", "fd", "fdclose", "bytearray", "stringio", "bytesio", "logger", "DEVNULL", "writer"]
ERRS = ["", "", "", "path", "fdclose", "fd", "fdsame", "bytearray", "DEVNULL", "STDOUT", "logger", "BUFFER"]
STDINS = ["", "", "", "bytes", "bigbytes", "path", "fd", "fdclose", "file", "bytesio", "stringio", "stream", "DEVNULL"]
FAULTS = ["missing", "noexec", "dir", "badstdin", "badout", "baderr", "subdir", "audit_start", "audit_hook", "badfd", "badpass", "sub_missing",
          "sub_badout", "sub_status", "badinput", "ebadexec", "badpty"]


@st.composite
def behaviour(draw, quick_only):
    k = draw(st.sampled_from(["exit", "exit", "cat", "cat"] if quick_only else ["exit", "cat", "pause", "pause"]))
    return {
        "k": k, "status": draw(st.sampled_from([0, 0, 0, 0, 1, 7, -9, -15])), "ms": draw(st.sampled_from([0, 0, 0, 1, 5, 20])),
        "out": draw(st.sampled_from([0, 0, 5, 3000])), "err": draw(st.sampled_from([0, 0, 10, 5000, 100_000])),
        "term": draw(st.sampled_from(["dfl", "dfl", "dfl", "exit", "slow", "ign"])),
        "drain": draw(st.booleans()),
    }


@st.composite
def sub(draw, quick_only):
    return {
        "w": draw(st.booleans()), "n": draw(st.sampled_from([1, 1, 2])), "beh": draw(behaviour(quick_only)),
        "use": draw(st.booleans()), "wpos": draw(st.booleans()),
        # Descriptors handed over to the substitution, and a substitution in it.
        "fd": draw(st.sampled_from(["", "", "", "in", "err", "pass"])), "nest": draw(st.sampled_from([0, 0, 0, 1, 2])),
    }


@st.composite
def targets(draw, quick_only=True, faults=True, max_stages=3, subs=True):
    n = draw(st.sampled_from([1, 1, 1, 2, 2, 3][: 3 + max_stages]))
    if max_stages >= 3 and draw(st.integers(0, 39)) == 17:
        n = draw(st.sampled_from([5, 7, 9]))
    case = {
        "stages": [draw(behaviour(quick_only)) for _ in range(n)],
        "errs": [draw(st.sampled_from(ERRS)) for _ in range(n)],
        "stdin": draw(st.sampled_from(STDINS)), "stdout": draw(st.sampled_from(SINKS)),
        "subs": [], "pty": None, "passfds": [],
        "watch": draw(st.sampled_from(["", "", "", "", "", "default", "thread"])),
    }
    if subs:
        for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
            case["subs"].append([draw(st.integers(0, n - 1)), draw(sub(quick_only))])
    if n == 1 and draw(st.integers(0, 3)) == 2:
        case["pty"] = draw(st.sampled_from(["true", "raw", "cbreak", "cooked"]))
        # Without input, a terminal never reaches end-of-file.
        if case["stdin"] in ("", "bigbytes"):
            case["stdin"] = "bytes"
        if case["pty"] in ("raw", "cbreak"):
            for b in case["stages"] + [s[1]["beh"] for s in case["subs"]]:
                if b["k"] == "cat":
                    b["k"] = "exit"
                b["drain"] = False
    for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2]))):
        case["passfds"].append([draw(st.integers(0, n - 1)), draw(st.booleans())])
    if faults and draw(st.integers(0, 1)):
        case["fault"] = [draw(st.sampled_from(FAULTS)), draw(st.integers(0, n - 1))]
    return case


class BadPty:
    def __call__(self, fd):
        raise ZeroDivisionError("pty setup failed")

    def __repr__(self):
        return "BadPty"


class Canary:
    """Watches descriptors of the caller for double closes.

    When a watched descriptor is closed with os.close, its number is taken at
    once by a canary, so that a second close is seen (and harms nobody).
    """

    def __init__(self):
        self.null = os.open("/dev/null", os.O_RDONLY)
        st_ = os.fstat(self.null)
        self.null_id = (st_.st_dev, st_.st_ino, st_.st_rdev)
        self.watched = {}
        self.closes = {}
        self.real = os.close
        os.close = self._close

    def watch(self, fd, close):
        s = os.fstat(fd)
        self.watched[fd] = (close, (s.st_dev, s.st_ino, s.st_rdev))

    def _close(self, fd):
        self.real(fd)
        if fd in self.watched:
            self.closes[fd] = self.closes.get(fd, 0) + 1
            os.dup2(self.null, fd, inheritable=False)

    def finish(self):
        "Returns the complaints."
        os.close = self.real
        bad = []
        for fd, (close, ident) in self.watched.items():
            try:
                s = os.fstat(fd)
                now = (s.st_dev, s.st_ino, s.st_rdev)
            except OSError:
                now = None
            n = self.closes.get(fd, 0)
            if close:
                if n > 1:
                    bad.append(f"descriptor {fd} handed over with a close flag was closed {n} times")
                elif n == 0 and now == ident:
                    bad.append(f"descriptor {fd} handed over with a close flag was not closed")
            else:
                if n or now != ident:
                    bad.append(f"descriptor {fd} of the caller was closed ({n} times) without a close flag")
            if now is not None:
                self.real(fd)
        self.real(self.null)
        return bad


def overrides(case, stdin=False, stdout=False, stderr=False):
    """The case with the redirections dropped that are going to be replaced.

    (A descriptor of a replaced redirection is not part of the command.)
    """
    case = dict(case)
    f, pos = case.get("fault") or ["", -1]
    if stdin or f in ("badstdin", "badfd", "badinput"):
        case["stdin"] = ""
    if stdout or f == "badout":
        case["stdout"] = ""
    errs = list(case["errs"])
    if stderr:
        errs[-1] = ""
    if f in ("baderr", "subdir"):
        errs[pos] = ""
    case["errs"] = errs
    return case


class Target:
    def __init__(self, ctx, case, canary):
        self.ctx = ctx
        self.case = case
        self.canary = canary
        self.files = []
        self.n = 0
        self.shared = {}
        self.sinks = []
        self.socks = []
        self.loop = asyncio.get_running_loop()
        self.fault = case.get("fault") or ["", -1]
        self.target = self.build()

    def path(self, name=None):
        self.n += 1
        return self.ctx.path(f"{name or 'f'}{self.n}")

    def new(self, data=b""):
        p = self.path()
        with open(p, "wb") as f:
            f.write(data)
        return p

    def fd(self, close, flags, data=b""):
        fd = os.open(self.new(data), flags)
        self.canary.watch(fd, close)
        return fd

    def ops(self, b, i, n, err):
        ops = []
        if b["term"] == "exit":
            ops.append("sig:15:exit:3")
        elif b["term"] == "slow":
            ops.append("sig:15:exit:4:15")
        elif b["term"] == "ign":
            ops.append("sig:15:ign")
        if b["err"]:
            ops.append(f"t:2:1:{b['err']}")
        if b["k"] == "cat":
            ops.append("cat")
            return ops
        if b["out"] and i == n - 1:
            ops.append(f"t:1:2:{b['out']}")
        if b["drain"] and i > 0:
            ops.append("drain")
        if b["ms"]:
            ops.append(f"s:{b['ms']}")
        if b["k"] == "pause":
            ops.append("pause")
        else:
            ops.append(f"x:{b['status']}" if b["status"] >= 0 else f"k:{-b['status']}")
        return ops

    def sub(self, s, fault):
        cmds = []
        nest, where = s.get("nest", 0), s.get("fd", "")
        for j in range(s["n"]):
            prog = self.ctx.vchild
            ops = self.ops(s["beh"], j, s["n"], False)
            if s["w"] and j == 0 and "cat" not in ops:
                ops = ["drain"] + ops
            inner = []
            if nest and j == 0:
                inner = ["if:140", self.sub({"w": False, "n": nest, "beh": {**s["beh"], "k": "exit", "ms": 0}, "fd": where or "in"}, "")]
            cmd = sh(prog, *inner, *ops)
            if fault == "sub_missing" and j == s["n"] - 1:
                cmd = sh("no-such-program-xyz", *inner)
            elif fault == "sub_badout" and j == 0:
                cmd = cmd.stderr(pathlib.Path(self.ctx.path("nodir")) / "x")
            elif fault == "sub_status" and j == 0:
                cmd = sh(prog, *inner, *([f"s:{s["beh"]["ms"]}"] if s["beh"]["ms"] else []), "x:9")
            else:
                cmd = cmd.set(exit_codes=range(-64, 256))
            cmd = cmd.set(cancel_timeout=0.2)
            if where == "in" and j == 0 and not s["w"]:
                cmd = cmd.stdin(self.fd(True, os.O_RDONLY, b"sub\n"), close=True)
            elif where == "err" and not (fault == "sub_badout" and j == 0):
                cmd = cmd.stderr(self.fd(True, os.O_WRONLY), close=True)
            elif where == "pass":
                cmd = cmd.set(pass_fds=[self.fd(True, os.O_RDONLY)], pass_fds_close=True)
            cmds.append(cmd)
        if s["w"]:
            if s["wpos"]:
                cmds[0] = cmds[0].writable
                t = pipe(cmds)
            else:
                t = pipe(cmds).writable
            return last(t, lambda c: c.stdout(bytearray()))
        return pipe(cmds)

    def build(self):
        case, ctx = self.case, self.ctx
        n = len(case["stages"])
        cmds = []
        for i, b in enumerate(case["stages"]):
            f = self.fault[0] if self.fault[1] == i else ""
            ops = self.ops(b, i, n, case["errs"][i])
            args = []
            for k, (pos, s) in enumerate(case["subs"]):
                if pos == i:
                    args += [("of:" if s["w"] else "if:") + str(120 + k), self.sub(s, f)]
                    if s["use"] and not s["w"] and s["beh"]["k"] != "pause":
                        args += [f"in:{120 + k}", "drain", "in:0"]
            if f.startswith("sub_") and not any(pos == i for pos, _ in case["subs"]):
                args += ["if:130", self.sub({"w": False, "n": 1, "beh": b, "use": False, "wpos": False}, f)]
            prog = ctx.vchild
            if f == "missing":
                prog = "no-such-program-xyz"
            elif f == "noexec":
                prog = self.new(b"x")
            elif f == "ebadexec":
                prog = self.new(b"\x7fELFgarbage")
                os.chmod(prog, 0o755)
            elif f == "dir":
                prog = ctx.dir
            cmd = sh(prog, *args, *ops).set(cancel_timeout=0.2)
            pfds = []
            close = False
            for pos, c in case["passfds"]:
                if pos == i:
                    if not pfds:
                        # A descriptor that is not open cannot be closed.
                        close = c and f != "badpass"
                    pfds.append(self.fd(close, os.O_RDONLY, b"passed"))
            if f == "badpass":
                pfds.append(999)
            if pfds:
                cmd = cmd.set(pass_fds=pfds, pass_fds_close=close)
            if f == "audit_start":
                cmd = cmd.set(audit_callback=_refuse)
            cmd = self.redirect_err(cmd, case["errs"][i], f)
            cmds.append(cmd)
        target = pipe(cmds)
        target = first(target, lambda c: self.redirect_in(c, case["stdin"]))
        target = last(target, lambda c: self.redirect_out(c, case["stdout"]))
        f, pos = self.fault
        if f == "badstdin":
            target = first(target, lambda c: c.stdin(pathlib.Path(ctx.path("nope"))))
        elif f == "badout":
            target = last(target, lambda c: c.stdout(pathlib.Path(ctx.path("nodir")) / "x"))
        elif f == "badfd":
            target = first(target, lambda c: c.stdin(998, close=n % 2 == 1))
        elif f == "badinput":
            target = first(target, lambda c: c.stdin("\u20ac").set(encoding="ascii"))
        if case["pty"]:
            p = {"true": True, "raw": raw(), "cbreak": cbreak(), "cooked": cooked(echo=False)}[case["pty"]]
            target = target.set(pty=p)
        if f == "badpty":
            target = last(target, lambda c: c.set(pty=BadPty()))
        return target

    def redirect_in(self, cmd, kind):
        if kind == "bytes":
            return cmd.stdin(b"some input\n")
        if kind == "bigbytes":
            return cmd.stdin(b"0123456789abcde\n" * 10_000)
        if kind == "path":
            return cmd.stdin(pathlib.Path(self.new(b"from a file\n")))
        if kind in ("fd", "fdclose"):
            close = kind == "fdclose"
            return cmd.stdin(self.fd(close, os.O_RDONLY, b"from a descriptor\n"), close=close)
        if kind == "file":
            f = open(self.new(b"file object\n"), "rb")
            self.files.append(f)
            return cmd.stdin(f)
        if kind == "bytesio":
            return cmd.stdin(io.BytesIO(b"bytes io\n"))
        if kind == "stringio":
            return cmd.stdin(io.StringIO("string io\n"))
        if kind == "stream":
            r = asyncio.StreamReader()
            r.feed_data(b"stream\n")
            r.feed_eof()
            return cmd.stdin(r)
        if kind == "DEVNULL":
            return cmd.stdin(sh.DEVNULL)
        return cmd

    def redirect_out(self, cmd, kind):
        if kind == "path":
            return cmd.stdout(pathlib.Path(self.path()))
        if kind == "append":
            return cmd.stdout(pathlib.Path(self.new(b"x")), append=True)
        if kind == "file":
            f = open(self.path(), "wb")
            self.files.append(f)
            return cmd.stdout(f)
        if kind in ("fd", "fdclose"):
            close = kind == "fdclose"
            if close and id(cmd.args) in self.shared:
                return cmd.stdout(self.shared[id(cmd.args)], close=True)
            return cmd.stdout(self.fd(close, os.O_WRONLY), close=close)
        if kind in ("bytearray", "stringio", "bytesio"):
            return cmd.stdout({"bytearray": bytearray, "stringio": io.StringIO, "bytesio": io.BytesIO}[kind]())
        if kind == "logger":
            return cmd.stdout(logging.getLogger("shellous.verif"))
        if kind == "DEVNULL":
            return cmd.stdout(sh.DEVNULL)
        return cmd

    def redirect_err(self, cmd, kind, f):
        if f in ("baderr", "subdir"):
            return cmd.stderr(pathlib.Path(self.ctx.path("nodir")) / "x")
        if kind == "path":
            return cmd.stderr(pathlib.Path(self.path()))
        if kind == "fdsame":
            # One descriptor for both streams (or passed, too).
            fd = self.fd(True, os.O_WRONLY)
            if f == "" and cmd.options.pass_fds_close:
                cmd = cmd.set(pass_fds=(*cmd.options.pass_fds, fd))
            else:
                self.shared[id(cmd.args)] = fd
            return cmd.stderr(fd, close=True)
        if kind in ("fd", "fdclose"):
            close = kind == "fdclose"
            return cmd.stderr(self.fd(close, os.O_WRONLY), close=close)
        if kind == "bytearray":
            return cmd.stderr(bytearray())
        if kind == "logger":
            return cmd.stderr(logging.getLogger("shellous.verif"))
        if kind in ("DEVNULL", "STDOUT", "BUFFER"):
            return cmd.stderr(getattr(sh, kind))
        return cmd

    async def writer_sink(self):
        "Replace stdout by a StreamWriter (needs a running loop)."
        a, b = socket.socketpair()
        reader, writer = await asyncio.open_connection(sock=a)
        self.socks.append((writer, b))
        b.setblocking(False)
        self.loop.add_reader(b, self._drain, b)
        self.target = last(self.target, lambda c: c.stdout(writer))

    def _drain(self, sock):
        try:
            if sock.recv(65536):
                return
        except (BlockingIOError, InterruptedError):
            return
        except OSError:
            pass
        self.loop.remove_reader(sock)

    def close(self):
        for f in self.files:
            f.close()
        for w, b in self.socks:
            w.close()
            self.loop.remove_reader(b)
            b.close()


def _refuse(phase, info):
    if phase == "start":
        raise ZeroDivisionError("refused by audit_callback")


SLOW = st.sampled_from([None, None, None, None, [1, 0], [20, 0], [80, 0], [0, 1], [0, 20], [0, 60], [5, 5]])


def timers(loop):
    "Pending (not cancelled) timers of the loop."
    return {id(h): h for h in loop._scheduled if not h._cancelled}


def handlers(loop):
    "Number of descriptors registered with the loop's selector."
    return len(loop._selector.get_map())
