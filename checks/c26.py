"C26: DefaultChildWatcher reports each child exactly once and correctly."

import asyncio
import errno
import gc
import os
import signal
import subprocess
import threading
import time
import warnings

from hypothesis import strategies as st

from shellous import ResultError, sh
from shellous.watcher import DefaultChildWatcher
from vlib.base import Violation, check, children, describe, open_fds, outcome
from vlib.gen import TEXT_ALPHABET  # noqa: F401

META = {
    "level": "exploration",
    "technique": "stateful property-based testing: generated rounds of children with scripted exits, registered before, while or after they end from several threads, with callbacks that raise, and close/reuse of the watcher; judged by the record of all callbacks against the scripted statuses, plus whole commands run under the watcher in several loops",
    "level_note": "Random search over both strategies; real processes and threads. Descriptors, threads and zombies are counted from /proc.",
    "rule": "A case is a list of rounds of children on one watcher. Non-trivial: several children in a round, or a child that has ended before it is registered.",
    "examples": {"quick": 6000, "thorough": 100000},
    "budget": {"quick": 22, "thorough": 700},
    "workers": 12,
}

END = st.one_of(
    st.builds(lambda n: ["x", n], st.sampled_from([0, 0, 1, 2, 7, 127, 128, 143, 254, 255]) | st.integers(0, 255)),
    st.builds(lambda n: ["k", n], st.sampled_from([1, 2, 3, 9, 14, 15, 11, 6, 10, 12, 13, 34, 64])),
)
CHILD = st.fixed_dictionaries({
    "end": END,
    "ms": st.sampled_from([0, 0, 0, 1, 5, 20]),
    "when": st.sampled_from(["at once", "at once", "late", "zombie"]),
    "thread": st.integers(0, 3),
    "args": st.integers(0, 3),
    "raises": st.sampled_from([False, False, False, False, True]),
})


@st.composite
def round_(draw):
    kind = draw(st.sampled_from(["raw", "raw", "raw", "cmd", "gate", "full"]))
    r = {"kind": kind, "close": draw(st.booleans())}
    if kind == "full":
        # The system is out of descriptors when some of the children are registered.
        r["children"] = draw(st.lists(st.tuples(st.one_of(END, st.just(["pause", 0])), st.booleans(), st.sampled_from(["raw", "raw", "cmd"])), min_size=1, max_size=6))
        return r
    if kind == "cmd":
        r["loops"] = draw(st.integers(1, 3))
        r["cmds"] = draw(st.lists(END, min_size=1, max_size=8))
        r["pipe"] = draw(st.booleans())
    else:
        r["children"] = draw(st.lists(CHILD, min_size=1, max_size=draw(st.sampled_from([2, 5, 12, 40]))))
    return r


def strategy(tier):
    return st.builds(
        lambda t, r, b, l: {"thread": t, "rounds": r, "busy": b, "linger": l},
        st.sampled_from([False, False, True]), st.lists(round_(), min_size=1, max_size=3),
        st.booleans(), st.integers(0, 3),
    )


def status(end):
    return end[1] if end[0] == "x" else -end[1]


def threads():
    return {t for t in threading.enumerate() if t is not threading.current_thread()}


def run(case, ctx):
    ctx.label("strategy:thread" if case["thread"] else "strategy:default")
    fds, before = set(open_fds()), threads()
    warnings.simplefilter("ignore")
    watcher = DefaultChildWatcher(thread_strategy=case["thread"])
    lingering = []
    try:
        for i, r in enumerate(case["rounds"]):
            ctx.label("round:" + r["kind"])
            if r["kind"] == "cmd":
                commands(case, ctx, r, watcher, f"round {i}")
            elif r["kind"] == "full":
                full(case, ctx, r, watcher, f"round {i} (full)")
            else:
                raw(case, ctx, r, watcher, f"round {i} ({r['kind']})")
            if r["close"]:
                ctx.label("closed and used again")
                watcher.close()
                gone(before, fds, f"round {i}, after close()")
        if case["linger"] == 2 and not case["thread"]:
            # A child is still running when the watcher is closed.
            p = subprocess.Popen([ctx.vchild, "pause"], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL)
            lingering.append(p)
            watcher.add_child_handler(p.pid, lambda *a: None)
            ctx.label("closed with a running child")
        watcher.close()
        gone(before, fds, "after the last close()")
        watcher.close()  # closing it again does nothing
    finally:
        for p in lingering:
            p.kill()
            try:
                os.waitpid(p.pid, 0)
            except ChildProcessError:
                pass
            p.returncode = 0
    kids = children()
    if kids:
        raise Violation(f"children left: {kids}")


def gone(before, fds, where):
    "The watcher's threads and descriptors are gone."
    end = time.monotonic() + 8
    while True:
        extra_t = {t.name for t in threads() - before if t.is_alive()}
        extra_f = {k: v for k, v in open_fds().items() if k not in fds} if isinstance(open_fds(), dict) else set(open_fds()) - fds
        if not extra_t and not extra_f:
            return
        if time.monotonic() > end:
            raise Violation(f"{where}: threads {sorted(extra_t)}, descriptors {extra_f} left")
        time.sleep(0.002)


class Entry:
    def __init__(self, c, i):
        self.c, self.i = c, i
        self.calls = []
        self.extra = [(), (i,), (i, "a", None), (object(), i)][c["args"]]

    def callback(self, *args):
        self.calls.append(args)
        if self.c["raises"]:
            raise RuntimeError("Event loop is closed")


def raw(case, ctx, r, watcher, where):
    "Children registered directly."
    entries = [Entry(c, i) for i, c in enumerate(r["children"])]
    gate = ctx.path(f"gate-{time.monotonic_ns()}")
    procs = []
    use_gate = r["kind"] == "gate"  # all end at the same moment
    for e in entries:
        c = e.c
        ops = [f"s:{c['ms']}"] if c["ms"] else []
        if use_gate and c["when"] != "zombie":
            ops = ["wait", gate]
        ops += [f"{c['end'][0]}:{c['end'][1]}"]
        p = subprocess.Popen([ctx.vchild, *ops], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        procs.append(p)
        e.pid = p.pid
        if c["when"] == "at once" and c["thread"] == 0:
            watcher.add_child_handler(p.pid, e.callback, *e.extra)
            e.done = True
        else:
            e.done = False
    ctx.nontrivial(len(entries) > 1 or entries[0].c["when"] == "zombie")
    errors = []

    def register(k):
        try:
            for e in entries:
                if e.done or e.c["thread"] != k:
                    continue
                if e.c["when"] == "zombie":
                    ctx.label("registered after its end")
                    os.waitid(os.P_PID, e.pid, os.WEXITED | os.WNOWAIT)
                elif e.c["when"] == "late":
                    time.sleep(0.002)
                watcher.add_child_handler(e.pid, e.callback, *e.extra)
        except BaseException as ex:  # pylint: disable=broad-except
            errors.append(ex)

    ts = [threading.Thread(target=register, args=(k,)) for k in range(1, 4)]
    for t in ts:
        t.start()
    register(0)
    for t in ts:
        t.join(20)
        if t.is_alive():
            raise Violation(f"{where}: add_child_handler hangs")
    if errors:
        raise Violation(f"{where}: add_child_handler raised {errors[0]!r}")
    with open(gate, "w"):
        pass
    end = time.monotonic() + 15
    while not all(e.calls for e in entries):
        if time.monotonic() > end:
            missing = [(e.i, e.c["end"], e.c["when"]) for e in entries if not e.calls]
            raise Violation(f"{where}: no callback for {missing}; children now {children()}")
        time.sleep(0.001)
    if case["busy"]:
        time.sleep(0.003)
    for e in entries:
        want = (e.pid, status(e.c["end"]), *e.extra)
        check(len(e.calls) == 1, "%s: %s callbacks for child %s: %s", where, len(e.calls), e.i, e.calls)
        check(e.calls[0] == want, "%s: child %s (%s, registered %s): callback%s, expected %s", where, e.i, e.c["end"], e.c["when"], e.calls[0], want)
    for p in procs:
        p.returncode = 0  # reaped by the watcher
    left = children()
    if left:
        raise Violation(f"{where}: children not reaped: {left}")


def full(case, ctx, r, watcher, where):
    "No descriptor can be opened for some of the children: these are killed, reaped and reported."
    real = getattr(os, "pidfd_open", None)
    failing = {"now": False, "hit": False}

    def pidfd_open(*args):
        if failing["now"]:
            failing["hit"] = True
            raise OSError(errno.EMFILE, os.strerror(errno.EMFILE))
        return real(*args)

    async def main():
        procs = []
        for i, (end, fail, how) in enumerate(r["children"]):
            op = "pause" if end[0] == "pause" else f"{end[0]}:{end[1]}"
            name = f"{where}: child {i} {op}{', registered without a descriptor' if fail else ''}"
            failing.update(now=fail, hit=False)
            if how == "cmd" and end[0] != "pause" and end != ["x", 255]:
                got = await outcome(sh(ctx.vchild, op).set(encoding="latin-1", exit_codes=range(-64, 256)).result)
                if not failing["hit"]:
                    ok = got[0] == "ok" and got[1].exit_code == status(end)
                    check(ok, "%s: %s", name, describe(got))
                else:
                    check(got[0] == "exc" and isinstance(got[1], OSError), "%s: %s", name, describe(got))
            else:
                if end[0] == "pause" and not fail:
                    op = "x:3"
                    end = ["x", 3]
                p = subprocess.Popen([ctx.vchild, op], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                calls = []
                e = ""
                try:
                    watcher.add_child_handler(p.pid, lambda *a, calls=calls: calls.append(a), i, "a")
                except OSError as ex:
                    e = ex
                if failing["hit"] != bool(e):
                    if p.poll() is None:
                        p.kill()
                    raise Violation(f"{name}: add_child_handler raised {e!r}")
                elif end[0] == "pause" and not e:
                    p.kill()  # (this strategy needs no descriptor)
                procs.append((name, p, calls, end, bool(e), i))
            if failing["hit"]:
                ctx.label("no descriptor for a child")
                ctx.nontrivial()
            failing["now"] = False
        end_ = time.monotonic() + 6
        while any(not c for _, _, c, *_ in procs) or children():
            if time.monotonic() > end_:
                missing = [n for n, _, c, *_ in procs if not c]
                raise Violation(f"{where}: no callback for {missing}; children left: {children()}")
            await asyncio.sleep(0.001)
        for name, p, calls, end, failed, i in procs:
            p.returncode = 0
            good = [-9] if end[0] == "pause" else [status(end)] + [-9] * failed
            ok = len(calls) == 1 and calls[0][0] == p.pid and calls[0][1] in good and calls[0][2:] == (i, "a")
            check(ok, "%s: callbacks %s, expected one with status %s", name, calls, good)

    asyncio.set_child_watcher(watcher)
    if real:
        os.pidfd_open = pidfd_open
    loop = asyncio.new_event_loop()
    try:
        loop.run_until_complete(asyncio.wait_for(main(), 30))
    finally:
        if real:
            os.pidfd_open = real
        asyncio.set_child_watcher(None)
        loop.close()
    gc.collect()


def commands(case, ctx, r, watcher, where):
    "Whole commands, in several loops in several threads."
    policy = asyncio.get_event_loop_policy()
    results = {}

    async def one(loop_no, i, end):
        cmd = sh(ctx.vchild, f"w:1:{loop_no:02x}{i:02x}", f"{end[0]}:{end[1]}").set(encoding="latin-1")
        if r["pipe"]:
            cmd = cmd | sh(ctx.vchild, "cat").set(encoding="latin-1")
        results[loop_no, i] = await outcome(cmd.coro() if hasattr(cmd, "coro") else cmd)

    async def main(loop_no):
        await asyncio.gather(*(one(loop_no, i, end) for i, end in enumerate(r["cmds"])))

    errors = []

    def in_thread(loop_no):
        loop = asyncio.new_event_loop()
        try:
            loop.run_until_complete(asyncio.wait_for(main(loop_no), 30))
        except BaseException as ex:  # pylint: disable=broad-except
            errors.append(ex)
        finally:
            loop.close()

    asyncio.set_child_watcher(watcher)
    try:
        ts = [threading.Thread(target=in_thread, args=(k,)) for k in range(r["loops"])]
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
    finally:
        asyncio.set_child_watcher(None)
    del policy
    ctx.nontrivial(r["loops"] > 1 or len(r["cmds"]) > 1)
    if errors:
        raise Violation(f"{where}: {describe(('exc', errors[0]))}")
    for (k, i), got in sorted(results.items()):
        end = r["cmds"][i]
        want = status(end)
        text = f"{chr(k)}{chr(i)}"
        what = f"{where}: loop {k}, command {i} {end}{' | cat' if r['pipe'] else ''}: {describe(got)}"
        if want == 255:
            continue  # (known finding exit-255 of C15)
        if want == 0:
            check(got == ("ok", text), "%s; expected %r", what, text)
        elif want == -13 and r["pipe"]:
            check(got[0] == "ok" or isinstance(got[1], ResultError), "%s", what)
        else:
            ok = got[0] == "exc" and isinstance(got[1], ResultError) and got[1].result.exit_code == want
            check(ok, "%s; expected ResultError with status %s", what, want)
    left = children()
    if left:
        raise Violation(f"{where}: children left {left}")
