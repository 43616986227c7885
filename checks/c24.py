"C24: concurrent and nested use of one command object is isolated."

import asyncio

from hypothesis import strategies as st

from shellous import ResultError, sh
from vlib.base import Violation, children, describe, outcome
from vlib.rt import pipe, runner_of

META = {
    "level": "exploration",
    "technique": "stateful property-based testing: generated programs of several tasks that await, iterate, enter and nest the same command and pipeline objects under a generated interleaving, with exceptions and cancellations; every use checks its own pid, tokens, lines and result against what it would give alone",
    "level_note": "Random search over programs of up to 4 tasks (plus tasks spawned inside blocks), up to 4 levels of nesting and generated schedules of their steps; real processes that report their pid and echo what only this use has written.",
    "rule": "A case is a set of shared objects, task programs and a schedule. Non-trivial: one object is in use twice at the same time.",
    "examples": {"quick": 4000, "thorough": 120000},
    "budget": {"quick": 24, "thorough": 700},
}
KINDS = ["text", "text", "cap", "cap", "pipe", "pipecap", "sub", "pty"]


@st.composite
def obj(draw):
    return {"k": draw(st.sampled_from(KINDS)), "code": draw(st.sampled_from([0, 0, 0, 3])), "n": draw(st.integers(1, 3)), "inherit": draw(st.booleans())}


@st.composite
def node(draw, depth):
    u = draw(st.sampled_from(["with", "with", "with", "iter", "await", "prompt", "step", "spawn", "cross"] if depth < 3 else ["await", "step"]))
    n = {"u": u, "o": draw(st.integers(0, 2))}
    if u in ("with", "iter", "prompt", "spawn"):
        n["body"] = draw(st.lists(node(depth + 1), max_size=2))
    if u in ("with", "prompt"):
        n["end"] = draw(st.sampled_from(["", "", "", "raise", "close", "unread"]))
    if u == "cross":
        n["who"] = draw(st.lists(st.tuples(st.integers(0, 2), st.booleans(), st.integers(0, 9)), min_size=2, max_size=4))
    if u == "spawn":
        n["par"] = draw(st.sampled_from([0, 1, 2, 3]))
    if u == "iter":
        n["stop"] = draw(st.sampled_from([0, 0, 0, 1]))
    if u == "await":
        n["how"] = draw(st.sampled_from(["await", "result", "call"]))
    return n


@st.composite
def strategy_(draw, tier):
    tasks = draw(st.lists(st.lists(node(0), min_size=1, max_size=3), min_size=1, max_size=4))
    return {
        "objs": draw(st.lists(obj(), min_size=1, max_size=3)),
        "tasks": tasks,
        "sched": draw(st.lists(st.integers(0, 3), max_size=30)),
        "yields": draw(st.integers(0, 12)),
        "cancel": draw(st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 3), st.integers(0, 15)))),
        "eager": draw(st.integers(0, 6)) == 3,
        "fresh": draw(st.booleans()),
        "names": draw(st.sampled_from([False, False, True])),
        "prior": draw(st.booleans()),
        "watch": draw(st.sampled_from(["", "", "", "default", "thread"])),
    }


def strategy(tier):
    return strategy_(tier)


def run(case, ctx):
    ctx.aio(lambda: go(case, ctx), eager=case["eager"], watcher=case["watch"] or None)


class Boom(Exception):
    pass


class World:
    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        self.objs = [self.build(o, i) for i, o in enumerate(case["objs"])]
        self.pids = {}
        self.counter = 0
        self.active = {}
        self.turns = {}
        self.open = False
        self.cancelled = None
        # The names of tasks need not differ.
        self.names = {"name": "worker"} if case.get("names") else {}

    def build(self, o, i):
        v = self.ctx.vchild
        k = o["k"]
        lines = "".join(f"obj{i} line{j}\n" for j in range(o["n"]))
        end = [f"x:{o['code']}"] if o["code"] else []
        if k == "text":
            return sh(v, "pid", "cat", *end).stdin(lines)
        if k == "cap":
            return sh(v, "pid", "cat", *end).stdin(sh.CAPTURE).stdout(sh.CAPTURE)
        if k == "pipe":
            return pipe([sh(v, "pid", "cat").stdin(lines), sh(v, "cat", *end)])
        if k == "pipecap":
            return pipe([sh(v, "pid", "cat").stdin(sh.CAPTURE), sh(v, "cat", *end).stdout(sh.CAPTURE)])
        if k == "sub":
            # The lines come from a process substitution.
            return sh(v, "pid", "if:120", sh(v, "cat").stdin(lines), "in:120", "cat", *end)
        # A terminal without echo, so that the output is what the program writes.
        from shellous.pty_util import raw

        return sh(v, "pid", "cat", *end).stdin(sh.CAPTURE).stdout(sh.CAPTURE).set(pty=raw())

    def lines(self, i):
        o = self.case["objs"][i]
        return [f"obj{i} line{j}\n" for j in range(o["n"])]

    def enter(self, i):
        self.active[i] = self.active.get(i, 0) + 1
        if self.active[i] > 1:
            self.ctx.nontrivial()
            self.ctx.label("overlap:" + self.case["objs"][i]["k"])

    def leave(self, i):
        self.active[i] -= 1

    def pid(self, text, what):
        "Every use has a process of its own."
        try:
            pid = int(text)
        except ValueError:
            raise Violation(f"{what}: expected the pid of its process first, got {text!r}") from None
        if pid in self.pids:
            raise Violation(f"{what}: process {pid} also served {self.pids[pid]}")
        self.pids[pid] = what
        return pid

    async def turn(self, me):
        if not self.open:
            ev = asyncio.Event()
            self.turns.setdefault(me, []).append(ev)
            if not self.open:
                await ev.wait()

    async def program(self, nodes, me, path):
        forks = []
        try:
            for j, n in enumerate(nodes):
                await self.turn(me)
                if n["u"] == "spawn" and n["par"]:
                    # These tasks go on while this one does.
                    self.ctx.label("parallel tasks in a block")
                    for k in range(n["par"]):
                        forks.append(asyncio.create_task(self.program(n["body"], me, f"{path}.{j}p{k}"), **self.names))
                else:
                    await self.use(n, me, f"{path}.{j}")
            if forks:
                await asyncio.gather(*forks)
        finally:
            if forks:
                for task in forks:
                    task.cancel()
                await asyncio.wait(forks)

    async def use(self, n, me, path):
        u = n["u"]
        i = n["o"] % len(self.objs)
        o, cmd = self.case["objs"][i], self.objs[i]
        what = f"task {path} {u} of object {i} ({o['k']})"
        if u == "step":
            return
        if u == "spawn":
            task = asyncio.create_task(self.program(n["body"], me, path + "s"), **self.names)
            try:
                await task
            finally:
                if not task.done():
                    task.cancel()
                    await asyncio.wait({task})
            return
        if o["k"] in ("cap", "pipecap", "pty") and u in ("await", "iter"):
            u = "with"
        self.ctx.label("use:" + u)
        self.enter(i)
        try:
            try:
                await getattr(self, "use_" + u)(n, me, path, i, o, cmd, what)
            except Violation:
                # What a use cut short gives is not this property's matter.
                if self.cancelled != me:
                    raise
            if self.cancelled == me:
                raise asyncio.CancelledError
        finally:
            self.leave(i)

    def expected(self, i, o):
        return None if o["k"] == "pipecap" else self.lines(i)

    def judge(self, got, o, what):
        "Outcome by exit status: returns the value, or None for a ResultError."
        if o["code"]:
            if got[0] != "exc" or not isinstance(got[1], ResultError) or got[1].result.exit_code != o["code"]:
                raise Violation(f"{what}: {describe(got)}; expected ResultError with status {o['code']}")
            return got[1].result.output
        if got[0] != "ok":
            raise Violation(f"{what}: {describe(got)}")
        return got[1]

    def text(self, out, i, what):
        lines = out.splitlines(True)
        if lines[1:] != self.lines(i):
            raise Violation(f"{what}: output {out[:200]!r}, expected its pid and {self.lines(i)}")
        self.pid(lines[0], what)

    async def use_await(self, n, me, path, i, o, cmd, what):
        how = n.get("how", "await")
        if how == "result":
            if o["k"] == "pipe":
                res = await type(cmd)(cmd.commands[:-1] + (cmd.commands[-1].result,))
            else:
                res = await cmd.result
            if res.exit_code != o["code"]:
                raise Violation(f"{what}: {res.exit_code=}, expected {o['code']}")
            out = res.output
        else:
            out = self.judge(await own(cmd() if how == "call" and o["k"] != "pipe" else cmd), o, what)
        self.text(out, i, what)

    async def use_iter(self, n, me, path, i, o, cmd, what):
        got = []
        first = True
        it = aiter(cmd)
        try:
            async for line in it:
                got.append(line)
                if n.get("stop") and len(got) > 1:
                    break
                if first:
                    first = False
                    await self.program(n.get("body", []), me, path)
                await self.turn(me)
        finally:
            await it.aclose()
        if n.get("stop"):
            if [self.lines(i)[0]] != got[1:]:
                raise Violation(f"{what}: got {got}")
            self.pid(got[0], what)
            return
        self.text("".join(got), i, what)

    async def use_with(self, n, me, path, i, o, cmd, what):
        boom = Boom(path)
        box = {}

        async def block():
            async with cmd as run:
                box["run"] = run
                await self.turn(me)
                if o["k"] not in ("cap", "pipecap", "pty"):
                    await self.program(n.get("body", []), me, path)
                    if n.get("end") == "raise":
                        raise boom
                    return
                pid = self.pid(await run.stdout.readline(), what)
                if o["k"] != "pipecap" and run.pid != pid:
                    raise Violation(f"{what}: the runner has pid {run.pid}, its process is {pid}")
                await self.echo(run, what)
                await self.program(n.get("body", []), me, path)
                await self.echo(run, what)
                if n.get("end") == "raise":
                    raise boom
                if o["k"] == "pty":
                    run.cancel()  # (a raw terminal has no end of file)
                    return
                run.stdin.close()
                rest = await run.stdout.read()
                if rest:
                    raise Violation(f"{what}: more output {rest!r}")

        got = await own(block())
        run = box.get("run")
        if n.get("end") == "raise" and got[0] == "exc" and got[1] is boom:
            return
        if got[0] == "exc" and not (isinstance(got[1], ResultError) and o["code"] and "run" in box):
            if isinstance(got[1], Violation):
                raise got[1]
            raise Violation(f"{what}: {describe(got)}")
        res = run.result(check=False)
        code = -15 if o["k"] == "pty" else o["code"]
        if res.exit_code != code:
            raise Violation(f"{what}: exit status {res.exit_code}, expected {code}")
        if o["k"] in ("text", "pipe", "sub"):
            self.text(res.output, i, what)

    async def use_cross(self, n, me, path, i, o, cmd, what):
        "Several objects (perhaps equal ones) entered in one task, and left in any order."
        opened = []
        used = set()
        try:
            for j, (k, fresh, rank) in enumerate(n["who"]):
                k %= len(self.objs)
                if k in used:
                    fresh = True
                used.add(k)
                ob = self.case["objs"][k]
                obj_ = self.build(ob, k) if fresh else self.objs[k]
                name = f"{what}, member {j} ({ob['k']})"
                run = await obj_.__aenter__()
                opened.append((rank, j, k, obj_, run, name))
                await self.turn(me)
                if ob["k"] in ("cap", "pipecap", "pty"):
                    pid = self.pid(await run.stdout.readline(), name)
                    if ob["k"] != "pipecap" and run.pid != pid:
                        raise Violation(f"{name}: the runner has pid {run.pid}, its process is {pid}")
            self.ctx.nontrivial()
            self.ctx.label("left in another order" if sorted(opened, key=lambda x: x[:2]) != opened[::-1] else "left in reverse")
            for entry in sorted(opened, key=lambda x: x[:2]):
                _, _, k, obj_, run, name = entry
                ob = self.case["objs"][k]
                if ob["k"] in ("cap", "pipecap", "pty"):
                    await self.echo(run, name)
                    if ob["k"] == "pty":
                        run.cancel()
                    else:
                        run.stdin.close()
                await self.turn(me)
                opened.remove(entry)
                if await obj_.__aexit__(None, None, None):
                    raise Violation(f"{name}: leaving the block asked to suppress an exception")
                res = run.result(check=False)
                code = -15 if ob["k"] == "pty" else ob["code"]
                if self.cancelled != me and res.exit_code != code:
                    raise Violation(f"{name}: exit status {res.exit_code}, expected {code}")
                if self.cancelled != me and ob["k"] in ("text", "pipe", "sub"):
                    self.text(res.output, k, name)
        except BaseException as ex:
            for _, _, _, obj_, _, _ in reversed(opened):
                await obj_.__aexit__(type(ex), ex, ex.__traceback__)
            raise

    async def echo(self, run, what):
        self.counter += 1
        token = f"token{self.counter}\n".encode()
        run.stdin.write(token)
        await run.stdin.drain()
        got = await run.stdout.readline()
        if got != token:
            raise Violation(f"{what}: wrote {token!r}, its process answered {got!r}")

    async def use_prompt(self, n, me, path, i, o, cmd, what):
        boom = Boom(path)
        box = {}

        async def block():
            async with cmd.prompt("\n") as cli:
                box["cli"] = cli
                await self.turn(me)
                if o["k"] == "sub":
                    # (It reads its substitution, not the prompt's input.)
                    text, _ = await cli.expect()
                    box["pid"] = self.pid(text, what)
                    for line in self.lines(i):
                        text, _ = await cli.expect()
                        if text + "\n" != line:
                            raise Violation(f"{what}: got {text!r}, expected {line!r}")
                    return
                text, _ = await cli.expect()
                self.pid(text, what)
                await self.say(cli, what)
                await self.program(n.get("body", []), me, path)
                await self.say(cli, what)
                if n.get("end") == "raise":
                    raise boom
                if o["k"] == "pty":
                    runner_of(cli).cancel()
                    return
                cli.close()
                rest = await cli.read_all()
                if rest:
                    raise Violation(f"{what}: more output {rest!r}")

        got = await own(block())
        if got[0] == "exc":
            if n.get("end") == "raise" and got[1] is boom:
                return
            if isinstance(got[1], Violation):
                raise got[1]
            raise Violation(f"{what}: {describe(got)}")
        code = -15 if o["k"] == "pty" else o["code"]
        res = box["cli"].result
        if res.exit_code != code:
            raise Violation(f"{what}: exit status {res.exit_code}, expected {code}")

    async def say(self, cli, what):
        self.counter += 1
        token = f"token{self.counter}"
        text = await cli.command(token)
        if text != token:
            raise Violation(f"{what}: sent {token!r}, its process answered {text!r}")


async def own(aw):
    "Outcome of aw, except that our own cancellation goes on."
    try:
        return ("ok", await aw)
    except asyncio.CancelledError:
        raise
    except Exception as ex:  # pylint: disable=broad-except
        return ("exc", ex)


async def go(case, ctx):
    base = await ctx.base()
    w = World(case, ctx)
    import contextvars

    tasks = []
    if case["prior"]:
        # All tasks inherit the context of one that has used a command.
        async with sh(ctx.vchild, "x:0"):
            pass
    for k, nodes in enumerate(case["tasks"]):
        kw = {"context": contextvars.Context()} if case["fresh"] and k % 2 else {}
        tasks.append(asyncio.create_task(w.program(nodes, k, str(k)), **kw, **w.names))
    cancelled = None
    for step, k in enumerate(case["sched"]):
        for ev in w.turns.pop(k, ()):
            ev.set()
        for _ in range(case["yields"]):
            await asyncio.sleep(0)
        if case["cancel"] and case["cancel"][1] == step:
            cancelled = w.cancelled = case["cancel"][0] % len(tasks)
            ctx.label("a task is cancelled")
            tasks[cancelled].cancel()
        if step % 4 == 3:
            await asyncio.sleep(0.001)
    w.open = True
    for evs in w.turns.values():
        for ev in evs:
            ev.set()
    done = await asyncio.gather(*tasks, return_exceptions=True)
    for k, res in enumerate(done):
        if isinstance(res, Violation):
            raise res
        if isinstance(res, BaseException) and not (k == cancelled and isinstance(res, asyncio.CancelledError)):
            raise Violation(f"task {k}: {describe(('exc', res))}")
    if children():
        raise Violation(f"children left {children()}")
    left = await ctx.settle(base)
    if left:
        raise Violation(f"left over {left}")
