"C23: harvest helpers never return with unfinished tasks."

import asyncio
import gc

from hypothesis import strategies as st

from shellous.harvest import harvest, harvest_results, harvest_wait
from vlib.base import Violation, describe

META = {
    "level": "exploration",
    "technique": "property-based testing under virtual time: generated sets of awaitables with scripted ends and reactions to cancellation, timeouts and (repeated) cancellations of the helper, on an event loop whose clock jumps; judged by an oracle over the recorded history of every awaitable",
    "level_note": "Random search; every instant is exact in virtual time and ties are generated on purpose (any of the tied outcomes is then accepted). At least one awaitable is passed, and those that are cancelled end within cancel_timeout (beyond it RuntimeError is by design).",
    "rule": "A case is a list of awaitable scripts, a helper, a timeout and cancellation times. Non-trivial: an awaitable is still running when the helper has to end the harvest (exception, timeout or cancellation).",
    "examples": {"quick": 40000, "thorough": 1500000},
    "budget": {"quick": 20, "thorough": 600},
}
TIMES = [0, 0, 1, 2, 3, 5, 5, 8, 10, 13, 20, 50]


@st.composite
def script(draw, depth=0):
    s = {
        "kind": draw(st.sampled_from(["coro", "coro", "coro", "task", "future", "object", "done"] + (["nested", "nested"] if depth == 0 else []))),
        "t": draw(st.sampled_from(TIMES + [10_000])),
        "end": draw(st.sampled_from(["ok", "ok", "ok", "ok", "raise", "raise", "self", "rt"])),
        "react": draw(st.lists(st.tuples(st.sampled_from(["die", "die", "return", "raise", "late", "ignore", "yield"]), st.sampled_from([0, 1, 2, 5, 9])), max_size=3)),
        "pre": draw(st.integers(0, 3)),
    }
    if s["kind"] == "nested":
        s["sub"] = draw(plan(depth + 1))
    return s


def plan(depth):
    return st.fixed_dictionaries({
        "fn": st.sampled_from(["harvest", "results", "wait", "harvest_cf", "wait_cf"]),
        "tasks": st.lists(script(depth), min_size=1, max_size=4 if depth == 0 else 3),
        "timeout": st.sampled_from([None, None, None, 0, 1, 2, 4, 5, 7, 10, 15]),
        "box": st.sampled_from(["list", "list", "tuple", "set", "gen", "dict"]),
    })


def slow_cleanup():
    "Awaitables that take long to end after their cancellation."
    return st.fixed_dictionaries({
        "fn": st.sampled_from(["harvest", "results", "wait", "harvest_cf", "wait_cf"]),
        "ct": st.sampled_from([None, 1, 3, 3, 8, 0.5]),
        "trigger": st.sampled_from(["timeout", "cancel", "raise"]),
        "at": st.sampled_from([1, 2, 6]),
        "cleanup": st.lists(st.sampled_from([0, 0, 1, 2, 2.5, 4, 7, 9, 14, 16, 30]), min_size=1, max_size=4),
        "after": st.sampled_from(["die", "return", "raise"]),
        "task": st.booleans(), "eager": st.booleans(),
    }).map(lambda c: {"slow": c})


def strategy(tier):
    histories = st.builds(
        lambda p, c, e, d: {"plan": p, "cancels": sorted(c), "eager": e == 3, "spin": d},
        plan(0), st.lists(st.sampled_from([0, 1, 2, 3, 4, 5, 6, 8, 10, 11, 13, 14, 20]), max_size=3),
        st.integers(0, 6), st.integers(0, 4),
    )
    return st.one_of(histories, histories, histories, histories, histories, slow_cleanup())


def run_slow(case, ctx):
    """The helper waits cancel_timeout for awaitables to end; no more, no less.

    Here, there is one event (a timeout, a cancellation, an exception) at a time
    of its own, and everything else follows from it.
    """
    loop = Clock()
    asyncio.set_event_loop(loop)
    if case["eager"]:
        loop.set_task_factory(asyncio.eager_task_factory)
    loop.set_exception_handler(lambda _l, c: None)
    fn, at, trigger = case["fn"], case["at"], case["trigger"]
    finish = fn.endswith("_cf") and trigger == "cancel"
    ct = 15.0 if case["ct"] is None else case["ct"]
    ends, again = {}, []
    boom = Problem("trigger")
    what = f"{fn}, {trigger} at {at}, cancel_timeout={case['ct']}, the awaitables take {case['cleanup']} to end"

    async def body(i, d):
        try:
            if finish:
                await asyncio.sleep(at + d)
            else:
                try:
                    await asyncio.sleep(1000)
                except asyncio.CancelledError:
                    await asyncio.sleep(d)
                    if case["after"] == "raise":
                        raise Problem("cleanup") from None
                    if case["after"] == "die":
                        raise
            return i
        except asyncio.CancelledError:
            if loop.time() < at + d:
                again.append(loop.time())
            raise
        finally:
            ends[i] = loop.time()

    async def bad():
        await asyncio.sleep(at)
        raise boom

    async def call():
        aws = [body(i, d) for i, d in enumerate(case["cleanup"])]
        if trigger == "raise":
            aws.append(bad())
        if case["task"] or fn.startswith("wait"):
            aws = [asyncio.ensure_future(a) for a in aws]
        kw = {} if case["ct"] is None else {"cancel_timeout": case["ct"]}
        if trigger == "timeout":
            kw["timeout"] = at
        if fn.endswith("_cf"):
            kw["cancel_finish"] = True
        if fn.startswith("harvest"):
            return await harvest(*aws, **kw)
        if fn == "results":
            return await harvest_results(*aws, **kw)
        return await harvest_wait(aws, **kw)

    async def main():
        task = asyncio.create_task(call())
        if trigger == "cancel":
            loop.call_later(at, task.cancel)
        try:
            out = ("ok", await task)
        except BaseException as ex:
            out = ("exc", ex)
        return out, loop.time(), len(ends)

    slowest = max(case["cleanup"])
    n = len(case["cleanup"])
    ctx.label("slow cleanup", "fn:" + fn)
    ctx.nontrivial(slowest > ct)
    try:
        try:
            out, t1, done = loop.run_until_complete(main())
        except Stuck:
            raise Violation(f"{what}: hang, the helper never returns") from None
        what += f" -> {describe(out) if out[0] == 'exc' else out} at {t1}"
        if slowest == ct:
            return
        if slowest > ct:
            if out[0] != "exc" or not isinstance(out[1], RuntimeError):
                raise Violation(f"{what}; expected RuntimeError, they do not end in time")
            if t1 != at + ct:
                raise Violation(f"{what}; expected at {at + ct}")
            return
        if t1 != at + slowest or done != n:
            raise Violation(f"{what}; expected at {at + slowest}, {done} of {n} awaitables were done")
        if again:
            raise Violation(f"{what}: an awaitable was cancelled twice, at {again}")
        if fn == "results" and trigger != "timeout":
            if out[0] != "ok" or out[1][0] is not (trigger == "cancel"):
                raise Violation(f"{what}; expected cancelled={trigger == 'cancel'}")
        elif trigger == "timeout" and not isinstance(out[1], asyncio.TimeoutError):
            raise Violation(f"{what}; expected TimeoutError")
        elif trigger == "cancel" and not isinstance(out[1], asyncio.CancelledError):
            raise Violation(f"{what}; expected CancelledError")
        elif trigger == "raise" and fn.startswith("wait") and out != ("ok", None):
            raise Violation(f"{what}; expected a normal return")
        elif trigger == "raise" and fn.startswith("harvest") and not isinstance(out[1], Problem):
            raise Violation(f"{what}; expected an awaitable's exception")
    finally:
        shut(loop)


class Clock(asyncio.SelectorEventLoop):
    "An event loop whose time jumps to the next timer."

    def __init__(self):
        super().__init__()
        self.now = 0.0
        select = self._selector.select

        def jump(timeout):
            events = select(0)
            if not events:
                if timeout is None:
                    raise Stuck()
                self.now += timeout
            return events

        self._selector.select = jump

    def time(self):
        return self.now


class Stuck(Exception):
    pass


class Problem(Exception):
    pass


class Rec:
    "History of one awaitable."

    def __init__(self, s, loop):
        self.s, self.loop = s, loop
        self.cancels = []  # times
        self.end = None  # (time, kind, value)
        self.sub = None
        self.obj = None

    async def body(self):
        s, loop = self.s, self.loop
        try:
            value = await self.work()
        except asyncio.CancelledError:
            self.end = (loop.time(), "cancelled", None)
            raise
        except BaseException as ex:
            self.end = (loop.time(), "exc", ex)
            raise
        self.end = (loop.time(), "ok", value)
        return value

    async def work(self):
        s, loop = self.s, self.loop
        react = list(s["react"])
        if s["kind"] == "nested":
            self.sub = Plan(s["sub"], loop)
            return await self.sub.run()
        deadline = loop.time() + s["t"]
        while True:
            try:
                if s["t"] == 0:
                    for _ in range(s["pre"]):
                        await asyncio.sleep(0)
                else:
                    await asyncio.sleep(max(0, deadline - loop.time()))
                break
            except asyncio.CancelledError:
                self.cancels.append(loop.time())
                how, d = react.pop(0) if react else ("die", 0)
                if how == "ignore" and s["t"] <= 13:
                    continue
                if how == "yield":
                    await asyncio.sleep(0)
                elif how in ("late", "return", "raise", "ignore") and d:
                    try:
                        await asyncio.sleep(d)
                    except asyncio.CancelledError:
                        self.cancels.append(loop.time())
                if how == "return":
                    return ("late", id(self))
                if how == "raise":
                    raise Problem("on cancel")
                raise
        if s["end"] == "raise":
            raise Problem("end")
        if s["end"] == "rt":
            raise RuntimeError("end")
        if s["end"] == "self":
            raise asyncio.CancelledError()
        return ("value", id(self))


class Custom:
    def __init__(self, rec):
        self.rec = rec

    def __await__(self):
        return self.rec.body().__await__()


def clamp(p, top=13):
    "Awaitables that may have to finish do so within cancel_timeout."
    tasks = []
    for s in p["tasks"]:
        s = dict(s, t=min(s["t"], top))
        if "sub" in s:
            s["sub"] = clamp(s["sub"], 2)
        tasks.append(s)
    limit = p["timeout"] if p["timeout"] is None or top == 13 else min(p["timeout"], top)
    return dict(p, tasks=tasks, timeout=limit)


class Plan:
    def __init__(self, p, loop):
        self.p, self.loop = p, loop
        if p["fn"].endswith("_cf"):
            self.p = p = clamp(p)
        self.recs = [Rec(s, loop) for s in p["tasks"]]
        self.out = None
        self.started = self.finished = None
        self.cancelled_at = []

    def make(self, rec):
        kind = rec.s["kind"]
        loop = self.loop
        if kind == "future":
            fut = loop.create_future()
            s = rec.s

            def fire():
                if fut.done():
                    return
                if s["end"] in ("raise", "rt"):
                    fut.set_exception(Problem("end") if s["end"] == "raise" else RuntimeError("end"))
                elif s["end"] == "self":
                    fut.cancel()
                else:
                    fut.set_result(("value", id(rec)))

            def over(f):
                if f.cancelled():
                    rec.end = (loop.time(), "cancelled", None)
                elif f.exception():
                    rec.end = (loop.time(), "exc", f.exception())
                else:
                    rec.end = (loop.time(), "ok", f.result())

            fut.add_done_callback(over)
            loop.call_later(s["t"], fire)
            rec.obj = fut
            return fut
        if kind in ("task", "done"):
            rec.obj = loop.create_task(rec.body())
            return rec.obj
        if kind == "object":
            return Custom(rec)
        return rec.body()

    async def run(self):
        p, loop = self.p, self.loop
        aws = [self.make(r) for r in self.recs]
        pre = [a for r, a in zip(self.recs, aws) if r.s["kind"] == "done" and r.s["t"] < 10]
        if pre:
            try:
                await asyncio.wait(pre)
            except asyncio.CancelledError:
                for a in aws:
                    if asyncio.isfuture(a):
                        a.cancel()
                    elif asyncio.iscoroutine(a):
                        a.close()
                await asyncio.wait([a for a in aws if asyncio.isfuture(a)])
                self.out = "skipped"
                raise
        for a in aws:
            if asyncio.isfuture(a) and a.done() and not a.cancelled():
                a.exception()
        fn = p["fn"]
        cf = {"cancel_finish": True} if fn.endswith("_cf") else {}
        self.started = loop.time()
        try:
            if fn.startswith("harvest"):
                self.out = ("ok", await harvest(*aws, timeout=p["timeout"], **cf))
            elif fn == "results":
                self.out = ("ok", await harvest_results(*aws, timeout=p["timeout"]))
            else:
                tasks = [asyncio.ensure_future(a) for a in aws]
                box = {"list": list, "tuple": tuple, "set": set, "gen": lambda x: (t for t in x),
                       "dict": lambda x: {str(i): t for i, t in enumerate(x)}.values()}[p["box"]](tasks)
                self.out = ("ok", await harvest_wait(box, timeout=p["timeout"], **cf))
        except BaseException as ex:
            self.out = ("exc", ex)
            self.check_done()
            raise
        self.check_done()
        return self.out[1]

    def check_done(self):
        self.finished = self.loop.time()
        self.undone = [i for i, r in enumerate(self.recs) if r.end is None and not (asyncio.isfuture(r.obj) and r.obj.done())]


def run(case, ctx):
    if "slow" in case:
        return run_slow(case["slow"], ctx)
    loop = Clock()
    asyncio.set_event_loop(loop)
    if case["eager"]:
        loop.set_task_factory(asyncio.eager_task_factory)
    loop.set_exception_handler(lambda _l, c: None)
    plan_ = Plan(case["plan"], loop)
    cancels = []

    async def main():
        task = asyncio.create_task(plan_.run(), name="case")

        def cancel():
            if task.done():
                return
            if plan_.started is not None and plan_.finished is None:
                cancels.append(loop.time())
            task.cancel()

        def later(n):
            # A few passes of the loop after the instant.
            if n:
                loop.call_soon(later, n - 1)
            else:
                cancel()

        for c in case["cancels"]:
            loop.call_later(c, later, case["spin"])
        await asyncio.wait({task})
        if not task.cancelled():
            task.exception()
        return task

    try:
        try:
            loop.run_until_complete(main())
        except Stuck:
            raise Violation(f"{where(case)}: hang, the helper never returns") from None
        if plan_.started is None or plan_.out == "skipped":
            return
        label(case, ctx, plan_, cancels)
        judge(case, ctx, plan_, cancels, "")
    finally:
        shut(loop)


def shut(loop):
    pending = asyncio.all_tasks(loop)
    for t in pending:
        t.cancel()
    for _ in range(40):
        if all(t.done() for t in pending):
            break
        loop.call_soon(loop.stop)
        loop.run_forever()
    asyncio.set_event_loop(None)
    loop.close()
    gc.collect(0)


def where(case):
    p = case["plan"]
    return f"{p['fn']}({', '.join(s['kind'] + ':' + str(s['t']) + ':' + s['end'] for s in p['tasks'])}, timeout={p['timeout']}) cancelled at {case['cancels']}"


def label(case, ctx, p, cancels):
    ctx.label("fn:" + p.p["fn"], "eager" if case["eager"] else "lazy")
    if cancels:
        ctx.label("cancelled")


def judge(case, ctx, plan_, cancels, nest):
    p = plan_.p
    what = f"{where(case)}{nest}"
    out = plan_.out
    if isinstance(out, tuple) and isinstance(out[1], (list, tuple)) and out[0] == "ok":
        what += f" returned {str(out[1])[:100]}"
    else:
        what += " " + describe(out)
    if plan_.undone:
        raise Violation(f"{what}: returned at {plan_.finished} with unfinished awaitables {plan_.undone}")
    recs = plan_.recs
    # A sub-plan that has not been entered or is skipped.
    for r in recs:
        if r.s["kind"] == "nested" and r.sub and r.sub.started is not None and r.sub.out != "skipped":
            judge(case, ctx, r.sub, None, nest + " > " + r.s["sub"]["fn"])
    for r in recs:
        if r.end is None:  # cancelled before it began
            r.end = (None, "cancelled", None)
    t0, t1 = plan_.started, plan_.finished
    fn = p["fn"]
    cf = fn.endswith("_cf")
    first_cancel = [r.cancels[0] for r in recs if r.cancels]
    # Instants at which the harvest may have been decided.
    inf = float("inf")
    t_exc = min([r.end[0] for r in recs if r.end[1] == "exc" and r.end[0] is not None and not r.cancels] or [inf])
    t_exc = max(t_exc, t0)
    t_time = t0 + p["timeout"] if p["timeout"] is not None else inf
    if cancels is None:
        cancels = []
        known = False  # cancellations of a nested harvest are not recorded
    else:
        known = True
    t_out = min(cancels or [inf])
    t_all = max([r.end[0] if r.end[0] is not None else -1 for r in recs] + [t0])
    # 1. what ended it?
    ex = out[1] if out[0] == "exc" else None
    was_cancelled = isinstance(ex, asyncio.CancelledError) or (fn == "results" and out[0] == "ok" and out[1][0])
    timed = isinstance(ex, asyncio.TimeoutError) and not any(ex is r.end[2] for r in recs)
    if timed:
        if t_time == inf:
            raise Violation(f"{what}: TimeoutError without a timeout")
        if t1 < t_time:
            raise Violation(f"{what}: TimeoutError at {t1}, before the timeout at {t_time}")
        if known and min(t_exc, t_out) < t_time:
            raise Violation(f"{what}: TimeoutError, but an exception came at {t_exc}, a cancellation at {t_out}, the timeout was {t_time}")
    if was_cancelled and known and not cancels:
        raise Violation(f"{what}: reported cancelled, but nobody cancelled it")
    # (harvest_results raises these whatever happened.)
    grave = fn == "results" and isinstance(ex, (RuntimeError, AssertionError))
    if known and cancels and min(cancels) < t1 and not was_cancelled and not grave:
        # Cancelled strictly before the end: it must say so.
        raise Violation(f"{what}: cancelled at {cancels}, ended at {t1} without reporting it")
    decided = min(t_exc, t_time, t_out)
    if known and t_time < min(t_exc, t_out, t_all) and not timed and not was_cancelled and not grave:
        raise Violation(f"{what}: the timeout passed at {t_time} without a TimeoutError")
    # 2. who was cancelled, and when?
    running = [r for r in recs if r.end[0] is not None and r.end[0] > decided]
    if running and decided < inf:
        ctx.nontrivial()
    if known:
        if decided == inf and first_cancel:
            raise Violation(f"{what}: awaitables were cancelled at {first_cancel} for no reason")
        for i, r in enumerate(recs):
            if r.cancels and r.cancels[0] < decided:
                raise Violation(f"{what}: awaitable {i} was cancelled at {r.cancels[0]}, the harvest was decided at {decided}")
        only_out = t_out < min(t_exc, t_time)
        if cf and only_out:
            if first_cancel:
                raise Violation(f"{what}: cancel_finish, but awaitables were cancelled at {first_cancel}")
        elif decided < inf and not (cf and t_out == decided):
            for i, r in enumerate(recs):
                if r.s["kind"] in ("future", "nested"):
                    if r.s["kind"] == "future" and r.end[0] is not None and r.end[0] > decided:
                        raise Violation(f"{what}: future {i} ended at {r.end[0]}, the harvest was decided at {decided}")
                    continue
                if r.end[0] is not None and r.end[0] > decided and (not r.cancels or r.cancels[0] != decided):
                    raise Violation(f"{what}: awaitable {i} ended at {r.end[0]} and was cancelled at {r.cancels}, expected at {decided}")
        if t1 not in (t_all, max(t_all, decided)):
            raise Violation(f"{what}: ended at {t1}, everything was done at {t_all}")
    # 3. the result
    if was_cancelled or timed:
        if fn == "results" and was_cancelled:
            results(what, recs, out[1][1])
        return
    if out[0] == "ok" and fn == "results":
        results(what, recs, out[1][1])
        return
    excs = [r.end[2] for r in recs if r.end[1] == "exc"]
    if fn == "results":
        want = next((e for e in excs if isinstance(e, (RuntimeError, AssertionError))), None)
        if ex is not want:
            raise Violation(f"{what}; expected {want!r}")
        return
    if fn.startswith("wait"):
        if out != ("ok", None):
            raise Violation(f"{what}; expected a normal return")
        return
    want = excs[0] if excs else None
    if ex is not want:
        raise Violation(f"{what}; expected {want!r}, the first exception in argument order")


def results(what, recs, got):
    if len(got) != len(recs):
        raise Violation(f"{what}: {len(got)} results for {len(recs)} awaitables")
    for i, (r, g) in enumerate(zip(recs, got)):
        kind, value = r.end[1:]
        ok = isinstance(g, asyncio.CancelledError) if kind == "cancelled" else g is value or (kind == "ok" and g == value)
        if not ok:
            raise Violation(f"{what}: result {i} is {g!r}, the awaitable ended with {kind} {value!r}")
