"C04: | and >> build pipelines and bind redirections by type only."

import asyncio
import dataclasses
import io
import logging
import os
import pathlib
import tempfile

from hypothesis import strategies as st

from shellous import CmdContext, Command, Pipeline, sh
from vlib.base import Violation, check, describe, outcome, short
from vlib.rt import execute

META = {
    "level": "exploration",
    "technique": "model-based property testing: random operator expressions (all groupings) against a model of command lists and redirection fields; a sample is run",
    "level_note": "Random search over expression trees of up to 8 commands with redirections of every supported and unsupported type on either side; part of the expressions is executed and compared with the composition.",
    "rule": "A case is a random operator expression tree with a list of operand values tried on both sides. Non-trivial: at least two commands and one redirection, or at least three commands.",
    "examples": {"quick": 30000, "thorough": 400000},
    "budget": {"quick": 20, "thorough": 500},
}

GOOD_IN = ["str", "strempty", "bytes", "bytearray", "path", "bytesio", "stringio", "file", "int", "bool", "DEVNULL", "INHERIT", "CAPTURE", "reader", "digits"]
GOOD_OUT = ["path", "bytearray", "bytesio", "stringio", "file", "int", "DEVNULL", "INHERIT", "CAPTURE", "BUFFER", "logger", "writer"]
BAD_OUT = ["str", "bytes", "none", "STDOUT", "float", "list", "tuple", "dict", "object", "ellipsis", "reader", "purepath", "memoryview", "ctx"]
BAD_IN = ["none", "STDOUT", "float", "list", "tuple", "dict", "object", "ellipsis", "logger", "writer", "memoryview", "purepath", "ctx"]


@st.composite
def tree(draw, n):
    "Random grouping of n leaves: nested pairs, or a leaf index."
    if n == 1:
        return 0
    k = draw(st.integers(1, n - 1))
    return [draw(tree(k)), draw(tree(n - k))]


@st.composite
def strategy_(draw, tier):
    n = draw(st.integers(1, 8))
    return {
        "n": n,
        "trees": [draw(tree(n)), draw(tree(n))],
        "pre": draw(st.lists(st.tuples(st.integers(0, 7), st.sampled_from(["stdout_dev", "stderr", "env", "result", "timeout", "stdin_cap"])).map(list), max_size=3)),
        "ops": draw(st.lists(
            st.one_of(
                st.tuples(st.just("in"), st.sampled_from(GOOD_IN), st.sampled_from(["op", "method", "close"])).map(list),
                st.tuples(st.just("out"), st.sampled_from(GOOD_OUT), st.sampled_from(["op", "append", "method", "mappend", "close"])).map(list),
                st.tuples(st.just("err"), st.sampled_from(GOOD_OUT + ["STDOUT"]), st.sampled_from(["method", "mappend", "close"])).map(list),
                st.tuples(st.just("badout"), st.sampled_from(BAD_OUT), st.sampled_from(["op", "append"])).map(list),
                st.tuples(st.just("badin"), st.sampled_from(BAD_IN), st.sampled_from(["op"])).map(list),
                st.tuples(st.just("badmeth"), st.sampled_from(["none", "STDOUT"]), st.sampled_from(["stdin", "stdout", "stderr"])).map(list),
                st.tuples(st.just("result"), st.just(""), st.just("")).map(list),
                st.tuples(st.just("writable"), st.just(""), st.just("")).map(list),
            ), max_size=6)),
        "run": draw(st.integers(0, 9)) == 3,
        "text": draw(st.binary(max_size=30)),
        "mode": draw(st.sampled_from(["await", "with", "iter"])),
    }


def strategy(tier):
    return strategy_(tier)


class Env:
    "Operand values; identities are kept per case."

    def __init__(self):
        self.files = []

    def get(self, code):
        if code in ("str", "strempty", "digits"):
            return {"str": "text", "strempty": "", "digits": "123"}[code]
        if code == "bytes":
            return b"by\x00tes"
        if code == "bytearray":
            return bytearray(b"ba")
        if code == "path":
            return pathlib.Path("/nonexistent/p")
        if code == "purepath":
            return pathlib.PurePath("/nonexistent/p")
        if code == "bytesio":
            return io.BytesIO(b"bio")
        if code == "stringio":
            return io.StringIO("sio")
        if code == "file":
            f = tempfile.TemporaryFile()
            self.files.append(f)
            return f
        if code == "int":
            return 77
        if code == "bool":
            return True
        if code in ("DEVNULL", "INHERIT", "CAPTURE", "BUFFER", "STDOUT"):
            return getattr(sh, code)
        if code == "reader":
            loop = asyncio.new_event_loop()
            try:
                return asyncio.StreamReader(loop=loop)
            finally:
                loop.close()
        if code == "writer":
            w = asyncio.StreamWriter.__new__(asyncio.StreamWriter)
            w._transport = _FakeTransport()
            w._loop = _FakeLoop()
            w._reader = None
            w._protocol = None
            return w
        if code == "logger":
            return logging.getLogger("verif.c04")
        return {"none": None, "float": 2.5, "list": ["a"], "tuple": ("a",), "dict": {"a": 1}, "object": object(),
                "ellipsis": ..., "memoryview": memoryview(b"x"), "ctx": CmdContext()}[code]

    def close(self):
        for f in self.files:
            f.close()


class _FakeTransport:
    def is_closing(self):
        return True

    def __repr__(self):
        return "fake"


class _FakeLoop:
    def is_closed(self):
        return True


PUBLIC = [f.name for f in dataclasses.fields(type(sh.options)) if not f.name.startswith("_")]


def view(cmd):
    return {k: getattr(cmd.options, k) for k in PUBLIC}


def commands(target):
    return list(target.commands) if isinstance(target, Pipeline) else [target]


def build(t, leaves):
    it = iter(leaves)

    def go(x):
        if x == 0:
            return next(it)
        a = go(x[0])
        b = go(x[1])
        return a | b

    return go(t)


def run(case, ctx):
    env = Env()
    try:
        _run(case, ctx, env)
    finally:
        env.close()


def _run(case, ctx, env):
    n = case["n"]
    leaves = [sh(f"prog{i}", str(i)) for i in range(n)]
    for i, what in case["pre"]:
        if i < n:
            c = leaves[i]
            leaves[i] = {
                "stdout_dev": lambda c: c.stdout(sh.DEVNULL), "stderr": lambda c: c.stderr(sh.DEVNULL, append=True),
                "env": lambda c: c.env(A=1), "result": lambda c: c.result, "timeout": lambda c: c.set(timeout=5),
                "stdin_cap": lambda c: c.stdin(sh.CAPTURE),
            }[what](c)
    a = build(case["trees"][0], leaves)
    b = build(case["trees"][1], leaves)
    check(a == b, "two groupings of the same %d commands differ: %s / %s", n, short(a), short(b))
    check(hash(a) == hash(b), "two groupings of the same commands have different hashes")
    if n > 1:
        check(isinstance(a, Pipeline) and a.commands == tuple(leaves), "a|b|...: commands are %s, expected %s", short(commands(a)), short(leaves))
        check(len(a) == n and all(a[i] == leaves[i] for i in range(n)), "len/indexing of a pipeline")
    ctx.nontrivial(n >= 3 or (n >= 2 and bool(case["ops"])))
    target = a
    for kind, code, how in case["ops"]:
        ctx.label(kind, f"{kind}:{code}")
        before = target
        views = [view(c) for c in commands(target)]
        cmds = commands(target)
        val = env.get(code) if code else None
        want = [dict(v) for v in views]
        if kind == "in":
            if how == "op":
                new = val | target
                want[0].update(input=val, input_close=False)
            else:
                new = target.stdin(val, close=how == "close")
                want[0].update(input=val, input_close=how == "close")
        elif kind == "out":
            if how == "op":
                new = target | val
                want[-1].update(output=val, output_append=False, output_close=False)
            elif how == "append":
                new = target >> val
                want[-1].update(output=val, output_append=True, output_close=False)
            else:
                new = target.stdout(val, append=how == "mappend", close=how == "close")
                want[-1].update(output=val, output_append=how == "mappend", output_close=how == "close")
        elif kind == "err":
            new = target.stderr(val, append=how == "mappend", close=how == "close")
            want[-1].update(error=val, error_append=how == "mappend", error_close=how == "close")
        elif kind == "result":
            new = target.result
            want[-1].update(exit_codes=range(-255, 256))
        elif kind == "writable":
            new = target.writable
            check(commands(new)[:-1] == cmds[:-1], "writable changed another command")
            check(commands(new)[-1] == cmds[-1].writable, "writable is not the last command's writable")
        else:
            try:
                if kind == "badmeth":
                    res = getattr(target, how)(val) if not (how == "stderr" and code == "STDOUT") else None
                    if res is None:
                        continue
                elif kind == "badin":
                    res = val | target
                elif how == "op":
                    res = target | val
                else:
                    res = target >> val
            except (TypeError, ValueError) as ex:
                if isinstance(ex, ValueError) and code != "STDOUT":
                    raise Violation(f"{kind} {code} {how}: raised ValueError instead of TypeError") from ex
                check(target == before, "a rejected operand changed the target")
                continue
            raise Violation(f"{kind} {code} {how} on {'pipeline' if n > 1 else 'command'} was accepted: {short(res)}")
        check(type(new) is type(target), "%s %s: result is a %s", kind, how, type(new).__name__)
        got = [view(c) for c in commands(new)]
        check(len(got) == len(want), "%s %s: %d commands, expected %d", kind, how, len(got), len(want))
        for i, (g, w) in enumerate(zip(got, want)):
            for key in PUBLIC:
                same = g[key] is w[key] or (type(g[key]) is type(w[key]) and g[key] == w[key])
                if not same:
                    raise Violation(f"{kind} {code} {how}: command {i} of {len(got)}: {key} is {short(g[key])}, expected {short(w[key])}")
            check(commands(new)[i].args == cmds[i].args, "%s %s: arguments of command %d changed", kind, how, i)
        for v, c in zip(views, cmds):
            check(view(c) == v, "%s %s changed an existing command", kind, how)
        target = new
    if case["run"]:
        execute_sample(case, ctx)


def execute_sample(case, ctx):
    "Run both groupings of map stages; the last is a real composition."
    ctx.label("run")
    n = case["n"]
    stages = [sh(ctx.vchild, f"map:{i + 1}") for i in range(n)]
    add = sum(range(1, n + 1))
    want = bytes((x + add) & 255 for x in case["text"])
    for t in case["trees"]:
        target = case["text"] | build(t, stages)
        out = ctx.aio(lambda target=target: outcome(execute(target, case["mode"])))
        if out[0] == "exc":
            raise Violation(f"pipeline of {n} stages: {describe(out)}")
        check(out[1][0] == want, "pipeline of %d stages: output %r, expected %r", n, out[1][0], want)
