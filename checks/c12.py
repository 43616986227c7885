"C12: process substitution connects exactly the named processes."

import asyncio
import io
import os
import pathlib

from hypothesis import strategies as st

from checks.c11 import apply, opname
from shellous import ResultError, sh
from vlib import gen
from vlib.base import Violation, check, describe, outcome, same
from vlib.rt import execute, last, lines_ok, pipe

META = {
    "level": "exploration",
    "technique": "property-based testing with fault injection: generated sets of readable/writable substitutions, pipelines, redirections and failures against a dataflow model, plus a settle check",
    "level_note": "Random search over 1-12 substitutions per command, commands or pipelines, nested one level, used in any order and with data around the pipe capacity. When several parts fail, the error must be one of theirs.",
    "rule": "A case is a command with its substitutions, the order in which it uses them and a run mode. Non-trivial: two or more substitutions, or a failing one, or data larger than a pipe.",
    "examples": {"quick": 3500, "thorough": 50000},
    "budget": {"quick": 24, "thorough": 700},
}
HANG = 20.0

OP = st.one_of(
    st.just(["cat"]), st.sampled_from([1, 7, 4096]).map(lambda n: ["cat", n]), st.integers(1, 255).map(lambda n: ["map", n]),
    st.just(["dup"]), st.integers(0, 255).map(lambda n: ["del", n]), st.sampled_from([0, 1, 100, 70000]).map(lambda n: ["drop", n]),
)


@st.composite
def sub(draw, depth):
    return {
        "w": draw(st.booleans()),
        "stages": [draw(OP) for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3])))],
        "data": draw(gen.blobs(140_000)),
        "src": draw(st.sampled_from(["gen", "gen", "bytes", "path"])),
        "wsink": draw(st.sampled_from(["bytearray", "path", "bytesio"])),
        "pre": draw(st.sampled_from([0, 0, 0, 2, 15])),
        "post": draw(st.sampled_from([0, 0, 0, 2, 25])),
        "err": draw(st.booleans()),
        "pos": draw(st.sampled_from(["writable_last", "writable_first"])),
        "nested": draw(sub(depth - 1)) if depth and draw(st.integers(0, 5)) == 3 else None,
    }


@st.composite
def strategy_(draw, tier):
    n = draw(st.sampled_from([1, 1, 2, 2, 2, 3, 3, 4, 4, 7, 12]))
    subs = [draw(sub(1 if n < 5 else 0)) for _ in range(min(n, 4))]
    for i in range(4, n):
        # Many small ones, to keep the cases quick.
        subs.append({**subs[i % 4], "w": draw(st.booleans()), "data": draw(gen.blobs(300)), "stages": subs[i % 4]["stages"][:1], "nested": None})
    case = {
        "subs": subs, "order": draw(st.permutations(range(n))),
        "argpos": draw(st.permutations(range(n))),
        "mode": draw(st.sampled_from(["await", "await", "check", "with", "iter", "prompt"])),
        "place": draw(st.sampled_from(["alone", "alone", "alone", "first", "last"])),
        "stdin": draw(st.one_of(st.none(), st.none(), gen.blobs(80_000))),
        "passfd": draw(st.booleans()),
        "head": draw(st.binary(max_size=5)),
        "watch": draw(st.sampled_from(["", "", "", "", "default"])),
        "stderr": draw(st.sampled_from(["", "STDOUT", "DEVNULL", "bytearray"])),
        "copy": draw(st.booleans()),
        "same": draw(st.sampled_from(["", "", "", "", "object", "equal"])),
    }
    if draw(st.integers(0, 2)) == 1:
        case["fault"] = [
            draw(st.sampled_from(["sub_status", "sub_status", "sub_launch", "sub_launch", "main_status", "main_launch", "main_redirect", "early"])),
            draw(st.integers(0, n - 1)), draw(st.integers(0, 2)), draw(st.sampled_from([1, 5, 200, -9, -15])),
            draw(st.booleans()),
        ]
    return case


def strategy(tier):
    return strategy_(tier)


def run(case, ctx):
    ctx.label("mode:" + case["mode"], f"n:{len(case['subs'])}", "place:" + case["place"])
    for s in case["subs"]:
        ctx.label("writable" if s["w"] else "readable")
        if s["nested"]:
            ctx.label("nested")
        if len(s["stages"]) > 1:
            ctx.label("pipeline")
    fault = case.get("fault")
    if fault:
        ctx.label("fault:" + fault[0])
    ctx.nontrivial(len(case["subs"]) > 1 or bool(fault) or any(len(gen.data(s["data"])) > 65536 for s in case["subs"]))
    ctx.aio(lambda: go(case, ctx), watcher=case["watch"] or None)


class Built:
    def __init__(self):
        self.files = []  # files that exist only once the substitution is over
        self.sinks = []  # (getter, expected bytes, what)
        self.errors = []


def put(ctx, name, data):
    path = ctx.path(name)
    with open(path, "wb") as f:
        f.write(data)
    return path


def build_sub(ctx, s, name, fault, built):
    "Returns (target, data it yields when readable)."
    data = gen.data(s["data"])
    out = data
    cmds = []
    n = len(s["stages"])
    for i, op in enumerate(s["stages"]):
        ops = []
        prog = ctx.vchild
        if s["pre"] and i == 0:
            ops.append(f"s:{s['pre']}")
        if s["err"]:
            ops.append(f"w:2:{name.encode().hex()}")
        status = 0
        if fault and fault[2] % n == i:
            if fault[0] == "sub_status":
                status = fault[3]
                built.errors.append(status)
            elif fault[0] == "sub_launch":
                prog = "no-such-program-xyz" if fault[4] else ctx.path("nope")
        if i == 0 and not s["w"] and s["src"] == "gen":
            ops += ["if:0", put(ctx, f"in-{name}", data)]
        if i == 0 and s["nested"] and not s["w"]:
            # The nested substitution is read before the input.
            inner, inner_data = build_sub(ctx, dict(s["nested"], w=False, nested=None), name + "n", fault if fault and fault[0] == "early" else None, built)
            ops += ["if:150", inner, "in:150", "cat", "in:0"]
            cmds_in = apply(op, data)
            out = inner_data + cmds_in
            ops.append(opname(op))
        else:
            ops.append(opname(op))
            out = apply(op, out)
        if s["post"] and i == n - 1:
            mark = ctx.path(f"done-{name}")
            ops += ["close:1", f"s:{s['post']}", "touch", mark]
            if status == 0:
                built.files.append(mark)
        ops.append(f"x:{status}" if status >= 0 else f"k:{-status}")
        cmd = sh(prog, *ops).set(encoding="latin-1")
        if fault and fault[0] == "early":
            cmd = cmd.set(exit_codes={0, -13})
        cmds.append(cmd)
    if s["w"]:
        if s["wsink"] == "path":
            sink = pathlib.Path(ctx.path(f"sink-{name}"))
            getter = sink.read_bytes
        elif s["wsink"] == "bytesio":
            sink = io.BytesIO()
            getter = sink.getvalue
        else:
            sink = bytearray()
            getter = lambda: bytes(sink)
        if n > 1 and s["pos"] == "writable_first":
            target = pipe([cmds[0].writable] + cmds[1:-1] + [cmds[-1].stdout(sink)])
        else:
            target = pipe(cmds[:-1] + [cmds[-1].stdout(sink)]).writable
        built.sinks.append((getter, out, f"input of writable substitution {name}"))
        return target, b""
    target = pipe(cmds)
    if s["src"] == "bytes":
        target = data | target
    elif s["src"] == "path":
        target = pathlib.Path(put(ctx, f"in-{name}", data)) | target
    return target, out


async def go(case, ctx):
    base = await ctx.base()
    fault = case.get("fault")
    kind = fault[0] if fault else ""
    built = Built()
    subs = []
    for i, s in enumerate(case["subs"]):
        f = fault if fault and (fault[1] == i or kind == "early") else None
        if case.get("same") and not fault and i and not s["w"] and not case["subs"][0]["w"]:
            # The same substitution, or an equal one, several times: each has its own process.
            ctx.label("same:" + case["same"])
            subs.append(subs[0] if case["same"] == "object" else build_sub(ctx, case["subs"][0], "s0", None, built))
            continue
        subs.append(build_sub(ctx, s, f"s{i}", f, built))
    args = []
    for i in case["argpos"]:
        args += [("of:" if case["subs"][i]["w"] else "if:") + str(100 + i), subs[i][0]]
    out = bytearray(case["head"])
    ops = [f"w:1:{case['head'].hex()}"]
    mode = case["mode"]
    stdin = gen.data(case["stdin"]) if case["stdin"] and mode != "prompt" else None
    if case["place"] == "last" and stdin is None:
        ops.append("drain")  # or the first stage may get SIGPIPE
    prev = None
    writables = {}
    for i in case["order"]:
        s = case["subs"][i]
        if s["w"]:
            data = gen.data(s["data"])
            if case["copy"] and prev is not None:
                # Copy a readable substitution into this one instead of stdout.
                pass
            ops.append(gen.write_op(100 + i, s["data"]))
            writables[i] = data
        elif kind == "early" and i == fault[1]:
            ops += [f"in:{100 + i}", "take:3"]
            out += subs[i][1][:3]
        else:
            ops += [f"in:{100 + i}", "cat"]
            out += subs[i][1]
    if stdin is not None:
        ops += ["in:0", "map:1"]
        out += stdin.translate(bytes((b + 1) & 255 for b in range(256)))
    pfd = None
    if case["passfd"]:
        pfd = os.open(put(ctx, "pass", b"passed!"), os.O_RDONLY)
        ops += [f"in:{pfd}", "cat"]
        out += b"passed!"
    errs = b"main stderr"
    ops.append(f"w:2:{errs.hex()}")
    status = 0
    if kind == "main_status":
        status = fault[3]
        built.errors.append(status)
    ops.append(f"x:{status}" if status >= 0 else f"k:{-status}")
    prog = ctx.vchild
    if kind == "main_launch":
        prog = "no-such-program-xyz" if fault[4] else ctx.dir
    cmd = sh(prog, *args, *ops).set(encoding="latin-1")
    sink = None
    if case["stderr"] == "STDOUT":
        cmd = cmd.stderr(sh.STDOUT)
        out += errs
    elif case["stderr"] == "DEVNULL":
        cmd = cmd.stderr(sh.DEVNULL)
    elif case["stderr"] == "bytearray":
        sink = bytearray()
        cmd = cmd.stderr(sink)
    if kind == "main_redirect":
        cmd = cmd.stderr(pathlib.Path(ctx.path("nodir")) / "x")
    if pfd is not None:
        cmd = cmd.set(pass_fds=[pfd])
    target = cmd
    out = bytes(out)
    if stdin is not None:
        target = stdin | cmd
    if case["place"] == "first":
        target = target | sh(ctx.vchild, "cat")
    elif case["place"] == "last" and stdin is None:
        target = sh(ctx.vchild, "w:1:6665") | cmd
    if mode == "iter" and not lines_ok(out):
        mode = "await"
    where = f"{mode}, {len(subs)} substitutions" + (f", fault {fault}" if fault else "")
    got = await outcome(judge(target, mode))
    if pfd is not None:
        try:
            os.close(pfd)
        except OSError as ex:
            raise Violation(f"{where}: a pass_fds descriptor was closed without pass_fds_close") from ex
    left = await ctx.settle(base)
    if left:
        raise Violation(f"{where}: left over {left}")
    if kind in ("sub_launch", "main_launch", "main_redirect"):
        want = (FileNotFoundError, PermissionError)
        if kind == "sub_launch" and len(subs) > 1 and got[0] == "exc" and type(got[1]) is ResultError and got[1].result.exit_code == -13:
            # Another process may be killed by SIGPIPE before the substitution (a pipeline) reports its failure.
            ctx.label("sigpipe first")
            return
        if got[0] == "ok" or type(got[1]) not in want:
            raise Violation(f"{where}: the launch failure is lost: {describe(got)}")
        return
    if kind in ("sub_status", "main_status") and built.errors:
        if kind == "main_status" and mode in ("with0", "iter", "prompt", "await"):
            # These never raise for the command's own status.
            if got[0] == "exc":
                raise Violation(f"{where}: {describe(got)}")
            if got[1][1] is not None:
                check(got[1][1].exit_code == built.errors[0], "%s: exit code %r", where, got[1][1].exit_code)
            if case["place"] == "first" and mode == "await":
                return  # the failing stage cancels the others
            same(got[1][0], out, f"{where}: output")
        else:
            if kind == "sub_status" and case["place"] != "alone" and mode in ("await", "iter", "prompt"):
                # The stage fails; these modes of the pipeline do not raise for a stage's status.
                if got[0] == "ok" and got[1][1] is not None:
                    check(got[1][1].exit_code in built.errors, "%s: exit code %r", where, got[1][1].exit_code)
                return
            if got[0] == "ok" or type(got[1]) is not ResultError:
                raise Violation(f"{where}: the failing status is lost: {describe(got)}")
            check(got[1].result.exit_code in built.errors, "%s: ResultError with exit code %r", where, got[1].result.exit_code)
            return
    else:
        if got[0] == "exc":
            raise Violation(f"{where}: {describe(got)}")
        same(got[1][0], out, f"{where}: output")
    for path in built.files:
        if kind == "early" and os.path.basename(path).startswith(f"done-s{fault[1]}"):
            continue  # may have been killed by SIGPIPE
        check(os.path.exists(path), "%s: the run completed before its substitution did", where)
    for getter, want, what in built.sinks:
        same(getter(), want, f"{where}: {what}")
    if sink is not None:
        same(bytes(sink), errs, f"{where}: stderr")


async def judge(target, mode):
    if mode == "with":
        async with target.stdout(sh.CAPTURE) as r:
            data = b""
            while True:
                b = await r.stdout.read(20000)
                if not b:
                    break
                data += b
        return data, r.result()
    return await execute(target, mode)
