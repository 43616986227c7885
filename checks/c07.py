"C07: buffered stderr is exactly the first error_limit bytes and never blocks."

import asyncio
import io

from hypothesis import strategies as st

from shellous import ResultError, sh
from vlib import gen
from vlib.base import Violation, describe, outcome, same
from vlib.rt import last, read_to_end

META = {
    "level": "exploration",
    "technique": "property-based testing: generated error_limit, write chunking and volumes against the prefix oracle",
    "level_note": "Random search with limits and sizes concentrated on the read-chunk, limit and pipe-capacity boundaries, and on chunkings that hit the limit exactly at a chunk border.",
    "rule": "A case is a limit, a list of stderr/stdout writes with delays, a run mode and position. Non-trivial: more bytes written to stderr than the limit, or exactly the limit.",
    "examples": {"quick": 10000, "thorough": 150000},
    "budget": {"quick": 20, "thorough": 600},
}

LIMITS = st.one_of(
    st.sampled_from(["default", "default", None, 0, 1, 2, 1023, 1024, 1025, 8191, 8192, 8193, 16384, 65536, 100000]),
    st.integers(0, 5000), st.integers(0, 40),
)


@st.composite
def strategy_(draw, tier):
    limit = draw(LIMITS)
    n = 1024 if limit == "default" else 3000 if limit is None else limit
    near = st.one_of(
        st.sampled_from([max(0, n - 1), n, n + 1, max(0, n - 8192), n + 8192, 2 * n]), gen.sizes(200_000), st.integers(0, max(1, n)),
    )
    parts = draw(st.lists(
        st.builds(lambda s, k, d, c: ["e", s, k, d, c], st.integers(0, 255), near, st.sampled_from([0, 0, 1, 3]), st.sampled_from([0, 0, 1, 100, 8192])),
        min_size=0, max_size=5))
    outs = draw(st.lists(st.builds(lambda s, k: ["o", s, k, 0, 0], st.integers(0, 255), gen.sizes(120_000)), max_size=2))
    for o in outs:
        parts.insert(draw(st.integers(0, len(parts))), o)
    return {
        "limit": limit, "parts": parts,
        "sink": draw(st.sampled_from(["default", "default", "BUFFER", "bytearray", "bytesio", "CAPTURE", "STDOUT", "errout"])),
        "mode": draw(st.sampled_from(["await", "check", "with", "iter", "prompt"])),
        "pos": draw(st.sampled_from(["alone", "alone", "last", "ctx"])),
        "code": draw(st.sampled_from([0, 0, 9])),
    }


def strategy(tier):
    return strategy_(tier)


def run(case, ctx):
    ctx.label("sink:" + case["sink"], "mode:" + case["mode"])
    err = b"".join(gen.pattern(p[1], p[2]) for p in case["parts"] if p[0] == "e")
    out = b"".join(gen.pattern(p[1], p[2]) for p in case["parts"] if p[0] == "o")
    merged = b"".join(gen.pattern(p[1], p[2]) for p in case["parts"])
    n = 1024 if case["limit"] == "default" else case["limit"]
    ctx.nontrivial(n is not None and len(err) >= n and len(err) > 0)
    if n is not None and len(err) > n:
        ctx.label("over the limit")
    if n is not None and len(err) == n:
        ctx.label("exactly the limit")
    ctx.aio(lambda: go(case, ctx, err, out, merged, n))


async def go(case, ctx, err, out, merged, n):
    ops = []
    for what, seed, size, ms, chunk in case["parts"]:
        fd = 2 if what == "e" else 1
        c = f":{chunk}" if chunk and (chunk > 50 or size < 3000) else ""
        ops.append(f"p:{fd}:{seed}:{size}{c}")
        if ms:
            ops.append(f"s:{ms}")
    ops.append(f"x:{case['code']}")
    ctxt = sh
    if case["limit"] != "default" and case["pos"] == "ctx":
        ctxt = sh.set(error_limit=case["limit"])
    cmd = ctxt(ctx.vchild, *ops).set(encoding="latin-1")
    if case["limit"] != "default" and case["pos"] != "ctx":
        cmd = cmd.set(error_limit=case["limit"])
    sink, mode = case["sink"], case["mode"]
    holder = None
    want_out, want_err, want_sink = out, err if n is None else err[:n], None
    if sink == "BUFFER":
        cmd = cmd.stderr(sh.BUFFER)
    elif sink in ("bytearray", "bytesio"):
        holder = bytearray() if sink == "bytearray" else io.BytesIO()
        cmd = cmd.stderr(holder)
        want_err, want_sink = b"", err
    elif sink == "CAPTURE":
        cmd = cmd.stderr(sh.CAPTURE)
        want_err, mode = b"", "with"
    elif sink == "STDOUT":
        cmd = cmd.stderr(sh.STDOUT)
        want_err, want_out = b"", merged
    elif sink == "errout":
        # Only stderr is wanted: it is the output, and has no limit.
        if mode != "check":
            mode = "await"
        cmd = cmd.stdout(sh.DEVNULL).stderr(sh.STDOUT)
        want_err, want_out = b"", err
    target = cmd if case["pos"] != "last" else sh(ctx.vchild, "x:0") | cmd
    got = await outcome(execute(target, mode, sink))
    if mode == "check" and case["code"]:
        if got[0] == "ok" or not isinstance(got[1], ResultError):
            raise Violation(f"exit code 9: {describe(got)}")
        got = ("ok", (got[1].result.output_bytes, got[1].result, None))
    if got[0] == "exc":
        raise Violation(f"limit {n} sink {sink}: {describe(got)}")
    outb, res, cap = got[1]
    same(outb, want_out, f"stdout with limit {n}, stderr {sink}, {mode}")
    if res is not None:
        same(res.error_bytes, want_err, f"result.error_bytes with limit {n} and {len(err)} bytes written, sink {sink}, {mode}")
        if res.exit_code != case["code"]:
            raise Violation(f"exit code {res.exit_code}, expected {case['code']} (limit {n}, {len(err)} bytes of stderr)")
    if cap is not None:
        same(cap, err, f"captured stderr with limit {n}")
    if want_sink is not None:
        same(bytes(holder) if sink == "bytearray" else holder.getvalue(), want_sink, f"stderr sink {sink} with limit {n}")


async def execute(target, mode, sink):
    if mode in ("await", "check"):
        fn = (lambda c: c.result) if mode == "await" else (lambda c: c.set(_return_result=True))
        res = await last(target, fn)
        return res.output_bytes, res, None
    if mode == "iter":
        if sink == "STDOUT":
            pass
        return "".join([x async for x in target]).encode("latin-1"), None, None
    if mode == "prompt":
        async with target.prompt() as cli:
            cli.close()
            text = await cli.read_all()
        return text.encode("latin-1"), cli.result, None
    async with target.stdout(sh.CAPTURE) as run:
        tasks = [asyncio.ensure_future(read_to_end(run.stdout))]
        if sink == "CAPTURE":
            tasks.append(asyncio.ensure_future(read_to_end(run.stderr)))
        outs = [await t for t in tasks]
    return outs[0], run.result(check=False), outs[1] if sink == "CAPTURE" else None
