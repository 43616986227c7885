"C02: arguments reach the child exactly as given, flattened in order."

import io
import ipaddress
import os
import pathlib

from hypothesis import strategies as st

from shellous import sh
from vlib import gen
from vlib.base import Violation, check, describe, outcome, short
from vlib.rt import execute

META = {
    "level": "exploration",
    "technique": "property-based testing: generated nested argument trees, compared byte for byte with the argv the child reports",
    "level_note": "Random search over argument trees, repeated calls, coercion functions and run modes; argv is reported by the C child (read from its own argv), so the whole path to execve is covered.",
    "rule": "A case is a list of calls, each a list of argument trees, with an optional coerce_arg function. Non-trivial: at least two arguments reach the child, or an unsupported value is nested inside a list.",
    "examples": {"quick": 10000, "thorough": 150000},
    "budget": {"quick": 20, "thorough": 600},
}


class PathLike:
    def __init__(self, value):
        self.value = value

    def __fspath__(self):
        return self.value


class Strange:
    "An ordinary object: converted with str()."

    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text

    def __iter__(self):
        return iter("never iterate")


class StrSub(str):
    pass


class ListSub(list):
    pass


NO_NUL = gen.texts(20).map(lambda t: t.replace("\0", "0"))
RAW = st.binary(max_size=24).map(lambda b: b.replace(b"\0", b"\1"))

LEAF = st.one_of(
    st.builds(lambda v: {"k": "str", "v": v}, NO_NUL),
    st.builds(lambda v: {"k": "str", "v": v}, st.sampled_from(["", " ", "-n", "--", "'", '"', "\\", "$HOME", "*", "~", "a b", "\n", ";ls", "`x`", "-", "%s", "{}"])),
    st.builds(lambda v: {"k": "surr", "v": v}, RAW),
    st.builds(lambda k, v: {"k": k, "v": v}, st.sampled_from(["bytes", "bytearray", "memoryview", "bytesio", "fspath_b"]), RAW),
    st.builds(lambda k, v: {"k": k, "v": v}, st.sampled_from(["stringio", "strange", "strsub", "path", "fspath_s"]), NO_NUL),
    st.builds(lambda v: {"k": "int", "v": v}, st.integers(-(10**20), 10**20)),
    st.builds(lambda v: {"k": "float", "v": v}, st.floats(allow_nan=False)),
    st.builds(lambda v: {"k": "bool", "v": v}, st.booleans()),
    st.sampled_from([{"k": "ip"}, {"k": "net"}, {"k": "long", "v": 100000}]),
)
# Nothing can pass a NUL byte to a program: it must be refused, not altered.
NUL = st.one_of(
    st.builds(lambda k, a, b: {"k": k, "v": a + b"\0" + b}, st.sampled_from(["bytes", "bytearray", "memoryview", "bytesio", "fspath_b"]), RAW, st.just(b"") | RAW),
    st.builds(lambda k, a, b: {"k": k, "v": a + "\0" + b}, st.sampled_from(["str", "stringio", "strange", "strsub", "fspath_s"]), NO_NUL, st.just("") | NO_NUL),
)
BAD = st.builds(lambda k: {"k": k}, st.sampled_from(["none", "ellipsis", "dict", "set", "frozenset", "range", "gen", "mapping", "keys"]))


def tree(leaf):
    return st.recursive(
        leaf,
        lambda inner: st.builds(
            lambda k, v: {"k": k, "v": v},
            st.sampled_from(["list", "tuple", "list", "tuple", "listsub", "reversed", "enumerate", "zip"]),
            st.lists(inner, max_size=4),
        ),
        max_leaves=8,
    )


@st.composite
def strategy_(draw, tier):
    bad = draw(st.integers(0, 3)) == 0
    leaf = st.one_of(LEAF, LEAF, LEAF, BAD) if bad else LEAF
    if draw(st.integers(0, 9)) == 7:
        leaf = st.one_of(LEAF, LEAF, NUL)
    calls = draw(st.lists(st.lists(tree(leaf), max_size=4), min_size=1, max_size=4))
    case = {
        "calls": calls,
        "coerce": draw(st.sampled_from(["", "", "dict", "wrap", "none", "int", "upper"])),
        "mode": draw(st.sampled_from(["await", "with", "iter"])),
        "where": draw(st.sampled_from(["ctx", "cmd"])),
    }
    if draw(st.integers(0, 40)) == 7:
        case["many"] = draw(st.integers(500, 3000))
    return case


def strategy(tier):
    return strategy_(tier)


# ---- coercion functions -----------------------------------------------------

CALLS = []


def co_dict(arg):
    CALLS.append(arg)
    if isinstance(arg, dict):
        return [f"--{k}={v}" for k, v in arg.items()]
    return arg


def co_wrap(arg):
    CALLS.append(arg)
    return ["<", arg, (">",)]


def co_none(arg):
    CALLS.append(arg)
    return [] if arg is None else arg


def co_int(arg):
    CALLS.append(arg)
    if type(arg) is int:
        return hex(arg)
    return arg


def co_upper(arg):
    CALLS.append(arg)
    return arg.upper() if type(arg) is str else arg


COERCE = {"": None, "dict": co_dict, "wrap": co_wrap, "none": co_none, "int": co_int, "upper": co_upper}


def build(t):
    "Python value of an argument tree."
    k, v = t["k"], t.get("v")
    if k in ("str", "int", "bool", "float"):
        return v
    if k == "surr":
        return os.fsdecode(v)
    if k == "bytes":
        return bytes(v)
    if k == "bytearray":
        return bytearray(v)
    if k == "memoryview":
        return memoryview(bytes(v))
    if k == "bytesio":
        f = io.BytesIO(v)
        f.seek(len(v) // 2)
        return f
    if k == "stringio":
        return io.StringIO(v, newline="")
    if k == "strange":
        return Strange(v)
    if k == "strsub":
        return StrSub(v)
    if k == "path":
        return pathlib.PurePosixPath(v)
    if k == "fspath_s":
        return PathLike(v)
    if k == "fspath_b":
        return PathLike(bytes(v))
    if k == "ip":
        return ipaddress.ip_address("10.1.2.3")
    if k == "net":
        return ipaddress.ip_network("10.1.2.0/30")
    if k == "long":
        return "x" * v
    if k == "none":
        return None
    if k == "ellipsis":
        return ...
    if k == "dict":
        return {"a": 1, "b": "two"}
    if k == "mapping":
        return os.environ
    if k == "keys":
        return {"a": 1}.keys()
    if k == "set":
        return {1, 2}
    if k == "frozenset":
        return frozenset({"a"})
    if k == "range":
        return range(3)
    if k == "gen":
        return (x for x in "ab")
    items = [build(x) for x in v]
    if k == "list":
        return items
    if k == "listsub":
        return ListSub(items)
    if k == "tuple":
        return tuple(items)
    if k == "reversed":
        return reversed(tuple(items))
    if k == "enumerate":
        return enumerate(items)
    if k == "zip":
        return zip(items, [build(x) for x in v])
    raise AssertionError(k)


BAD_KINDS = {"none", "ellipsis", "dict", "mapping", "keys", "set", "frozenset", "range", "gen"}


class Bad(Exception):
    pass


def flat(t):
    "Expected argv entries (bytes) of a tree without coercion; Bad if unsupported."
    k, v = t["k"], t.get("v")
    if k in BAD_KINDS:
        raise Bad(k)
    if k in ("str", "strsub", "stringio", "strange", "fspath_s"):
        return [v.encode("utf-8", "surrogateescape")]
    if k == "path":
        return [str(pathlib.PurePosixPath(v)).encode()]
    if k in ("surr", "bytes", "bytearray", "memoryview", "bytesio", "fspath_b"):
        return [bytes(v)]
    if k in ("int", "bool", "float"):
        return [str(v).encode()]
    if k == "ip":
        return [b"10.1.2.3"]
    if k == "net":
        return [b"10.1.2.0/30"]
    if k == "long":
        return [b"x" * v]
    if k in ("list", "tuple", "listsub"):
        return [b for x in v for b in flat(x)]
    if k == "reversed":
        return [b for x in reversed(v) for b in flat(x)]
    if k == "enumerate":
        return [b for i, x in enumerate(v) for b in [str(i).encode()] + flat(x)]
    if k == "zip":
        return [b for x in v for b in flat(x) + flat(x)]
    raise AssertionError(k)


def expect(t, coerce):
    "Expected argv entries of one top-level argument."
    k = t["k"]
    if coerce == "dict" and k == "dict":
        return [b"--a=1", b"--b=two"]
    if coerce == "wrap":
        return [b"<"] + flat(t) + [b">"]
    if coerce == "none" and k == "none":
        return []
    if coerce == "int" and k == "int":
        return [hex(t["v"]).encode()]
    if coerce == "upper" and k == "str":
        return [t["v"].upper().encode()]
    if coerce == "upper" and k == "long":
        return [b"X" * t["v"]]
    if coerce == "upper" and k == "surr":
        return [os.fsencode(os.fsdecode(t["v"]).upper())]
    return flat(t)


def has_nul(argv):
    return any(b"\0" in a for a in argv)


def run(case, ctx):
    ctx.label("coerce:" + (case["coerce"] or "no"), "mode:" + case["mode"])
    coerce = case["coerce"]
    fn = COERCE[coerce]
    base = sh(ctx.vchild, "argv", "--")
    if fn:
        if case["where"] == "ctx":
            # The context coerces the program's own arguments as well.
            base = sh(ctx.vchild, "argv", "--").set(coerce_arg=fn)
        else:
            base = base.set(coerce_arg=fn)
    cmd = base
    want = []
    for call in case["calls"]:
        trees = list(call)
        bad = None
        part = []
        for t in trees:
            try:
                part += expect(t, coerce)
            except Bad as ex:
                bad = ex
                break
        values = [build(t) for t in trees]
        CALLS.clear()
        if bad:
            ctx.label("bad:" + str(bad))
            ctx.nontrivial(any(t["k"] in ("list", "tuple") for t in trees))
            try:
                got = cmd(*values)
            except TypeError:
                continue  # the earlier command is still usable
            raise Violation(f"unsupported {bad} argument did not raise TypeError: {short(got.args)}")
        cmd = cmd(*values)
        if fn:
            check(
                len(CALLS) == len(values) and all(a is b for a, b in zip(CALLS, values)),
                "coerce_arg was called with %s for arguments %s", short(CALLS), short(values),
            )
        want += part
    if "many" in case:
        extra = [f"m{i}" for i in range(case["many"])]
        cmd = cmd(extra) if coerce != "upper" else cmd(*extra)
        add = [x.encode() for x in extra]
        if coerce == "upper":
            add = [x.upper() for x in add]
        elif coerce == "wrap":
            add = [b"<"] + add + [b">"]
        want += add
        ctx.label("many")
    if sum(map(len, want)) > 1_000_000:
        return
    ctx.nontrivial(len(want) >= 2)
    mode = case["mode"]
    if mode == "iter" and any(len(x) > 20000 for x in want):
        mode = "with"  # a line is limited to 64 KiB
    out = ctx.aio(lambda: outcome(execute(cmd, mode)))
    if has_nul(want):
        ctx.label("nul")
        check(out[0] == "exc" and isinstance(out[1], ValueError), "embedded NUL: %s", describe(out))
        return
    if out[0] == "exc":
        raise Violation(f"running with arguments {short(want)}: {describe(out)}")
    got = [bytes.fromhex(x.decode()) for x in out[1][0].split(b"\n")[:-1]]
    if got != want:
        for i, (g, w) in enumerate(zip(got + [None] * len(want), want)):
            if g != w:
                raise Violation(f"argument {i} of {len(want)}: child got {short(g)}, expected {short(w)} (child got {len(got)})")
        raise Violation(f"child got {len(got)} arguments, expected {len(want)}: {short(got)}")
