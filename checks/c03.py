"C03: the child's environment and program lookup follow the settings."

import os
import pathlib
import shutil

from hypothesis import strategies as st

from shellous import sh
from vlib import gen
from vlib.base import Violation, check, describe, outcome, short
from vlib.rt import execute, pipe

META = {
    "level": "exploration",
    "technique": "property-based testing: generated environments and search paths against a reference model of env merging and PATH lookup",
    "level_note": "Random search; the child reports its own environment, argv[0] and /proc/self/exe. The search path consists of scratch directories holding executables, non-executables, directories and dangling links.",
    "rule": "A case is a parent environment, a sequence of env()/set(env=) steps, inherit_env, a search path layout and a program name. Non-trivial: at least two environment variables set by the command, or a lookup with at least two candidate directories.",
    "examples": {"quick": 9000, "thorough": 120000},
    "budget": {"quick": 20, "thorough": 600},
}

KEYS = st.one_of(
    st.sampled_from(["A", "B", "C", "PATH", "HOME", "LANG", "A B", "é", "x.y", "self", "LC_ALL"]),
    st.text("abcXYZ_é", min_size=1, max_size=5),
)
TEXT = gen.texts(12).map(lambda t: t.replace("\0", "0"))
VALS = st.one_of(
    TEXT.map(lambda v: {"k": "str", "v": v}),
    st.integers(-1000, 10**12).map(lambda v: {"k": "num", "v": v}),
    st.sampled_from([{"k": "num", "v": 2.5}, {"k": "num", "v": True}, {"k": "none"}, {"k": "path", "v": "/x/y"},
                     {"k": "str", "v": ""}, {"k": "str", "v": "a=b=c"}, {"k": "str", "v": "x" * 5000}]),
    st.binary(min_size=1, max_size=6).map(lambda b: {"k": "surr", "v": b.replace(b"\0", b"\1")}),
)


def val(v):
    k = v["k"]
    if k in ("str", "num"):
        return v["v"]
    if k == "none":
        return None
    if k == "path":
        return pathlib.Path(v["v"])
    return os.fsdecode(v["v"])


ENVD = st.dictionaries(KEYS, VALS, max_size=4)
ENTRY = st.sampled_from(["exe0", "exe1", "exe2", "exe3", "noexec", "dir", "dangling", "missing", "missing"])


@st.composite
def strategy_(draw, tier):
    return {
        "parent": draw(ENVD),
        "drop": draw(st.lists(st.sampled_from(["LANG", "LC_ALL", "HOME", "TMPDIR"]), max_size=2)),
        "steps": draw(st.lists(st.tuples(st.sampled_from(["env", "env", "set", "clear"]), ENVD, st.booleans()).map(list), max_size=4)),
        "inherit": draw(st.sampled_from([True, True, False])),
        "dirs": draw(st.lists(st.lists(ENTRY, min_size=2, max_size=2), min_size=1, max_size=4)),
        "use": draw(st.sampled_from(["path", "path", "PATH", "emptypath"])),
        "order": draw(st.permutations(range(4))),
        "name": draw(st.sampled_from(["prog", "prog", "prog", "other", "abs", "rel", "absmissing", "path", "bytes", "dotted"])),
        "mode": draw(st.sampled_from(["await", "check", "with", "iter", "prompt"])),
        "pos": draw(st.sampled_from(["alone", "alone", "first", "last"])),
        "again": draw(st.booleans()),
    }


def strategy(tier):
    return strategy_(tier)


def setup(ctx):
    ctx.copies = []
    for i in range(4):
        p = os.path.join(ctx.scratch, f"copy{i}")
        shutil.copy(ctx.vchild, p)
        os.chmod(p, 0o755)
        ctx.copies.append(os.path.realpath(p))


def run(case, ctx):
    ctx.label("mode:" + case["mode"], "name:" + case["name"], "use:" + case["use"])
    saved = dict(os.environ)
    cwd = os.getcwd()
    try:
        os.chdir(ctx.dir)
        _run(case, ctx)
    finally:
        os.chdir(cwd)
        os.environ.clear()
        os.environ.update(saved)


def layout(case, ctx):
    "Create the directories. Returns [(dir, {name: entry})]."
    out = []
    for i, entries in enumerate(case["dirs"]):
        d = ctx.path(f"d{i}")
        os.mkdir(d)
        table = {}
        for name, e in zip(("prog", "other"), entries):
            p = os.path.join(d, name)
            if e.startswith("exe"):
                os.symlink(ctx.copies[int(e[3])], p)
            elif e == "noexec":
                with open(p, "w") as f:
                    f.write("#!/bin/sh\necho executed\n")
                os.chmod(p, 0o644)
            elif e == "dir":
                os.mkdir(p)
            elif e == "dangling":
                os.symlink("/nonexistent/x", p)
            table[name] = e
        out.append((d, table))
    return out


def _run(case, ctx):
    dirs = layout(case, ctx)
    order = [i for i in case["order"] if i < len(dirs)]
    search = ":".join(dirs[i][0] for i in order)
    ctxt = sh
    for k, v in case["parent"].items():
        if k != "PATH":
            os.environ[k] = str(val(v))
    for k in case["drop"]:
        os.environ.pop(k, None)
    use = case["use"]
    if use == "path":
        ctxt = ctxt.set(path=search)
    elif use == "PATH":
        os.environ["PATH"] = search
    else:
        ctxt = ctxt.set(path="")
        order = []
    # Which file should be run?
    kind = case["name"]
    base = "other" if kind == "other" else "prog"
    if kind in ("abs", "rel", "dotted", "absmissing"):
        d, table = dirs[0]
        target = {"abs": os.path.join(d, base), "rel": f"d0/{base}", "dotted": f"./d0/{base}", "absmissing": os.path.join(d, "nope")}[kind]
        entry = "missing" if kind == "absmissing" else table[base]
        want_arg0 = target
        prog = target
    else:
        entry, want_arg0 = "missing", None
        for i in order:
            d, table = dirs[i]
            if table[base].startswith("exe"):
                entry, want_arg0 = table[base], os.path.join(d, base)
                break
        prog = base
        got = ctxt.find_command(base)
        want_found = pathlib.Path(want_arg0) if want_arg0 else None
        check(got == want_found, "find_command(%r) is %r, expected %r", base, got, want_found)
    if kind == "path":
        prog = pathlib.PurePosixPath(prog)
    elif kind == "bytes":
        if use == "emptypath" or use == "path":
            kind = "prog"  # a bytes name cannot be joined with a str path
        else:
            prog = os.fsencode(prog)
    # Environment.
    cmd = ctxt(prog, "arg0", "w:1:0a", "env", "touch", ctx.path("ran"))
    if kind == "bytes":
        cmd = ctxt(prog, "arg0", "w:1:0a", "env", "touch", ctx.path("ran"))
    own = {}
    for what, kw, _ in case["steps"]:
        kws = {("SELF" if k == "self" else k): val(v) for k, v in kw.items()}
        if what == "env":
            cmd = cmd.env(**kws)
            own.update({k: str(v) for k, v in kws.items()})
        elif what == "set":
            cmd = cmd.set(env=kws)
            own = {k: str(v) for k, v in kws.items()}
        else:
            cmd = cmd.set(env=None)
            own = {}
    if not case["inherit"]:
        cmd = cmd.set(inherit_env=False)
    ctx.nontrivial(len(own) >= 2 or len(order) >= 2)
    parent = dict(os.environ)
    env = {**(parent if case["inherit"] else {}), **own}
    want_env = sorted(os.fsencode(f"{k}={v}") for k, v in env.items())
    cat = sh(ctx.vchild, "cat")
    target = {"alone": [cmd], "first": [cmd, cat], "last": [sh(ctx.vchild, "x:0"), cmd]}[case["pos"]]
    ctx.label("entry:" + entry[:3])
    for i in range(2 if case["again"] else 1):
        if os.path.exists(ctx.path("ran")):
            os.unlink(ctx.path("ran"))
        out = ctx.aio(lambda: outcome(execute(pipe(target), case["mode"])))
        check(dict(os.environ) == parent, "running the command changed os.environ")
        ran = os.path.exists(ctx.path("ran"))
        if entry.startswith("exe"):
            if out[0] == "exc":
                raise Violation(f"program {prog!r} should run {want_arg0}: {describe(out)}")
            head, _, rest = out[1][0].partition(b"\n\n")
            arg0, exe = [bytes.fromhex(x.decode()) for x in head.split(b"\n")]
            check(ran, "the program did not run to its end")
            check(exe == os.fsencode(ctx.copies[int(entry[3])]), "program %r: ran %s, expected %s", prog, exe, ctx.copies[int(entry[3])])
            check(arg0 == os.fsencode(want_arg0), "program %r: argv[0] is %s, expected %s", prog, arg0, want_arg0)
            got_env = sorted(bytes.fromhex(x.decode()) for x in rest.split(b"\n") if x)
            if got_env != want_env:
                miss = [x for x in want_env if x not in got_env]
                more = [x for x in got_env if x not in want_env]
                raise Violation(f"environment: missing {short(miss)}, unexpected {short(more)}")
        else:
            ok = (FileNotFoundError, PermissionError)
            if entry in ("missing", "dangling"):
                ok = (FileNotFoundError,)
            check(not ran, "program %r cannot be found but something was run", prog)
            if out[0] == "ok" or not isinstance(out[1], ok):
                raise Violation(f"program {prog!r} is {entry}: {describe(out)}")
