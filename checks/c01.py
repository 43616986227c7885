"C01: commands, pipelines and contexts are immutable values (model-based)."

import copy
import dataclasses
import io
import logging
import os
import pickle
import random
import signal
from pathlib import Path

from hypothesis import strategies as st

from shellous import CmdContext, Command, Pipeline, sh
from vlib.base import Violation, check, short

META = {
    "level": "exploration",
    "technique": "stateful property-based testing: random modifier histories against a reference model of immutable values",
    "level_note": "Random search over histories of up to 25 (thorough 60) operations on a growing pool of contexts, commands and pipelines; after every step every object ever made is compared with its model.",
    "rule": "A case is a history of modifier/operator/call steps over a pool of objects. Non-trivial: at least four steps that created a new object.",
    "examples": {"quick": 24000, "thorough": 400000},
    "budget": {"quick": 20, "thorough": 600},
}


def audit_fn(phase, info):
    "Module-level, so that it can be pickled."


def coerce_fn(arg):
    return arg


def coerce_dict(arg):
    return [f"{k}={v}" for k, v in arg.items()] if isinstance(arg, dict) else arg


FUNCS = {"audit": audit_fn, "coerce": coerce_fn, "coerce_dict": coerce_dict}
LOGGER = logging.getLogger("verif.c01")

# value codes (JSON-able) -> python values
VAL = {
    "path": [None, "/bin", "/usr/bin:/bin", "", "/nonexistent"],
    "inherit_env": [True, False],
    "encoding": ["utf-8", "latin-1", "utf-8 replace", "ascii strict", "utf-16"],
    "exit_codes": [None, {"set": [0, 1]}, {"range": [0, 5]}, {"frozen": [7]}, {"tuple": [0, 3]}],
    "timeout": [None, 0.5, 3, 60.0],
    "cancel_timeout": [0.0, 1.0, 3.0, 10],
    "cancel_signal": [None, {"sig": 15}, {"sig": 2}, {"sig": 1}, {"sig": 9}],
    "alt_name": [None, "", "other", "a|b"],
    "pass_fds": [{"tuple": []}, {"tuple": [7]}, {"tuple": [7, 9]}, {"list": [8]}, {"tuple": [8]}],
    "pass_fds_close": [True, False],
    "pty": [True, False],
    "close_fds": [True, False],
    "audit_callback": [None, {"fn": "audit"}],
    "coerce_arg": [None, {"fn": "coerce"}, {"fn": "coerce_dict"}],
    "error_limit": [None, 0, 1, 1024, 5000],
    "env": [None, {}, {"A": "1"}, {"B": 2, "A": "x"}, {"A": "x", "B": 2}, {"E": ""}],
}
STDIN = [{"str": ""}, {"str": "abc"}, {"str": "é\n"}, {"bytes": "00ff"}, {"bytes": ""}, {"bytearray": "6162"},
         {"Path": "/tmp/x"}, {"int": 5}, {"redir": "DEVNULL"}, {"redir": "INHERIT"}, {"redir": "CAPTURE"},
         {"stringio": "t"}, {"bytesio": "74"}]
STDOUT = [{"bytearray": ""}, {"Path": "/tmp/o"}, {"Path": "/tmp/p"}, {"int": 6}, {"redir": "DEVNULL"},
          {"redir": "INHERIT"}, {"redir": "CAPTURE"}, {"redir": "BUFFER"}, {"stringio": ""}, {"logger": 1}]
STDERR = STDOUT + [{"redir": "STDOUT"}]
ARGS = [{"str": "x"}, {"str": ""}, {"str": "é ü"}, {"bytes": "6100"}, {"Path": "a/b"}, {"num": 3}, {"num": 2.5},
        {"list": [{"str": "p"}, {"list": [{"num": 1}]}, {"bytes": "62"}]}, {"bytearray": "63"}, {"memoryview": "64"},
        {"stringio": "io"}, {"sub": 0}, {"sub": 1}, {"list": [{"sub": 2}, {"str": "z"}]}, {"list": []}, {"dict": 1}]
ENVKW = [{"A": "1"}, {"B": 2}, {"A": None, "C": "3"}, {"A": "1", "B": "2"}, {"B": "2", "A": "1"}, {"self": "s"}, {"é": "ü"}]


class Pool:
    "Redirect objects are shared within a case: they compare by identity."

    def __init__(self):
        self.cache = {}

    def get(self, code):
        key = repr(code)
        if not isinstance(code, dict):
            return code
        kind, v = next(iter(code.items()))
        if kind == "set":
            return set(v)
        if kind == "frozen":
            return frozenset(v)
        if kind == "range":
            return range(*v)
        if kind == "tuple":
            return tuple(v)
        if kind == "list":
            return list(v)
        if kind == "sig":
            return signal.Signals(v)
        if kind == "fn":
            return FUNCS[v]
        if kind in ("str", "num"):
            return v
        if kind == "bytes":
            return bytes.fromhex(v)
        if kind == "Path":
            return Path(v)
        if kind == "int":
            return v
        if kind == "redir":
            return getattr(sh, v)
        if key not in self.cache:
            self.cache[key] = {
                "bytearray": lambda: bytearray.fromhex(v),
                "memoryview": lambda: memoryview(bytes.fromhex(v)),
                "stringio": lambda: io.StringIO(v),
                "bytesio": lambda: io.BytesIO(bytes.fromhex(v)),
                "logger": lambda: LOGGER,
            }[kind]()
        return self.cache[key]


DEFAULTS = dict(
    path=None, env=None, inherit_env=True, input=-20, input_close=False, output=-20,
    output_append=False, output_close=False, error=-20, error_append=False, error_close=False,
    error_limit=1024, encoding="utf-8", exit_codes=None, timeout=None, cancel_timeout=3.0,
    cancel_signal=signal.SIGTERM, alt_name=None, pass_fds=(), pass_fds_close=False,
    pty=False, close_fds=True, audit_callback=None, coerce_arg=None,
)
# Not observable as a public field: compared through equality of objects only.
HIDDEN = dict(_result=False, _writable=False)


class Model:
    "Reference model of one object."

    def __init__(self, kind, args=(), opts=None, cmds=()):
        self.kind, self.args, self.opts, self.cmds = kind, args, opts, cmds

    def __eq__(self, other):
        return (
            isinstance(other, Model) and self.kind == other.kind and self.args == other.args
            and self.opts == other.opts and self.cmds == other.cmds
        )

    def with_opts(self, **kw):
        if "pass_fds" in kw:
            kw["pass_fds"] = tuple(kw["pass_fds"])
        if self.kind == "pipe":
            return Model("pipe", cmds=self.cmds[:-1] + (self.cmds[-1].with_opts(**kw),))
        return Model(self.kind, self.args, {**self.opts, **kw}, self.cmds)

    def first_opts(self, **kw):
        if self.kind == "pipe":
            return Model("pipe", cmds=(self.cmds[0].with_opts(**kw),) + self.cmds[1:])
        return self.with_opts(**kw)

    def hashable(self):
        if self.kind == "pipe":
            return all(c.hashable() for c in self.cmds)
        for v in self.opts.values():
            if isinstance(v, (set, list, bytearray)):
                return False
        return all(not isinstance(a, Model) or a.hashable() for a in self.args)


def fresh_opts():
    return {**DEFAULTS, **HIDDEN}


# ---- generator --------------------------------------------------------------

IDX = st.integers(0, 30)


def one_of(pool):
    return st.sampled_from(pool)


def set_kw(draw):
    keys = draw(st.lists(st.sampled_from(sorted(VAL)), max_size=4, unique=True))
    return {k: draw(st.sampled_from(VAL[k])) for k in keys}


@st.composite
def strategy_(draw, tier):
    n = draw(st.integers(1, 25 if tier == "quick" else 60))
    steps = []
    for _ in range(n):
        o = draw(st.sampled_from(
            ["call", "call", "set", "set", "env", "stdin", "stdout", "stderr", "result", "writable",
             "or", "or", "ror", "orout", "rshift", "call0", "copy", "pickle", "frozen", "rebuild", "rebuild"]
        ))
        s = {"o": o, "t": draw(IDX)}
        if o == "call":
            s["args"] = draw(st.lists(st.sampled_from(ARGS), min_size=1, max_size=3))
            s["u"] = draw(IDX)
        elif o == "set":
            s["kw"] = set_kw(draw)
        elif o == "env":
            s["kw"] = draw(st.sampled_from(ENVKW))
        elif o == "stdin":
            s.update(v=draw(st.sampled_from(STDIN)), close=draw(st.booleans()))
        elif o == "stdout":
            s.update(v=draw(st.sampled_from(STDOUT)), append=draw(st.booleans()), close=draw(st.booleans()))
        elif o == "stderr":
            s.update(v=draw(st.sampled_from(STDERR)), append=draw(st.booleans()), close=draw(st.booleans()))
        elif o == "or":
            s["u"] = draw(IDX)
        elif o == "rebuild":
            s["r"] = draw(st.integers(0, 2**32))
        elif o == "ror":
            s["v"] = draw(st.sampled_from(STDIN))
        elif o in ("orout", "rshift"):
            s["v"] = draw(st.sampled_from(STDOUT))
        steps.append(s)
    return {"steps": steps}


def strategy(tier):
    return strategy_(tier)


# ---- execution --------------------------------------------------------------


def run(case, ctx):
    pool = Pool()
    saved_env = dict(os.environ)
    objs = [(sh, Model("ctx", opts=fresh_opts())), (CmdContext(), Model("ctx", opts=fresh_opts()))]
    objs.append((sh("prog"), Model("cmd", ("prog",), fresh_opts())))
    objs.append((sh("prog") | sh("b"), Model("pipe", cmds=(Model("cmd", ("prog",), fresh_opts()), Model("cmd", ("b",), fresh_opts())))))
    made = 0
    for i, step in enumerate(case["steps"]):
        ctx.label("op:" + step["o"])
        before = len(objs)
        apply(step, objs, pool)
        made += len(objs) - before
        for j, (obj, model) in enumerate(objs):
            if j >= before or i % 4 == 0 or i == len(case["steps"]) - 1:
                verify(obj, model, f"step {i} {step['o']}: object {j}{' (new)' if j >= before else ' (existing)'}")
        if len(objs) > before:
            new, nm = objs[-1]
            for j, (obj, model) in enumerate(objs[:-1]):
                compare(new, nm, obj, model, f"step {i} {step['o']}: new object and object {j}")
    check(dict(os.environ) == saved_env, "os.environ changed")
    ctx.nontrivial(made >= 4)


def pick(objs, idx, kinds=None):
    cands = [x for x in objs if kinds is None or x[1].kind in kinds]
    return cands[idx % len(cands)]


def arg_values(code, objs, pool, u):
    "Return (python value, expected flattened model args)."
    kind, v = next(iter(code.items()))
    if kind == "list":
        pairs = [arg_values(c, objs, pool, u) for c in v]
        return [p[0] for p in pairs], [m for p in pairs for m in p[1]]
    if kind == "sub":
        obj, model = pick(objs, u + v, ("cmd", "pipe"))
        return obj, [model]
    if kind == "dict":
        return {"k": 1, "j": "w"}, ["k=1", "j=w"]
    val = pool.get(code)
    if kind == "num":
        return val, [str(val)]
    if kind in ("bytearray", "memoryview"):
        return val, [bytes(val)]
    if kind == "stringio":
        return val, [val.getvalue()]
    return val, [val]


def apply(step, objs, pool):
    o = step["o"]
    if o == "call":
        obj, model = pick(objs, step["t"], ("ctx", "cmd"))
        pairs = [arg_values(c, objs, pool, step["u"]) for c in step["args"]]
        has_dict = any("dict" in c for c in step["args"])
        lists = [(p[0], copy.copy(p[0])) for p in pairs if isinstance(p[0], (list, dict))]
        flat = tuple(m for p in pairs for m in p[1])
        if has_dict and model.opts["coerce_arg"] is not coerce_dict:
            try:
                obj(*[p[0] for p in pairs])
            except TypeError:
                return
            raise Violation("a dict argument did not raise TypeError")
        if model.kind == "ctx" and not flat:
            try:
                obj(*[p[0] for p in pairs])
            except ValueError:
                return
            raise Violation("a command without a program name did not raise ValueError")
        new = obj(*[p[0] for p in pairs])
        for given, saved in lists:
            check(given == saved, "argument %r was modified", given)
            given.clear()  # later changes by the caller must not show
        objs.append((new, Model("cmd", model.args + flat, model.opts)))
        return
    if o == "call0":
        obj, model = pick(objs, step["t"], ("cmd", "pipe"))
        new = obj()
        check(new == obj, "calling %s with no arguments is not the identity", short(obj))
        objs.append((new, model))
        return
    if o == "set":
        obj, model = pick(objs, step["t"], ("ctx", "cmd"))
        given = {k: pool.get(v) if k != "env" else (dict(v) if v is not None else None) for k, v in step["kw"].items()}
        want = dict(given)
        if "env" in given:
            want["env"] = {str(k): str(v) for k, v in given["env"].items()} if given["env"] else None
        env_given = given.get("env")
        env_copy = dict(env_given) if env_given is not None else None
        new = obj.set(**given)
        check(env_given == env_copy, "the env dict passed to set() was modified")
        if env_given is not None:
            env_given["LATER"] = "1"
        objs.append((new, model.with_opts(**want)))
        return
    if o == "env":
        obj, model = pick(objs, step["t"], ("ctx", "cmd"))
        new = obj.env(**step["kw"]) if "self" not in step["kw"] else obj.env(SELF="s")
        kw = {"SELF": "s"} if "self" in step["kw"] else step["kw"]
        env = {**(model.opts["env"] or {}), **{k: str(v) for k, v in kw.items()}}
        objs.append((new, model.with_opts(env=env)))
        return
    if o in ("stdin", "stdout", "stderr"):
        obj, model = pick(objs, step["t"])
        val = pool.get(step["v"])
        if o == "stdin":
            new = obj.stdin(val, close=step["close"])
            objs.append((new, model.first_opts(input=val, input_close=step["close"])))
        elif o == "stdout":
            new = obj.stdout(val, append=step["append"], close=step["close"])
            objs.append((new, model.with_opts(output=val, output_append=step["append"], output_close=step["close"])))
        else:
            new = obj.stderr(val, append=step["append"], close=step["close"])
            objs.append((new, model.with_opts(error=val, error_append=step["append"], error_close=step["close"])))
        return
    if o == "result":
        obj, model = pick(objs, step["t"])
        objs.append((obj.result, model.with_opts(_result=True, exit_codes=range(-255, 256))))
        return
    if o == "writable":
        obj, model = pick(objs, step["t"], ("cmd", "pipe"))
        objs.append((obj.writable, model.with_opts(_writable=True)))
        return
    if o == "or":
        a, ma = pick(objs, step["t"], ("cmd", "pipe"))
        b, mb = pick(objs, step["u"], ("cmd", "pipe"))
        cmds = (ma.cmds if ma.kind == "pipe" else (ma,)) + (mb.cmds if mb.kind == "pipe" else (mb,))
        if len(cmds) <= 12:
            objs.append((a | b, Model("pipe", cmds=cmds)))
        return
    if o == "ror":
        b, mb = pick(objs, step["t"], ("cmd", "pipe"))
        val = pool.get(step["v"])
        objs.append((val | b, mb.first_opts(input=val, input_close=False)))
        return
    if o in ("orout", "rshift"):
        a, ma = pick(objs, step["t"], ("cmd", "pipe"))
        val = pool.get(step["v"])
        new = (a | val) if o == "orout" else (a >> val)
        objs.append((new, ma.with_opts(output=val, output_append=o == "rshift", output_close=False)))
        return
    if o == "copy":
        obj, model = pick(objs, step["t"])
        objs.append((copy.copy(obj), model))
        return
    if o == "pickle":
        obj, model = pick(objs, step["t"])
        if picklable(model):
            new = pickle.loads(pickle.dumps(obj))
            check(new == obj, "pickle round trip of %s gives %s", short(obj), short(new))
            verify(new, model, "unpickled object")
            if model.hashable():
                check(hash(new) == hash(obj), "pickle round trip changed the hash of %s", short(obj))
            objs.append((new, model))
        return
    if o == "rebuild":
        obj, model = pick(objs, step["t"])
        rnd = random.Random(step["r"])
        new = rebuild(model, rnd)
        verify(new, model, "rebuilt object")
        objs.append((new, model))
        return
    if o == "frozen":
        obj, model = pick(objs, step["t"])
        names = {"ctx": ["options"], "cmd": ["args", "options"], "pipe": ["commands"]}[model.kind]
        for name in names:
            try:
                setattr(obj, name, ())
            except (dataclasses.FrozenInstanceError, AttributeError):
                continue
            raise Violation(f"attribute {name} of {short(obj)} can be assigned")
        return
    raise AssertionError(o)


def rebuild(model, rnd):
    "Build the object again from its model, by another route and order."
    if model.kind == "pipe":
        cmds = [rebuild(m, rnd) for m in model.cmds]
        if len(cmds) == 1:
            return Pipeline.create(cmds[0])
        while len(cmds) > 1:  # any grouping gives the same pipeline
            i = rnd.randrange(len(cmds) - 1)
            cmds[i : i + 2] = [cmds[i] | cmds[i + 1]]
        return cmds[0]
    obj = CmdContext()
    steps = []
    for key in VAL:
        if key == "env":
            items = list((model.opts["env"] or {}).items())
            rnd.shuffle(items)
            if items and rnd.random() < 0.5:
                steps += [lambda x, k=k, v=v: x.env(**{k: v}) for k, v in items]
            elif items:
                steps.append(lambda x, items=items: x.set(env=dict(items)))
        elif key not in ("coerce_arg", "exit_codes"):
            val = model.opts[key]
            if val != DEFAULTS[key] or rnd.random() < 0.1:
                steps.append(lambda x, key=key, val=val: x.set(**{key: val}))
    m = model.opts
    if m["_result"]:
        steps.append(lambda x: x.result)
    if m["_writable"]:
        steps.append(lambda x: x.set(_writable=True) if isinstance(x, CmdContext) else x.writable)
    if m["input"] != -20 or m["input_close"]:
        steps.append(lambda x: x.stdin(m["input"], close=m["input_close"]))
    if m["output"] != -20 or m["output_append"] or m["output_close"]:
        steps.append(lambda x: x.stdout(m["output"], append=m["output_append"], close=m["output_close"]))
    if m["error"] != -20 or m["error_append"] or m["error_close"]:
        steps.append(lambda x: x.stderr(m["error"], append=m["error_append"], close=m["error_close"]))
    rnd.shuffle(steps)
    cut = rnd.randrange(len(steps) + 1) if model.kind == "cmd" else len(steps)
    for fn in steps[:cut]:
        obj = fn(obj)
    if model.kind == "cmd":
        args = [rebuild(a, rnd) if isinstance(a, Model) else a for a in model.args]
        k = rnd.randrange(1, len(args) + 1)
        obj = obj(*args[:k])(*args[k:])
        for fn in steps[cut:]:
            obj = fn(obj)
    return obj.set(exit_codes=m["exit_codes"], coerce_arg=m["coerce_arg"])


def picklable(model):
    if model.kind == "pipe":
        return all(picklable(c) for c in model.cmds)
    for k, v in model.opts.items():
        if isinstance(v, (io.IOBase,)):
            return False
    return all(not isinstance(a, Model) or picklable(a) for a in model.args)


def verify(obj, model, where):
    "Check every public part of obj against the model."
    if model.kind == "pipe":
        check(isinstance(obj, Pipeline), "%s: is a %s, not a Pipeline", where, type(obj).__name__)
        check(len(obj) == len(model.cmds), "%s: %d commands, expected %d", where, len(obj), len(model.cmds))
        for k, m in enumerate(model.cmds):
            verify(obj[k], m, f"{where} command {k}")
        return
    want_type = CmdContext if model.kind == "ctx" else Command
    check(isinstance(obj, want_type), "%s: is a %s, not a %s", where, type(obj).__name__, want_type.__name__)
    for key in DEFAULTS:
        got, want = getattr(obj.options, key), model.opts[key]
        if key == "env":
            got_d = dict(got) if got is not None else None
            if (got_d or {}) != (want or {}):
                raise Violation(f"{where}: env is {short(got_d)}, expected {short(want)}")
            continue
        if isinstance(want, (io.IOBase, logging.Logger)) or callable(want):
            ok = got is want
        elif key == "exit_codes" and want is not None:
            ok = got is not None and all((c in got) == (c in want) for c in range(-256, 257))
        elif key == "pass_fds":
            ok = tuple(got) == tuple(want)
        else:
            ok = got == want and (type(got) is type(want) or isinstance(got, int))
        if not ok:
            raise Violation(f"{where}: {key} is {short(got)}, expected {short(want)}")
    if model.kind == "cmd":
        check(len(obj.args) == len(model.args), "%s: %d args, expected %d: %s", where, len(obj.args), len(model.args), short(obj.args))
        for k, (a, m) in enumerate(zip(obj.args, model.args)):
            if isinstance(m, Model):
                verify(a, m, f"{where} arg {k}")
            elif a != m or type(a) is not type(m):
                raise Violation(f"{where}: arg {k} is {short(a)}, expected {short(m)}")


def compare(a, ma, b, mb, where):
    want = ma == mb
    got = a == b
    check(got is want, "%s: == is %r, expected %r: %s / %s", where, got, want, short(a), short(b))
    check((a != b) is (not want), "%s: != is inconsistent", where)
    if want and ma.hashable() and mb.hashable():
        check(hash(a) == hash(b), "%s are equal but their hashes differ: %s", where, short(a))
        check(len({a, b}) == 1, "%s are equal but distinct in a set", where)
