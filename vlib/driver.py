"Parent process of a check: builds, runs workers, confirms, reports."

import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
# Two checks at the same time must not share users: what a worker leaves running
# is ended by user.
UID_BASE = 20000 + os.getpid() % 97 * 420
STUCK_S = 100.0  # no heartbeat for this long: the worker is blocked


class HarnessError(Exception):
    pass


def build_vchild(scratch):
    src = os.path.join(HERE, "vlib", "vchild.c")
    out = os.path.join(scratch, "vchild")
    for extra in (["-static"], []):
        p = subprocess.run(
            ["gcc", "-O1", "-w", *extra, "-o", out, src], capture_output=True, text=True
        )
        if p.returncode == 0:
            os.chmod(out, 0o755)
            return out
    raise HarnessError("cannot build vchild: " + p.stderr)


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.scratch = tempfile.mkdtemp(prefix=f"vchk-{prop}-")
        os.chmod(self.scratch, 0o755)
        self.python = sys.executable
        self.count = 0
        self.workers = []
        self.vchild = build_vchild(self.scratch)
        self.unpriv = self._probe_unpriv()

    def _probe_unpriv(self):
        if os.getuid() != 0:
            return False
        try:
            p = subprocess.run(
                [self.python, "-B", "-c",
                 "import sys; sys.path[:0]=[%r,%r]; import shellous, vlib.base, hypothesis;"
                 "assert shellous.__file__.startswith(%r)" % (HERE, REPO, REPO)],
                user=UID_BASE, group=UID_BASE, extra_groups=[], cwd="/",
                env=self._env(self.scratch), capture_output=True, timeout=60,
            )
            return p.returncode == 0
        except Exception:  # pylint: disable=broad-except
            return False

    def _env(self, home):
        env = {
            "PATH": os.environ.get("PATH", "/usr/local/bin:/usr/bin:/bin"),
            "HOME": home, "TMPDIR": home, "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
            "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1",
            "PYTHONPYCACHEPREFIX": os.path.join(home, "pyc"),
            "VERIF_SEED": str(self.seed), "VERIF_TIER": self.tier,
        }
        return env

    def start(self, **spec):
        idx = self.count
        self.count += 1
        home = os.path.join(self.scratch, f"w{idx}")
        os.mkdir(home)
        spec.update(
            property=self.prop, tier=self.tier, repo=REPO, scratch=home,
            vchild=self.vchild, out=os.path.join(home, "report.json"),
            cur=os.path.join(home, "current.json"),
        )
        kw = {}
        uid = UID_BASE + 1 + idx % 400
        if self.unpriv:
            os.chown(home, uid, uid)
            kw = dict(user=uid, group=uid, extra_groups=[])
        err = open(os.path.join(self.scratch, f"w{idx}.err"), "wb")
        spec_arg = json.dumps(spec)
        proc = subprocess.Popen(
            [self.python, "-B", os.path.join(HERE, "vlib", "worker.py"), spec_arg],
            stdin=subprocess.DEVNULL, stdout=err, stderr=err, cwd=home,
            env=self._env(home), start_new_session=True, **kw,
        )
        err.close()
        w = dict(proc=proc, spec=spec, uid=uid, home=home, idx=idx,
                 t0=time.monotonic(), report=None, note="")
        self.workers.append(w)
        return w

    def stop(self, w):
        "Kill a worker and everything it started."
        if self.unpriv:
            # Everything owned by the worker's own uid, and nothing else.
            try:
                subprocess.run(
                    [self.python, "-I", "-S", "-c", "import os,signal\ntry: os.kill(-1, signal.SIGKILL)\nexcept OSError: pass"],
                    user=w["uid"], group=w["uid"], extra_groups=[], timeout=30,
                    stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                )
            except Exception:  # pylint: disable=broad-except
                pass
        try:
            os.killpg(w["proc"].pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            w["proc"].wait(timeout=30)
        except subprocess.TimeoutExpired:
            pass

    def poll(self, w):
        "Return True when the worker has ended (report loaded, or note set)."
        rc = w["proc"].poll()
        cur = w["spec"]["cur"]
        if rc is None:
            try:
                beat = os.stat(cur).st_mtime
            except OSError:
                beat = None
            idle = time.time() - beat if beat else time.monotonic() - w["t0"]
            if idle > w["spec"].get("stuck_s", STUCK_S):
                w["note"] = "stuck"
                self.stop(w)
                return True
            return False
        try:
            with open(w["spec"]["out"]) as f:
                w["report"] = json.load(f)
        except (OSError, ValueError):
            w["note"] = f"died with status {rc}"
        self.stop(w)
        return True

    def current(self, w):
        try:
            with open(w["spec"]["cur"]) as f:
                return json.load(f)
        except (OSError, ValueError):
            return None

    def stderr(self, w):
        try:
            with open(os.path.join(self.scratch, f"w{w['idx']}.err"), "rb") as f:
                return f.read()[-3000:].decode("utf-8", "replace")
        except OSError:
            return ""

    def cases(self, cases, repeat=1, slow=1.0, stuck_s=STUCK_S):
        "Run plain cases in a fresh worker. Returns (failures, errors)."
        w = self.start(mode="cases", cases=cases, repeat=repeat, slow=slow, stuck_s=stuck_s)
        while not self.poll(w):
            time.sleep(0.02)
        if w["report"] is None:
            cur = self.current(w)
            if cur is None:
                return [], [f"worker {w['note']}: {self.stderr(w)}"]
            return [{"case": cur, "msg": f"worker process {w['note']} while running this case"}], []
        return w["report"]["failures"], w["report"]["errors"]

    def close(self):
        for w in self.workers:
            if w["proc"].poll() is None:
                self.stop(w)
        shutil.rmtree(self.scratch, ignore_errors=True)


def read_known(prop):
    "Open findings of this property: [(key, text)]."
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("KNOWN-FINDING:"):
                body = line[len("KNOWN-FINDING:"):].strip()
                words = body.split(None, 2)
                if words[0] == f"property={prop}" and words[1].startswith("key="):
                    out.append((words[1][4:], words[2]))
    return out


def read_corpus(prop):
    path = os.path.join(HERE, "corpus", f"{prop}.jsonl")
    plain, known = [], {}
    if os.path.exists(path):
        for line in open(path):
            if line.strip():
                d = json.loads(line)
                if d.get("known"):
                    known.setdefault(d["known"], []).append(d["case"])
                else:
                    plain.append(d["case"])
    return plain, known


def write_replay(prop, case, msg, seed):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    body = json.dumps({"property": prop, "case": case, "message": msg, "seed": seed}, indent=1, sort_keys=True)
    name = f"{prop}-{hashlib.blake2b(body.encode(), digest_size=4).hexdigest()}.json"
    path = os.path.join(d, name)
    with open(path, "w") as f:
        f.write(body)
    return os.path.relpath(path, HERE)


def replay(prop, path, tier):
    with open(path) as f:
        d = json.load(f)
    run = Run(prop, tier, d.get("seed", 1))
    try:
        failures, errors = run.cases([d["case"]], repeat=5)
    finally:
        run.close()
    if failures:
        print(failures[0]["msg"])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        print("\n".join(errors), file=sys.stderr)
        return 2
    print("not reproduced")
    return 0


def run_check(prop, tier, seed, meta):
    t0 = time.monotonic()
    nworkers = int(os.environ.get("VERIF_WORKERS", meta.get("workers", 8)))
    examples = meta["examples"][tier]
    if os.environ.get("VERIF_EXAMPLES"):
        examples = int(os.environ["VERIF_EXAMPLES"])
    budget = meta["budget"][tier]
    run = Run(prop, tier, seed)
    try:
        return _run_check(run, prop, tier, seed, meta, t0, nworkers, examples, budget)
    finally:
        run.close()


def _run_check(run, prop, tier, seed, meta, t0, nworkers, examples, budget):
    plain, known_cases = read_corpus(prop)
    known = read_known(prop)
    notes = []

    # Recorded findings: re-check the exact case, report, never fail on it.
    for key, text in known:
        failures, errors = run.cases(known_cases.get(key, []), repeat=3)
        if errors:
            raise HarnessError("; ".join(errors))
        if failures:
            print(f"KNOWN-FINDING: property={prop} key={key} {text}")
        else:
            notes.append(f"known finding {key} did not reproduce in this run")

    per = max(1, examples // nworkers)
    active = []
    for i in range(nworkers):
        seed_i = int.from_bytes(
            hashlib.blake2b(f"{seed}/{prop}/{i}".encode(), digest_size=6).digest(), "big"
        )
        active.append(run.start(
            mode="generate", seed=seed_i, examples=per, budget_s=budget,
            shrink_s=meta.get("shrink_s", 45.0),
            cases=plain[i::nworkers],
        ))

    evaluations, distinct, labels, samples, errors = 0, set(), {}, [], []
    stopped = 0
    unconfirmed = []
    violation = None
    pending = list(active)
    while pending and violation is None:
        time.sleep(0.03)
        for w in list(pending):
            if not run.poll(w):
                continue
            pending.remove(w)
            rep = w["report"]
            if rep is None:
                cur = run.current(w)
                if cur is None:
                    errors.append(f"worker {w['note']}: {run.stderr(w)}")
                    continue
                cands = [{"case": cur, "msg": f"worker process {w['note']} while running this case"}]
            else:
                evaluations += rep["evaluations"]
                distinct.update(rep["distinct"])
                for k, v in rep["labels"].items():
                    labels[k] = labels.get(k, 0) + v
                samples.extend(rep["samples"])
                errors.extend(rep["errors"])
                stopped += rep["stopped"] == "time budget"
                cands = rep["failures"]
            if cands and not violation:
                violation = confirm(run, cands, unconfirmed)
                if violation:
                    break
    wall = time.monotonic() - t0
    nviol = 1 if violation else 0
    evidence = dict(
        property=prop, tier=tier, seed=seed, level=meta["level"],
        coverage=dict(
            evaluations=evaluations, distinct_nontrivial=len(distinct),
            rule=meta["rule"], samples=samples[:6], labels=dict(sorted(labels.items())),
            corpus_cases=len(plain), workers=nworkers,
            workers_stopped_by_time_budget=stopped,
            unconfirmed_failures=unconfirmed[:5], notes=notes,
        ),
        assumptions=meta.get("assumptions", []),
        wall_s=round(wall, 2), violations=nviol,
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    if violation:
        path = write_replay(prop, violation["case"], violation["msg"], seed)
        print(violation["msg"])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        print("harness errors:\n" + "\n".join(errors), file=sys.stderr)
        return 2
    if evaluations == 0 or (len(distinct) == 0 and not unconfirmed):
        print("nothing was explored", file=sys.stderr)
        return 2
    for u in unconfirmed:
        print("note: unconfirmed (did not reproduce in a fresh process): " + u["msg"][:300])
    for n in notes:
        print("note: " + n)
    print(f"{prop}: held on {evaluations} cases ({len(distinct)} distinct non-trivial), {wall:.1f}s")
    return 0


def confirm(run, cands, unconfirmed):
    "Re-run failing cases in fresh processes; only what fails again counts."
    for cand in cands:
        stuck = 100.0
        failures, _ = run.cases([cand["case"]], repeat=6, slow=1.5, stuck_s=stuck)
        if failures:
            return {"case": cand["case"], "msg": failures[0]["msg"]}
    for cand in cands:
        failures, _ = run.cases([cand["case"]], repeat=40, slow=1.5)
        if failures:
            return {"case": cand["case"], "msg": failures[0]["msg"]}
    unconfirmed.extend(cands)
    return None
