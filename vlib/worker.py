"Worker process: generates cases for one check and reports JSON."

import gc
import hashlib
import importlib
import json
import os
import signal
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class StopTesting(KeyboardInterrupt):
    "Leaves Hypothesis at once (it does not swallow KeyboardInterrupt)."


def load_check(prop):
    return importlib.import_module(f"checks.{prop.lower()}")


def main():
    spec = json.loads(sys.argv[1])
    sys.path.insert(0, HERE)
    sys.path.insert(0, spec["repo"])
    os.closerange(3, 256)
    # A background job of a shell inherits ignored SIGINT and SIGQUIT.
    for sig in signal.valid_signals() - {signal.SIGKILL, signal.SIGSTOP, signal.SIGPIPE}:
        if signal.getsignal(sig) == signal.SIG_IGN and sig != signal.SIGXFSZ:
            signal.signal(sig, signal.SIG_DFL)
    signal.pthread_sigmask(signal.SIG_SETMASK, [])
    signal.signal(signal.SIGINT, signal.default_int_handler)
    from vlib import base

    base.quiet_logging()
    prop = spec["property"]
    out_path = spec["out"]
    cur_path = spec["cur"]
    report = dict(
        evaluations=0, distinct=[], labels={}, samples=[], failures=[], errors=[],
        stopped="", known={},
    )

    def finish(code=0):
        tmp = out_path + ".tmp"
        with open(tmp, "w") as f:
            json.dump(report, f)
        os.rename(tmp, out_path)
        sys.stdout.flush()
        os._exit(code)

    try:
        mod = load_check(prop)
        import shellous

        assert os.path.realpath(shellous.__file__).startswith(
            os.path.realpath(spec["repo"])
        ), shellous.__file__
    except BaseException as ex:  # pylint: disable=broad-except
        report["errors"].append("import: " + base.tb_text(ex))
        finish(2)

    ctx = base.Ctx(spec["scratch"], spec["vchild"], spec["tier"],
                   hang=getattr(mod, "HANG", 25.0) * spec.get("slow", 1.0))
    ctx.confirming = spec["mode"] == "cases"
    if hasattr(mod, "setup"):
        mod.setup(ctx)
    gc.collect()
    gc.freeze()
    distinct = set()
    started = time.monotonic()

    def heartbeat(text):
        with open(cur_path, "w") as f:
            f.write(text)

    def run_case(case_json):
        "Run one case. Returns None or a failure message."
        heartbeat(case_json)
        case = base.loads(case_json)
        ctx.begin()
        failure = None
        try:
            mod.run(case, ctx)
        except base.Violation as ex:
            failure = str(ex)
        except StopTesting:
            raise
        except Exception as ex:  # pylint: disable=broad-except
            if base.env_error(ex):
                report["errors"].append("environment: " + base.tb_text(ex))
            else:
                failure = "unexpected exception: " + base.tb_text(ex)
        finally:
            ctx.end()
        report["evaluations"] += 1
        if ctx.interesting:
            h = hashlib.blake2b(case_json.encode(), digest_size=8).hexdigest()
            if h not in distinct:
                distinct.add(h)
                if len(report["samples"]) < 3 and len(case_json) < 1500:
                    report["samples"].append(json.loads(case_json))
        return failure

    def record(case_json, msg):
        report["failures"].append({"case": json.loads(case_json), "msg": msg})

    try:
        if spec["mode"] == "cases":
            for case in spec["cases"]:
                case_json = json.dumps(case, sort_keys=True)
                for _ in range(spec.get("repeat", 1)):
                    msg = run_case(case_json)
                    if msg:
                        record(case_json, msg)
                        break
        else:
            for case in spec.get("cases", ()):
                case_json = json.dumps(case, sort_keys=True)
                msg = run_case(case_json)
                if msg:
                    record(case_json, msg)
                    report["distinct"] = sorted(distinct)
                    report["labels"] = ctx.labels
                    finish()
            generate(mod, spec, ctx, run_case, record, report, started)
    except StopTesting as ex:
        report["stopped"] = str(ex)
    except BaseException as ex:  # pylint: disable=broad-except
        report["errors"].append(base.tb_text(ex))
    report["distinct"] = sorted(distinct)
    report["labels"] = ctx.labels
    finish(2 if report["errors"] else 0)


def generate(mod, spec, ctx, run_case, record, report, started):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    from vlib import base

    best = {"json": None, "msg": None, "since": None}
    budget = spec["budget_s"]
    shrink_s = spec["shrink_s"]

    @hypothesis.seed(spec["seed"])
    @settings(
        max_examples=spec["examples"], database=None, deadline=None,
        derandomize=False, report_multiple_bugs=False, print_blob=False,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.shrink),
    )
    @given(mod.strategy(spec["tier"]))
    def prop(case):
        now = time.monotonic()
        if best["json"] is None:
            if now - started > budget:
                raise StopTesting("time budget")
        elif now - best["since"] > shrink_s:
            raise StopTesting("shrink budget")
        case_json = base.dumps(case)
        msg = run_case(case_json)
        if msg:
            if best["json"] is None:
                best["since"] = time.monotonic()
                best["first"] = (case_json, msg)
            if best["json"] is None or len(case_json) <= len(best["json"]):
                best["json"], best["msg"] = case_json, msg
            raise base.Violation(msg.split(":")[0][:60])

    try:
        prop()
    except StopTesting as ex:
        report["stopped"] = str(ex)
    except BaseException as ex:  # pylint: disable=broad-except
        if best["json"] is None:
            report["errors"].append(base.tb_text(ex))
    if best["json"] is not None:
        record(best["json"], best["msg"])
        if best["first"][0] != best["json"]:
            record(*best["first"])


if __name__ == "__main__":
    main()
