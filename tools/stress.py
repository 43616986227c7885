#!/usr/bin/env python3-vt
"stress.py ID REPLAY [REPEAT] [PROCS]: run one case many times, several workers at once (development aid)."
import json
import os
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vlib import driver


def main():
    prop, path = sys.argv[1:3]
    repeat = int(sys.argv[3]) if len(sys.argv) > 3 else 100
    procs = int(sys.argv[4]) if len(sys.argv) > 4 else 16
    with open(path) as f:
        case = json.load(f)["case"]
    sys.path.insert(0, driver.REPO)
    run = driver.Run(prop, "quick", 1)
    try:
        ws = [run.start(mode="cases", cases=[case], repeat=repeat, slow=1.0) for _ in range(procs)]
        left = list(ws)
        while left:
            left = [w for w in left if not run.poll(w)]
            time.sleep(0.05)
        n = bad = 0
        for w in ws:
            if w["report"] is None:
                print("worker", w["note"], run.stderr(w))
                continue
            n += w["report"]["evaluations"]
            for fl in w["report"]["failures"]:
                bad += 1
                print(fl["msg"][:1500])
            for e in w["report"]["errors"]:
                print("error", e)
        print(f"{n} runs, {bad} workers failed")
    finally:
        run.close()


main()
