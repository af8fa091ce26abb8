"""Worker process: runs its share of the cases of one property."""
import argparse
import importlib
import json
import os
import sys
import time
import traceback


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--index", type=int)
    ap.add_argument("--n", type=int)
    ap.add_argument("--soft", type=float)
    ap.add_argument("--out")
    ap.add_argument("--work")
    ap.add_argument("--replay")
    a = ap.parse_args()

    from vlib import env
    env.load(a.index, a.work)
    import numpy as np
    from vlib.core import Monitor

    prop = a.property
    mod = importlib.import_module("props." + prop.lower())
    seed = int(os.environ["VERIF_SEED"])
    tier = os.environ["VERIF_TIER"]
    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        cases = [rep["case"]] if rep.get("case") is not None else []
        share = cases
    else:
        rng = np.random.RandomState([seed, int(prop[1:])])
        cases = list(mod.cases(rng, tier))
        everyone = getattr(mod, "ALL_WORKERS", False)
        share = cases if everyone else cases[a.index::a.n]
    import faulthandler
    import signal
    faulthandler.register(signal.SIGUSR1, all_threads=True)   # to the worker's log
    t0 = time.time()
    skipped = 0
    with open(a.out, "w") as out:
        for c in share:
            if time.time() - t0 > a.soft:
                skipped += 1
                continue
            out.write(json.dumps(dict(t="start", at=time.time(), case=c), default=str) + "\n")
            out.flush()
            mon = Monitor(c)
            mon.started = time.time()
            if mon.sample is None:
                mon.sample = c
            try:
                mod.run(c, mon)
            except MemoryError:
                mon.inconclusive("out of memory")
            except Exception as e:
                if type(e).__name__ == "ResourceExhaustedError":
                    mon.inconclusive(repr(e)[:300])
                else:
                    mon.event("exception")
                    mon.fail("no-unexpected-exception", "%s: %s\n%s" % (
                        type(e).__name__, str(e)[:600], traceback.format_exc()[-1600:]))
            out.write(json.dumps(mon.report(), default=str) + "\n")
            out.flush()
        out.write(json.dumps(dict(t="end", skipped=skipped)) + "\n")


if __name__ == "__main__":
    main()
    sys.stdout.flush()
    os._exit(0)   # do not wait for TensorFlow's thread pools to wind down
