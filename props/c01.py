"""C01: every batch of the stream is an aligned window."""
import numpy as np
from vlib import data


def cases(rng, tier):
    n = 320 if tier == "quick" else 4000
    for k in range(n):
        s = data.rand_data(rng)
        s["seed"] = [None, 0, 1, 2 ** 32 - 1, int(rng.randint(1 << 31))][rng.randint(5)]
        s["gen"] = ["plain", "shuffled"][k % 2]
        s["draws"] = int([3, 20, 60, 150][rng.randint(4)])
        if k % 40 == 0:
            s["draws"] = 2500 if tier == "quick" else 20000
            s["N"], s["b"] = 12, int(rng.randint(1, 14))
            s["dtype"] = s["ydtype"] = "float64"
        if k % 27 == 5:
            s["N"] = int([1000, 5000, 40000, 70000][rng.randint(4)])
            s["D"] = int([1, 2][rng.randint(2)])
            s["b"] = int([1, 7, 20, 300, 999, s["N"] // 2, s["N"] - 1, s["N"], s["N"] + 1][rng.randint(9)])
            s["dtype"], s["ydtype"] = ["float64", "int64", "int32"][rng.randint(3)], "float64"
            s["layout"] = ["C", "F", "strided", "column"][rng.randint(4)]
            s["draws"] = 12
        s["positional"] = bool(rng.rand() < .5)
        s["default_b"] = bool(rng.rand() < .1)
        yield s


def run(case, mon):
    x, y = data.dataset(case)
    xp, yp = data.placeholders()
    make = data.generators()[case["gen"]]
    b = case["b"]
    if case["default_b"]:
        b = 20
        it = make(x=x, y=y, x_placeholder=xp, y_placeholder=yp, seed=case["seed"])
    elif case["positional"]:
        it = make(x, y, xp, yp, b, case["seed"])
    else:
        it = make(x=x, y=y, x_placeholder=xp, y_placeholder=yp, batch_size=b, seed=case["seed"])
    mon.check(hasattr(it, "__next__"), "is-iterator", type(it))
    for t in range(case["draws"]):
        try:
            batch = next(it)
        except StopIteration:
            mon.check(False, "stream-never-ends", "ended after %d batches" % t)
            break
        s = data.check_batch(mon, batch, x, y, b, xp, yp, case["gen"] == "shuffled", "batch %d" % t)
        mon.event("batches")
        mon.event("batches-" + case["gen"])
        if s is not None:
            mon.state(case["N"], b, s, case["gen"])
    mon.key(case)
