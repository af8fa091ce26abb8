"""C03: seeded streams reproducible, isolated, uniform over the dataset."""
import random
import numpy as np
from vlib import data
from vlib import stats


def cases(rng, tier):
    n = 240 if tier == "quick" else 2000
    for k in range(n):
        s = data.rand_data(rng)
        s["layout"] = "C"
        s.update(mode="repeat", gen=["plain", "shuffled"][k % 2],
                 seed=[0, 1, 2 ** 32 - 1, 2 ** 31, int(rng.randint(1 << 31)), 99999, 100000][rng.randint(7)],
                 draws=int([5, 30, 80][rng.randint(3)]), noise=int(rng.randint(1 << 30)))
        yield s
    for k in range(32 if tier == "quick" else 160):
        yield dict(mode="uniform", gen=["plain", "shuffled"][k % 2], N=int(rng.randint(2, 14)), D=1,
                   b=int(rng.randint(1, 9)), dtype="float64", seed=int(rng.randint(1 << 31)) if k % 4 else None,
                   draws=4000)
    for k in range(8 if tier == "quick" else 40):
        yield dict(mode="uniform-large", gen=["plain", "shuffled"][k % 2], N=int([300, 1000, 2500, 20000, 40000, 70000][rng.randint(6)]), D=1,
                   b=int([1, 5, 20, 100][rng.randint(4)]), dtype="float64", seed=int(rng.randint(1 << 31)) if k % 4 else None, draws=4000)
    for k in range(12 if tier == "quick" else 60):
        # large batches, in a dataset that holds hardly more, or not many more of them
        b = int([64, 100, 128, 200, 256, 512][rng.randint(6)])
        yield dict(mode="uniform", gen=["plain", "shuffled"][k % 2], N=b + int([1, 2, 4, 9, 30][k // 2 % 5]), D=1,
                   b=b, dtype="float64", seed=int(rng.randint(1 << 31)) if k % 4 else None, draws=2000)
    for k in range(12 if tier == "quick" else 60):
        # all row orders of a window
        yield dict(mode="orders", gen="shuffled", N=int([2, 3, 4, 6][k % 4]), b=int([2, 3, 3, 4][k % 4]), D=1,
                   dtype="float64", seed=int(rng.randint(1 << 31)), draws=6000)
    for k in range(16 if tier == "quick" else 80):
        yield dict(mode="differ", gen=["plain", "shuffled"][k % 2], N=30, D=1, b=4, dtype="float64",
                   seed=int(rng.randint(1 << 20)), other=int(rng.randint(1 << 20)) + (1 << 20), draws=40)
    for k in range(4 if tier == "quick" else 24):
        yield dict(mode="long", gen=["plain", "shuffled"][k % 2], N=2000, D=1, b=int(rng.randint(1, 4)), dtype="float64",
                   seed=[int(rng.randint(1 << 31)), None, 0][k // 2 % 3], draws=20000 if tier == "quick" else 120000)
    for k in range(8 if tier == "quick" else 40):
        # neighbouring seeds and extreme seeds must be different streams, too
        yield dict(mode="many-seeds", gen=["plain", "shuffled"][k % 2], N=60, D=1, b=int([3, 31, 4, 40][k // 2 % 4]), dtype="float64",
                   seeds=[0, 1, 2, 3, 41, 42, 99999, 100000, 100001, 2 ** 16, 2 ** 31 - 1, 2 ** 31, 42 + 10 ** 3, 42 + 10 ** 4, 42 + 10 ** 6, 42 + 10 ** 9, 42 + 2 ** 16, 42 + 2 ** 24, 42 + 2 ** 30, 42 + 2 ** 31, 2 ** 32 - 2, 2 ** 32 - 1],
                   draws=30)


def long(case, mon, xp, yp, x, y):
    """A long stream is no repetition of a short one."""
    it = data.generators()[case["gen"]](x=x, y=y, x_placeholder=xp, y_placeholder=yp, batch_size=case["b"], seed=case["seed"])
    starts = np.array([int(next(it)[yp].min()) for _ in range(case["draws"])])
    # 12 consecutive starts of a thousand occur once
    seen = {}
    for i in range(0, len(starts) - 12):
        k = starts[i:i + 12].tobytes()
        mon.check(k not in seen, "stream-does-not-repeat", lambda: "draws %d.. are draws %d.. again (seed %s)" % (i, seen[k], case["seed"]))
        if k in seen:
            return
        seen[k] = i
    stats.uniform_bins((starts - 1) // 3, case["N"] - case["b"] + 1, 40, mon, "starts-uniform", "long stream, N=%d" % case["N"])
    mon.event("long-streams")
    mon.event("draws-of-long-streams", len(starts))


def stream(case, seed, n, xp, yp, x, y):
    it = data.generators()[case["gen"]](x=x, y=y, x_placeholder=xp, y_placeholder=yp,
                                        batch_size=case["b"], seed=seed)
    return [next(it) for _ in range(n)]


def eq(a, b, xp, yp):
    return data.same_bits(a[xp], b[xp]) and data.same_bits(a[yp], b[yp])


def gstate():
    s = np.random.get_state()
    return (s[0], s[1].tobytes()) + tuple(s[2:]), random.getstate()


def run(case, mon):
    x, y = data.dataset(case)
    xp, yp = data.placeholders()
    mode = case["mode"]
    if mode == "repeat":
        np.random.seed(case["noise"] % 1000)
        one = stream(case, case["seed"], case["draws"], xp, yp, x, y)
        one = [{k: np.array(v, copy=True) for k, v in b.items()} for b in one]
        noise = np.random.RandomState(case["noise"])
        np.random.seed(int(noise.randint(1 << 30)))
        it = data.generators()[case["gen"]](x=x, y=y, x_placeholder=xp, y_placeholder=yp,
                                            batch_size=case["b"], seed=case["seed"])
        rival = data.generators()[case["gen"]](x=x, y=y, x_placeholder=xp, y_placeholder=yp,
                                               batch_size=case["b"], seed=case["seed"])
        third = data.generators()["plain"](x=x, y=y, x_placeholder=xp, y_placeholder=yp,
                                           batch_size=1 + case["b"], seed=int(noise.randint(1 << 30)))
        for t in range(case["draws"]):
            before = gstate()
            b = next(it)
            mon.check(gstate() == before, "global-random-state-untouched", "by draw %d" % t)
            mon.check(eq(one[t], b, xp, yp), "reproducible-under-interference",
                      lambda: "draw %d with seed %d: %s, was %s" % (t, case["seed"], b[yp].ravel()[:6], one[t][yp].ravel()[:6]))
            for _ in range(noise.randint(3)):
                next(rival)
            if noise.rand() < .3:
                next(third)
            if noise.rand() < .5:
                np.random.rand(noise.randint(1, 5))
            if noise.rand() < .2:
                np.random.seed(int(noise.randint(1 << 30)))
        mon.event("streams")
    elif mode == "uniform":
        if case["seed"] is None:
            np.random.seed()
        k = min(case["b"], case["N"])
        counts = np.zeros(case["N"] - k + 1)
        for b in stream(case, case["seed"], case["draws"], xp, yp, x, y):
            lo = (int(b[yp].min()) - 1) // 3
            if 0 <= lo < counts.size:
                counts[lo] += 1
            else:
                mon.check(False, "window-in-range", lo)
        mon.event("streams")
        mon.check(counts.min() > 0 or counts.size > 200, "every-start-occurs",
                  "starts never drawn in %d draws: %s" % (case["draws"], np.where(counts == 0)[0][:10]))
        stats.uniform_counts(counts, mon, "starts-uniform", "N=%d b=%d %s" % (case["N"], case["b"], case["gen"]))
        # consecutive starts independent
        st = [(int(b[yp].min()) - 1) // 3 for b in stream(case, case["seed"], 1500, xp, yp, x, y)]
        n = counts.size
        if 2 <= n <= 6:
            joint = np.zeros((n, n))
            for a, b2 in zip(st[:-1:2], st[1::2]):
                joint[a, b2] += 1
            stats.uniform_counts(joint.ravel(), mon, "consecutive-starts-independent", "N=%d b=%d" % (case["N"], case["b"]))
    elif mode == "uniform-large":
        k = min(case["b"], case["N"])
        starts = case["N"] - k + 1
        got = np.array([(int(b[yp].min()) - 1) // 3 for b in stream(case, case["seed"], case["draws"], xp, yp, x, y)])
        mon.check(got.min() >= 0 and got.max() < starts, "window-in-range", "%d..%d of %d" % (got.min(), got.max(), starts))
        stats.uniform_bins(got, starts, 40, mon, "starts-uniform", "N=%d b=%d %s" % (case["N"], case["b"], case["gen"]))
        mon.event("streams")
    elif mode == "orders":
        import itertools
        k = min(case["b"], case["N"])
        perms = {p: i for i, p in enumerate(itertools.permutations(range(k)))}
        counts = np.zeros(len(perms))
        for b in stream(case, case["seed"], case["draws"], xp, yp, x, y):
            r = tuple(int(v) for v in np.argsort(np.argsort(b[yp].ravel())))
            counts[perms[r]] += 1
        mon.event("streams")
        mon.check(counts.min() > 0, "every-order-occurs", counts.tolist())
        stats.uniform_counts(counts, mon, "orders-uniform", "N=%d b=%d" % (case["N"], case["b"]))
    elif mode == "differ":
        a = stream(case, case["seed"], case["draws"], xp, yp, x, y)
        b = stream(case, case["other"], case["draws"], xp, yp, x, y)
        mon.check(not all(eq(p, q, xp, yp) for p, q in zip(a, b)), "different-seeds-differ",
                  "seeds %d and %d" % (case["seed"], case["other"]))
        mon.event("streams", 2)
    elif mode == "long":
        long(case, mon, xp, yp, x, y)
    else:
        seen = {}
        for s in case["seeds"]:
            sig = b"".join(np.asarray(b[yp]).tobytes() for b in stream(case, s, case["draws"], xp, yp, x, y))
            mon.check(sig not in seen, "different-seeds-differ", "seeds %s and %s give the same stream" % (s, seen.get(sig)))
            seen[sig] = s
            mon.event("streams")
    mon.key(case)
