"""C04: seeded chains are the same chain on every run and every thread configuration.

Every worker runs every case under a configuration of its own (thread pools, hash seed,
states of the global generators, random delays); the parent compares their digests.
"""
import hashlib
import random
import numpy as np
from vlib import chains as ch
from vlib import env

ALL_WORKERS = True
THREADS = [[1, 1], [8, 8], [2, 2], [4, 1], [1, 4], [3, 2], None, [8, 1]]


def cases(rng, tier):
    n = 20 if tier == "quick" else 160
    for k in range(n):
        kind = ["SGHMC", "SGLD", "REL", "SVGD"][k % 4]
        spec = ch.rand_spec(rng, kind)
        spec["seed"] = [0, int(rng.randint(1 << 31)), 1, (1 << 31) - 1, int(rng.randint(1000))][k // 4 % 5]
        steps = int(ch.pick(rng, [6, 10, 20]))
        spec["eps"] = [float(x) for x in rng.uniform(0.01, 0.1, size=steps)]
        # seeds that are told apart by any of their digits
        other = [spec["seed"] ^ (1 << int(rng.randint(31))), (spec["seed"] + 10 ** int(rng.randint(2, 9))) % (1 << 31), (spec["seed"] + (1 << int(rng.choice([8, 10, 16, 20, 24, 30])))) % (1 << 31), spec["seed"] ^ 1][k // 4 % 4]
        yield dict(k=k, spec=spec, other=other, steps=steps, delay=bool(rng.rand() < .2))


def disturb(rng):
    """Move the process-wide generators somewhere else."""
    random.seed(rng.randint(1 << 30))
    np.random.seed(rng.randint(1 << 30))
    for _ in range(rng.randint(5)):
        random.random()
        np.random.rand()


def dig(out):
    h = hashlib.sha1()
    for sample, cost in out:
        for a in list(sample) + [cost]:
            a = np.asarray(a)
            h.update(str((a.dtype, a.shape)).encode())
            h.update(a.tobytes())
    return h.hexdigest()[:20]


def run(case, mon):
    spec = dict(case["spec"])
    spec["threads"] = THREADS[env.INDEX % 8]
    rng = np.random.RandomState([env.INDEX, case["k"], 41])
    steps = case["steps"]

    def fresh(sp):
        disturb(rng)
        d = ch.Delays(int(rng.randint(1 << 20)), 0.002, 0.002) if case["delay"] else None
        return ch.Chain(sp, delays=d)

    def alone(sp):
        c = fresh(sp)
        try:
            out = []
            for _ in range(steps):
                disturb(rng)
                out.append(c.next())
            return out
        finally:
            c.close()

    a = alone(spec)
    mon.fact(k=case["k"], digest=dig(a), threads=str(spec["threads"]),
             first=[np.asarray(x).ravel()[:3].tolist() for x in a[0][0]][:2])
    mon.state(dig(a))
    # again, in between the steps of other chains in other sessions
    c = fresh(dict(spec, threads=THREADS[(env.INDEX + 3) % 8]))
    o1 = fresh(dict(spec, seed=case["other"]))
    o2 = fresh(spec)
    try:
        b, d, e = [], [], []
        for t in range(steps):
            for _ in range(rng.randint(3)):
                if len(d) < steps:
                    d.append(o1.next())
            b.append(c.next())
            if rng.rand() < .5:
                e.append(o2.next())
        for t in range(steps):
            for i, (x, y) in enumerate(zip(a[t][0], b[t][0])):
                mon.same(y, x, "same-seed-same-samples", "step %d parameter %d (%s, threads %s)" % (t, i, spec["kind"], spec["threads"]))
            mon.same(b[t][1], a[t][1], "same-seed-same-costs", "step %d" % t)
        for t in range(len(e)):
            for i, (x, y) in enumerate(zip(a[t][0], e[t][0])):
                mon.same(y, x, "same-seed-same-samples", "step %d parameter %d, second chain" % (t, i))
        while len(d) < steps:
            d.append(o1.next())
        if spec["kind"] != "SVGD":
            mon.check(dig(d) != dig(a), "different-seeds-differ",
                      "seeds %d and %d give the same chain" % (spec["seed"], case["other"]))
            # every parameter, not just one of them
            for i in range(len(spec["shapes"])):
                x = np.array([s[0][i] for s in a])
                y = np.array([s[0][i] for s in d])
                mon.check(not np.array_equal(x, y), "different-seeds-differ",
                          "parameter %d does not depend on the seed" % i)
        # the interleaved chain is also what it is alone
        f = alone(dict(spec, seed=case["other"]))
        mon.check(dig(f) == dig(d), "interleaving-changes-nothing", "chain with seed %d" % case["other"])
    finally:
        c.close()
        o1.close()
        o2.close()
    mon.key(case["spec"])
