"""C02: drawing and using batches never alters the dataset or earlier batches."""
import hashlib
import numpy as np
from vlib import data


def cases(rng, tier):
    n = 200 if tier == "quick" else 2000
    for k in range(n):
        s = data.rand_data(rng)
        if s["layout"] == "dup":
            s["layout"] = "C"
        s["gens"] = [["plain", "shuffled"][rng.randint(2)] for _ in range(1 + rng.randint(4))]
        s["seeds"] = [[None, int(rng.randint(1 << 31))][rng.randint(2)] for _ in s["gens"]]
        s["bs"] = [int(max(1, [1, 2, s["b"], s["N"], s["N"] + 2][rng.randint(5)])) for _ in s["gens"]]
        s["order"] = [int(v) for v in rng.randint(0, len(s["gens"]), size=[12, 40, 90][rng.randint(3)])]
        s["keep"] = int(rng.randint(1, 40))
        yield s
    for k in range(16 if tier == "quick" else 100):
        yield dict(train=["SGHMC", "SGLD", "bnn"][k % 3], gen=["plain", "shuffled"][k // 3 % 2],
                   N=int(rng.randint(3, 30)), b=int(rng.randint(1, 25)), dseed=int(rng.randint(1 << 20)),
                   norm=bool(rng.randint(2)), missing=bool(k % 4 == 3), readonly=bool(rng.randint(2)))


def sha(a):
    return hashlib.sha1(np.ascontiguousarray(a).tobytes()).hexdigest(), a.shape, a.dtype, a.strides


def run(case, mon):
    if "train" in case:
        return train(case, mon)
    x, y = data.dataset(case)
    before = sha(x), sha(y)
    x0, y0 = x.copy(), y.copy()
    xp, yp = data.placeholders()
    gens = [data.generators()[g](x=x, y=y, x_placeholder=xp, y_placeholder=yp, batch_size=b, seed=s)
            for g, b, s in zip(case["gens"], case["bs"], case["seeds"])]
    kept = []
    for t, gi in enumerate(case["order"]):
        batch = next(gens[gi])
        mon.event("draws")
        mon.check((sha(x), sha(y)) == before, "dataset-unchanged",
                  "after draw %d (%s, batch_size=%d)" % (t, case["gens"][gi], case["bs"][gi]))
        # a window of the *original* data
        data.check_batch(mon, batch, x0, y0, case["bs"][gi], xp, yp, case["gens"][gi] == "shuffled",
                         "draw %d" % t, clause="original-")
        kept.append((t, batch, {k: np.array(v, copy=True) for k, v in batch.items()}))
        if len(kept) > case["keep"]:
            kept.pop(0)
        for t2, bt, copy in kept:
            for k in copy:
                mon.check(data.same_bits(bt[k], copy[k]), "earlier-batches-unchanged",
                          "batch of draw %d changed by draw %d" % (t2, t))
    mon.key(case)


def train(case, mon):
    """Samplers and BNNs consuming batches leave the caller's data alone."""
    import tensorflow as tf
    from vlib import bnn
    rng = np.random.RandomState(case["dseed"])
    X = rng.uniform(-3, 5, size=(case["N"], 2))
    y = rng.uniform(-1, 9, size=case["N"])
    if case.get("missing"):
        X[rng.randint(case["N"])] = [np.nan, np.inf]
        y[rng.randint(case["N"])] = -np.inf
    X0, y0 = X.copy(), y.copy()
    if case["readonly"]:
        X.setflags(write=False)
        y.setflags(write=False)
    gen = data.generators()[case["gen"]]
    if case["train"] == "bnn":
        m = bnn.build(dict(method="SGHMC", net="two", n_nets=3, n_iters=30, burn=5, sample_steps=3,
                           batch_size=case["b"], seed=1, norm_in=case["norm"], norm_out=case["norm"]),
                      batch_generator=gen)
        try:
            m.train(X, y)
            m.predict(X0[:2])
        finally:
            m.close()
    else:
        from pysgmcmc import samplers as S
        g = tf.Graph()
        with g.as_default(), tf.Session(graph=g) as s:
            w = tf.Variable(np.zeros((2, 1)), dtype=tf.float64)
            xp, yp = tf.placeholder(tf.float64, (None, 2)), tf.placeholder(tf.float64, (None, 1))
            cls = dict(SGHMC=S.SGHMCSampler, SGLD=S.SGLDSampler)[case["train"]]
            sm = cls(params=[w], cost_fun=lambda p: tf.reduce_mean(tf.square(yp - tf.matmul(xp, p[0]))),
                     batch_generator=gen(x=X, y=y, x_placeholder=xp, y_placeholder=yp,
                                         batch_size=case["b"], seed=3),
                     session=s, burn_in_steps=10)
            s.run(tf.global_variables_initializer())
            for _ in range(30):
                next(sm)
    mon.check(data.same_bits(X, X0) and data.same_bits(y, y0), "dataset-unchanged-by-training", case["train"])
    mon.event("trainings")
    mon.key(case)
