"""C23: the cost of Bayesian neural networks against the documented formula in numpy."""
import numpy as np
from vlib import chains as ch

NETS = ["two", "deep", "linear", "single", "outbias", None]


def cases(rng, tier):
    k = 1 if tier == "quick" else 7
    for i in range(42 * k):
        N = int(ch.pick(rng, [1, 2, 5, 12, 20, 30, 60]))
        spec = dict(method=ch.pick(rng, ["SGHMC", "SGLD"]), net=NETS[i % 6], n_nets=3, burn=4, sample_steps=3, n_iters=12, seed=int(rng.randint(1 << 30)),
                    batch_size=int(ch.pick(rng, [1, 2, 5, 20, N, N + 1, 100])), norm_in=bool(rng.rand() < .7), norm_out=bool(rng.rand() < .7), eps=0.005)
        if i % 7 == 6:
            del spec["batch_size"]
        if rng.rand() < .12:
            spec["dtype"] = "float32"
        yield dict(mode="train", N=N, D=int(ch.pick(rng, [1, 2, 4])), dseed=int(rng.randint(1 << 30)), spec=spec, shuffled=bool(rng.rand() < .4))
    for i in range(4 * k):
        # batches of more points than any block or buffer
        N = int(ch.pick(rng, [90, 150, 300]))
        spec = dict(method=ch.pick(rng, ["SGHMC", "SGLD"]), net=["two", "deep"][i % 2], n_nets=2, burn=3, sample_steps=2, n_iters=8, seed=int(rng.randint(1 << 30)),
                    batch_size=int(ch.pick(rng, [70, 130, N])), norm_in=True, norm_out=True, eps=0.005)
        yield dict(mode="train", N=N, D=int(ch.pick(rng, [1, 2])), dseed=int(rng.randint(1 << 30)), spec=spec, shuffled=bool(rng.rand() < .4))
    for i in range(16 * k):
        yield dict(mode="variance-prior", seed=int(rng.randint(1 << 30)), n=int(ch.pick(rng, [1, 2, 7, 40])), dtype=ch.pick(rng, ["float64", "float64", "float32"]))
    for i in range(16 * k):
        yield dict(mode="weight-prior", seed=int(rng.randint(1 << 30)), shapes=ch.pick(rng, ch.SHAPES), dtype=ch.pick(rng, ["float64", "float64", "float32"]))


def run(case, mon):
    mon.key(case)
    {"train": train, "variance-prior": vprior, "weight-prior": wprior}[case["mode"]](case, mon)


def train(case, mon):
    from vlib import bnn
    from pysgmcmc.data_batches import generate_shuffled_batches
    spec = case["spec"]
    N, D, net = case["N"], case["D"], spec["net"]
    X, y = bnn.dataset(spec, N, D, case["dseed"])
    if not spec["norm_in"]:
        X = X / np.maximum(1, np.abs(X).max())
    m, r = bnn.observed(spec, generate_shuffled_batches if case["shuffled"] else None)
    seen = []
    orig = m.bnn.negative_log_likelihood

    def record(*a, **k):
        out = orig(*a, **k)
        seen.append((a, k, out))
        return out
    m.bnn.negative_log_likelihood = record
    b = min(spec.get("batch_size", 20), N)
    f32 = spec.get("dtype") == "float32"
    tol = 5e-3 if f32 else 1e-8
    try:
        m.train(X, y)
        for i in range(len(r.costs)):
            x, yy = r.batches[i]
            mon.check(len(x) == b, "batch-size", "%d of %d" % (len(x), b))
            out = bnn.np_forward(net, r.old[i], x)
            if not np.all(np.isfinite(out)) or np.abs(out).max() > 50:
                mon.event("diverged-chains")
                break
            want = bnn.np_cost(out, yy, r.old[i], N, b)
            mon.close(np.asarray(r.costs[i], float).ravel(), np.array([want]), "cost-formula", tol, tol, "step %d, N=%d b=%d %s" % (i, N, b, spec))
            mon.state(round(float(want), 6))
        # the tensors behind it, for any parameters and any batch of b points
        rng = np.random.RandomState(case["dseed"])
        if seen:
            a, k, (nll, mse) = seen[-1]
            xp = k["X"] if "X" in k else a[0]
            yp = k["Y"] if "Y" in k else a[len(a) - 1]
            vs = bnn.network_variables(m)
            for rep in range(6):
                vals = [(rng.normal(size=v.shape.as_list()) * ch.pick(rng, [.1, .5, 1.])).astype(v.dtype.base_dtype.as_numpy_dtype) for v in vs]
                x, yy = rng.normal(size=(b, D)) * 2, rng.normal(size=(b, 1)) * 3
                out = bnn.np_forward(net, vals, x)
                if np.abs(out).max() > 50:
                    continue
                for v, q in zip(vs, vals):
                    v.load(q, m.session)
                c, e = m.session.run([nll, mse], {xp: x, yp: yy})
                want = bnn.np_cost(out, yy, vals, N, b)
                mon.close(np.asarray(c, float).ravel(), np.array([want]), "likelihood-of-any-parameters", tol, tol, "N=%d b=%d %s" % (N, b, spec))
                mon.close(np.asarray(e, float).ravel(), np.array([np.mean((yy.ravel() - out[:, 0]) ** 2)]), "mean-squared-error", tol, tol, "N=%d b=%d %s" % (N, b, spec))
    finally:
        m.close()
    mon.event("whole-dataset-batches" if b == N else "minibatches")


def vprior(case, mon):
    import tensorflow as tf
    from pysgmcmc.models.bayesian_neural_network import log_variance_prior_log_like as f
    rng = np.random.RandomState(case["seed"])
    dt = tf.as_dtype(case["dtype"])
    tol = 1e-4 if case["dtype"] == "float32" else 1e-10
    g = tf.Graph()
    with g.as_default(), tf.Session(graph=g) as s:
        for rep in range(6):
            s_ = (rng.normal(size=(case["n"], 1)) * 6 - 5).astype(case["dtype"])
            mean, var = float(10 ** rng.uniform(-7, 1)), float(10 ** rng.uniform(-3, 1.5))
            kw = ch.pick(rng, [{}, dict(mean=mean), dict(var=var), dict(mean=mean, var=var)])
            if case["dtype"] != "float64":
                kw["dtype"] = dt
            mu, v = kw.get("mean", 1e-6), kw.get("var", 0.01)
            got = s.run(f(tf.constant(s_), **kw))
            want = np.mean(-(s_.astype(float) - np.log(mu)) ** 2 / (2 * v) - 0.5 * np.log(v))
            mon.check(np.shape(got) == (), "variance-prior", "shape %s" % (np.shape(got),))
            mon.close(np.asarray(got, float), np.asarray(want), "variance-prior", tol, tol, "%s, %d points" % (kw, case["n"]))


def wprior(case, mon):
    import tensorflow as tf
    from pysgmcmc.models.bayesian_neural_network import weight_prior_log_like as f
    rng = np.random.RandomState(case["seed"])
    tol = 1e-5 if case["dtype"] == "float32" else 1e-11
    g = tf.Graph()
    with g.as_default(), tf.Session(graph=g) as s:
        vs = [tf.Variable((rng.normal(size=tuple(q)) * 3).astype(case["dtype"])) for q in case["shapes"]]
        s.run(tf.global_variables_initializer())
        P = sum(int(np.prod(q, dtype=int)) for q in case["shapes"])
        for kw in ({}, dict(wdecay=float(10 ** rng.uniform(-3, 2))), dict(wdecay=1.), dict(wdecay=2.5)):
            kw = dict(kw)
            if case["dtype"] != "float64":
                kw["dtype"] = tf.as_dtype(case["dtype"])
            t = f(vs, **kw)
            for scale in (1., 10. ** rng.uniform(1.5, 5), 1e-3):
                vals = s.run(vs)
                want = -0.5 * kw.get("wdecay", 1.) * sum(np.sum(np.square(v.astype(float))) for v in vals) / P
                got = s.run(t)
                mon.check(np.shape(got) == (), "weight-prior", "shape %s" % (np.shape(got),))
                mon.close(np.asarray(got, float), np.asarray(want), "weight-prior", tol, tol * 1e-3, "%s %s" % (case["shapes"], kw))
                for v in vs:
                    v.load((rng.normal(size=v.shape.as_list()) * scale).astype(case["dtype"]), s)
