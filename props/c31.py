"""C31: the default network, evaluated in numpy from its own variables; its initialisation."""
import numpy as np
import tensorflow as tf
from scipy import stats
from vlib import chains as ch


def cases(rng, tier):
    k = 1 if tier == "quick" else 8
    for i in range(60 * k):
        yield dict(mode="output", D=int(ch.pick(rng, [1, 2, 3, 7, 20, 64])), N=int(ch.pick(rng, [1, 2, 5, 33, 300])), dtype=["float64", "float64", "float32"][i % 3],
                   seed=ch.pick(rng, [None, 0, 1, int(rng.randint(1 << 31))]), ph=bool(rng.rand() < .6), dseed=int(rng.randint(1 << 30)))
    for i in range(16 * k):
        yield dict(mode="start", D=int(ch.pick(rng, [1, 3, 40, 200])), seeds=[int(v) for v in rng.randint(1 << 31, size=3)], dtype=["float64", "float32"][i % 2])
    for i in range(12 * k):
        s = int(rng.randint(1 << 31))
        yield dict(mode="seeds", D=2, dtype="float64", seeds=sorted({s} | {(s + 10 ** int(j)) % (1 << 31) for j in range(1, 9)} | {s ^ (1 << int(j)) for j in range(31)}))
    for i in range(10 * k):
        yield dict(mode="model", D=int(ch.pick(rng, [1, 2, 4])), N=int(ch.pick(rng, [4, 12])), seed=int(rng.randint(1 << 30)), dseed=int(rng.randint(1 << 30)),
                   dtype="float64", method=["SGHMC", "SGLD"][i % 2])


def run(case, mon):
    mon.key(case)
    {"output": output, "start": start, "seeds": seeds, "model": model}[case["mode"]](case, mon)


def build(D, seed, dtype, inputs=None):
    from pysgmcmc.models.bayesian_neural_network import get_default_net
    g = tf.Graph()
    with g.as_default():
        x = tf.placeholder(tf.as_dtype(dtype), (None, D)) if inputs is None else tf.constant(inputs, dtype=tf.as_dtype(dtype))
        out = get_default_net(inputs=x, seed=seed, dtype=tf.as_dtype(dtype))
        vs = tf.trainable_variables()
        s = tf.Session(graph=g, config=ch.session_config(None))
        s.run(tf.global_variables_initializer())
    return g, s, x, out, vs


def forward(p, X):
    h = np.asarray(X, np.float64)
    for i in (0, 2, 4, 6):
        h = h @ p[i] + p[i + 1]
        if i < 6:
            h = np.tanh(h)
    return np.concatenate([h, np.ones_like(h) * p[8]], axis=1)


def output(case, mon):
    from vlib import bnn
    D, N, dt = case["D"], case["N"], case["dtype"]
    rng = np.random.RandomState(case["dseed"])
    X = (rng.normal(size=(N, D)) * np.exp(rng.uniform(-2, 3))).astype(dt)
    g, s, x, out, vs = build(D, case["seed"], dt, None if case["ph"] else X)
    try:
        what = "D=%d N=%d %s" % (D, N, dt)
        mon.check(out.dtype == tf.as_dtype(dt) and all(v.dtype.base_dtype == tf.as_dtype(dt) for v in vs), "dtype", what)
        got = [list(v.shape.as_list()) for v in vs]
        mon.check(sorted(got) == sorted(bnn.param_shapes(None, D)), "parameters", "%s: %s" % (what, got))
        mon.check(len(tf.trainable_variables()) == 0, "own-graph", "variables outside the graph of its input")
        for k in range(4):
            if k:
                # arbitrary parameters
                for v in vs:
                    v.load((rng.normal(size=v.shape.as_list()) * .4).astype(dt), s)
            p = [np.asarray(v, np.float64) for v in s.run(vs)]
            y = s.run(out, {x: X} if case["ph"] else {})
            mon.check(y.shape == (N, 2) and y.dtype == np.dtype(dt), "output-shape", "%s: %s %s" % (what, y.shape, y.dtype))
            if got == bnn.param_shapes(None, D):
                want = forward(p, X)
                tol = 1e-9 if dt == "float64" else 1e-3
                mon.close(np.asarray(y, np.float64), want, "three-tanh-layers-and-a-linear-one", tol, tol * (1 + np.abs(want).max()), "%s draw %d" % (what, k))
            mon.check(np.ptp(y[:, 1]) == 0, "log-variance-independent-of-the-point", lambda: "%s: %s" % (what, y[:5, 1]))
            if case["ph"] and N > 1:
                # each point on its own
                i = int(rng.randint(N))
                one = s.run(out, {x: X[i:i + 1]})
                mon.close(one, y[i:i + 1], "point-independence", 1e-4 if dt == "float32" else 1e-9, 1e-4 if dt == "float32" else 1e-9, what)
        mon.state("output", D, N, dt, case["seed"])
    finally:
        s.close()


def start(case, mon):
    D, dt = case["D"], case["dtype"]
    made = []
    for seed in case["seeds"] + [case["seeds"][0], None, None]:
        g, s, x, out, vs = build(D, seed, dt)
        try:
            vals = [np.array(v) for v in s.run(vs)]
            again = [np.array(v) for v in s.run(vs)]
            made.append(vals)
            for a, b in zip(vals, again):
                mon.same(a, b, "start-is-fixed", "read twice")
            y = s.run(out, {x: np.zeros((3, D))})
            mon.close(np.asarray(y, float), np.array([[0., np.log(1e-3)]] * 3), "starts-with-log-variance", 1e-6 if dt == "float32" else 1e-12, 1e-6 if dt == "float32" else 1e-12, "zero input, seed %s" % seed)
            for v in vals:
                if v.ndim == 2 and v.shape != (1, 1):
                    n, f = v.size, v.shape[0]
                    # a truncated normal of variance 1 / fan-in: at most 2.3 of its own deviations
                    mon.check(float(np.abs(v).max()) <= 2.4 / np.sqrt(f), "weights-bounded", "%s: %s" % (v.shape, np.abs(v).max()))
                    mon.check(np.ptp(v) > 0 if n > 1 else True, "weights-differ", "%s" % (v.shape,))
                    if n >= 1000:
                        # below the kurtosis of a normal: chi2 limits are conservative
                        q = float(v.astype(float).var() * f)
                        z = stats.norm.isf(5e-11) * np.sqrt(2. / n)
                        # 1.3 / .7737 approximations differ by 0.6 percent between initialisers
                        mon.check(abs(q - 1) < z + .015, "weights-have-variance-one-over-fan-in", "%s: variance * fan-in = %.4f" % (v.shape, q))
                        mon.check(abs(float(v.mean())) * np.sqrt(f) < stats.norm.isf(5e-11) / np.sqrt(n), "weights-have-mean-zero", "%s: %g" % (v.shape, v.mean()))
                elif v.ndim == 1:
                    mon.check(not v.any(), "biases-start-at-zero", "%s" % v[:5])
        finally:
            s.close()

    def same(a, b):
        return all(np.array_equal(u, v) for u, v in zip(a, b))
    mon.check(same(made[0], made[3]), "equal-seeds-equal-start", "seed %s" % case["seeds"][0])
    for i, j in ((0, 1), (0, 2), (1, 2), (4, 5), (0, 4)):
        mon.check(not same(made[i], made[j]), "other-seeds-other-start", "%s" % case["seeds"])
    mon.state("start", D, dt, case["seeds"])


def seeds(case, mon):
    """Seeds that differ in any digit, binary or decimal, start differently."""
    seen = [{} for _ in range(3)]
    for s0 in case["seeds"]:
        g, s, x, out, vs = build(case["D"], s0, case["dtype"])
        try:
            w = [v for v in s.run(vs) if np.ndim(v) == 2 and v.size > 1][:3]
            for i, v in enumerate(w):
                k = np.asarray(v).tobytes()
                mon.check(k not in seen[i], "other-seeds-other-start", "weights %d of seeds %d and %s" % (i, s0, seen[i].get(k)))
                seen[i][k] = s0
        finally:
            s.close()
    mon.state("seeds", len(case["seeds"]))


def model(case, mon):
    """A network without get_net trains and predicts with this architecture, seeded with its own seed."""
    from vlib import bnn
    spec = dict(method=case["method"], net=None, n_nets=2, burn=1, sample_steps=1, n_iters=10, batch_size=4, seed=case["seed"], eps=1e-9)
    X, y = bnn.dataset(spec, case["N"], case["D"], case["dseed"])
    m = bnn.Model(spec)
    try:
        m.train(X, y)
        nets = m.samples
        mon.check(len(nets) == 2 and [list(np.shape(v)) for v in nets[0]] == bnn.param_shapes(None, case["D"]), "model-uses-it", "%d networks" % len(nets))
        # (nearly) no step: noise of stepsize 1e-9 stays below 1e-2
        for v in nets[0]:
            if np.shape(v) == (1, 1):
                mon.close(v, [[np.log(1e-3)]], "model-starts-from-the-initialisation", 0., 1e-2, "log variance")
            elif np.ndim(v) == 1:
                mon.close(v, np.zeros(len(v)), "model-starts-from-the-initialisation", 0., 1e-2, "bias")
            else:
                mon.check(.1 / np.sqrt(len(v)) < np.abs(v).max() <= 2.4 / np.sqrt(len(v)) + 1e-2, "model-starts-from-the-initialisation", lambda: "weights %s: up to %g" % (np.shape(v), np.abs(v).max()))
        pts = np.random.RandomState(3).normal(size=(7, case["D"]))
        f, v = m.predict(pts, return_individual_predictions=True)
        Xn = (pts - X.mean(axis=0)) / X.std(axis=0)
        for k, net in enumerate(nets):
            o = forward([np.asarray(q, np.float64) for q in net], Xn)
            mon.close(np.asarray(f[k]), o[:, 0] * y.std() + y.mean(), "model-predicts-with-it", 1e-8, 1e-8, "network %d" % k)
            mon.close(np.asarray(v[k]), np.exp(o[:, 1]) * y.std() ** 2, "model-predicts-with-it", 1e-8, 1e-12, "network %d" % k)
        mon.state("model", case["D"], case["seed"], case["method"])
    finally:
        m.close()
