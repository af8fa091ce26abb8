"""C22: predictions of trained networks against numpy evaluations of the collected ones."""
import numpy as np
from vlib import chains as ch

NETS = ["two", "deep", "linear", "single", "outbias", None]


def cases(rng, tier):
    k = 1 if tier == "quick" else 7
    for i in range(48 * k):
        spec = dict(method=ch.pick(rng, ["SGHMC", "SGLD"]), net=NETS[i % 6], n_nets=int(ch.pick(rng, [1, 2, 3, 6, 11])), burn=int(ch.pick(rng, [1, 3, 8])),
                    sample_steps=int(ch.pick(rng, [1, 2, 4])), n_iters=int(ch.pick(rng, [400, 400, 30])), batch_size=int(ch.pick(rng, [3, 10, 20])),
                    seed=int(rng.randint(1 << 30)), norm_in=bool(i // 6 % 4 != 3), norm_out=bool(i // 6 % 4 < 2), eps=0.01)
        if i % 12 in (3, 8):
            # networks that hardly differ: their variance is tiny beside their mean
            spec.update(eps=float(ch.pick(rng, [1e-5, 1e-6])))
        if i % 16 == 5:
            spec.update(n_nets=int(ch.pick(rng, [60, 130])), sample_steps=1, n_iters=400)
        if rng.rand() < .15:
            spec["dtype"] = "float32"
        yield dict(mode="predict", N=int(ch.pick(rng, [1, 4, 12, 25, 40])), D=int(ch.pick(rng, [1, 2, 5])), dseed=int(rng.randint(1 << 30)), spec=spec,
                   qseed=int(rng.randint(1 << 30)), xdtype=ch.pick(rng, ["float64", "float64", "float64", "float32", "int64"]), constant=bool(rng.rand() < .15),
                   units=[[1., 1.], [1e-5, 1e-6], [1., 1.], [1e4, 1e6]][i // 6 % 4 if i % 2 else i // 2 % 4])
    for i in range(4 * k):
        yield dict(mode="untrained", seed=int(rng.randint(1 << 30)))
    for i in range(4 * k):
        yield dict(mode="two-models", seed=int(rng.randint(1 << 30)))


def run(case, mon):
    mon.key(case)
    dict(predict=predict, untrained=untrained)[case["mode"]](case, mon) if case["mode"] != "two-models" else two(case, mon)


def reference(spec, samples, X, y, Q):
    """(individual means, individual noise variances, mean, variance) by the documentation"""
    from vlib import bnn
    X, y, Q = (np.asarray(v, np.float64) for v in (X, y, Q))
    mx, sx = X.mean(axis=0), X.std(axis=0)
    my, sy = y.mean(), y.std()
    sx = np.where(sx == 0, 1., sx)
    sy = sy if sy > 0 else 1.
    q = (Q - mx) / sx if spec["norm_in"] else Q
    outs = [bnn.np_forward(spec["net"], s, q) for s in samples]
    f = np.array([o[:, 0] for o in outs])
    v = np.exp(np.array([o[:, 1] for o in outs]))
    if spec["norm_out"]:
        f, v = f * sy + my, v * sy ** 2
    mean = f.mean(axis=0)
    return f, v, mean, ((f - mean) ** 2).mean(axis=0)


def predict(case, mon):
    from vlib import bnn
    spec = case["spec"]
    N, D = case["N"], case["D"]
    X, y = bnn.dataset(spec, N, D, case["dseed"], case["xdtype"], case["xdtype"])
    # data in units that make them tiny or huge
    xu = case["units"][0] if spec["norm_in"] and X.dtype == np.float64 else 1.
    X = X if xu == 1. else X * xu
    y = y * case["units"][1] if spec["norm_out"] and y.dtype == np.float64 else y
    if not spec["norm_in"]:
        X = (X / np.maximum(1, np.abs(X).max())).astype(X.dtype)
    if case["constant"]:
        # a column and targets without any variation
        X[:, 0] = 3
        if case["dseed"] % 2:
            y[:] = 7
    y0 = y.astype(float)
    sy0 = y0.std() if spec["norm_out"] and y0.std() > 0 else 1.
    m = bnn.build(spec)
    rng = np.random.RandomState(case["qseed"])
    f32 = spec.get("dtype") == "float32" or case["xdtype"] == "float32"
    try:
        m.train(X, y)
        samples = [[np.array(v) for v in s] for s in m.samples]
        if not samples or not all(np.all(np.isfinite(v)) and np.abs(v).max() < 1e3 for s in samples for v in s):
            mon.event("diverged-chains")
            return
        saved = [np.array(v) for v in m.session.run(_vars(m))]
        steps = m.bnn.sampler.n_iterations
        full = X
        Qs = [rng.uniform(-5, 5, size=(n, D)).astype("float64" if case["xdtype"] == "int64" else case["xdtype"]) for n in (1, 2, 7, 300)] + [X, X[:1]]
        if xu != 1.:
            Qs = [Q * xu for Q in Qs[:-2]] + Qs[-2:]
        Qs.append(np.concatenate([Qs[2], Qs[2][::-1], Qs[2]]))
        # other layouts of memory, integer points
        odd = Qs[2].copy()
        odd.setflags(write=False)
        Qs += [np.asfortranarray(Qs[2]), np.repeat(Qs[2], 2, axis=0)[::2], Qs[2][::-1], odd, rng.randint(-3, 4, size=(5, D))]
        if case["qseed"] % 4 == 1:
            Qs.append(rng.uniform(-3, 3, size=([1001, 1025, 4099, 12289][case["qseed"] // 4 % 4], D)))
            mon.event("thousands-of-test-points")
        first = []
        for rnd in range(2):
            for j, Q in enumerate(Qs):
                Q0 = Q.copy()
                got = m.predict(Q)
                mon.same(Q, Q0, "changes-nothing", "input of predict")
                ind = m.predict(Q, return_individual_predictions=True)
                mon.same(Q, Q0, "changes-nothing", "input of predict")
                f, v, mean, var = reference(spec, samples, full, y, Q)
                if f32 and not np.all(v < 1e30):
                    mon.event("variances-beyond-float32")
                    continue
                scale = np.abs(f).max() + 1e-12
                rt = 2e-3 if f32 else 1e-8
                at = (2e-3 if f32 else 1e-9) * scale
                # outputs carry rounding errors u; their mean square deviation one of 2*sd*u + u^2
                u = 1e-12 * (np.abs((f - (y0.mean() if spec["norm_out"] else 0.))).max() + sy0)
                vtol = 2. * np.sqrt(var) * u + u * u
                mon.check(len(got) == 2 and np.shape(got[0]) == (len(Q),) and np.shape(got[1]) == (len(Q),), "shapes", str([np.shape(g) for g in got]))
                what = "%d points, %d networks, %s" % (len(Q), len(samples), {k: spec[k] for k in ("net", "norm_in", "norm_out")})
                mon.close(np.asarray(got[0], float), mean, "mean-over-networks", rt, at, what)
                mon.close(np.asarray(got[1], float), var, "population-variance", rt * 10, at * scale if f32 else vtol, what)
                mon.check(bool(np.all(np.asarray(got[1]) >= 0)), "variance-not-negative", what)
                mon.check(len(ind) == 2 and np.shape(ind[0]) == f.shape == np.shape(ind[1]), "shapes", str([np.shape(g) for g in ind]))
                mon.close(np.asarray(ind[0], float), f, "individual-means", rt, at, what)
                mon.close(np.asarray(ind[1], float), v, "individual-noise-variances", rt * 10, 1e-300, what)
                first.append((got, ind))
                # one point at a time
                if rnd == 0 and len(Q) <= 7:
                    for i in range(len(Q)):
                        a, b = m.predict(Q[i:i + 1])
                        mon.check(abs(float(a[0]) - mean[i]) <= at + rt * abs(mean[i]) and abs(float(b[0]) - var[i]) <= (at * scale if f32 else vtol[i]) + 10 * rt * var[i], "point-independence",
                                  "point %d of %d alone: %s, %s; formula %s, %s" % (i, len(Q), a, b, mean[i], var[i]))
            if rnd == 0:
                now = [[np.array(v) for v in s] for s in m.samples]
                mon.check(len(now) == len(samples) and all(np.array_equal(a, b) for s, t in zip(now, samples) for a, b in zip(s, t)), "changes-nothing", "collected networks")
                mon.check(all(np.array_equal(a, b) for a, b in zip(saved, m.session.run(_vars(m)))), "changes-nothing", "variables of the session")
                mon.check(m.bnn.sampler.n_iterations == steps, "changes-nothing", "steps of the sampler")
                if case["qseed"] % 2:
                    # the chain goes on: predictions are of the collected networks, not of the current one
                    with m.graph.as_default():
                        for _ in range(3):
                            next(m.bnn.sampler)
                    mon.event("chain-went-on")
        # an array that is written to between predictions is not taken for its old self
        Q = rng.uniform(-2, 2, size=(6, D))
        for rep in range(3):
            got = m.predict(Q)
            ind = m.predict(Q, return_individual_predictions=True)
            f, v, mean, var = reference(spec, samples, full, y, Q)
            if not f32 or np.all(v < 1e30):
                mon.close(np.asarray(got[0], float), mean, "reused-array", rt, 2 * (2e-3 if f32 else 1e-9) * np.abs(f).max(), "use %d" % rep)
                mon.close(np.asarray(ind[0], float), f, "reused-array", rt, 2 * (2e-3 if f32 else 1e-9) * np.abs(f).max(), "use %d" % rep)
            Q[int(rng.randint(6)):] += rng.uniform(.5, 2.)
        for (g, i), (g2, i2) in zip(first[:len(first) // 2], first[len(first) // 2:]):
            for a, b in zip(list(g) + list(i), list(g2) + list(i2)):
                mon.close(np.asarray(b, float), np.asarray(a, float), "repeated-calls-agree", 1e-5 if f32 else 1e-11, 1e-12 + (1e-5 * scale if f32 else 0), "")
        mon.event("predicting-networks", len(samples))
        mon.event("more-than-fifty-networks" if len(samples) > 50 else "few-networks")
        for s in samples:
            mon.state([v.tobytes().hex()[:64] for v in s])
    finally:
        m.close()


def _vars(m):
    import tensorflow as tf
    with m.graph.as_default():
        return tf.global_variables()


def untrained(case, mon):
    from vlib import bnn
    rng = np.random.RandomState(case["seed"])
    m = bnn.build(dict(net="linear", n_nets=2, n_iters=20, burn=2, sample_steps=2, seed=3))
    try:
        for Q in (rng.normal(size=(4, 2)), rng.normal(size=(1, 1)), np.zeros((3, 5))):
            mon.raises(ValueError, lambda: m.predict(Q), "refuses-before-training", "shape %s" % (Q.shape,))
            mon.raises(ValueError, lambda: m.predict(Q, return_individual_predictions=True), "refuses-before-training", "shape %s" % (Q.shape,))
        # a training run that fails leaves an untrained model
        class Stop(Exception):
            pass
        if case["seed"] % 2:
            def bad(*a, **k):
                raise Stop()
            b = bnn.build(dict(net="linear", n_nets=2, n_iters=20, burn=2, sample_steps=2, seed=3), batch_generator=bad)
            mon.raises(Stop, lambda: b.train(rng.normal(size=(5, 2)), rng.normal(size=5)), "failed-training-reported", "")
            mon.raises(ValueError, lambda: b.predict(rng.normal(size=(5, 2))), "refuses-before-training", "after failed training")
            b.close()
        X, y = rng.normal(size=(9, 2)), rng.normal(size=9)
        m.train(X, y)
        got = m.predict(rng.normal(size=(4, 2)))
        mon.check(np.shape(got[0]) == (4,), "accepts-after-training", str(np.shape(got[0])))
        # a later training that fails: nothing of it, or of the one before, is passed off as a result
        inner, left = m.bnn.batch_generator, [int(rng.randint(0, 6))]

        def failing(**kw):
            for b in inner(**kw):
                left[0] -= 1
                if left[0] < 0:
                    raise Stop()
                yield b
        m.bnn.batch_generator = failing
        mon.raises(Stop, lambda: m.train(rng.normal(size=(7, 2)), rng.normal(size=7)), "failed-training-reported", "")
        for Q in (rng.normal(size=(4, 2)), X):
            mon.raises(ValueError, lambda: m.predict(Q), "refuses-after-failed-training", "shape %s" % (Q.shape,))
            mon.raises(ValueError, lambda: m.predict(Q, return_individual_predictions=True), "refuses-after-failed-training", "shape %s" % (Q.shape,))
        m.bnn.batch_generator = inner
        m.train(X, y)
        again = m.predict(X)
        mon.check(np.shape(again[0]) == (9,), "accepts-after-training", "again: %s" % (np.shape(again[0]),))
    finally:
        m.close()


def two(case, mon):
    """Two models, alternately trained and asked: each answers for itself."""
    from vlib import bnn
    rng = np.random.RandomState(case["seed"])
    ms, ds = [], []
    try:
        for j in range(2):
            spec = dict(net=ch.pick(rng, ["two", "linear", "outbias"]), n_nets=3, n_iters=60, burn=3, sample_steps=2, batch_size=5, seed=case["seed"] + j,
                        norm_in=bool(rng.rand() < .8), norm_out=bool(rng.rand() < .8), eps=.01)
            X, y = bnn.dataset(spec, 12, 2, case["seed"] % 1000 + j)
            if not spec["norm_in"]:
                X = X / np.abs(X).max()
            m = bnn.build(spec)
            ms.append(m)
            m.train(X, y)
            ds.append((spec, [[np.array(v) for v in s] for s in m.samples], X, y))
        for _ in range(6):
            j = rng.randint(2)
            Q = rng.uniform(-3, 3, size=(5, 2))
            got = ms[j].predict(Q)
            f, v, mean, var = reference(ds[j][0], ds[j][1], ds[j][2], ds[j][3], Q)
            s = np.abs(f).max()
            mon.close(np.asarray(got[0]), mean, "models-answer-for-themselves", 1e-8, 1e-9 * s, "model %d" % j)
            mon.close(np.asarray(got[1]), var, "models-answer-for-themselves", 1e-7, 1e-9 * s * s, "model %d" % j)
    finally:
        for m in ms:
            m.close()
