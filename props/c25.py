"""C25: pdist, squareform and median against scipy and numpy."""
import numpy as np
from vlib import chains as ch


def cases(rng, tier):
    k = 1 if tier == "quick" else 8
    for i in range(48 * k):
        yield dict(mode="pdist", n=int(ch.pick(rng, [1, 2, 2, 3, 4, 5, 7, 10, 14, 20, 33])), d=int(ch.pick(rng, [1, 1, 2, 3, 6, 17])),
                   dtype=["float64", "float32"][i % 2], kind=ch.pick(rng, ["normal", "dups", "line", "big", "small", "negative", "offset", "offset"]),
                   form=ch.pick(rng, ["constant", "variable", "placeholder"]), seed=int(rng.randint(1 << 30)))
    for i in range(40 * k):
        yield dict(mode="squareform", n=int(i % 20) + 1 if i % 40 < 36 else int(ch.pick(rng, [33, 50, 64, 101])), dtype=ch.pick(rng, ["float64", "float32", "int32"]),
                   form=ch.pick(rng, ["constant", "placeholder"]), seed=int(rng.randint(1 << 30)))
    for i in range(72 * k):
        yield dict(mode="median", shape=ch.pick(rng, [[1], [2], [3], [4], [5], [6], [7], [10], [11], [101], [100], [2, 3], [3, 3], [2, 2, 2], [1, 1], [3, 1, 5], [], [4, 4], [1, 6]]),
                   dtype=ch.pick(rng, ["float64", "float64", "float32", "int32"]),
                   kind=ch.pick(rng, ["normal", "dups", "sorted", "reversed", "negative", "constant", "two", "mixed"]),
                   form=ch.pick(rng, ["constant", "variable", "placeholder"]), seed=int(rng.randint(1 << 30)))
    for i in range(8 * k):
        # a single point: no distances
        yield dict(mode="pdist", n=1, d=int(ch.pick(rng, [1, 2, 5])), dtype=["float64", "float32"][i % 2], kind="normal",
                   form=ch.pick(rng, ["constant", "variable", "placeholder"]), seed=int(rng.randint(1 << 30)))
    for i in range(24 * k):
        # large inputs, and integers that no float32 holds
        yield dict(mode="median", shape=ch.pick(rng, [[102], [144], [12, 12], [16, 16], [200], [501], [1000], [10, 10, 3], [30, 31], [2], [3], [6]]),
                   dtype=["float64", "float32", "int32", "int64"][i % 4], kind=["normal", "mixed", "huge"][i // 4 % 3] if i % 4 < 2 else "huge",
                   form=ch.pick(rng, ["constant", "variable", "placeholder"]), seed=int(rng.randint(1 << 30)))
    for i in range(3 * k):
        # more than a thousand pairs
        yield dict(mode="pdist", n=[68, 41, 55, 101][i % 4], d=int(ch.pick(rng, [1, 2, 5])), dtype=["float64", "float32"][i % 2], kind=ch.pick(rng, ["normal", "dups", "line", "offset"]),
                   form="placeholder", seed=int(rng.randint(1 << 30)))
    for i in range(6 * k):
        # the same points again, in many dimensions
        yield dict(mode="pdist", n=int(ch.pick(rng, [3, 6, 12])), d=int(ch.pick(rng, [2, 33, 70, 150])), dtype=["float64", "float32"][i % 2], kind="again",
                   form=ch.pick(rng, ["constant", "variable", "placeholder"]), seed=int(rng.randint(1 << 30)))
    for i in range(4 * k):
        yield dict(mode="reject", seed=int(rng.randint(1 << 30)))


def evaluate(f, value, form):
    import tensorflow as tf
    g = tf.Graph()
    with g.as_default(), tf.Session(graph=g) as s:
        fd = {}
        if form == "constant":
            t = tf.constant(value)
        elif form == "variable":
            t = tf.Variable(value)
        else:
            t = tf.placeholder(value.dtype, value.shape)
            fd = {t: value}
        y = f(t)
        s.run(tf.global_variables_initializer())
        a = s.run(y, fd)
        b = s.run(y, fd)
        static = y.shape.as_list() if y.shape.ndims is not None else None
    return a, b, static


def run(case, mon):
    {"pdist": pdist, "squareform": squareform, "median": median, "reject": reject}[case["mode"]](case, mon)
    mon.key(case)


def data(rng, shape, kind, dtype):
    x = rng.normal(size=shape)
    if kind == "dups":
        x = np.round(x)
    elif kind == "again":
        x = x[rng.randint(max(1, len(x) // 2), size=len(x))]
    elif kind == "line":
        x = np.arange(x.size).reshape(shape).astype(float) * 0.5
    elif kind == "big":
        x = x * 1e8
    elif kind == "offset":
        # close together, far from zero: differences are exact, norms of sums are not
        x = x * 1e-3 + 1e3
    elif kind == "small":
        x = x * 1e-8
    elif kind == "negative":
        x = -np.abs(x) - 3
    elif kind == "sorted":
        x = np.sort(x.ravel()).reshape(shape)
    elif kind == "reversed":
        x = np.sort(x.ravel())[::-1].reshape(shape)
    elif kind == "constant":
        x = np.full(shape, -1.25)
    elif kind == "two":
        x = np.where(x > 0, 1., 2.)
    elif kind == "mixed":
        x = x * 10. ** rng.uniform(-6, 6, size=shape)
    elif kind == "huge":
        x = rng.uniform(-1, 1, size=shape) * 2e9 if rng.rand() < .5 else rng.uniform(1.5e9, 2.1e9, size=shape)
        if dtype == "int64":
            x = x * 1e5
        return np.asarray(np.round(x), dtype=dtype)
    if dtype == "int32":
        x = np.round(x * 5)
    return np.asarray(x, dtype=dtype)


def pdist(case, mon):
    from pysgmcmc.tensor_utils import pdist as f
    from scipy.spatial.distance import pdist as g
    x = data(np.random.RandomState(case["seed"]), (case["n"], case["d"]), case["kind"], case["dtype"])
    want = g(x.astype(np.float64))
    for call in (f, lambda t: f(t, "euclidean"), lambda t: f(t, metric="euclidean")):
        got, again, _ = evaluate(call, x, case["form"])
        mon.check(got.dtype == x.dtype, "pdist-dtype", "n=%d: %s for %s input" % (case["n"], got.dtype, x.dtype))
        tol = 1e-12 if case["dtype"] == "float64" else 1e-5
        mon.close(got.astype(float), want, "pdist-distances", tol, tol * np.abs(want).max(initial=0.), "%s" % case)
        mon.same(got, again, "pdist-distances", "evaluated again")
        if case["n"] > 8:
            break


def squareform(case, mon):
    from pysgmcmc.tensor_utils import squareform as f, pdist as p
    from scipy.spatial.distance import squareform as g
    rng = np.random.RandomState(case["seed"])
    n = case["n"]
    m = n * (n - 1) // 2
    v = np.asarray(rng.uniform(-5, 50, size=m) if case["seed"] % 2 else np.arange(1, m + 1), dtype=case["dtype"])
    got, again, _ = evaluate(f, v, case["form"])
    want = g(v) if m else np.zeros((1, 1), v.dtype)
    mon.same(got, want.astype(v.dtype), "squareform-matrix", "vector of length %d" % m)
    mon.check(bool(np.all(np.diag(got) == 0) and np.all(got == got.T)), "squareform-symmetric", "length %d" % m)
    if case["dtype"] != "int32" and n <= 10:
        x = rng.normal(size=(n, 3)).astype(case["dtype"])
        got, _, _ = evaluate(lambda t: f(p(t)), x, "constant")
        D = np.sqrt(((x[:, None].astype(float) - x[None].astype(float)) ** 2).sum(-1))
        mon.close(got.astype(float), D, "squareform-of-pdist", 1e-5 if case["dtype"] == "float32" else 1e-11, 1e-5 if case["dtype"] == "float32" else 1e-11, "n=%d" % n)


def median(case, mon):
    from pysgmcmc.tensor_utils import median as f
    x = data(np.random.RandomState(case["seed"]), tuple(case["shape"]), case["kind"], case["dtype"])
    got, again, _ = evaluate(f, x, case["form"])
    want = np.median(x)
    mon.check(np.shape(got) == (), "median-scalar", "shape %s" % (np.shape(got),))
    mon.close(np.asarray(got, float), np.asarray(want, float), "median-value", 1e-6 if case["dtype"] == "float32" else 1e-15, 0., "%s, elements %s" % (case, x.ravel()[:12]))
    mon.event("median-even" if x.size % 2 == 0 else "median-odd")
    # the order of the elements does not matter
    y = np.random.RandomState(case["seed"] + 1).permutation(x.ravel()).reshape(x.shape)
    got2, _, _ = evaluate(f, y, case["form"])
    mon.same(got2, got, "median-permutation", "%s" % case)


def reject(case, mon):
    import tensorflow as tf
    from pysgmcmc.tensor_utils import pdist, squareform
    bad = (ValueError, NotImplementedError)
    rng = np.random.RandomState(case["seed"])
    g = tf.Graph()
    with g.as_default():
        for shape in ((), (3,), (1,), (2, 2, 2), (1, 1, 1, 1)):
            t = tf.constant(rng.normal(size=shape))
            mon.raises(bad, lambda: pdist(t), "pdist-rejects", "shape %s" % (shape,))
            mon.raises(bad, lambda: pdist(t, metric="cosine"), "pdist-rejects", "shape %s" % (shape,))
        t = tf.constant(rng.normal(size=(3, 2)))
        for metric in ("cosine", "cityblock", "Euclidean", "sqeuclidean", "", None, "lengthy_metric"):
            mon.raises(bad, lambda: pdist(t, metric=metric), "pdist-rejects", "metric %r" % (metric,))
            mon.raises(bad, lambda: pdist(t, metric), "pdist-rejects", "metric %r" % (metric,))
        for m in range(0, 60):
            n = int((1 + np.sqrt(1 + 8 * m)) / 2 + 1e-9)
            valid = n * (n - 1) // 2 == m
            v = tf.constant(rng.normal(size=m))
            if valid:
                got = squareform(v)
                mon.check(got.shape.as_list() == [n, n], "squareform-valid-accepted", "length %d: %s" % (m, got.shape))
            else:
                mon.raises(bad, lambda: squareform(v), "squareform-rejects", "length %d" % m)
        for shape in ((), (3, 3), (2, 2), (1, 3), (3, 1), (1, 1, 1)):
            t = tf.constant(rng.normal(size=shape))
            mon.raises(bad, lambda: squareform(t), "squareform-rejects", "shape %s" % (shape,))
