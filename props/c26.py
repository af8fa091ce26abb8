"""C26: vectorize/unvectorize, guarded division and root, uninitialized_params."""
import numpy as np
from vlib import chains as ch

SH = [[], [1], [2], [7], [1, 1], [2, 3], [3, 2], [1, 5], [5, 1], [2, 3, 4], [1, 1, 1, 1], [3, 1, 2, 2], [0], [0, 3], [2, 0, 2], [0, 0], [3, 0, 0]]
DT = ["float64", "float32", "int32", "int64", "float16", "complex128"]


def cases(rng, tier):
    k = 1 if tier == "quick" else 8
    for i in range(48 * k):
        yield dict(mode="vectorize", shape=SH[i % len(SH)], dtype=ch.pick(rng, DT), seed=int(rng.randint(1 << 30)))
    for i in range(24 * k):
        yield dict(mode="divide", dtype=ch.pick(rng, ["float64", "float32"]), seed=int(rng.randint(1 << 30)))
    for i in range(16 * k):
        yield dict(mode="sqrt", dtype=ch.pick(rng, ["float64", "float32"]), seed=int(rng.randint(1 << 30)))
    for i in range(24 * k):
        n = int(ch.pick(rng, [0, 1, 2, 5, 12]))
        yield dict(mode="uninitialized", flags=[bool(x) for x in rng.rand(n) < ch.pick(rng, [0., .3, .5, 1.])], seed=int(rng.randint(1 << 30)))
    yield dict(mode="reject")


def run(case, mon):
    {"vectorize": vec, "divide": divide, "sqrt": root, "uninitialized": uninit, "reject": reject}[case["mode"]](case, mon)
    mon.key(case)


def vec(case, mon):
    import tensorflow as tf
    from pysgmcmc.tensor_utils import vectorize, unvectorize
    rng = np.random.RandomState(case["seed"])
    shape = tuple(case["shape"])
    x = rng.normal(size=shape) * 9
    if case["dtype"].startswith("complex"):
        x = x + 1j * rng.normal(size=shape)
    x = np.asarray(x, dtype=case["dtype"])
    size = int(np.prod(shape, dtype=int))
    g = tf.Graph()
    with g.as_default(), tf.Session(graph=g, config=ch.session_config(None)) as s:
        what = "%s %s" % (shape, case["dtype"])
        # tensors
        for t, fd in ((tf.constant(x), {}), (lambda p: (p, {p: x}))(tf.placeholder(x.dtype, shape))):
            v = vectorize(t)
            mon.check(isinstance(v, tf.Tensor), "vectorize-kind", "%s: %s" % (what, type(v)))
            mon.same(s.run(v, fd), x.reshape(size, 1), "vectorize-column", what)
            u = unvectorize(v, original_shape=t.shape)
            mon.same(s.run(u, fd), x, "unvectorize-inverse", what)
            mon.check(u.shape.as_list() == list(shape), "unvectorize-inverse", "static shape %s" % u.shape)
        mon.same(s.run(unvectorize(vectorize(tf.constant(x)), shape)), x, "unvectorize-inverse", what + " (shape as tuple)")
        # variables: a new variable that starts with the value of the original
        y = np.asarray(rng.permutation(x.ravel()).reshape(shape), dtype=x.dtype)
        var = tf.Variable(x)
        n0 = len(tf.global_variables())
        w = vectorize(var)
        mon.check(isinstance(w, tf.Variable) and w is not var and len(tf.global_variables()) == n0 + 1, "vectorize-kind", "%s: %s" % (what, type(w)))
        if isinstance(w, tf.Variable):
            s.run(var.initializer)
            if case["seed"] % 2:
                # initialised and then changed: the current value counts
                var.load(y, s)
                s.run(w.initializer)
                mon.same(s.run(w), y.reshape(size, 1), "vectorized-variable-starts-there", what)
            else:
                s.run(w.initializer)
                mon.same(s.run(w), x.reshape(size, 1), "vectorized-variable-starts-there", what)
            before = s.run(w)
            var.load(np.zeros_like(x), s)
            mon.same(s.run(w), before, "vectorized-variable-is-its-own", what)
            w.load(np.ones((size, 1), x.dtype), s)
            mon.same(s.run(var), np.zeros_like(x), "vectorized-variable-is-its-own", what)
            w.load(before, s)
            mon.same(s.run(unvectorize(w, var.shape)), before.reshape(shape), "unvectorize-inverse", what + " of a variable")
        # initialising everything at once, originals first or not
        var2 = tf.Variable(x)
        w2 = vectorize(var2)
        s.run(tf.variables_initializer([w2, var2] if case["seed"] % 3 else [var2, w2]))
        mon.same(s.run(w2), x.reshape(size, 1), "vectorized-variable-starts-there", what + ", initialised together")


def divide(case, mon):
    import tensorflow as tf
    from pysgmcmc.tensor_utils import safe_divide
    rng = np.random.RandomState(case["seed"])
    dt = np.dtype(case["dtype"])
    for c in [None, 1e-16, 1e-8, 1e-3, 0.5]:
        cc = dt.type(1e-16 if c is None else c)
        special = np.array([0., -0., 1, -1, 2, -2, .5, -.5, 3, -3, 1.5, -1.5, .999, -.999], dt) * cc
        y = np.concatenate([special, rng.normal(size=20).astype(dt), (rng.normal(size=10) * float(cc)).astype(dt),
                            np.array([1e30, -1e30, 1., -1.], dt)]).astype(dt)
        x = np.concatenate([np.full(len(special), ch.pick(rng, [1., -1., 0., 3.5]), dt), rng.normal(size=len(y) - len(special)).astype(dt)]).astype(dt)
        kw = {} if c is None else dict(small_constant=c)
        g = tf.Graph()
        with g.as_default(), tf.Session(graph=g) as s:
            forms = [safe_divide(tf.constant(x), tf.constant(y), **kw), safe_divide(tf.Variable(x), tf.Variable(y), **kw)]
            if c is not None:
                forms.append(safe_divide(tf.constant(x), tf.constant(y), tf.constant(c, dtype=dt), name="q"))
            s.run(tf.global_variables_initializer())
            for got in s.run(forms):
                den = y + (2 * np.sign(y) * cc + cc)
                want = x.astype(np.float64) / den.astype(np.float64)
                tol = 1e-13 if dt == np.float64 else 1e-5
                mon.check(got.dtype == dt, "divide-formula", "dtype %s" % got.dtype)
                ok = np.abs(den.astype(np.float64)) > 0
                with np.errstate(all="ignore"):
                    expect = want.astype(dt).astype(float)
                mon.close(got.astype(float), expect, "divide-formula", tol, 1e-300, "x=%s y=%s c=%s" % (x[:6], y[:6], c))
                mon.check(bool(np.all(np.isfinite(got[np.isfinite(expect)]))) and ok.all(), "divide-never-by-zero", "c=%s: %s" % (c, y[~np.isfinite(got)]))
                mon.check(bool(np.all(np.abs(got[np.abs(y) <= 10 * cc].astype(float)) <= np.abs(x[np.abs(y) <= 10 * cc].astype(float)) / (float(cc) * (1 - 1e-5)))), "divide-bounded", "c=%s" % c)
            scal = s.run(safe_divide(1., tf.constant(0., dt), small_constant=float(cc)))
            mon.check(abs(float(scal) * float(cc) - 1) < 1e-5, "divide-formula", "1/0 with c=%s gives %s" % (c, scal))


def root(case, mon):
    import tensorflow as tf
    from pysgmcmc.tensor_utils import safe_sqrt
    rng = np.random.RandomState(case["seed"])
    dt = np.dtype(case["dtype"])
    x = np.concatenate([np.array([0., -0., -1e-16, 1e-16, -1., 1., 4., -1e30, 1e30, 1e-30, -5e-324, 2.25], dt), rng.normal(size=30).astype(dt) * 5]).astype(dt)
    if dt == np.float64:
        x = np.concatenate([x, 10. ** np.array([39., 100., 200., 300., 308.]), -10. ** np.array([39., 300., 308.])])
    else:
        x = np.concatenate([x, np.array([3e38, -3e38], dt)])
    for lo, hi in ((None, None), (0., 4.), (1e-16, None), (0.5, 2.), (1., float("inf")), (0., 0.)):
        kw = {}
        if lo is not None:
            kw["clip_value_min"] = lo
        if hi is not None:
            kw["clip_value_max"] = hi
        g = tf.Graph()
        with g.as_default(), tf.Session(graph=g) as s:
            v = tf.Variable(x)
            s.run(v.initializer)
            for got in s.run([safe_sqrt(tf.constant(x), **kw), safe_sqrt(v, **kw), safe_sqrt(tf.constant(x.reshape(2, -1)), name="r", **kw)]):
                got = got.ravel()
                want = np.sqrt(np.minimum(np.maximum(x, dt.type(lo or 0.)), dt.type(np.inf if hi is None else hi)))
                mon.close(got.astype(float), want.astype(float), "sqrt-formula", 1e-14 if dt == np.float64 else 1e-6, 0., "clip %s %s of %s" % (lo, hi, x[:12]))
                mon.check(not np.isnan(got).any(), "sqrt-never-nan", "clip %s %s: %s" % (lo, hi, x[np.isnan(got)]))


def uninit(case, mon):
    import tensorflow as tf
    from pysgmcmc.tensor_utils import uninitialized_params
    rng = np.random.RandomState(case["seed"])
    g = tf.Graph()
    with g.as_default():
        tf.constant(0.)
        vs = [tf.Variable(np.asarray(rng.normal(size=tuple(ch.pick(rng, SH[:10]))), dtype=ch.pick(rng, DT[:4]))) for _ in case["flags"]]
        a, b = tf.Session(graph=g), tf.Session(graph=g)
        try:
            for v, f in zip(vs, case["flags"]):
                if f:
                    a.run(v.initializer)
                if not f or rng.rand() < .3:
                    b.run(v.initializer)          # another session's state does not count
            order = list(rng.permutation(len(vs)))
            ps = [vs[i] for i in order]
            want = [vs[i] for i in order if not case["flags"][i]]
            for form in (ps, list(ps)):
                got = uninitialized_params(params=form, session=a)
                mon.check(len(got) == len(want) and all(x is y for x, y in zip(got, want)), "uninitialized-exactly",
                          lambda: "%s, expected %s" % ([v.name for v in got], [v.name for v in want]))
            flags = a.run([tf.is_variable_initialized(v) for v in vs]) if vs else []
            mon.check([bool(f) for f in flags] == case["flags"], "uninitialized-changes-nothing", "")
            if vs:
                a.run([v.initializer for v in want])
                mon.check(list(uninitialized_params(ps, a)) == [], "uninitialized-exactly", "after initialising them")
                sub = ps[:len(ps) // 2 + 1]
                got = uninitialized_params(sub, a)
                mon.check(got == [], "uninitialized-exactly", "subset")
        finally:
            a.close()
            b.close()


def reject(case, mon):
    import tensorflow as tf
    from pysgmcmc.tensor_utils import vectorize
    g = tf.Graph()
    with g.as_default():
        for bad in ([1.0], 1.0, np.zeros((2, 2)), None, "text", (1, 2), [tf.constant(1.)], {}, np.float64(2.)):
            mon.raises(ValueError, lambda: vectorize(bad), "vectorize-rejects", "%r" % (bad,))
