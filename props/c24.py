"""C24: normalisation helpers, and equivariance of normalising networks."""
import numpy as np
from vlib import chains as ch


def cases(rng, tier):
    k = 1 if tier == "quick" else 8
    for i in range(96 * k):
        yield dict(mode="helpers", N=int(ch.pick(rng, [1, 2, 3, 10, 50, 200])), D=int(ch.pick(rng, [0, 1, 2, 5, 30])), kind=ch.pick(rng, ["normal", "big", "small", "offset", "int", "constant", "dups", "mixed", "tiny", "integers", "integers"]),
                   dtype=ch.pick(rng, ["float64", "float64", "float64", "float32"]), layout=ch.pick(rng, ["C", "F", "readonly", "strided"]), seed=int(rng.randint(1 << 30)))
    for i in range(20 * k):
        spec = dict(method=["SGHMC", "SGLD"][i % 2], net=["two", "deep", "linear", "outbias"][i // 2 % 4], n_nets=4, burn=3, sample_steps=2, n_iters=60,
                    batch_size=int(ch.pick(rng, [5, 20])), seed=int(rng.randint(1 << 30)), eps=0.01)
        if i % 5 != 4:
            spec.update(norm_in=True, norm_out=True)       # else: the default
        D = int(ch.pick(rng, [1, 2, 3]))
        yield dict(mode="equivariance", spec=spec, N=int(ch.pick(rng, [6, 15, 30])), D=D, dseed=int(rng.randint(1 << 30)),
                   a=[float(x) for x in 10 ** rng.uniform(-3, 3, D)], b=[float(x) for x in rng.uniform(-20, 20, D)],
                   c=float(10 ** rng.uniform(-3, 3)), d=float(rng.uniform(-50, 50)), shuffled=bool(rng.rand() < .3))


def run(case, mon):
    mon.key(case)
    {"helpers": helpers, "equivariance": equi}[case["mode"]](case, mon)


def unchanged(mon, what, f, *args):
    """Call it, and watch its arguments."""
    before = [np.array(a) for a in args]
    out = f(*args)
    for i, (a, b) in enumerate(zip(args, before)):
        mon.same(np.asarray(a), b, "input-unchanged", "%s: argument %d of %s" % (what, i, f.__name__))
    return out


def helpers(case, mon):
    from pysgmcmc.models import base_model as B
    rng = np.random.RandomState(case["seed"])
    N, D, kind = case["N"], case["D"], case["kind"]
    shape = (N, D) if D else (N,)          # targets are 1-d
    X = rng.normal(size=shape)
    if kind == "big":
        X = X * 1e6
    elif kind == "small":
        X = X * 1e-6
    elif kind == "offset":
        X = X + 1e3
    elif kind == "int":
        X = np.round(X * 10)
    elif kind == "constant":
        X[...] = 5.
        if D > 1:
            X[:, 1:] = rng.normal(size=(N, D - 1))
    elif kind == "dups":
        X = np.round(X)
    elif kind == "mixed":
        X = X * 10. ** rng.uniform(-5, 5, size=shape[1:])
    elif kind == "tiny":
        X = X * 10. ** rng.uniform(-30 if case["dtype"] == "float64" else -14, -8, size=shape[1:])
    elif kind == "integers":
        # data of integer type, small or too large for float32
        it = np.dtype(ch.pick(rng, ["int64", "int32", "uint8", "int8", "uint16"]))
        top = ch.pick(rng, [10, 1e4, 2e9])
        lim = [max(np.iinfo(it).min, -top), min(np.iinfo(it).max, top)]
        X = np.round(rng.uniform(lim[0], lim[1] * ch.pick(rng, [1., .7]), size=shape)).astype(it)
    if kind == "integers":
        case = dict(case, dtype="float64")      # as precise as that
    else:
        X = X.astype(case["dtype"])
    if case["layout"] == "F":
        X = np.asfortranarray(X)
    elif case["layout"] == "strided":
        big = np.zeros((2 * N,) + shape[1:], X.dtype)
        big[::2] = X
        X = big[::2]
    X0 = X.copy()
    if case["layout"] == "readonly":
        X.setflags(write=False)
    f32 = case["dtype"] == "float32"
    e = 1e-5 if f32 else 1e-11
    what = "%s" % case
    X64 = X0.astype(float)
    mx, sd, lo, hi = X64.mean(axis=0), X64.std(axis=0), X64.min(axis=0), X64.max(axis=0)
    size = np.abs(X64).max() + 1e-300
    # spread columns only: rounding makes the deviation of nearly constant data meaningless
    spread = hi - lo > 1e-2 * (np.abs(lo) + np.abs(hi)) if not f32 else hi - lo > 0.2 * (np.abs(lo) + np.abs(hi))
    const = hi == lo
    Z, m, s = B.zero_mean_unit_var_normalization(X)
    mon.same(X, X0, "input-unchanged", what)
    mon.check(np.shape(Z) == X.shape and np.shape(m) == X.shape[1:] == np.shape(s), "shapes", what)
    mon.check(bool(np.all(np.isfinite(Z))), "finite", what)
    mon.check(bool(np.all(np.abs(np.asarray(m, float) - mx) <= e * size)), "statistics-returned", what)
    Z64 = np.asarray(Z, float)
    zm, zs = Z64.mean(axis=0), Z64.std(axis=0)
    mon.check(bool(np.all(np.abs(zm[spread] if D else (zm if spread else 0.)) <= (1e-4 if f32 else 1e-9))), "mean-zero", lambda: "%s: %s" % (what, zm))
    mon.check(bool(np.all(np.abs((zs[spread] if D else (zs if spread else 1.)) - 1) <= (1e-4 if f32 else 1e-9))), "variance-one", lambda: "%s: %s" % (what, zs))
    mon.check(bool(np.all(np.abs(Z64[..., const] if D else (Z64 if const else 0.)) <= (1e-3 if f32 else 1e-9))), "constant-columns-finite", what)
    mon.event("constant-columns", int(np.sum(const)))
    mon.event("spread-columns", int(np.sum(spread)))
    back = unchanged(mon, what, B.zero_mean_unit_var_unnormalization, Z, m, s)
    mon.check(bool(np.all(np.abs(np.asarray(back, float) - X64) <= e * (np.abs(X64) + size))), "unnormalisation-inverts", what)
    # given statistics are applied as they are: to new points, and each alone
    Q = (rng.normal(size=(7,) + shape[1:]) * size).astype(case["dtype"])
    if kind == "integers":
        Q = np.round(rng.uniform(lim[0], lim[1], size=Q.shape)).astype(it)
    Q0 = Q.copy()
    Q64 = Q.astype(float)
    Zq, m2, s2 = B.zero_mean_unit_var_normalization(Q, m, s)
    mon.same(Q, Q0, "input-unchanged", what)
    mon.check(np.array_equal(m2, m) and np.array_equal(s2, s), "given-statistics-kept", what)
    mon.check(bool(np.all(np.abs(np.asarray(Zq, float) - (Q.astype(float) - np.asarray(m, float)) / np.asarray(s, float)) <= e * (1 + np.abs(np.asarray(Zq, float)) + size / np.asarray(s, float)))), "given-statistics-applied", what)
    mon.check(bool(np.all(np.abs(np.asarray(unchanged(mon, what, B.zero_mean_unit_var_unnormalization, Zq, m, s), float) - Q64) <= e * (np.abs(Q64) + size))), "unnormalisation-inverts", what + " new points")
    gm, gs = rng.normal(size=shape[1:]) * 3, rng.uniform(.3, 4., size=shape[1:])
    if kind == "integers":
        # statistics of the data's own type
        gm, gs = np.round(rng.uniform(lim[0], lim[1], size=shape[1:])).astype(it), np.round(rng.uniform(1, 4., size=shape[1:])).astype(it)
    for kw in (dict(mean=gm, std=gs), dict(mean=gm), dict(std=gs), dict(mean=np.zeros(shape[1:]), std=np.ones(shape[1:])), dict(mean=0., std=2.)):
        given = {k: np.array(v) for k, v in kw.items()}
        Z, m, s = B.zero_mean_unit_var_normalization(X, **kw)
        for k in kw:
            mon.same(np.asarray(kw[k]), given[k], "input-unchanged", "%s: %s" % (what, k))
        mon.same(X, X0, "input-unchanged", what)
        if "mean" in kw:
            mon.check(np.array_equal(m, kw["mean"]), "given-statistics-kept", what)
        else:
            mon.check(bool(np.all(np.abs(np.asarray(m, float) - mx) <= e * size)), "statistics-returned", what)
        if "std" in kw:
            mon.check(np.array_equal(s, kw["std"]), "given-statistics-kept", what)
        want = (X64 - np.asarray(m, float)) / np.asarray(s, float)
        mon.check(bool(np.all(np.abs(np.asarray(Z, float) - want) <= e * (np.abs(want) + (size + 5) / np.asarray(s, float)))), "given-statistics-applied", what)
    # zero-one
    Z, l, u = B.zero_one_normalization(X)
    mon.same(X, X0, "input-unchanged", what)
    Z64 = np.asarray(Z, float)
    mon.check(np.shape(Z) == X.shape and bool(np.all(np.isfinite(Z64))), "finite", what)
    mon.check(np.array_equal(np.asarray(l, float), lo), "statistics-returned", what)
    mon.check(bool(np.all(np.where(const, True, np.asarray(u, float) == hi))), "statistics-returned", what)
    mon.check(bool(np.all(np.where(const, True, (Z64.min(axis=0) == 0) & (np.abs(Z64.max(axis=0) - 1) < 1e-6)))), "spans-zero-one", lambda: "%s: %s %s" % (what, Z64.min(axis=0), Z64.max(axis=0)))
    mon.check(bool(np.all(Z64 >= 0) and np.all(Z64 <= 1 + 1e-6)), "spans-zero-one", what)
    back = unchanged(mon, what, B.zero_one_unnormalization, Z, l, u)
    mon.check(bool(np.all(np.abs(np.asarray(back, float) - X64) <= e * (np.abs(X64) + size))), "unnormalisation-inverts", what)
    Zq, l2, u2 = B.zero_one_normalization(Q, l, u)
    mon.same(Q, Q0, "input-unchanged", what)
    mon.check(np.array_equal(l2, l) and np.array_equal(u2, u), "given-statistics-kept", what)
    mon.check(bool(np.all(np.abs(np.asarray(unchanged(mon, what, B.zero_one_unnormalization, Zq, l, u), float) - Q64) <= e * (np.abs(Q64) + size))), "unnormalisation-inverts", what + " new points")
    gl = rng.normal(size=shape[1:]) * 3
    gu = gl + rng.uniform(.3, 4., size=shape[1:])
    for kw in (dict(lower=gl, upper=gu), dict(lower=np.zeros(shape[1:]), upper=np.ones(shape[1:])), dict(lower=lo - 1), dict(upper=hi + 2), dict(lower=0., upper=4.)):
        given = {k: np.array(v) for k, v in kw.items()}
        Z, l, u = B.zero_one_normalization(X, **kw)
        for k in kw:
            mon.same(np.asarray(kw[k]), given[k], "input-unchanged", "%s: %s" % (what, k))
        mon.same(X, X0, "input-unchanged", what)
        mon.check(("lower" not in kw or np.array_equal(l, kw["lower"])) and ("upper" not in kw or np.array_equal(u, kw["upper"])), "given-statistics-kept", what)
        if "lower" not in kw:
            mon.check(np.array_equal(np.asarray(l, float), lo), "statistics-returned", what)
        if "upper" not in kw and not np.any(np.asarray(kw["lower"]) == hi):
            mon.check(np.array_equal(np.asarray(u, float), hi), "statistics-returned", what)
        w = np.asarray(u, float) - np.asarray(l, float)
        want = (X64 - np.asarray(l, float)) / w
        mon.check(bool(np.all(np.abs(np.asarray(Z, float) - want) <= e * (np.abs(want) + (size + np.abs(np.asarray(l, float))) / w))), "given-statistics-applied", what)


def equi(case, mon):
    from vlib import bnn
    from pysgmcmc.data_batches import generate_shuffled_batches
    spec = case["spec"]
    X, y = bnn.dataset(spec, case["N"], case["D"], case["dseed"])
    a, b, c, d = np.array(case["a"]), np.array(case["b"]), case["c"], case["d"]
    # shifts in units of the data keep the rounding of the shifted data harmless
    b = b * a * X.std(axis=0)
    d = d * c * y.std()
    Q = np.random.RandomState(case["dseed"]).uniform(-4, 4, size=(9, case["D"]))
    out = []
    for x, t, q in ((X, y, Q), (X * a + b, y * c + d, Q * a + b), (X * a + b, y, Q * a + b), (X, y * c + d, Q)):
        m = bnn.build(spec, batch_generator=generate_shuffled_batches if case["shuffled"] else None)
        try:
            m.train(x, t)
            out.append((m.predict(q), m.predict(q, return_individual_predictions=True)))
        finally:
            m.close()
    (m0, v0), (f0, n0) = out[0]
    if not np.all(np.isfinite(f0)) or np.abs(f0).max() > 1e3:
        mon.event("diverged-chains")
        return
    size = np.abs(f0 - y.mean()).max() + y.std()
    tol = 1e-6
    for ((m, v), (f, n)), (cc, dd), nm in zip(out[1:], ((c, d), (1., 0.), (c, d)), ("both", "inputs", "targets")):
        what = "%s rescaled: a=%s b=%s c=%s d=%s" % (nm, a, b, c, d)
        mon.close((np.asarray(m) - dd) / cc, m0, "equivariant-mean", tol, tol * size, what)
        mon.close(np.asarray(v) / cc ** 2, v0, "equivariant-variance", 10 * tol, tol * size ** 2, what)
        mon.close((np.asarray(f) - dd) / cc, f0, "equivariant-individual", tol, tol * size, what)
        mon.close(np.asarray(n) / cc ** 2, n0, "equivariant-noise", 10 * tol, 1e-12, what)
