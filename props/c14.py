"""C14: long chains have the distribution of their target.

A parameter with N elements and a cost that is a sum over elements is N independent
chains at once; what they visit is compared with the target's exact distribution.
"""
import numpy as np
from vlib import chains as ch

N = 1024


def cases(rng, tier):
    n = 1 if tier == "quick" else 6
    for rep in range(n):
        for kind in ("SGHMC", "SGLD", "REL"):
            for target in ("gauss", "gauss", "scaled", "coupled", "mixture", "shift", "mixture3"):
                t = dict(name=target)
                if target in ("gauss", "shift"):
                    t.update(mu=float(rng.uniform(-3, 3)), sd=float(rng.uniform(0.6, 1.6)))
                if target == "scaled":
                    t.update(mu=[float(x) for x in rng.uniform(-2, 2, 4)],
                             sd=[0.6, 1., 1.5, 0.8])
                if target == "coupled":
                    t.update(mu=[float(rng.uniform(-1, 1)), float(rng.uniform(-1, 1))], sd=[1., float(rng.uniform(.7, 1.4))],
                             rho=float(ch.pick(rng, [.6, -.6, .4])))
                if target == "mixture":
                    t.update(w=[.5, .5], mu=[-1.2, 1.2], sd=[.8, .8])
                if target == "mixture3":
                    t.update(w=[.25, .45, .3], mu=[-1.6, 0.1, 1.8], sd=[.7, .9, .7])
                if target == "shift":
                    t["shift"] = float(ch.pick(rng, [5., -20., 0.75]))
                yield dict(kind=kind, target=t, seed=int(rng.randint(1 << 30)), pseed=int(rng.randint(1 << 30)),
                           far=bool(rng.rand() < .3), dtype=ch.pick(rng, ["float64", "float64", "float32"]))
        for D in (1, 2, 3):
            for _ in range(2):
                yield dict(kind="SVGD", D=D, n=int(ch.pick(rng, [12, 20, 30])), pseed=int(rng.randint(1 << 30)),
                           mu=[float(x) for x in rng.uniform(-3, 3, D)], sd=float(rng.uniform(.7, 1.5)),
                           width=float(ch.pick(rng, [.2, 1., 2.])), shift=float(ch.pick(rng, [4., -10.])))


SETTING = {
    "SGHMC": dict(eps=0.05, mdecay=0.1, scale_grad=1., burn=200),
    "SGLD": dict(eps=0.03, A=1.0, scale_grad=1., burn=200),
    "REL": dict(eps=0.06, mass=1., c=2., D=1., Bhat=0.),
}


def neg_log_density(t):
    """-> cost on tensors for the N parallel chains of target t."""
    import tensorflow as tf

    def f(ps, K, feeds):
        name = t["name"]
        s = t.get("at", 0.)
        if name in ("gauss", "shift"):
            return tf.reduce_sum(.5 * tf.square((ps[0] - K.c(t["mu"] + s)) / K.c(t["sd"])))
        if name == "scaled":
            k = len(t["mu"])
            mu = np.tile(np.array(t["mu"]), N // k).astype(K.dtype)
            sd = np.tile(np.array(t["sd"]), N // k).astype(K.dtype)
            return tf.reduce_sum(.5 * tf.square((ps[0] - mu) / sd))
        if name == "coupled":
            r = t["rho"]
            a = (ps[0] - K.c(t["mu"][0])) / K.c(t["sd"][0])
            b = (tf.reshape(ps[1], (N,)) - K.c(t["mu"][1])) / K.c(t["sd"][1])
            return tf.reduce_sum(a * a - 2 * r * a * b + b * b) / K.c(2 * (1 - r * r))
        terms = [np.log(w / sd) - .5 * tf.square((ps[0] - K.c(mu)) / K.c(sd))
                 for w, mu, sd in zip(t["w"], t["mu"], t["sd"])]
        return -tf.reduce_sum(tf.reduce_logsumexp(tf.stack(terms), axis=0))
    return f


def cdf(t, x):
    from scipy import stats as st
    return sum(w * st.norm.cdf(x, mu, sd) for w, mu, sd in zip(t["w"], t["mu"], t["sd"]))


def simulate(case, mon, at=0.):
    t = dict(case["target"], at=at)
    kind = case["kind"]
    rng = np.random.RandomState(case["pseed"])
    shapes = [[N], [2, N // 2]] if t["name"] == "coupled" else [[N]]
    spec = dict(SETTING[kind], kind=kind, shapes=shapes, cost="c14", dtype=case["dtype"],
                seed=case["seed"], pseed=case["pseed"] % 1000)
    ch.COSTS["c14"] = neg_log_density(t)
    chain = ch.Chain(spec, init=None)
    try:
        import tensorflow as tf
        with chain.graph.as_default():
            chain.session.run(tf.global_variables_initializer())
        if t["name"].startswith("mixture"):
            comp = rng.choice(len(t["w"]), p=t["w"], size=N)
            x = rng.normal(np.array(t["mu"])[comp], np.array(t["sd"])[comp])
        else:
            x = rng.normal(0., 1., size=N) + np.mean(t["mu"]) + (2. if case["far"] else 0.) + at
        chain.assign([np.reshape(x, s).astype(ch.np_dtype(spec)) for s in shapes])
        snaps = []
        warm = SETTING[kind].get("burn", 0) + 500
        for i in range(warm + 600):
            s, _ = chain.next()
            if i >= warm and i % 20 == 0:
                snaps.append([np.array(v, float).ravel() for v in s])
        mon.event("chain-steps", N * (warm + 600))
        return [np.array([s[i] for s in snaps]) for i in range(len(shapes))]
    finally:
        chain.close()


def run(case, mon):
    if case["kind"] == "SVGD":
        return svgd(case, mon)
    t = case["target"]
    X = simulate(case, mon)
    what = "%s on %s" % (case["kind"], t)
    mon.check(all(np.all(np.isfinite(x)) for x in X), "finite", what)

    def moments(x, mu, sd, clause):
        lo, hi = (0.8, 1.25) if t["name"] == "scaled" else (0.86, 1.16)
        m, v = x.mean(), x.var()
        mon.check(abs(m - mu) < 0.1 * sd, clause + "-mean", "%s: mean %.4f, target %.4f (sd %.3f)" % (what, m, mu, sd))
        mon.check(lo < v / sd ** 2 < hi, clause + "-variance", "%s: variance %.4f, target %.4f" % (what, v, sd ** 2))

    if t["name"] in ("gauss", "shift"):
        moments(X[0], t["mu"], t["sd"], "target")
    elif t["name"] == "scaled":
        k = len(t["mu"])
        for i in range(k):
            moments(X[0][:, i::k], t["mu"][i], t["sd"][i], "target")
    elif t["name"] == "coupled":
        for i in range(2):
            moments(X[i], t["mu"][i], t["sd"][i], "target")
        r = np.corrcoef(X[0].ravel(), X[1].ravel())[0, 1]
        mon.check(abs(r - t["rho"]) < 0.1, "target-correlation", "%s: correlation %.3f" % (what, r))
    else:
        w, mu, sd = map(np.array, (t["w"], t["mu"], t["sd"]))
        m = (w * mu).sum()
        v = (w * (sd ** 2 + mu ** 2)).sum() - m * m
        moments(X[0], m, np.sqrt(v), "target")
        x = np.sort(X[0].ravel())
        F = cdf(t, x)
        e = (np.arange(x.size) + .5) / x.size
        d = np.abs(F - e).max()
        mon.check(d < 0.04, "target-distribution", "%s: KS distance %.4f" % (what, d))
    if t["name"] == "shift":
        s = t["shift"]
        Y = simulate(case, mon, at=s)
        d = Y[0].mean() - X[0].mean()
        mon.check(abs(d - s) < 0.12 * t["sd"], "mean-shifts-with-target", "%s: mean moved by %.4f for a shift of %.4f" % (what, d, s))
    mon.key(case)


def svgd(case, mon):
    n, D = case["n"], case["D"]
    mu, sd = np.array(case["mu"]), case["sd"]
    rng = np.random.RandomState(case["pseed"])
    steps = 900
    start = rng.normal(size=(n, D)) * case["width"]
    finals = []
    for at in (0., case["shift"]):
        def cost(ps, K, feeds, at=at):
            import tensorflow as tf
            return tf.reduce_sum(.5 * tf.square((ps[0] - tf.constant((mu + at).reshape(-1))) / K.c(sd)))
        ch.COSTS["c14"] = cost
        spec = dict(kind="SVGD", shapes=[[D]] * n, cost="c14", dtype="float64", seed=None,
                    eps=[0.1 if k < 500 else 0.1 / (1. + 0.05 * (k - 500)) for k in range(steps)], pseed=0)
        chain = ch.Chain(spec)
        try:
            chain.assign(list(start + at))
            for _ in range(steps):
                s, _c = chain.next()
        finally:
            chain.close()
        x = np.array(s)
        finals.append(x)
        what = "SVGD n=%d D=%d mu=%s sd=%.3f" % (n, D, mu + at, sd)
        mon.event("chain-steps", n * steps)
        mon.check(np.abs(x.mean(0) - mu - at).max() < 0.2 * sd, "target-mean", "%s: particle mean %s" % (what, x.mean(0)))
        r = x.std(0) / sd
        mon.check(np.all((r > LOW[D]) & (r < 1.3)), "svgd-spread", "%s: particle spread %s times the target's" % (what, r))
    d = finals[1].mean(0) - finals[0].mean(0) - case["shift"]
    mon.check(np.abs(d).max() < 0.12 * sd, "mean-shifts-with-target", "SVGD: off by %s" % d)
    mon.key(case)


LOW = {1: 0.7, 2: 0.6, 3: 0.5}
