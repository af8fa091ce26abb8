"""C21: training of Bayesian neural networks: the whole chain is observed through its
stepsize schedule and batch generator, and compared with the documented one."""
import numpy as np
from vlib import chains as ch
from vlib import stats

NETS = ["two", "deep", "linear", "single", "outbias"]


def cases(rng, tier):
    k = 1 if tier == "quick" else 7
    for i in range(48 * k):
        N = int(ch.pick(rng, [1, 2, 5, 12, 20, 30, 45]))
        burn = int(ch.pick(rng, [1, 2, 5, 7, 12, 20, 0]))
        ss = int(ch.pick(rng, [1, 2, 3, 5, 7, 10]))
        nn = int(ch.pick(rng, [1, 2, 3, 5, 9]))
        need = burn + (nn + 1) * ss
        spec = dict(method=["SGHMC", "SGLD"][i % 2], net=NETS[i // 2 % 5] if i % 8 != 7 else None, n_nets=nn, burn=burn, sample_steps=ss,
                    n_iters=int(ch.pick(rng, [need + 7, need + 7, need + 60, need + 7, need // 2 + 1, burn + 1, burn, max(1, burn - 1), need - ss, 1]) or 1),
                    batch_size=int(ch.pick(rng, [1, 3, 10, 20, 50])), seed=int(rng.randint(1 << 30)) if i % 5 else None,
                    norm_in=bool(rng.rand() < .7), norm_out=bool(rng.rand() < .7), kw={})
        spec["eps"] = ch.pick(rng, [0.01, 0.003, [float(x) for x in rng.uniform(.001, .02, 90)]])
        if spec["method"] == "SGHMC" and rng.rand() < .6:
            spec["kw"]["mdecay"] = float(ch.pick(rng, [.05, .01, .3, 0.]))
        if spec["method"] == "SGLD" and rng.rand() < .6:
            spec["kw"]["A"] = float(ch.pick(rng, [1., .5, 2., 0.]))
        if rng.rand() < .15:
            spec["dtype"] = "float32"
        # what is not passed has its documented default
        drop = []
        if i % 6 == 5:
            drop = [["batch_size"], ["norm_in", "norm_out"], ["method"]][i // 6 % 3]
            if drop == ["method"]:
                spec["kw"] = {}
        yield dict(mode="chain", N=N, D=int(ch.pick(rng, [1, 2, 4])), dseed=int(rng.randint(1 << 30)), spec=spec, drop=drop,
                   xdtype=ch.pick(rng, ["float64", "float64", "float32", "int64"]), shuffled=bool(rng.rand() < .4))
    for i in range(4 * k):
        # burn-in phases longer than anything that happens every so many steps
        burn, ss, nn = int(rng.randint(520, 700)), int(ch.pick(rng, [3, 7, 50])), int(ch.pick(rng, [2, 4]))
        spec = dict(method=["SGHMC", "SGLD"][i % 2], net=ch.pick(rng, ["linear", "single"]), n_nets=nn, burn=burn, sample_steps=ss, n_iters=burn + (nn + 1) * ss + 5,
                    batch_size=int(ch.pick(rng, [3, 10, 50])), seed=int(rng.randint(1 << 30)), norm_in=True, norm_out=True, kw={}, eps=0.003)
        if i % 2 == 0 or tier != "quick":
            # the targets (of a batch generator of the user's) change scale late in burn-in, and again after it
            spec["scale_y"] = [[burn - 60, 40.], [burn + 3, .05]]
            if spec["method"] == "SGHMC":
                spec["eps"] = 0.0005
        yield dict(mode="chain", N=int(ch.pick(rng, [5, 12, 30])), D=int(ch.pick(rng, [1, 2])), dseed=int(rng.randint(1 << 30)), spec=spec, drop=[],
                   xdtype="float64", shuffled=bool(rng.rand() < .4), long=True)
    for i in range(6 * k):
        spec = dict(method=["SGHMC", "SGLD"][i % 2], net=["two", None, "linear", "outbias", "two", "single"][i % 6], n_nets=4, burn=4, sample_steps=2, n_iters=40,
                    batch_size=5, seed=[0, int(rng.randint(1 << 30)), 1][i // 2 % 3], norm_in=True, norm_out=True, kw={}, eps=0.01)
        yield dict(mode="seeded", N=12, D=2, dseed=int(rng.randint(1 << 30)), spec=spec)
    # documented defaults for the lengths
    yield dict(mode="defaults", which="burn", seed=int(rng.randint(1 << 30)))
    yield dict(mode="defaults", which="sample_steps", seed=int(rng.randint(1 << 30)))
    yield dict(mode="defaults", which="n_nets", seed=int(rng.randint(1 << 30)))
    yield dict(mode="defaults", which="stepsize", seed=int(rng.randint(1 << 30)))
    yield dict(mode="defaults", which="generator", seed=int(rng.randint(1 << 30)))
    if tier != "quick":
        yield dict(mode="defaults", which="n_iters", seed=int(rng.randint(1 << 30)))
        yield dict(mode="defaults", which="everything", seed=int(rng.randint(1 << 30)))


def eq(a, b):
    # chains may diverge: nan is nan
    return np.shape(a) == np.shape(b) and np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)


def run(case, mon):
    mon.key(case)
    if case["mode"] == "chain":
        chain(case, mon)
    elif case["mode"] == "seeded":
        seeded(case, mon)
    else:
        defaults(case, mon)


def expected(spec):
    """indices of the collected steps and total number of steps, as documented"""
    got = []
    steps = 0
    for i in range(spec["n_iters"]):
        steps += 1
        if i > spec["burn"] and i % spec["sample_steps"] == 0:
            got.append(i)
            if len(got) == spec["n_nets"]:
                break
    return got, steps


def seeded(case, mon):
    """The configured seed fixes the whole run, whatever else draws random numbers."""
    import random
    from vlib import bnn
    spec = case["spec"]
    X, y = bnn.dataset(spec, case["N"], case["D"], case["dseed"])
    out = []
    for k, seed in enumerate((spec["seed"], spec["seed"], spec["seed"] + 1)):
        random.seed(k)
        np.random.seed(k + 5)
        m = bnn.build(dict(spec, seed=seed))
        try:
            np.random.rand(k)
            m.train(X, y)
            out.append([[np.array(a) for a in s] for s in m.samples])
        finally:
            m.close()
    a, b, c = out
    mon.check(len(a) == len(b) == len(c) == spec["n_nets"], "collects-exactly", "%d, %d, %d networks" % (len(a), len(b), len(c)))
    for j, (s, t) in enumerate(zip(a, b)):
        mon.check(all(eq(u, v) for u, v in zip(s, t)), "seed-fixes-the-networks", "network %d differs between two runs with seed %d (%s)" % (j, spec["seed"], spec))
    for i in range(len(a[0]) if a and c else 0):
        mon.check(any(not eq(s[i], t[i]) for s, t in zip(a, c)), "other-seed-other-networks", "parameter %d with seeds %d and %d" % (i, spec["seed"], spec["seed"] + 1))


def chain(case, mon):
    from vlib import bnn
    from pysgmcmc.data_batches import generate_shuffled_batches
    spec = {k: v for k, v in case["spec"].items() if k not in case["drop"]}
    full = dict(batch_size=20, norm_in=True, norm_out=True, method="SGHMC")
    full.update(spec)
    N, D, net = case["N"], case["D"], spec["net"]
    X, y = bnn.dataset(spec, N, D, case["dseed"], case["xdtype"], case["xdtype"])
    if full["norm_in"] is False:
        # keep the inputs of a network that does not normalise in a sane range
        X = (X / np.maximum(1, np.abs(X).max())).astype(X.dtype)
    X0, y0 = X.copy(), y.copy()
    m, r = bnn.observed(spec, generate_shuffled_batches if case["shuffled"] else None)
    b = min(full["batch_size"], N)
    ref = bnn.CostReference(net, D, N, b)
    f32 = spec.get("dtype") == "float32"
    try:
        m.train(X, y)
        mon.same(X, X0, "data-unchanged", "X")
        mon.same(y, y0, "data-unchanged", "y")
        # the data the chain works on
        mon.check(len(r.made) == 1, "one-batch-generator", len(r.made))
        got = r.made[0]
        mon.close(got["x"].astype(float), bnn.normalise(X0) if full["norm_in"] else X0.astype(float), "trains-on-this-data", 1e-5 if case["xdtype"] == "float32" else 1e-9, 1e-5 if case["xdtype"] == "float32" else 1e-10, "x")
        mon.close(got["y"].astype(float), bnn.normalise(y0) if full["norm_out"] else y0.astype(float), "trains-on-this-data", 1e-5 if case["xdtype"] == "float32" else 1e-9, 2e-5 if case["xdtype"] == "float32" else 1e-10, "y")
        mon.check(got["batch_size"] == full["batch_size"] and got["seed"] == full.get("seed") and not got["extra"], "batch-generator-arguments", str((got["batch_size"], got["seed"], got["extra"])))
        # which steps are made and collected
        want, steps = expected(full)
        n = len(r.new)
        mon.check(n == steps == len(r.old) == r.schedule.n_next and len(r.batches) == steps, "number-of-steps",
                  "%d steps, %d stepsizes, %d batches; expected %d (%s)" % (n, r.schedule.n_next, len(r.batches), steps, spec))
        kept = m.samples
        mon.check(len(kept) == len(want), "collects-exactly", "%d networks collected, expected those of steps %s (%s)" % (len(kept), want, spec))
        for j, (i, s) in enumerate(zip(want, kept)):
            if i >= n:
                continue
            mon.check(isinstance(s, (list, tuple)) and len(s) == len(r.new[i]), "complete-networks", "network %d: %s" % (j, type(s)))
            mon.check(len(s) == len(r.new[i]) and all(eq(a, c) and np.shape(a) == np.shape(c) for a, c in zip(s, r.new[i])), "collects-the-steps-sample",
                      lambda: "network %d is not the sample of step %d, but of %s" % (j, i, [q for q in range(n) if all(eq(a, c) for a, c in zip(s, r.new[q]))]))
            mon.check([list(np.shape(a)) for a in s] == bnn.param_shapes(net, D), "complete-networks", str([np.shape(a) for a in s]))
        # the chain is the one of the configuration
        kind = full["method"]
        os = dict(kind=kind, shapes=bnn.param_shapes(net, D), dtype=spec.get("dtype", "float64"), eps=spec["eps"],
                  burn=full["burn"], scale_grad=float(N))
        os.update(spec["kw"])
        oracle = ch.StepOracle(os, mon, "chain-of-the-configuration") if not f32 and full["burn"] > 0 else None
        if net is None and mon is not None:
            start = r.old[0]
            mon.check(all(np.all(v == 0) for v in start[1:8:2]) and abs(float(start[8].ravel()[0]) - np.log(1e-3)) < 1e-6, "chain-starts-at-the-network", "biases")
        elif r.old:
            with m.graph.as_default():
                pass
        for i in range(n):
            if i:
                mon.check(all(eq(a, c) for a, c in zip(r.old[i], r.new[i - 1])), "chain-is-connected", "step %d does not start where step %d ended" % (i, i - 1))
            x, yy = r.batches[i]
            c, g = ref(r.old[i], x, yy)
            if not np.isfinite(c) or not all(np.all(np.isfinite(v)) for v in g) or max(np.abs(v).max() for v in r.old[i]) > 1e3:
                mon.event("diverged-chains")
                break
            mon.close(np.asarray(r.costs[i], float).ravel(), np.asarray([c]), "cost-of-each-step", 2e-3 if f32 else 1e-7, 2e-3 if f32 else 1e-8, "step %d of %s" % (i, spec))
            if oracle is not None:
                oracle.step(r.old[i], g, float(r.schedule.handed[i]), r.new[i], i)
            mon.state([np.asarray(v).tobytes().hex()[:64] for v in r.new[i]])
            if i >= 60 and not case.get("long"):
                break
        if oracle is not None:
            # and so is the size of its noise
            zs = [z.ravel() for z in oracle.residuals() if z.size]
            if zs:
                stats.standard_normal(np.concatenate(zs), mon, "noise-of-the-configuration", "%s N=%d" % (spec, N), ks=False)
        if case.get("long"):
            mon.event("long-training-runs")
        # later steps do not alter what was collected
        copies = [[np.array(a) for a in s] for s in kept]
        with m.graph.as_default():
            for _ in range(3):
                next(m.bnn.sampler)
        mon.check(len(m.samples) == len(copies) and all(eq(a, c) for s, t in zip(m.samples, copies) for a, c in zip(s, t)), "collected-stay", "after further steps")
    finally:
        ref.close()
        m.close()
    mon.event("networks-collected", len(want))
    mon.event("training-runs")
    if case["drop"]:
        mon.event("defaults-used")


def defaults(case, mon):
    from vlib import bnn
    which = case["which"]
    X, y = bnn.dataset({}, 15, 1, case["seed"] % 1000)
    spec = dict(method="SGHMC", net="linear", n_nets=3, n_iters=5000, burn=5, sample_steps=2, seed=case["seed"], eps=.01)
    doc = dict(burn=1000, sample_steps=100, n_nets=100, n_iters=50000)
    if which == "everything":
        spec = dict(net="linear", seed=case["seed"], eps=.01, **doc)
        full = dict(spec)
        spec = dict(net="linear", seed=case["seed"], eps=.01)
    elif which in doc:
        full = dict(spec)
        full[which] = doc[which]
        if which == "n_iters":
            full["n_nets"] = spec["n_nets"] = 40000
        spec = {k: v for k, v in spec.items() if k != which}
    if which in doc or which == "everything":
        m, r = bnn.observed(spec)
        try:
            r.schedule.fault = None      # the lengths only
            m.train(X, y)
            want, steps = expected(full)
            mon.check(r.schedule.n_next == steps, "documented-default", "%s: %d steps, documented %d" % (which, r.schedule.n_next, steps))
            mon.check(len(m.samples) == len(want) and all(all(eq(a, c) for a, c in zip(s, r.new[i])) for s, i in zip(m.samples, want)),
                      "documented-default", "%s: collected networks" % which)
        finally:
            m.close()
        return
    if which == "stepsize":
        # documented default: constant stepsizes of 0.01 = sqrt(1e-4)
        out = []
        for eps in (None, 0.01):
            s = dict(spec)
            s.pop("eps")
            if eps:
                s["eps"] = eps
            m = bnn.build(s)
            m.train(X, y)
            out.append(m.samples)
            m.close()
        mon.check(len(out[0]) == 3 and all(np.allclose(a, b, 1e-9, 1e-11) for s, t in zip(*out) for a, b in zip(s, t)), "documented-default", "stepsize")
    if which == "generator":
        from pysgmcmc.data_batches import generate_batches
        out = []
        for g in (None, generate_batches):
            m = bnn.build(dict(spec, batch_size=4), batch_generator=g)
            m.train(X, y)
            out.append(m.samples)
            m.close()
        mon.check(len(out[0]) == 3 and all(np.allclose(a, b, 1e-9, 1e-11) for s, t in zip(*out) for a, b in zip(s, t)), "documented-default", "batch generator")
