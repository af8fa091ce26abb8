"""C08-C11: every step against an independent implementation of the update equations."""
import numpy as np
from vlib import chains as ch
from vlib import stats

KIND = "SGHMC"
BIG = [[[400], [20, 20]], [[600]], [[10, 10], [100], [10, 2, 5]]]


def eps_list(rng, kind, n):
    base = float(ch.pick(rng, [0.01, 0.03, 0.1, 0.2] if kind != "SVGD" else [0.01, 0.05, 0.1, 0.3]))
    mode = rng.randint(3)
    if mode == 0:
        return base
    if mode == 1:
        return [base / (1. + 0.1 * k) for k in range(n)]
    return [float(base * rng.uniform(0.2, 1.5)) for _ in range(n)]


def gen(rng, tier, kind):
    n_cases = 96 if tier == "quick" else 640
    for k in range(n_cases):
        mode = ["drift", "noisy", "drift", "noisy", "big", "drift"][k % 6]
        if kind == "SVGD":
            mode = "drift"
        if mode == "big":
            spec = ch.rand_spec(rng, kind, cost=ch.pick(rng, ["quad", "coupled"]), dtype="float64",
                                shapes=ch.pick(rng, BIG))
            if spec["cost"] == "coupled":
                spec["eps"] = 0.002
            steps = 30
            if kind == "REL":
                spec.update(cost="quad", mass=float(ch.pick(rng, [1., 2.])), c=float(ch.pick(rng, [2., 4.])),
                            D=float(ch.pick(rng, [0.5, 1., 2.])),
                            eps=float(ch.pick(rng, [0.02, 0.05, 0.2])))
                # from no estimate to one that accounts for most of the noise
                spec["Bhat"] = float(ch.pick(rng, [0., 0.5, spec["D"] / spec["eps"], 1.8 * spec["D"] / spec["eps"]]))
        else:
            spec = ch.rand_spec(rng, kind)
            steps = int(ch.pick(rng, [6, 12, 25]))
            spec["eps"] = eps_list(rng, kind, steps)
            if mode == "drift" and kind == "REL" and rng.rand() < .6:
                spec["eps"] = float(ch.pick(rng, [0.01, 0.05, 0.2]))
                spec = ch.quiet_friction(spec)
            elif mode == "drift":
                spec = ch.no_noise(spec)
            elif kind == "SGHMC" and rng.rand() < .4:
                # around the floor of the variance
                spec["scale_grad"] = float(ch.pick(rng, [1e3, 1e8, 1e12]))
        if kind in ch.BURNIN and rng.rand() < .15:
            spec["burn"] = int(steps + 3)          # never leaves burn-in
        yield dict(mode=mode, spec=spec, steps=steps)
    for k in range(2 if tier == "quick" else 6):
        # long histories
        spec = ch.rand_spec(rng, kind, cost="quad", dtype="float64", shapes=[[1]] * 3 if kind == "SVGD" else ch.pick(rng, [[[]], [[2], []]]))
        spec["eps"] = 0.02
        if kind == "REL":
            spec = ch.quiet_friction(spec)
        elif kind != "SVGD":
            spec = ch.no_noise(spec)
            spec["burn"] = int(ch.pick(rng, [10, 2500]))
        yield dict(mode="long", spec=spec, steps=5200 if tier == "quick" else 12000)
    if kind == "SVGD":
        for k in range(8 if tier == "quick" else 48):
            # more than a hundred pairs
            n = int(ch.pick(rng, [9, 11, 12, 15, 16, 20]))
            spec = ch.rand_spec(rng, kind, cost=ch.pick(rng, ["quad", "coupled"]), shapes=[[int(ch.pick(rng, [1, 2, 3]))]] * n)
            yield dict(mode="many", spec=spec, steps=8)
    if kind in ch.BURNIN:
        for k in range(16 if tier == "quick" else 100):
            # curvatures of very different size, in long chains
            spec = ch.no_noise(ch.rand_spec(rng, kind, cost="scales", dtype="float64"))
            steps = int(ch.pick(rng, [40, 120]))
            spec["burn"] = int(ch.pick(rng, [1, 20, steps // 2, steps + 1]))
            spec["eps"] = float(ch.pick(rng, [1e-4, 1e-3, 0.01]))
            if k % 3 == 0:
                # nearly flat: masses grow for as long as burn-in lasts
                spec.update(cost="tiny", eps=float(ch.pick(rng, [0.03, 0.1, 0.3])))
            yield dict(mode="scales", spec=spec, steps=steps)
    if kind == "SVGD":
        for k in range(12 if tier == "quick" else 60):
            # gradients from tiny to huge
            spec = ch.rand_spec(rng, kind, cost=ch.pick(rng, ["quad", "coupled"]), dtype="float64")
            spec.update(cscale=float(ch.pick(rng, [1e-9, 1e-5, 1e4, 1e7, 1e9])))
            yield dict(mode="gradients", spec=spec, steps=12)
    if kind == "SVGD":
        for k in range(16 if tier == "quick" else 80):
            # particles close together or far apart, and the ends of alpha's range
            spec = ch.rand_spec(rng, kind, cost=ch.pick(rng, ["quad", "coupled"]), dtype="float64")
            size = float(ch.pick(rng, [1e-6, 1e-4, 1e-2, 30., 1e3]))
            spec.update(prange=[-size, size], eps=float(ch.pick(rng, [.01, .1, 1.])) * min(size, 1.))
            if k % 2:
                # (a large fudge factor keeps steps small where nothing is remembered)
                spec.update(alpha=[0., 1., 0, 1][(k // 2) % 4], prange=[-2., 2.])
                spec.update(eps=float(ch.pick(rng, [.01, .1])), fudge=float(ch.pick(rng, [.3, 1., 10.])))
                if spec["alpha"] == 1:
                    spec["cscale"] = .1
            yield dict(mode="spread", spec=spec, steps=8)
    if kind != "SVGD":
        for k in range(12 if tier == "quick" else 60):
            # tiny or large stepsizes on targets steep or flat enough to be moved by them
            spec = ch.rand_spec(rng, kind, cost=ch.pick(rng, ["quad", "net"]), dtype="float64")
            eps = float(ch.pick(rng, [1e-6, 1e-5, 1e-4, 10., 300.]))
            spec.update(eps=eps, cscale=0.3 / eps ** 2 if kind == "SGHMC" else 0.3 / eps)
            if kind == "REL":
                spec = ch.quiet_friction(spec) if eps < 1 and k % 2 else ch.no_noise(spec)
            else:
                spec = ch.no_noise(spec)
                spec["burn"] = int(ch.pick(rng, [1, 1, 1, 2]))
            yield dict(mode="stepsizes", spec=spec, steps=25)
        for k in range(10 if tier == "quick" else 60):
            # ... and their noise
            spec = ch.rand_spec(rng, kind, cost="quad", dtype="float64", shapes=ch.pick(rng, BIG))
            eps = [1e-9, 1e-6, 1e-4, 3., 40.][k % 5]
            spec.update(eps=eps, cscale=0.3 / eps ** 2 if kind == "SGHMC" else 0.3 / eps)
            if kind == "REL":
                eps = max(eps, 1e-6)
                spec.update(eps=eps, cscale=.03 / eps, mass=float(ch.pick(rng, [10., 100.])), c=float(ch.pick(rng, [2., 4.])), D=float(ch.pick(rng, [.5, 1.])), Bhat=0.)
                if eps > 1:
                    spec["D"] = .5 / eps
            else:
                spec["burn"] = int(ch.pick(rng, [1, 1, 2]))
            yield dict(mode="noisy-stepsizes", spec=spec, steps=20)
    if kind == "REL":
        for k in range(12 if tier == "quick" else 60):
            # heavy particles: large momenta far below the speed limit
            spec = ch.rand_spec(rng, "REL", cost="quad", dtype="float64",
                                mass=float(ch.pick(rng, [30., 100., 1000.])))
            spec.update(eps=float(ch.pick(rng, [0.01, 0.05])), cscale=float(ch.pick(rng, [100., 1000., 1e4])))
            if k % 3:
                spec = ch.quiet_friction(spec)
            yield dict(mode="heavy", spec=spec, steps=25)
        for k in range(24 if tier == "quick" else 120):
            spec = ch.rand_spec(rng, "REL", cost="steep", dtype=ch.pick(rng, ["float64", "float32"]))
            spec["prange"] = [-4., 4.]
            spec["eps"] = float(ch.pick(rng, [0.001, 0.01, 0.1, 1.]))
            yield dict(mode="steep", spec=spec, steps=15)
        for k in range(16 if tier == "quick" else 80):
            # the widest densities that the adaptive rejection sampler of arspy copes with
            m, c = [[1., 1.], [.5, 2.], [2., .6], [3., 3.], [1., 3.], [3., .06], [.5, .6], [2., .1]][(k + int(rng.randint(2))) % 8]
            yield dict(mode="momentum", steps=1, spec=dict(
                kind="REL", dtype="float64", cost="quad", cseed=int(rng.randint(1 << 20)),
                pseed=int(rng.randint(1 << 20)), seed=int(rng.randint(1 << 30)) if k % 3 else None,
                shapes=ch.pick(rng, [[[1500]], [[30, 20], [600]], [[1000], [], [400]]]),
                mass=m, c=c,
                D=0., Bhat=0., eps=1e-4))


def cases(rng, tier):
    return gen(rng, tier, KIND)


def run(case, mon):
    spec = case["spec"]
    kind = spec["kind"]
    chain = ch.Chain(spec)
    ref = ch.Reference(spec)
    oracle = ch.StepOracle(spec, mon, "update-equation")
    try:
        phases = set()

        def on_step(t, old, now, cost):
            if kind in ch.BURNIN:
                phases.add(t < spec["burn"])
            for v in now:
                mon.state(np.asarray(v).tobytes().hex())
        ch.drive(chain, ref, mon, case["steps"], oracle, on_step=on_step)
    finally:
        chain.close()
        ref.close()
    mon.event("steps", case["steps"])
    mon.event("mode-" + case["mode"])
    for b in phases:
        mon.event("chains-with-burn-in-steps" if b else "chains-with-steps-after-burn-in")
    mon.key(kind, spec)
    if case["mode"] in ("noisy", "big", "noisy-stepsizes"):
        z = [r.ravel() for r in oracle.residuals()]
        z = np.concatenate(z) if z else np.zeros(0)
        stats.standard_normal(z, mon, "noise", "%s %s" % (kind, case["mode"]))
    if case["mode"] == "momentum":
        momentum(case, mon, oracle)


def momentum(case, mon, oracle):
    from scipy import stats as st
    spec = case["spec"]
    m, c = spec["mass"], spec["c"]
    # another sampler's momenta are its own (with no seed, or another one)
    again = ch.StepOracle(spec, mon, "update-equation")
    step = [1, 1000, 2 ** 16, 2 ** 8, 10 ** 6, 2 ** 24, 2][spec["pseed"] % 7]
    two = ch.Chain(dict(spec, seed=None if spec["seed"] is None else spec["seed"] + step))
    r2 = ch.Reference(spec)
    try:
        old = two.values()
        two.next()
        again.step(old, r2(old)[1], spec["eps"], two.values(), 0)
    finally:
        two.close()
        r2.close()
    a, b = (np.concatenate([np.ravel(v) for v in o.v0]) for o in (oracle, again))
    r = np.corrcoef(a, b)[0, 1] * np.sqrt(a.size)
    mon.check(abs(r) < 7, "initial-momentum-independent", "initial momenta of two samplers (seed %s) correlated: %.2f sigma" % (spec["seed"], r))
    hi = 60. * max(1. / c, np.sqrt(m)) + 5
    g = np.linspace(-hi, hi, 400001)
    w = np.exp(-m * c * c * (np.sqrt(g * g / (m * m * c * c) + 1.) - 1.))
    cdf = np.cumsum(w)
    cdf /= cdf[-1]
    p0 = np.concatenate([np.ravel(p) for p in oracle.p0])
    ok = np.isfinite(p0)
    # momenta far beyond m * c are only known to be large
    top = 100. * m * c
    want = np.interp(-top, g, cdf) * 2
    mon.check(1 - ok.mean() < .002 + want, "initial-momentum-readable", "only %.3f of the momenta readable" % ok.mean())
    v0 = np.concatenate([np.ravel(v) for v in oracle.v0])
    q = np.sort(np.clip(np.where(ok, p0, np.sign(v0) * np.inf), -top, top))
    F, n = np.interp(q, g, cdf), q.size
    up, low = np.searchsorted(q, q, "right") / n, np.searchsorted(q, q, "left") / n
    d = max(np.abs(up - F)[q < top].max(), np.abs(low - F)[q > -top].max())
    p = st.kstwo.sf(d, n)
    mon.event("initial-momenta", int(ok.sum()))
    # adaptive rejection sampling starts from a coarse hull: allow for it with a
    # minimum distance on top of the significance
    mon.check(p > stats.P or d < 0.05, "initial-momentum-distribution",
              "KS distance %.4f (p=%.2g) of %d initial momenta from the relativistic density (m=%s, c=%s)" % (d, p, ok.sum(), m, c))
    z = p0[ok]
    mon.check(np.unique(np.round(z, 9)).size > 0.99 * z.size, "initial-momentum-independent",
              "only %d distinct values among %d initial momenta" % (np.unique(np.round(z, 9)).size, z.size))
    mon.check(np.unique(np.round(np.abs(z), 9)).size > 0.99 * z.size, "initial-momentum-independent",
              "only %d distinct absolute values among %d initial momenta" % (np.unique(np.round(np.abs(z), 9)).size, z.size))
    h = z.size // 2
    for nm, a, b in (("halves", z[:h], z[h:2 * h]), ("sizes of neighbouring", np.abs(z[:-1]), np.abs(z[1:])), ("mirrored", z, z[::-1])):
        r = np.corrcoef(a, b)[0, 1] * np.sqrt(a.size)
        # a mirrored series meets every pair twice
        mon.check(abs(r) < (7 if nm != "mirrored" else 10), "initial-momentum-independent", "%s initial momenta correlated: %.2f sigma" % (nm, r))
    r = np.corrcoef(z[:-1], z[1:])[0, 1] * np.sqrt(z.size - 1)
    mon.check(abs(r) < 7, "initial-momentum-independent", "neighbouring initial momenta correlated: %.2f sigma" % r)
