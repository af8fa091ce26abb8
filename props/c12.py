"""C12: burn-in lasts exactly burn_in_steps, the mass matrix is frozen afterwards."""
import numpy as np
from itertools import islice
from vlib import chains as ch


def cases(rng, tier):
    n = 96 if tier == "quick" else 480
    for k in range(n):
        kind = ["SGHMC", "SGLD"][k % 2]
        burn = int([1, 2, 3, 4, 6, 9, 15][k // 2 % 7])
        spec = ch.no_noise(ch.rand_spec(rng, kind, cost="extra", dtype="float64"))
        spec["burn"] = burn
        after = int(ch.pick(rng, [6, 12, 20]))
        spec["eps"] = [float(x) for x in rng.uniform(0.005, 0.03, size=burn + after)]
        yield dict(spec=spec, after=after, pattern=[int(x) for x in rng.randint(0, 5, size=40)],
                   gscale=float(ch.pick(rng, [-9.9, 50., 300., 0.])), other=bool(rng.rand() < .3),
                   delay=bool(rng.rand() < .15))
    for k in range(8 if tier == "quick" else 32):
        # burn-in phases as long as real ones, the documented default of 3000 steps
        # included, and long phases after them
        kind = ["SGHMC", "SGLD"][k % 2]
        spec = ch.no_noise(ch.rand_spec(rng, kind, cost="extra", dtype="float64", shapes=ch.pick(rng, [[[2]], [[], [3]], [[2, 2]]])))
        spec["eps"] = 0.003
        after = 40
        if k % 8 < 2:
            spec.pop("burn")
            after = 6000
        elif k % 8 < 4:
            spec["burn"], after = int(rng.randint(2, 30)), 3000
        else:
            spec["burn"] = int(ch.pick(rng, [64, 100, 128, 255, 256, 257, 500, 513, 1000, 1024]))
            after = int(ch.pick(rng, [100, spec["burn"] + 3]))
        yield dict(spec=spec, after=after, pattern=[int(x) for x in rng.randint(0, 5, size=40)],
                   gscale=float(ch.pick(rng, [-9.9, 50., 0.])), other=False, delay=False)


def run(case, mon):
    spec = case["spec"]
    kind, burn = spec["kind"], spec.get("burn", 3000)
    delays = ch.Delays(3, 0., 0.01) if case["delay"] else None
    chain = ch.Chain(spec, delays=delays)
    other = ch.Chain(dict(spec, pseed=spec["pseed"] + 1)) if case["other"] else None
    ref = ch.Reference(spec)
    sam = chain.sampler
    oracle = ch.StepOracle(spec, mon, "adaptation-and-freeze")
    md = spec.get("mdecay", 0.05)
    A = spec.get("A", 1.0)
    Ms = []
    try:
        mon.check(sam.is_burning_in is True or bool(sam.is_burning_in), "is-burning-in", "at the start")
        old = chain.values()
        V = [np.zeros_like(v) for v in old]
        total = burn + case["after"]
        for t in range(total):
            expect = t < burn
            mon.check(bool(sam.is_burning_in) == expect, "is-burning-in",
                      "before step %d of burn_in_steps=%d: %r" % (t, burn, sam.is_burning_in))
            # gradients of another size once burn-in is over
            ex = case["gscale"] * (1. + 0.3 * (t % 3)) if t >= burn else [0., 2., -3.][t % 3]
            feed = {chain.feeds["extra"]: np.float64(ex)}
            how = case["pattern"][t % 40]
            if ex == 0. and how == 0:
                next(sam)
            elif ex == 0. and how == 1:
                list(islice(sam, 1))
            else:
                sam.__next__(feed_dict=feed)
            if other is not None and how in (2, 3):
                other.next()
            now = chain.values()
            _, g = ref(old, None, ex)
            eps = float(chain.schedule.handed[-1])
            oracle.step(old, g, eps, now, t)
            M, W = [], []
            for i in range(len(now)):
                d = now[i] - old[i]
                with np.errstate(all="ignore"):
                    if kind == "SGHMC":
                        m = -(d - (1. - md) * V[i]) / (eps ** 2 * g[i])
                        w = (3e-7 + 1e-15 * np.abs(now[i])) / np.abs(eps ** 2 * g[i])
                    else:
                        m = -d / (eps * A * g[i])
                        w = 1e-14 * (1. + np.abs(now[i])) / np.abs(eps * A * g[i])
                M.append(np.ravel(m))
                W.append(np.ravel(w))
                V[i] = d
            Ms.append((np.concatenate(M), np.concatenate(W)))
            old = now
        mon.check(not sam.is_burning_in, "is-burning-in", "after burn-in")
        last_m, last_w = Ms[burn - 1]
        for t in range(burn, total):
            m, w = Ms[t]
            ok = np.isfinite(m) & np.isfinite(last_m) & (w < 1e-3) & (last_w < 1e-3)
            mon.event("frozen-elements", int(ok.sum()))
            bad = ok & (np.abs(m - last_m) > 1e-9 * np.abs(last_m) + 3 * (w + last_w))
            mon.check(not bad.any(), "mass-frozen-after-burn-in", lambda: (
                "step %d (burn_in_steps=%d): inverse mass %s, in the last burn-in step %s" % (t, burn, m[bad][:4], last_m[bad][:4])))
        if burn >= 3:
            m0, w0 = Ms[1]
            ok = np.isfinite(m0) & np.isfinite(last_m) & (w0 < 1e-2) & (last_w < 1e-2)
            if ok.any():
                mon.check(np.any(np.abs(m0 - last_m)[ok] > 1e-6), "mass-adapts-during-burn-in",
                          "inverse mass did not change between burn-in steps 1 and %d" % (burn - 1))
    finally:
        chain.close()
        ref.close()
        if other is not None:
            other.close()
    if total > 300:
        mon.event("long-chains")
    if "burn" not in spec:
        mon.event("default-burn-in")
    mon.key(spec, case["gscale"], case["pattern"][:total])
