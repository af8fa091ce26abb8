"""C13: noise is standardised (observed step minus update equation, over sigma) and tested
for normality, scale and independence across parameters, elements, steps and samplers."""
import numpy as np
from vlib import chains as ch
from vlib import stats


def cases(rng, tier):
    n = 60 if tier == "quick" else 360
    for k in range(n):
        kind = ["SGHMC", "SGLD", "REL"][k % 3]
        mode = ["one", "pair", "large", "scalars", "pair"][(k // 3) % 5]
        if mode == "scalars":
            shapes = [[], [], [1], [1, 1]]
            steps = 400
        elif mode == "large":
            shapes = ch.pick(rng, [[[300], [12, 25]], [[1000]], [[64, 8], [8, 64]], [[5, 70], [257]], [[40, 3, 4], [128]]])
            steps = 8
        else:
            shapes = ch.pick(rng, [[[20], [20]], [[4, 5], [4, 5], [20]], [[30]], [[25], [25], [25], [25]], [[6, 5], [30], [5, 6]]])
            steps = 60 if k >= 12 or mode == "pair" else 150
        spec = ch.rand_spec(rng, kind, cost="quad", dtype="float64", shapes=shapes)
        spec["seed"] = [None, int(rng.randint(1 << 30)), int(rng.randint(100)), 0][(k // 3) % 4]
        spec["eps"] = float(ch.pick(rng, [0.02, 0.05, 0.1]))
        if kind in ch.BURNIN:
            spec["scale_grad"] = float(ch.pick(rng, [1., 2.5, 10.]))
            spec["burn"] = int(ch.pick(rng, [1, 5, steps // 2, steps + 10]))
        if kind == "REL":
            spec.update(mass=float(ch.pick(rng, [1., 2.])), c=float(ch.pick(rng, [2., 4.])), D=float(ch.pick(rng, [.5, 1., 2.])),
                        Bhat=float(ch.pick(rng, [0., 0.5])))
            if rng.rand() < .4:
                spec["Bhat"] = float(ch.pick(rng, [1., 1.8])) * spec["D"] / spec["eps"]
        other = None
        if mode == "pair":
            kind2 = ch.pick(rng, ["SGHMC", "SGLD", "REL"]) if rng.rand() < .5 else kind
            other = dict(spec, kind=kind2, pseed=spec["pseed"] + 1)
            for key, v in (("mass", 1.), ("c", 4.), ("D", 1.), ("Bhat", 0.)):
                other.setdefault(key, v)
            other.setdefault("burn", 5)
            other.setdefault("scale_grad", 1.)
            other["seed"] = None if spec["seed"] is None else spec["seed"] + int(ch.pick(rng, [1, 2, 17]))
        yield dict(mode=mode, spec=spec, other=other, steps=steps, same_graph=bool(rng.rand() < .7))
    for k in range(3 if tier == "quick" else 12):
        # so many parameters that a small pool of seeds runs dry
        kind = ["SGHMC", "SGLD", "REL"][k % 3]
        spec = ch.rand_spec(rng, kind, cost="gauss", dtype="float64", shapes=[[]] * 150, eps=.05, seed=int(rng.randint(1 << 30)))
        if kind == "REL":
            spec.update(mass=1., c=4., D=1., Bhat=0.)
        yield dict(mode="many", spec=spec, other=None, steps=30, same_graph=False)


def run(case, mon):
    import tensorflow as tf
    specs = [case["spec"]] + ([case["other"]] if case["other"] else [])
    chains, refs, oracles = [], [], []
    shared = None
    try:
        for sp in specs:
            if shared is not None and case["same_graph"]:
                c = ch.Chain(sp, graph=shared.graph, session=shared.session, init=None)
                with shared.graph.as_default():
                    shared.session.run([v.initializer for v in tf.global_variables()])
            else:
                c = ch.Chain(sp)
            shared = shared or c
            chains.append(c)
            refs.append(ch.Reference(sp))
            oracles.append(ch.StepOracle(sp, mon, "within-noise-bounds"))
        for t in range(case["steps"]):
            for c, r, o in zip(chains, refs, oracles):
                old = c.values()
                c.next()
                _, g = r(old)
                o.step(old, g, float(c.schedule.handed[-1]), c.values(), t)
    finally:
        for c in chains:
            c.session.close()
        for r in refs:
            r.close()
    Z = [o.residuals() for o in oracles]
    for sp, zs in zip(specs, Z):
        what = "%s seed=%s" % (sp["kind"], sp["seed"])
        stats.standard_normal(np.concatenate([z.ravel() for z in zs]), mon, "noise", what)
        if case["mode"] == "many":
            M = np.array([z[:, 0] for z in zs])
            M = M[:, np.all(np.isfinite(M), axis=0)]
            mon.event("parameters-of-one-sampler", len(M))
            if M.shape[1] >= 20:
                C = np.corrcoef(M)
                np.fill_diagonal(C, 0.)
                i, j = np.unravel_index(np.argmax(np.abs(C)), C.shape)
                # of 20 or more steps, p < 1e-15 for one of 11175 pairs
                mon.check(np.abs(C).max() < .99, "independent-parameters", "%s: correlation %.4f of parameters %d and %d of %d" % (what, C[i, j], i, j, len(M)))
        for i, z in enumerate(zs if case["mode"] != "many" else []):
            stats.standard_normal(z, mon, "noise-of-parameter", "%s parameter %d" % (what, i))
        for i in range(len(zs) if case["mode"] != "many" else 0):
            for lag in (1, 2):
                stats.uncorrelated(zs[i][:-lag], zs[i][lag:], mon, "independent-steps", "%s parameter %d lag %d" % (what, i, lag))
            if zs[i].shape[1] > 1:
                stats.uncorrelated(zs[i][:, :-1], zs[i][:, 1:], mon, "independent-elements", "%s parameter %d" % (what, i))
                h = zs[i].shape[1] // 2
                stats.uncorrelated(zs[i][:, :h], zs[i][:, h:2 * h], mon, "independent-elements", "%s parameter %d halves" % (what, i))
                if len(sp["shapes"][i]) > 1:
                    # elements of neighbouring rows, of neighbouring columns
                    cube = zs[i].reshape([len(zs[i])] + list(sp["shapes"][i]))
                    if cube.shape[1] > 1:
                        stats.uncorrelated(cube[:, :-1], cube[:, 1:], mon, "independent-elements", "%s parameter %d rows" % (what, i))
                        mon.event("neighbouring-rows")
            for j in range(i):
                m = min(zs[i].shape[1], zs[j].shape[1])
                if zs[i].shape[1] == zs[j].shape[1]:
                    stats.uncorrelated(zs[i], zs[j], mon, "independent-parameters", "%s parameters %d, %d" % (what, j, i))
                    stats.uncorrelated(zs[i][1:], zs[j][:-1], mon, "independent-parameters", "%s parameters %d, %d shifted by a step" % (what, j, i))
                else:
                    stats.uncorrelated(zs[i][:, :m], zs[j][:, :m], mon, "independent-parameters", "%s parameters %d, %d" % (what, j, i))
        # no value ever drawn twice
        f = np.concatenate([z.ravel() for z in zs])
        f = np.round(f[np.isfinite(f)], 7)
        if f.size:
            # expected number of coincidences of n normal values on a grid of 1e-7
            mon.check(f.size - np.unique(f).size <= 5 + f.size ** 2 * 1e-7, "no-repeated-noise",
                      "%s: %d of %d noise values repeat" % (what, f.size - np.unique(f).size, f.size))
        mon.event("seeded-chains" if sp["seed"] is not None else "unseeded-chains")
    if len(Z) == 2:
        for i in range(min(len(Z[0]), len(Z[1]))):
            for lag in (0, 1):
                a, b = Z[0][i], Z[1][i]
                n = min(len(a), len(b)) - lag
                stats.uncorrelated(a[:n], b[lag:lag + n], mon, "independent-samplers",
                                   "%s and %s, seeds %s and %s, parameter %d lag %d" % (
                                       specs[0]["kind"], specs[1]["kind"], specs[0]["seed"], specs[1]["seed"], i, lag))
        mon.event("pairs-in-one-graph" if case["same_graph"] else "pairs-in-two-graphs")
    mon.key(case["spec"], case["other"])
