"""C06: returned sample = values after the step, cost = cost at the values before."""
import numpy as np
from vlib import chains as ch


def cases(rng, tier):
    n = 112 if tier == "quick" else 640
    for k in range(n):
        kind = ["SGHMC", "SGLD", "REL", "SVGD"][k % 4]
        spec = ch.rand_spec(rng, kind)
        if kind != "SVGD" and rng.rand() < .3:
            spec["cost"] = "extra"
        spec["threads"] = ch.pick(rng, [None, [1, 1], [8, 1], [4, 4]])
        slow = rng.rand() < .3
        yield dict(spec=spec, steps=int(ch.pick(rng, [6, 10, 20])) if not slow else 5,
                   fwd=0.01 if slow and rng.rand() < .6 else 0., grad=0.01 if slow else 0.,
                   dseed=int(rng.randint(1 << 20)))
    for k in range(8 if tier == "quick" else 24):
        # long histories
        kind = ["SGHMC", "SGLD", "REL", "SVGD"][k % 4]
        spec = ch.rand_spec(rng, kind, shapes=[[2]] * 3 if kind == "SVGD" else ch.pick(rng, [[[]], [[2], []]]), dtype="float64")
        spec["eps"] = 0.01
        yield dict(spec=spec, steps=1100 if k > 3 else 11000, fwd=0., grad=0., dseed=0)


def run(case, mon):
    spec = case["spec"]
    delays = ch.Delays(case["dseed"], case["fwd"], case["grad"]) if case["fwd"] or case["grad"] else None
    chain = ch.Chain(spec, delays=delays)
    ref = ch.Reference(spec)
    kept = []
    dt = ch.np_dtype(spec)
    try:
        def extra(t):
            return [None, 3., -2., 7.5][t % 4]
        old = chain.values()
        samples = ch.drive(chain, ref, mon, case["steps"], cost_clause="cost-at-old-values",
                           sample_clause="sample-is-new-value", extra=extra,
                           on_step=lambda t, o, n, c: kept.append(([np.array(x) for x in n], np.array(c))))
        distinct = set()
        for t, ((sample, cost), (vals, c)) in enumerate(zip(samples, kept)):
            for i, (s, v) in enumerate(zip(sample, vals)):
                mon.same(s, v, "earlier-samples-keep-their-values", "sample of step %d after the chain moved on" % t)
                mon.check(np.shape(s) == tuple(spec["shapes"][i]) and np.asarray(s).dtype == dt,
                          "shape-and-dtype", "step %d parameter %d: %s %s, expected %s %s" % (
                              t, i, np.shape(s), np.asarray(s).dtype, spec["shapes"][i], dt))
            mon.same(cost, c, "earlier-costs-keep-their-values", "cost of step %d" % t)
            distinct.add(np.concatenate([np.ravel(s) for s in sample]).tobytes())
        if spec["kind"] == "SVGD":
            mon.check(np.shape(samples[0][1]) == (len(spec["shapes"]),), "svgd-one-cost-per-particle",
                      "cost shape %s" % (np.shape(samples[0][1]),))
        # (particles end up at rest: they draw no noise)
        mon.check(len(distinct) == len(samples) or (spec["kind"] == "SVGD" and case["steps"] > 1100), "chain-moves", "%d distinct samples in %d steps" % (len(distinct), len(samples)))
        for d in distinct:
            mon.state(d.hex())
    finally:
        chain.close()
        ref.close()
    mon.event("steps", case["steps"])
    if case["steps"] > 1000:
        mon.event("long-chains")
    mon.key(spec)
