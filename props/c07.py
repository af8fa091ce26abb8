"""C07: gradients simultaneous under hostile op schedules.

Delays are injected into the forward pass and the gradient of each parameter, so
that early gradients are ready long before late ones; every step is compared with
the update equation at the old values of all parameters."""
import numpy as np
from vlib import chains as ch

DELAYS = [(0., 0.), (0., 0.02), (0.02, 0.), (0.01, 0.03), (0.004, 0.004)]


def cases(rng, tier):
    n = 72 if tier == "quick" else 480
    for k in range(n):
        kind = ["SGHMC", "SGLD", "REL", "SVGD"][k % 4]
        spec = ch.no_noise(ch.rand_spec(rng, kind, dtype="float64",
                                        cost=ch.pick(rng, ["coupled", "prod", "net"] if kind != "SVGD" else ["coupled", "net"])))
        if kind != "SVGD":
            spec["shapes"] = ch.pick(rng, [[[], []], [[3], [3]], [[2, 2], [3], []], [[2]] * 4,
                                           [[4], [2, 3], [], [1], [2]], [[1]] * 6])
        else:
            spec["shapes"] = spec["shapes"][:4]
        spec["eps"] = float(ch.pick(rng, [0.05, 0.1, 0.2]))
        spec["threads"] = ch.pick(rng, [[1, 1], [2, 1], [4, 1], [8, 2]])
        f, g = DELAYS[rng.randint(len(DELAYS))]
        yield dict(spec=spec, fwd=f, grad=g, steps=6, dseed=int(rng.randint(1 << 20)))
    # parameters that are read late by the gradients of others, and by the cost
    for k in range(24 if tier == "quick" else 200):
        kind = ["SGHMC", "SGLD", "REL"][k % 3]
        spec = ch.no_noise(ch.rand_spec(rng, kind, dtype="float64", cost="late",
                                        shapes=ch.pick(rng, [[[], []], [[3], [3]], [[2, 2], [3], []], [[2], [3], [1], []]])))
        spec["eps"] = float(ch.pick(rng, [0.05, 0.1]))
        spec["threads"] = ch.pick(rng, [[2, 1], [4, 1], [8, 2]])
        f, g = DELAYS[1 + k // 3 % 4]
        yield dict(spec=spec, fwd=f, grad=g, steps=6, dseed=int(rng.randint(1 << 20)))
    # real networks without delays, many steps: the schedule is the executor's own
    for k in range(16 if tier == "quick" else 100):
        kind = ["SGHMC", "SGLD", "REL"][k % 3]
        spec = ch.no_noise(ch.rand_spec(rng, kind, dtype="float64", cost="net",
                                        shapes=[[8]] * int(rng.randint(2, 9))))
        spec["threads"] = ch.pick(rng, [[8, 1], [4, 4], [8, 8]])
        spec["eps"] = 0.05
        yield dict(spec=spec, fwd=0., grad=0., steps=60, dseed=0)


def run(case, mon):
    spec = case["spec"]
    delays = ch.Delays(case["dseed"], case["fwd"], case["grad"]) if case["fwd"] or case["grad"] else None
    chain = ch.Chain(spec, delays=delays)
    ref = ch.Reference(spec)
    oracle = ch.StepOracle(spec, mon, "simultaneous-update")
    try:
        ch.drive(chain, ref, mon, case["steps"], oracle, cost_clause="cost-before-update")
    finally:
        chain.close()
        ref.close()
    if delays is not None:
        mon.event("delayed-ops", delays.calls)
        mon.event("chains-with-delays")
    mon.event("parameters", len(spec["shapes"]))
    mon.key(spec, case["fwd"], case["grad"])
