"""C05: one batch, one stepsize, one update and one count per step - and all of them used."""
import numpy as np
from vlib import chains as ch

DRIVES = ["next", "islice", "call", "feed", "for"]


def cases(rng, tier):
    n = 112 if tier == "quick" else 640
    for k in range(n):
        kind = ["SGHMC", "SGLD", "REL", "SVGD"][k % 4]
        steps = int(ch.pick(rng, [5, 9, 16]))
        cost = ch.pick(rng, ["batch", "batch", "extra", "coupled"]) if kind != "SVGD" else ch.pick(rng, ["batch", "extra", "coupled"])
        spec = ch.no_noise(ch.rand_spec(rng, kind, cost=cost, dtype="float64"))
        spec["eps"] = [float(x) for x in rng.uniform(0.01, 0.2, size=steps)]
        if rng.rand() < .4:
            # stepsizes that repeat and come back
            a, b = spec["eps"][:2]
            spec["eps"] = [a, b, b, a, a, b][int(rng.randint(3)):] * 5
        if kind in ch.BURNIN:
            spec["burn"] = int(ch.pick(rng, [1, 2, steps // 2, steps - 1, steps, steps + 4]))
        if cost != "coupled" and rng.rand() < .15:
            # stepsizes beyond one
            e = float(10 ** rng.uniform(1., 2.))
            spec["eps"] = [v * e for v in spec["eps"]]
            if kind != "SVGD":
                spec["cscale"] = 0.3 / e ** 2 if kind == "SGHMC" else 0.3 / e
            if kind in ch.BURNIN:
                spec["burn"] = 1
        yield dict(spec=spec, steps=steps, drive=ch.pick(rng, DRIVES), adaptive=bool(rng.rand() < .3),
                   with_generator=bool(rng.rand() < .5), refill=bool(k // 4 % 3 == 1),
                   reuse=bool(rng.rand() < .5))
    for k in range(8 if tier == "quick" else 24):
        # long histories
        kind = ["SGHMC", "SGLD", "REL", "SVGD"][k % 4]
        steps = 1100
        spec = ch.no_noise(ch.rand_spec(rng, kind, cost=["batch", "extra"][k // 4 % 2], dtype="float64",
                                        shapes=[[2]] * 3 if kind == "SVGD" else ch.pick(rng, [[[]], [[2], []]])))
        spec["eps"] = [float(x) for x in rng.uniform(0.005, 0.02, size=steps)]
        if kind in ch.BURNIN:
            spec["burn"] = int(ch.pick(rng, [5, 300, 1000]))
        yield dict(spec=spec, steps=steps, drive=ch.pick(rng, DRIVES), adaptive=False, with_generator=False, reuse=bool(rng.rand() < .5))


def adapt(s):
    """stepsize that depends on the last reported cost and sample"""
    if not s.updates:
        return 0.05
    sample, cost = s.updates[-1][0], s.updates[-1][1]
    first = sample[0] if isinstance(sample, list) else sample
    return float(0.03 + 0.1 / (1. + abs(float(np.mean(cost)))) + 0.02 * np.cos(float(np.ravel(first)[0])))


def run(case, mon):
    from itertools import islice
    spec = case["spec"]
    log = []
    # the initial value is none of the stepsizes of the steps in half of the chains
    sched = ch.Schedule(spec["eps"], log, initial=None if case["steps"] % 2 else 0.37, adapt=adapt if case["adaptive"] else None)
    chain = ch.Chain(spec, schedule=sched, log=log, init=None)
    if chain.batches is None and case["with_generator"]:
        # a generator whose batches the cost does not need
        chain.close()
        dummy = [None]

        def make(k):
            return {dummy[0]: np.float64(k)}
        b = ch.Batches(make, log)
        import tensorflow as tf
        g = tf.Graph()
        with g.as_default():
            dummy[0] = tf.placeholder(tf.float64, (), name="unused")
            s = tf.Session(graph=g, config=ch.session_config(None))
        log[:] = []
        chain = ch.Chain(spec, schedule=sched, log=log, init=None, graph=g, session=s, batches=b)
        chain.own = True
    if chain.batches is not None and case.get("refill"):
        # one dict and its arrays for all batches
        chain.batches.same = {}
        mon.event("generators-that-refill-their-batch")
    ref = ch.Reference(spec)
    sam = chain.sampler
    try:
        mon.check([e for e in log if e[0] == "batches"] == [], "construction-takes-no-batch", log)
        mon.check(sched.updates == [] and sched.n_next == 0, "construction-takes-no-stepsize", log)
        mon.check(sam.n_iterations == 0, "n-iterations-starts-at-0", sam.n_iterations)
        chain.session.run([v.initializer for v in chain.graph.get_collection("variables")])
        oracle = ch.StepOracle(spec, mon, "step-uses-batch-and-stepsize")
        old = chain.values()
        it = iter(sam)
        own = {}         # the caller's own dict, passed to every step
        for t in range(case["steps"]):
            del log[:]
            feed, ex = None, None
            how = case["drive"]
            if ch.needs_extra(spec):
                ex = [None, 2., -3., 6.][t % 4]
                if ex is not None:
                    feed = {chain.feeds["extra"]: np.float64(ex)}
            if feed is not None and case["reuse"]:
                own.update(feed)
                raw, cost = sam.__next__(feed_dict=own)
                if ex is not None:
                    own.pop(chain.feeds["extra"])
                mon.event("reused-feed-dict")
            elif feed is not None:
                raw, cost = sam.__next__(feed_dict=dict(feed))
            elif how == "next":
                raw, cost = next(sam)
            elif how == "islice":
                got = list(islice(sam, 1))
                mon.check(len(got) == 1, "islice-one", len(got))
                raw, cost = got[0]
            elif how == "feed":
                raw, cost = sam.__next__(feed_dict=own if case["reuse"] else {})
            elif how == "for":
                for raw, cost in it:
                    break
            else:
                raw, cost = sam.__next__()
            sample = chain.as_list(raw)
            names = [e[:2] for e in log]
            want_b = 1 if chain.batches is not None else 0
            mon.check(names.count(("batches", "next")) == want_b, "one-batch-per-step",
                      "step %d took %d batches (expected %d)" % (t, names.count(("batches", "next")), want_b))
            mon.check(names.count(("schedule", "next")) == 1, "one-stepsize-per-step", "step %d: %s" % (t, names))
            mon.check(names.count(("schedule", "update")) == 1, "one-update-per-step", "step %d: %s" % (t, names))
            if ("schedule", "next") in names and ("schedule", "update") in names:
                mon.check(names.index(("schedule", "next")) < names.index(("schedule", "update")),
                          "update-after-step", names)
            mon.check(sam.n_iterations == t + 1, "n-iterations-plus-one", "step %d: n_iterations=%r" % (t, sam.n_iterations))
            if sched.updates:
                up = sched.updates[-1]
                ok = len(up) == 2
                if ok:
                    us = up[0] if isinstance(up[0], list) else [up[0]]
                    ok = (len(us) == len(sample) and all(np.array_equal(a, b) for a, b in zip(us, sample))
                          and np.array_equal(up[1], cost))
                mon.check(ok, "update-gets-sample-and-cost", lambda: "step %d: update got %s, step returned %s" % (t, up, (sample, cost)))
            now = chain.values()
            batch = ch.make_batch(spec, t) if ch.needs_batch(spec) else None
            eps = float(sched.handed[-1])
            c_ref, g_ref = ref(old, batch, ex if ch.needs_extra(spec) and ex is not None else None)
            mon.close(np.asarray(cost, float), np.asarray(c_ref, float), "cost-of-this-batch-and-feed", 1e-9, 1e-9,
                      "step %d (%s)" % (t, spec["cost"]))
            oracle.step(old, g_ref, eps, now, t)
            old = now
            mon.event("burn-in-steps" if spec["kind"] in ch.BURNIN and t < spec["burn"] else "other-steps")
        mon.check(sched.n_next == case["steps"] == len(sched.updates), "totals", (sched.n_next, len(sched.updates)))
        if chain.batches is not None:
            mon.check(chain.batches.n_next == case["steps"], "totals", chain.batches.n_next)
    finally:
        chain.close()
        ref.close()
    mon.event("drive-" + case["drive"])
    if case["steps"] > 1000:
        mon.event("long-chains")
    mon.key(spec, case["drive"], case["adaptive"])
