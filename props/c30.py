"""C30: chains, streams, traces and predictions of any length need constant resources:
nothing is added to the graph, and nothing that was handed out is kept."""
import collections
import gc
import weakref
from itertools import islice
import numpy as np
import tensorflow as tf
from vlib import chains as ch
from vlib import data as vdata


def cases(rng, tier):
    k = 1 if tier == "quick" else 8
    for i in range(48 * k):
        kind = ["SGHMC", "SGLD", "REL", "SVGD"][i % 4]
        spec = ch.rand_spec(rng, kind)
        if kind != "SVGD" and rng.rand() < .3:
            spec["cost"] = "extra"
        yield dict(mode="chain", spec=spec, steps=int(ch.pick(rng, [20, 40, 60])), drive=["next", "islice", "for", "feed"][int(rng.randint(4))],
                   start=["construction", "first-step"][i % 3 == 2])
    for i in range(8 * k):
        kind = ["SGHMC", "SGLD", "REL", "SVGD"][i % 4]
        spec = ch.rand_spec(rng, kind, dtype="float64")
        if i % 8 > 3 or i % 3 == 0:
            spec["burn"] = 10 ** 6 if kind in ch.BURNIN else 0
        yield dict(mode="objects", spec=spec, steps=300 if tier == "quick" else 1500)
    for i in range(12 * k):
        yield dict(mode="trace", spec=ch.rand_spec(rng, ["SGHMC", "SGLD", "REL"][i % 3], cost="quad"), n=int(ch.pick(rng, [5, 20, 40])))
    for i in range(16 * k):
        net = ["two", "deep", "linear", "single", "outbias", None][i % 6]
        spec = dict(method=["SGHMC", "SGLD"][rng.randint(2)], net=net, n_nets=int(ch.pick(rng, [1, 2, 5])), burn=int(ch.pick(rng, [1, 3, 20])),
                    sample_steps=int(ch.pick(rng, [1, 2, 7])), n_iters=200, batch_size=int(ch.pick(rng, [1, 4, 20])), seed=ch.pick(rng, [None, 3]), eps=0.01,
                    norm_in=bool(rng.rand() < .7), norm_out=bool(rng.rand() < .7))
        if i % 4 == 1:
            # never enough networks: every step up to n_iters is made
            spec.update(n_nets=1000, n_iters=int(ch.pick(rng, [40, 90])))
        if i % 8 == 3:
            # beyond intervals of logging
            spec.update(n_nets=1000, n_iters=1000, burn=int(ch.pick(rng, [5, 400])), sample_steps=20, step=600)
        yield dict(mode="network", spec=spec, N=int(ch.pick(rng, [3, 8, 30])), D=int(ch.pick(rng, [1, 2, 3])), dseed=int(rng.randint(1 << 30)))
    for i in range(40 * k):
        s = vdata.rand_data(rng)
        s["seed"] = ch.pick(rng, [None, 0, int(rng.randint(1 << 30))])
        yield dict(mode="stream", data=s, gen=["plain", "shuffled"][i % 2], draws=int(ch.pick(rng, [20, 60, 200])))


def run(case, mon):
    mon.key(case)
    {"chain": chain, "objects": objects, "trace": trace, "network": network, "stream": stream}[case["mode"]](case, mon)


class Quiet(object):
    """A constant schedule that keeps weak references only to what it is told."""

    k = 0

    def __init__(self, v):
        self.initial_value = v
        self.refs = []
        self.watch = lambda k: None

    def __iter__(self):
        return self

    def __next__(self):
        return self.initial_value

    def update(self, params, cost):
        remember(self.refs, params)
        self.k += 1
        self.watch(self.k)


def remember(refs, sample):
    for a in sample if isinstance(sample, (list, tuple)) else [sample]:
        if isinstance(a, np.ndarray):
            refs.append(weakref.ref(a))


def alive(refs):
    gc.collect()
    return sum(r() is not None for r in refs)


class Endless(object):
    """Batch generator whose dictionaries (and nothing else) are new each time."""

    def __init__(self, make):
        self.make, self.k, self.refs = make, -1, []

    def __iter__(self):
        return self

    def __next__(self):
        self.k += 1
        batch = self.make(self.k % 5)
        if self.refs is not None:
            remember(self.refs, list(batch.values()))
        return batch


def n_ops(graph):
    return len(graph.get_operations())


def chain(case, mon):
    spec = case["spec"]
    sched = Quiet(spec["eps"])
    c = ch.Chain(spec, schedule=sched)
    if ch.needs_batch(spec):
        # the chain's own recording batches keep copies; these do not
        c.sampler.batch_generator = Endless(c.feed_for)
    g, steps = c.graph, case["steps"]
    what = "%s %s driven by %s" % (spec["kind"], spec["cost"], case["drive"])
    refs, done = [], 0
    try:
        if case["start"] == "first-step":
            next(c.sampler)
            done = 1
        before = n_ops(g)
        g.finalize()
        with g.as_default():
            if case["drive"] == "islice":
                while done < steps:
                    for s, _ in islice(c.sampler, 7):
                        remember(refs, s)
                        done += 1
            elif case["drive"] == "for":
                for s, _ in c.sampler:
                    remember(refs, s)
                    done += 1
                    if done >= steps:
                        break
            else:
                while done < steps:
                    if case["drive"] == "feed" and "extra" in c.feeds:
                        s, _ = c.sampler.__next__(feed_dict={c.feeds["extra"]: float(done)})
                    elif case["drive"] == "feed":
                        s, _ = c.sampler.__next__(feed_dict={})
                    else:
                        s, _ = next(c.sampler)
                    remember(refs, s)
                    done += 1
        mon.event("steps-in-a-finalized-graph", done)
        mon.check(n_ops(g) == before, "steps-add-no-operations", "%s: %d operations before, %d after %d steps" % (what, before, n_ops(g), done))
        mon.check(c.sampler.n_iterations == done, "steps-run-in-a-finalized-graph", "%s: counted %s of %d steps" % (what, c.sampler.n_iterations, done))
        s = None
        n = len(c.params)
        for r, nm in ((refs, "returned"), (sched.refs, "told to the schedule")):
            mon.check(alive(r) <= n, "no-earlier-samples-kept", "%s: %d arrays of %d parameters %s in %d steps are still alive" % (what, alive(r), n, nm, done))
        if ch.needs_batch(spec):
            # the last batch may be kept
            fed = c.sampler.batch_generator.refs
            left = alive(fed[:-2])
            mon.check(left == 0, "no-earlier-batches-kept", "%s: %d of %d arrays of %d batches before the last are still alive" % (what, left, len(fed), done))
            mon.event("arrays-watched", len(fed))
        mon.event("arrays-watched", len(refs))
        mon.state("chain", spec["kind"], spec["cost"], case["drive"], done)
    finally:
        c.close()


def census():
    """Number of live objects, and of entries in all containers (numbers are no objects of the collector)."""
    gc.collect()
    objs = gc.get_objects()
    n = 0
    for o in objs:
        if type(o) in (list, dict, set, collections.deque, collections.OrderedDict, collections.defaultdict) and o is not objs:
            n += len(o)
    return len(objs), n


def objects(case, mon):
    """The number of live Python objects does not grow with the chain."""
    spec = case["spec"]
    c = ch.Chain(spec, schedule=Quiet(spec["eps"]))
    if ch.needs_batch(spec):
        c.sampler.batch_generator = Endless(c.feed_for)
        c.sampler.batch_generator.refs = None
    c.schedule.update = lambda params, cost: None
    try:
        def run_steps(n):
            for _ in range(n):
                next(c.sampler)
            return census()
        run_steps(40)
        a, na = run_steps(20)
        b, nb = run_steps(case["steps"])
        mon.check(nb - na < case["steps"] / 3., "no-entries-accumulate", "%s: %d more entries in containers after %d more steps" % (spec["kind"], nb - na, case["steps"]))
        # one object kept per step shows as case["steps"] of them
        mon.check(b - a < case["steps"] / 3., "no-objects-accumulate", "%s: %d more live objects after %d more steps" % (spec["kind"], b - a, case["steps"]))
        mon.event("steps-counted", case["steps"])
        mon.state("objects", spec["kind"])
    finally:
        c.close()


def trace(case, mon):
    from pysgmcmc.diagnostics.sample_chains import PYSGMCMCTrace
    spec = case["spec"]
    c = ch.Chain(spec, schedule=Quiet(spec["eps"]))
    try:
        next(c.sampler)
        before = n_ops(c.graph)
        c.graph.finalize()
        with c.graph.as_default():
            t = PYSGMCMCTrace.from_sampler(chain_id=0, sampler=c.sampler, n_samples=case["n"],
                                           varnames=["v%d" % i for i in range(len(c.params))])
            for v in t.varnames:
                t.get_values(v)
            t.get_values(t.varnames[0], burn=1, thin=2)
            # reading it, often
            rng = np.random.RandomState(case["n"])

            def read(n):
                for q in range(n):
                    t.point(int(rng.randint(len(t))))
                    t.get_values(t.varnames[q % len(t.varnames)], burn=int(rng.randint(3)), thin=int(rng.randint(1, 3)))
                    len(t), t[0]
                return census()
            read(40)
            (a, na), (b, nb) = read(20), read(300)
            mon.check(b - a < 100 and nb - na < 100, "reading-accumulates-nothing", "%d objects, %d entries more after reading 300 times" % (b - a, nb - na))
        mon.check(n_ops(c.graph) == before, "traces-add-no-operations", "%s: %d operations before, %d after" % (spec["kind"], before, n_ops(c.graph)))
        mon.check(c.sampler.n_iterations == case["n"] + 1, "traces-draw-exactly", "%d steps for %d samples" % (c.sampler.n_iterations - 1, case["n"]))
        mon.state("trace", spec["kind"], case["n"])
    finally:
        c.close()


def network(case, mon):
    from vlib import bnn
    spec = case["spec"]
    X, y = bnn.dataset(spec, case["N"], case["D"], case["dseed"])
    counts = []
    for n_iters in (spec["n_iters"], spec["n_iters"] + spec.get("step", 57)):
        sched = Quiet(spec["eps"])
        # the longer training is longer in burn-in, too
        burn = spec["burn"] if n_iters == spec["n_iters"] else spec["burn"] + spec.get("step", 0)
        m = bnn.Model(dict(spec, n_iters=n_iters, burn=burn), schedule=sched)
        P = len(bnn.param_shapes(spec["net"], case["D"]))
        peak = []
        sched.watch = lambda k: peak.append(alive(sched.refs) - P * len(m.bnn.samples)) if k in (25, 39, 80, 500) else None
        try:
            m.train(X, y)
            # while training: the sample before, this one and the one on its way
            mon.check(all(v <= 4 * P for v in peak), "training-keeps-the-collected-networks-only", "%s: beyond the collected networks, %s arrays alive in the middle of training" % (spec, peak))
            mon.event("peaks-in-training", len(peak))
            counts.append(n_ops(m.graph))
            n = len(bnn.param_shapes(spec["net"], case["D"]))
            steps = len(sched.refs) // n
            # the collected networks, and one sample for the sampler
            mon.check(alive(sched.refs) <= n * (len(m.samples) + 1), "training-keeps-the-collected-networks-only",
                      "%s: %d arrays alive for %d networks of %d parameters after %d steps" % (spec, alive(sched.refs), len(m.samples), n, steps))
            before = n_ops(m.graph)
            m.graph.finalize()
            refs = []
            networks = m.samples
            if not networks:
                continue
            rng = np.random.RandomState(case["dseed"] % 4999)
            for q in range(12):
                pts = rng.normal(size=(int(ch.pick(rng, [1, 2, 9, 40])), case["D"]))
                out = m.predict(pts) if q % 3 else m.predict(pts, return_individual_predictions=True)
                remember(refs, list(out))
                with m.graph.as_default():
                    remember(refs, m.bnn.compute_network_output(params=networks[0], input_data=pts))
            out = None
            mon.check(n_ops(m.graph) == before, "predictions-add-no-operations", "%s: %d operations before, %d after 24 predictions" % (spec, before, n_ops(m.graph)))
            mon.check(alive(refs) == 0, "no-earlier-predictions-kept", "%s: %d of %d arrays alive" % (spec, alive(refs), len(refs)))
            mon.event("predictions-in-a-finalized-graph", 24)
        finally:
            m.close()
    mon.check(counts[0] == counts[1], "training-graph-independent-of-length", "%s: %s operations for n_iters %d and %d more" % (spec, counts, spec["n_iters"], spec.get("step", 57)))
    mon.state("network", spec["method"], spec["net"], spec["n_nets"])


def stream(case, mon):
    s = case["data"]
    x, y = vdata.dataset(s)
    g = tf.Graph()
    with g.as_default():
        xp, yp = tf.placeholder(tf.float64), tf.placeholder(tf.float64)
        it = vdata.generators()[case["gen"]](x=x, y=y, x_placeholder=xp, y_placeholder=yp, batch_size=s["b"], seed=s["seed"])
        g.finalize()
        refs, before = [], n_ops(g)
        for _ in range(case["draws"]):
            b = next(it)
            remember(refs, [v for v in b.values() if v is not x and v is not y])
        mon.check(n_ops(g) == before, "batches-add-no-operations", "%d before, %d after" % (before, n_ops(g)))
        b = None
        # the generator may still hold the batch it last handed out
        left = alive(refs)
        mon.check(left <= 4, "no-earlier-batches-kept", "%s: %d of %d arrays of %d batches alive" % (case["gen"], left, len(refs), case["draws"]))
        mon.event("arrays-watched", len(refs))
    mon.state("stream", case["gen"], s["N"], s["b"])
