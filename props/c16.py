"""C16: fault injection - a step that fails changes nothing, the chain goes on."""
import time

import numpy as np
from vlib import chains as ch

HOST = ["batch", "stepsize", "stop", "base"]
DEVICE = ["missing-feed", "wrong-shape", "assert-cost", "assert-grad", "bad-batch"]


class Boom(Exception):
    pass


ERRORS = [Boom, ValueError, RuntimeError, KeyError, OSError, TypeError, AttributeError, IndexError, AssertionError,
          ArithmeticError, TimeoutError, MemoryError, EOFError, UserWarning, NotImplementedError]


class BaseBoom(BaseException):
    pass


def cases(rng, tier):
    n = 88 if tier == "quick" else 600
    kinds = ["SGHMC", "SGLD", "REL", "SVGD"]
    for k in range(n):
        kind = kinds[k % 4]
        fault = (HOST + DEVICE)[(k // 4) % 9]
        spec = ch.rand_spec(rng, kind, cost="batch" if fault in ("batch", "stop", "base", "wrong-shape", "bad-batch") else "coupled",
                            dtype="float64")
        spec["seed"] = int(rng.randint(1 << 30))
        if fault in DEVICE and k % 5:
            spec = ch.no_noise(spec)       # what a failed call left behind shows in every digit
        steps = int(ch.pick(rng, [8, 12]))
        spec["eps"] = [float(x) for x in rng.uniform(0.01, 0.08, size=steps)]
        if kind in ch.BURNIN:
            spec["burn"] = int(ch.pick(rng, [1, 3, steps // 2, steps + 2]))
        pts = sorted(set([0, spec.get("burn", 2) - 1, spec.get("burn", 2), int(rng.randint(steps))]))
        yield dict(spec=spec, fault=fault, at=[int(p) for p in pts if 0 <= p < steps], repeat=int(ch.pick(rng, [1, 1, 2, 3])),
                   steps=steps, which=int(rng.randint(4)), exc=int(rng.randint(len(ERRORS))), sexc=int(rng.randint(len(ERRORS) + 5)))


def run(case, mon):
    import tensorflow as tf
    spec, fault, steps = case["spec"], case["fault"], case["steps"]
    kind = spec["kind"]
    armed = [False]
    hits = [0]
    exc = {"batch": ERRORS[case.get("exc", 0)], "stepsize": (ERRORS + 5 * [StopIteration])[case.get("sexc", 0)], "stop": StopIteration, "base": BaseBoom}.get(fault)

    def boom(where):
        if armed[0] and where == "next":
            hits[0] += 1
            armed[0] = False       # asking again would go well: nobody should
            raise exc("injected")

    sched = ch.Schedule(spec["eps"], fault=boom if fault == "stepsize" else None)
    holder = {}

    def wrap(cost):
        if fault == "missing-feed":
            with tf.init_scope():      # SVGD calls the cost function inside a loop
                holder["ph"] = tf.placeholder(tf.float64, ())
            return cost + 0. * holder["ph"]
        if fault == "assert-cost":
            with tf.init_scope():
                holder["ok"] = tf.placeholder_with_default(True, ())
            # the failure comes late: whatever does not wait for the cost is done by then
            late = tf.py_func(lambda ok: (ok, time.sleep(0 if ok else 0.01))[0], [holder["ok"]], tf.bool)
            with tf.control_dependencies([tf.Assert(late, ["injected"])]):
                return tf.identity(cost)
        return cost

    def make(k):
        if fault == "wrong-shape" and armed[0]:
            x, y = ch.make_batch(spec, k)
            hits[0] += 1
            return {chain.feeds["x"]: x, chain.feeds["y"]: y[:-2]}
        if fault == "bad-batch" and armed[0]:
            hits[0] += 1
            return {chain.feeds["x"]: "no array"}
        return chain.feed_for(k)

    batches = None
    if ch.needs_batch(spec):
        batches = ch.Batches(make, fault=boom if fault in ("batch", "stop", "base") else None)
    delays = None
    if fault == "assert-grad":
        delays = FailGrad(holder, case["which"] % len(spec["shapes"]) if kind != "SVGD" else 0)
    # the sampler is built by the class itself; batches need the chain's placeholders
    chain = ch.Chain(spec, schedule=sched, batches=batches, wrap_cost=wrap, delays=delays)
    host = fault in HOST
    want = None
    if host:
        clean = ch.Chain(spec)
        try:
            want = [clean.next() for _ in range(steps)]
        finally:
            clean.close()
    # drift-only reference: the chain after a fault still follows its equations
    ref = None
    oracle = None
    if not host:
        ref = ch.Reference(spec)
        oracle = ch.StepOracle(spec, mon, "chain-goes-on")
    sam = chain.sampler
    try:
        feed = {}
        good = dict(feed)
        t = 0
        k = 0
        pending = {p: case["repeat"] for p in case["at"]}
        old = chain.values()
        taken = 0          # batches/stepsizes given out in good order
        while t < steps:
            fail = pending.get(t, 0) > 0
            before = chain.values()
            n0 = sam.n_iterations
            b0 = sam.is_burning_in if kind in ch.BURNIN else None
            armed[0] = fail
            if fail:
                pending[t] -= 1
                fd = None
                if fault == "assert-cost":
                    fd = {holder["ok"]: False}
                elif fault == "missing-feed":
                    fd = None if case["which"] % 2 else {}
                elif fault == "assert-grad":
                    holder["fail"] = True
                want_exc = exc or Exception
                nb, ns = (chain.batches.n_next if chain.batches else 0), sched.n_next
                upd = len(sched.updates)
                try:
                    if fd is None:
                        next(sam)
                    else:
                        sam.__next__(feed_dict=fd)
                except want_exc as e:
                    mon.check(exc is None or type(e) is exc and e.args == ("injected",), "fault-reaches-caller", "%s at step %d: raised %r" % (fault, t, e))
                    mon.event("fault-" + fault)
                    mon.event("faults-in-burn-in" if b0 else "faults-outside-burn-in")
                except BaseException as e:
                    mon.check(False, "fault-reaches-caller", "%s at step %d: raised %s: %s" % (fault, t, type(e).__name__, str(e)[:200]))
                else:
                    mon.check(False, "fault-reaches-caller", "%s at step %d: no exception" % (fault, t))
                holder["fail"] = False
                armed[0] = False
                now = chain.values()
                for i, (a, b) in enumerate(zip(now, before)):
                    mon.same(a, b, "failed-step-changes-no-parameter", "%s %s at step %d parameter %d" % (kind, fault, t, i))
                mon.check(sam.n_iterations == n0, "failed-step-not-counted", "%s at step %d: n_iterations %r -> %r" % (fault, t, n0, sam.n_iterations))
                if b0 is not None:
                    mon.check(sam.is_burning_in == b0, "failed-step-keeps-phase", "%s at step %d" % (fault, t))
                mon.check(len(sched.updates) == upd, "failed-step-no-update", "%s at step %d" % (fault, t))
                # give the retry the same batch and stepsize
                if chain.batches is not None:
                    chain.batches.n_next = nb
                sched.n_next = ns
                mon.state(kind, fault, t, spec.get("burn"))
                continue
            fd = {holder["ph"]: 0.} if fault == "missing-feed" else None
            sample, cost = chain.next(fd)
            now = chain.values()
            if host:
                for i, (a, b) in enumerate(zip(sample, want[t][0])):
                    mon.same(a, b, "continues-like-fault-free", "%s %s step %d parameter %d" % (kind, fault, t, i))
                mon.same(cost, want[t][1], "continues-like-fault-free", "cost of step %d" % t)
            else:
                batch = ch.make_batch(spec, chain.batches.n_next - 1) if chain.batches else None
                _, g = ref(before, batch)
                oracle.step(before, g, float(sched.handed[-1]), now, t)
            for a, b in zip(sample, now):
                mon.same(a, b, "sample-after-fault-is-value", "step %d" % t)
            t += 1
            mon.check(sam.n_iterations == t, "chain-goes-on-counting", "%r after %d good steps" % (sam.n_iterations, t))
            if kind in ch.BURNIN:
                mon.check(sam.is_burning_in == (t < spec["burn"]), "chain-goes-on-counting", "is_burning_in after %d good steps" % t)
    finally:
        chain.close()
        if ref:
            ref.close()
    mon.key(kind, fault, spec, case["at"], case["repeat"])


class FailGrad(object):
    """Stands in for chains.Delays: makes the gradient of one parameter fail on demand."""

    def __init__(self, holder, which):
        self.holder, self.which, self.n = holder, which, 0

    def wrap(self, tensor):
        import tensorflow as tf
        n = self.n
        self.n += 1
        holder = self.holder

        def maybe(t):
            if holder.get("fail"):
                time.sleep(0.01)
                raise RuntimeError("injected in gradient")
            return t

        @tf.custom_gradient
        def ident(t):
            def g(dy):
                if n != self.which:
                    return dy
                out = tf.py_func(maybe, [dy], dy.dtype)
                out.set_shape(dy.shape)
                return out
            return tf.identity(t), g
        return ident(tensor)
