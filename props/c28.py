"""C28: schedules drive exactly the samplers they were given to."""
from itertools import islice

import numpy as np
from vlib import chains as ch

KINDS = ["SGHMC", "SGLD", "REL", "SVGD"]
DEFAULT = dict(SGHMC=.01, SGLD=.01, REL=.001, SVGD=.1)


def cases(rng, tier):
    k = 1 if tier == "quick" else 7
    for i in range(12 * k):
        yield dict(mode="constant", v=ch.pick(rng, [0.01, 1e-300, 5, 1e10, 0.1, float(10 ** rng.uniform(-6, 2))]), seed=int(rng.randint(1 << 30)))
    for i in range(32 * k):
        spec = ch.rand_spec(rng, KINDS[i % 4], dtype="float64")
        spec["seed"] = int(rng.randint(1 << 30))
        n = int(ch.pick(rng, [6, 10, 14]))
        spec["eps"] = [float(x) for x in rng.uniform(.01, .1, n)]
        yield dict(mode="prefix", spec=spec, n=n, t=int(rng.randint(0, n)), seed=int(rng.randint(1 << 30)))
    for i in range(40 * k):
        specs = []
        for _ in range(int(ch.pick(rng, [2, 2, 3]))):
            s = ch.no_noise(ch.rand_spec(rng, ch.pick(rng, KINDS), cost="quad", dtype="float64"))
            s["eps"] = [float(x) for x in rng.uniform(.01, .1, 12)]
            if rng.rand() < .3:
                # beyond one
                e = float(10 ** rng.uniform(.5, 2.))
                s["eps"] = [float(x) for x in e * rng.uniform(.3, 1., 12)]
                if s["kind"] != "SVGD":
                    s["cscale"] = 0.3 / e ** 2 if s["kind"] == "SGHMC" else 0.3 / e
                if s["kind"] in ch.BURNIN:
                    s["burn"] = 1
            specs.append(s)
        yield dict(mode="several", specs=specs, shared=[int(x) for x in rng.randint(0, 2, len(specs))] if i % 2 else list(range(len(specs))), seed=int(rng.randint(1 << 30)),
                   form=ch.pick(rng, ["log", "minimal", "package", "numpy", "adaptive"]))
    for i in range(24 * k):
        spec = ch.no_noise(ch.rand_spec(rng, KINDS[i % 4], cost="quad", dtype="float64"))
        yield dict(mode="default", spec=spec, busy=bool(i // 4 % 2), via=["class", "get_sampler"][i // 8 % 2], seed=int(rng.randint(1 << 30)))
    for i in range(6 * k):
        yield dict(mode="bnn", seed=int(rng.randint(1 << 30)), shared=bool(i % 2))
    for i in range(14 * k):
        yield dict(mode="bnn-constant", seed=int(rng.randint(1 << 30)), method=["SGHMC", "SGLD"][i % 2], form=["float", "int", "float32", "float64", "subclass"][i % 5],
                   v=float(ch.pick(rng, [1e-3, .0123, .1, 1., 1., 1.7, 2., 3., 10.])))
    for i in range(4 * k):
        yield dict(mode="bnn-prefix", seed=int(rng.randint(1 << 30)), method=["SGHMC", "SGLD"][i % 2])


def run(case, mon):
    mon.key(case)
    {"constant": constant, "prefix": prefix, "several": several, "default": default, "bnn": bnn_, "bnn-prefix": bnn_prefix, "bnn-constant": bnn_constant}[case["mode"]](case, mon)


def constant(case, mon):
    from pysgmcmc.stepsize_schedules import ConstantStepsizeSchedule as C
    v = case["v"]
    rng = np.random.RandomState(case["seed"])
    c = C(v)
    others = [C(v * 2), C(v / 2)]
    mon.check(c.initial_value == v, "constant-yields-v", "initial_value %r" % (c.initial_value,))
    args = [(), ([np.ones(3)], 4.), (None,), ("x", 1, 2), (np.zeros((2, 2)), np.float64(3)), (v * 3, v * 5)]
    for i in range(3000):
        mon.check(next(c) == v, "constant-yields-v", "draw %d" % i)
        if rng.rand() < .3:
            c.update(*ch.pick(rng, args))
        if rng.rand() < .1:
            c.update(stepsize=4 * v, cost=3., sample=[1])
        if rng.rand() < .1:
            mon.check(next(others[0]) == v * 2 and next(others[1]) == v / 2, "constant-yields-v", "another schedule")
    got = list(islice(c, 5000))
    mon.check(len(got) == 5000 and all(g == v for g in got), "constant-never-ends", "%d values" % len(got))
    n = 0
    for g in c:
        n += 1
        if g != v or n == 5000:
            break
    mon.check(n == 5000 and g == v, "constant-never-ends", "for loop ended after %d" % n)
    if case["seed"] % 3 == 0:
        n = sum(1 for g in islice(iter(c), 400000) if g == v)
        mon.check(n == 400000, "constant-never-ends", "%d of 400000 values are %r" % (n, v))
    mon.check(c.initial_value == v, "constant-yields-v", "initial_value %r after use" % (c.initial_value,))
    a = iter(c)
    got = [next(a) for _ in range(10)] + [next(iter(c)) for _ in range(10)]
    mon.check(all(g == v for g in got), "constant-never-ends", "iter")


class Minimal(object):
    """The documented interface of a schedule and nothing else."""
    __slots__ = ("initial_value", "vals", "n", "u")

    def __init__(self, vals):
        self.initial_value, self.vals, self.n, self.u = 0.5, list(vals), 0, 0

    def __next__(self):
        self.n += 1
        return self.vals[min(self.n - 1, len(self.vals) - 1)]

    def update(self, sample, cost):
        self.u += 1


def package(vals):
    from pysgmcmc.stepsize_schedules import StepsizeSchedule

    class Mine(StepsizeSchedule):
        def __init__(self, vals):
            super().__init__(vals[0] * 7)
            self.vals, self.n, self.u = vals, 0, 0

        def __next__(self):
            self.n += 1
            return self.vals[min(self.n - 1, len(self.vals) - 1)]

        def update(self, *a, **k):
            self.u += 1
    return Mine(list(vals))


class Adaptive(object):
    def __init__(self, vals):
        self.initial_value, self.vals, self.n, self.u, self.f = vals[0], list(vals), 0, 0, 1.

    def __next__(self):
        self.n += 1
        return self.vals[min(self.n - 1, len(self.vals) - 1)] * self.f

    def update(self, sample, cost):
        self.u += 1
        self.f = 1. / (1. + .1 * self.u)


def make_schedule(form, vals):
    return dict(log=lambda v: Minimal(v), minimal=Minimal, package=package, numpy=lambda v: Minimal([np.float64(x) for x in v]),
                adaptive=Adaptive)[form](vals)


class Spy(object):
    """What a schedule hands out, without changing it."""

    def __init__(self, inner, log):
        self.inner, self.log = inner, log

    @property
    def initial_value(self):
        return self.inner.initial_value

    def __next__(self):
        v = next(self.inner)
        self.log.append(float(v))
        return v

    def update(self, *a, **k):
        return self.inner.update(*a, **k)


def prefix(case, mon):
    """The same seeded chain with stepsizes that differ from step t on."""
    n, t = case["n"], case["t"]
    rng = np.random.RandomState(case["seed"])
    out = []
    for which in range(3):
        s = dict(case["spec"])
        eps = list(s["eps"])
        if which:
            eps[t:] = [float(x) for x in rng.uniform(.01, .1, n - t)]
        # the initial value is not a stepsize of any step
        c = ch.Chain(s, schedule=Spy(Minimal(eps), []))
        try:
            out.append([c.next()[0] for _ in range(n)])
        finally:
            c.close()
    a = out[0]
    for b in out[1:]:
        for i in range(t):
            for x, y in zip(a[i], b[i]):
                mon.check(np.allclose(x, y, 1e-7, 1e-9, equal_nan=True), "first-samples-unchanged", "stepsizes changed from step %d on, sample %d: %s, %s" % (t, i, np.ravel(x)[:4], np.ravel(y)[:4]))
        if all(np.all(np.isfinite(v)) for v in a[t]):
            mon.check(not all(np.allclose(x, y, 1e-9, 1e-12) for x, y in zip(a[t], b[t])), "changed-stepsize-is-used", "sample %d" % t)


def several(case, mon):
    """Samplers in one graph, schedules of their own or shared."""
    import tensorflow as tf
    rng = np.random.RandomState(case["seed"])
    specs, shared = case["specs"], case["shared"]
    g = tf.Graph()
    scheds, logs, chains, refs, oracles = {}, {}, [], [], []
    with g.as_default():
        s = tf.Session(graph=g, config=ch.session_config(None))
    try:
        for sp, j in zip(specs, shared):
            if j not in scheds:
                logs[j] = []
                scheds[j] = Spy(make_schedule(case["form"], sp["eps"]), logs[j])
            chains.append(ch.Chain(sp, graph=g, session=s, schedule=scheds[j], init=None))
            refs.append(ch.Reference(sp))
            oracles.append(ch.StepOracle(sp, mon, "step-uses-own-stepsize"))
        with g.as_default():
            s.run(tf.global_variables_initializer())
        for j in scheds:
            mon.check(scheds[j].inner.n == 0, "others-consume-nothing", "after construction")
        steps = [0] * len(chains)
        for _ in range(10 * len(chains)):
            i = rng.randint(len(chains))
            c = chains[i]
            before = {j: (x.inner.n, x.inner.u) for j, x in scheds.items()}
            old = c.values()
            _, gr = refs[i](old)
            c.next()
            for j, x in scheds.items():
                d = (x.inner.n - before[j][0], x.inner.u - before[j][1])
                mon.check(d == ((1, 1) if j == shared[i] else (0, 0)), "others-consume-nothing" if j != shared[i] else "own-schedule-consumed",
                          "a step of sampler %d (schedule %d) took %s from schedule %d" % (i, shared[i], d, j))
            oracles[i].step(old, gr, logs[shared[i]][-1], c.values(), steps[i])
            steps[i] += 1
        mon.event("shared-schedules" if len(scheds) < len(chains) else "separate-schedules")
        mon.state(sorted(sp["kind"] for sp in specs), case["form"], shared)
    finally:
        for r in refs:
            r.close()
        s.close()


def default(case, mon):
    import tensorflow as tf
    from pysgmcmc.sampling import Sampler
    from pysgmcmc.stepsize_schedules import ConstantStepsizeSchedule
    spec = dict(case["spec"])
    kind = spec["kind"]
    spec["eps"] = DEFAULT[kind]
    factory = None
    if case["via"] == "get_sampler":
        method = getattr(Sampler, {"REL": "RelativisticSGHMC"}.get(kind, kind))

        def factory(**kw):
            return Sampler.get_sampler(method, **kw)
    others = []
    try:
        if case["busy"]:
            # other samplers of the class, with and without schedules, have been used before
            for sch in (None, ch.Schedule([.5, .25]), ConstantStepsizeSchedule(.3)):
                sp = dict(spec, eps=.2)
                o = ch.Chain(sp, schedule=sch, use_schedule=sch is not None)
                others.append(o)
                for _ in range(2):
                    o.next()
        c = ch.Chain(spec, use_schedule=False, factory=factory)
        others.append(c)
        ref = ch.Reference(spec)
        oracle = ch.StepOracle(spec, mon, "default-stepsize")
        ch.drive(c, ref, mon, 8, oracle)
        ref.close()
    finally:
        for o in others:
            o.close()
    mon.event("default-" + kind)


def bnn_(case, mon):
    """A network is trained while a sampler with its own schedule goes on."""
    from vlib import bnn
    rng = np.random.RandomState(case["seed"])
    mine = ch.Schedule([float(x) for x in rng.uniform(.01, .1, 100)])
    theirs = mine if case["shared"] else ch.Schedule([float(x) for x in rng.uniform(.001, .02, 100)])
    spec = ch.no_noise(ch.rand_spec(rng, ch.pick(rng, KINDS), cost="quad", dtype="float64"))
    c = ch.Chain(spec, schedule=mine)
    ref = ch.Reference(spec)
    oracle = ch.StepOracle(spec, mon, "step-uses-own-stepsize")
    # too many steps to see: burn-in of 2
    bs = dict(method=ch.pick(rng, ["SGHMC", "SGLD"]), net="linear", n_nets=3, n_iters=15, burn=2, sample_steps=3, batch_size=5, seed=3)
    m = bnn.build(bs, schedule=theirs)
    try:
        ch.drive(c, ref, mon, 4, oracle)
        mon.check((mine.n_next, theirs.n_next) == (4, 4 if case["shared"] else 0), "others-consume-nothing", "before training: %d, %d" % (mine.n_next, theirs.n_next))
        X, y = bnn.dataset(bs, 12, 2, case["seed"] % 1000)
        m.train(X, y)
        n = 10                     # steps 3, 6 and 9 are collected
        want = (4 + n, 4 + n) if case["shared"] else (4, n)
        mon.check((mine.n_next, theirs.n_next) == want and (len(mine.updates), len(theirs.updates)) == want, "others-consume-nothing",
                  "after training: %d, %d stepsizes; expected %s" % (mine.n_next, theirs.n_next, want))
        if not case["shared"]:
            old = c.values()
            _, gr = ref(old)
            c.next()
            oracle.step(old, gr, mine.handed[-1], c.values(), 4)
            mon.check(mine.handed[-1] == mine.values[4] and theirs.n_next == n, "others-consume-nothing", "after training")
        q = m.predict(X)
        mon.check(theirs.n_next == (want[1]), "others-consume-nothing", "predict")
    finally:
        m.close()
        c.close()
        ref.close()
    mon.event("networks")


def bnn_constant(case, mon):
    """A network given a constant schedule makes the steps of that size, whatever it is."""
    from vlib import bnn
    from pysgmcmc.stepsize_schedules import ConstantStepsizeSchedule

    class Mine(ConstantStepsizeSchedule):
        pass
    v = case["v"]
    if case["form"] == "int":
        v = max(1, int(v))
    elif case["form"] in ("float32", "float64"):
        v = getattr(np, case["form"])(v)
    X, y = bnn.dataset({}, 10, 2, case["seed"] % 1000)
    out = []
    for sched in ((Mine if case["form"] == "subclass" else ConstantStepsizeSchedule)(v), ch.Schedule([float(v)] * 20), ch.Schedule([1.3 * float(v)] * 20)):
        m = bnn.build(dict(method=case["method"], net="two", n_nets=3, n_iters=8, burn=1, sample_steps=1, batch_size=4, seed=case["seed"]), schedule=sched)
        try:
            m.train(X, y)
            out.append([[np.array(a) for a in s] for s in m.samples])
        finally:
            m.close()
    a, b, c = out
    mon.check(len(a) == len(b) == len(c) == 3, "constant-schedule-of-a-network", "%d, %d, %d networks" % (len(a), len(b), len(c)))
    for i, (s, t) in enumerate(zip(a, b)):
        mon.check(all(np.allclose(p, q, 1e-6, 1e-9, equal_nan=True) for p, q in zip(s, t)), "constant-schedule-of-a-network",
                  lambda: "network %d with ConstantStepsizeSchedule(%r) and with stepsizes of %r: %s, %s" % (i, v, v, np.ravel(s[0])[:3], np.ravel(t[0])[:3]))
    if a and c and all(np.all(np.isfinite(p)) for p in a[0]):
        mon.event("finite-constant-runs")
        mon.check(not all(np.allclose(p, q, 1e-7, 1e-10) for p, q in zip(a[0], c[0])), "changed-stepsize-is-used", "stepsizes %r and 1.3 times that" % v)


def bnn_prefix(case, mon):
    from vlib import bnn
    rng = np.random.RandomState(case["seed"])
    t = int(rng.randint(1, 10))
    eps = [float(x) for x in rng.uniform(.001, .01, 14)]
    X, y = bnn.dataset({}, 10, 2, case["seed"] % 1000)
    out = []
    for which in range(2):
        e = list(eps)
        if which:
            e[t:] = [2 * x for x in e[t:]]
        m = bnn.build(dict(method=case["method"], net="two", n_nets=20, n_iters=12, burn=1, sample_steps=1, batch_size=4, seed=case["seed"]), schedule=ch.Schedule(e))
        m.train(X, y)
        out.append(m.samples)
        m.close()
    mon.check(len(out[0]) == len(out[1]) == 10, "first-samples-unchanged", "%d, %d networks" % (len(out[0]), len(out[1])))
    for i, (a, b) in enumerate(zip(*out)):
        same = all(np.allclose(x, z, 1e-7, 1e-9, equal_nan=True) for x, z in zip(a, b))
        if i + 2 < t:
            mon.check(same, "first-samples-unchanged", "network of step %d, stepsizes changed from step %d on" % (i + 2, t))
        elif i + 2 >= t + 1 and all(np.all(np.isfinite(v)) for v in a):
            mon.check(not same, "changed-stepsize-is-used", "network of step %d, stepsizes changed from step %d on" % (i + 2, t))
