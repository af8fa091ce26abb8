"""C27: invalid arguments are rejected, valid ones accepted."""
import functools

import numpy as np
from vlib import chains as ch

NOT_INT = [3.0, 0.5, "3", None, [3], (1,), float("nan"), {}, 1j]


def cases(rng, tier):
    k = 1 if tier == "quick" else 8
    for i in range(24 * k):
        yield dict(mode="bnn-invalid", seed=int(rng.randint(1 << 30)))
    for i in range(10 * k):
        yield dict(mode="bnn-valid", seed=int(rng.randint(1 << 30)))
    for i in range(12 * k):
        yield dict(mode="batches", which=["plain", "shuffled"][i % 2], seed=int(rng.randint(1 << 30)))
    for i in range(24 * k):
        yield dict(mode="sampler", kind=["SGHMC", "SGLD", "REL", "SVGD"][i % 4], seed=int(rng.randint(1 << 30)))
    for i in range(6 * k):
        yield dict(mode="shapes", seed=int(rng.randint(1 << 30)))


def run(case, mon):
    mon.key(case)
    rng = np.random.RandomState(case["seed"])
    {"bnn-invalid": invalid, "bnn-valid": valid, "batches": batches, "sampler": sampler, "shapes": shapes}[case["mode"]](case, mon, rng)


class Full(object):
    initial_value = 0.01

    def __next__(self):
        return 0.01

    def update(self, *a, **k):
        pass


class NoUpdate(object):
    initial_value = 0.01

    def __next__(self):
        return 0.01


class NoNext(object):
    initial_value = 0.01

    def update(self, *a, **k):
        pass


class NoInitial(object):
    def __next__(self):
        return 0.01

    def update(self, *a, **k):
        pass


class CallableNet(object):
    def __call__(self, inputs, seed=None, dtype=None):
        from vlib import bnn
        return bnn.make_net("linear")(inputs, seed, dtype)


def valid_bnn(rng):
    """Random valid arguments of a network (a random subset of them)."""
    import tensorflow as tf
    from vlib import bnn
    from pysgmcmc.sampling import Sampler
    from pysgmcmc.data_batches import generate_batches, generate_shuffled_batches
    from pysgmcmc.stepsize_schedules import ConstantStepsizeSchedule
    full = dict(
        n_nets=int(ch.pick(rng, [1, 2, 5, 100, 10 ** 6])), n_iters=int(ch.pick(rng, [1, 10, 50000, 10 ** 9])), burn_in_steps=int(ch.pick(rng, [0, 1, 7, 10 ** 6])),
        sample_steps=int(ch.pick(rng, [1, 3, 100, 10 ** 6])), batch_size=int(ch.pick(rng, [1, 2, 20, 10 ** 6])),
        dtype=ch.pick(rng, [tf.float64, tf.float32]), sampling_method=ch.pick(rng, [Sampler.SGHMC, Sampler.SGLD]),
        get_net=ch.pick(rng, [bnn.make_net("two"), CallableNet(), functools.partial(bnn.make_net("linear")), lambda inputs, seed=None, dtype=None: inputs]),
        batch_generator=ch.pick(rng, [generate_batches, generate_shuffled_batches, functools.partial(generate_batches), CallableNet()]),
        stepsize_schedule=ch.pick(rng, [ConstantStepsizeSchedule(0.1), Full(), ch.Schedule([0.1, 0.2])]),
        normalize_input=bool(rng.randint(2)), normalize_output=bool(rng.randint(2)), seed=ch.pick(rng, [None, 0, 1, 12345]))
    return {k: v for k, v in full.items() if rng.rand() < .6}


def invalid(case, mon, rng):
    import tensorflow as tf
    from pysgmcmc.models.bayesian_neural_network import BayesianNeuralNetwork as BNN
    from pysgmcmc.sampling import Sampler
    bad = []
    for name in ("n_nets", "n_iters", "sample_steps", "batch_size"):
        bad += [(name, v) for v in NOT_INT + [0, -1, -10 ** 9]]
    bad += [("burn_in_steps", v) for v in NOT_INT + [-1, -5, -10 ** 9]]
    bad += [("dtype", v) for v in ("float64", np.float64, np.dtype("float32"), None, 64, float, tf.constant)]
    bad += [(n, v) for n in ("get_net", "batch_generator") for v in (None, "net", 3, [lambda: 0], {}, 0.5)]
    bad += [("stepsize_schedule", v) for v in (None, 0.01, "0.01", [0.1, 0.2], NoUpdate(), NoNext(), iter([0.1]), object(), lambda: 0.1)]
    g = tf.Graph()
    with g.as_default(), tf.Session(graph=g) as s:
        for name, v in bad:
            kw = valid_bnn(rng)
            kw[name] = v
            mon.raises(AssertionError, lambda: BNN(session=s, **kw), "bnn-rejects-" + name, "%s=%r" % (name, v))
        for v in ("SGHMC", "sghmc", 0, None, 3.5, Sampler, [Sampler.SGHMC], object()):
            kw = valid_bnn(rng)
            kw["sampling_method"] = v
            mon.raises(ValueError, lambda: BNN(session=s, **kw), "bnn-rejects-method", "sampling_method=%r" % (v,))
        for v in Sampler:
            kw = valid_bnn(rng)
            kw["sampling_method"] = v
            if Sampler.is_supported(v):
                BNN(session=s, **kw)
                mon.event("bnn-accepts")
            else:
                mon.raises(ValueError, lambda: BNN(session=s, **kw), "bnn-rejects-method", "sampling_method=%r" % (v,))
        # two things wrong at once
        for _ in range(15):
            (a, u), (b, v) = bad[rng.randint(len(bad))], bad[rng.randint(len(bad))]
            kw = valid_bnn(rng)
            kw[a] = u
            kw[b] = v
            mon.raises(AssertionError, lambda: BNN(session=s, **kw), "bnn-rejects-two", "%s=%r %s=%r" % (a, u, b, v))


def valid(case, mon, rng):
    import tensorflow as tf
    from vlib import bnn
    from pysgmcmc.models.bayesian_neural_network import BayesianNeuralNetwork as BNN
    from pysgmcmc.sampling import Sampler
    g = tf.Graph()
    with g.as_default(), tf.Session(graph=g) as s:
        for _ in range(60):
            BNN(session=s, **valid_bnn(rng))
            mon.event("bnn-accepts")
        BNN(s)
        for name, v in [(n, v) for n in ("n_nets", "n_iters", "sample_steps", "batch_size") for v in (1, 2, 10 ** 12)] + [("burn_in_steps", v) for v in (0, 1, 10 ** 12)]:
            BNN(s, **{name: v})
            mon.event("bnn-accepts")
        # further arguments are the sampler's
        BNN(s, mdecay=0.1)
        BNN(s, sampling_method=Sampler.SGLD, A=2.)
        mon.event("bnn-accepts", 2)
    # and they train
    for method in ("SGHMC", "SGLD"):
        spec = dict(method=method, net=ch.pick(rng, ["two", "linear", "deep"]), n_nets=int(rng.randint(1, 4)), n_iters=int(rng.randint(1, 20)), burn=int(rng.randint(0, 4)),
                    sample_steps=int(rng.randint(1, 4)), batch_size=int(rng.randint(1, 12)), seed=ch.pick(rng, [None, 0, 7]), dtype=ch.pick(rng, ["float64", "float32"]))
        m = bnn.build(spec, schedule=ch.pick(rng, [Full(), ch.Schedule([.01, .001])]))
        X, y = bnn.dataset(spec, 8, 2, case["seed"] % 1000)
        m.train(X, y)
        mon.check(m.bnn.is_trained, "valid-configurations-train", str(spec))
        m.close()


def batches(case, mon, rng):
    from vlib import data
    f = data.generators()[case["which"]]
    xp, yp = data.placeholders()
    for _ in range(6):
        N = int(ch.pick(rng, [1, 2, 5, 30]))
        x, y = rng.normal(size=(N, 2)), rng.normal(size=N)

        def first(**kw):
            a = dict(x=x, y=y, x_placeholder=xp, y_placeholder=yp)
            if rng.rand() < .5:
                a.update(batch_size=int(rng.randint(1, 7)), seed=int(rng.randint(100)))
            a.update(kw)
            return next(f(**a))
        for v in NOT_INT + [0, -1, -100]:
            mon.raises(AssertionError, lambda: first(batch_size=v), "batches-reject-size", "batch_size=%r" % (v,))
        for v in [3.0, "3", [3], 0.5, {}, -1, -10 ** 9, 2 ** 32, 2 ** 40]:
            mon.raises((AssertionError, ValueError, TypeError), lambda: first(seed=v), "batches-reject-seed", "seed=%r" % (v,))
        for yy in (rng.normal(size=N + 1), rng.normal(size=N + 5), rng.normal(size=max(0, N - 1)), rng.normal(size=0), rng.normal(size=2 * N)):
            mon.raises(AssertionError, lambda: first(y=yy), "batches-reject-lengths", "%d points, %d labels" % (N, len(yy)))
        for v in (None, 0, 1, 2 ** 31, 2 ** 32 - 1, 12345):
            b = first(seed=v)
            mon.check(set(b) == {xp, yp}, "batches-accept", "seed=%r" % (v,))
        for v in (1, 2, N, N + 1, 10 ** 6):
            b = first(batch_size=v)
            mon.check(len(b[xp]) == min(v, N), "batches-accept", "batch_size=%r" % (v,))


def sampler(case, mon, rng):
    import tensorflow as tf
    from pysgmcmc.stepsize_schedules import ConstantStepsizeSchedule
    kind = case["kind"]
    cls = ch.sampler_class(kind)
    pn = "particles" if kind == "SVGD" else "params"
    g = tf.Graph()
    with g.as_default(), tf.Session(graph=g) as s:
        ps = [tf.Variable(np.zeros(2) + i, dtype=tf.float64) for i in range(3)]

        def cost(p):
            return tf.reduce_sum(tf.square(p)) if kind == "SVGD" else tf.add_n([tf.reduce_sum(tf.square(q)) for q in p])

        def make(**kw):
            a = {pn: ps, "cost_fun": cost, "session": s}
            if rng.rand() < .4:
                a.update(seed=int(rng.randint(100)), stepsize_schedule=ConstantStepsizeSchedule(0.1), dtype=tf.float64)
            if rng.rand() < .3:
                a.update(batch_generator=iter([{}, {}]))
            a.update(kw)
            return cls(**a)
        bad = [("batch_generator", v) for v in ([{}], {}, "batches", 3, lambda: {}, (1, 2), object())]
        bad += [("seed", v) for v in (3.0, "3", [3], 0.5, {})]
        bad += [("session", v) for v in ("session", g, tf.Session, 0, object(), [s])]
        bad += [("dtype", v) for v in ("float64", np.float64, np.dtype("float64"), None, 64, float)]
        bad += [("cost_fun", v) for v in (None, "cost", 3, [cost], tf.constant(1.))]
        bad += [("stepsize_schedule", v) for v in (None, 0.01, [0.1], NoUpdate(), NoNext(), NoInitial(), iter([.1]), object(), lambda: .1)]
        if kind in ch.BURNIN:
            bad += [("burn_in_steps", v) for v in (3.0, "3", None, [3], 0.5, {})]
        for name, v in bad:
            mon.raises(AssertionError, lambda: make(**{name: v}), "sampler-rejects-" + name, "%s %s=%r" % (kind, name, v))
        # nothing happened to the parameters meanwhile
        flags = s.run([tf.is_variable_initialized(v) for v in ps])
        mon.event("rejected-constructions", len(bad))
        for kw in ({}, dict(seed=None), dict(seed=0), dict(seed=2 ** 31 - 1), dict(batch_generator=None), dict(batch_generator=iter([])), dict(batch_generator=({} for _ in range(2))),
                   dict(batch_generator=ch.Batches(lambda k: {})), dict(stepsize_schedule=Full()), dict(stepsize_schedule=ch.Schedule([.1]))):
            make(**kw)
            mon.event("sampler-accepts")
        class Callable(object):
            def __call__(self, p):
                return cost(p)

            def method(self, p):
                return cost(p)
        for f in (functools.partial(cost), Callable(), Callable().method, lambda p: cost(p)):
            make(cost_fun=f)
            mon.event("sampler-accepts")
        if kind in ch.BURNIN:
            for v in (0, 1, 5000):
                make(burn_in_steps=v)
                mon.event("sampler-accepts")
    # no session at all, and no default one
    g = tf.Graph()
    with g.as_default():
        ps = [tf.Variable(np.zeros(2)), tf.Variable(np.ones(2))]
        mon.raises(AssertionError, lambda: cls(**{pn: ps, "cost_fun": cost}), "sampler-rejects-session", "%s without any session" % kind)
        mon.raises(AssertionError, lambda: cls(**{pn: ps, "cost_fun": cost, "session": None}), "sampler-rejects-session", "%s without any session" % kind)
        with tf.Session(graph=g):
            cls(**{pn: ps, "cost_fun": cost})
            mon.event("sampler-accepts")
        s = tf.InteractiveSession(graph=g)
        s.close()


def shapes(case, mon, rng):
    from vlib import bnn
    bad = [(5,), (), (5, 2, 1), (1, 5, 2), (10,), (1, 1, 1, 1), (0,)]
    spec = dict(net="linear", n_nets=2, n_iters=12, burn=2, sample_steps=2, batch_size=5, seed=case["seed"], norm_in=bool(rng.randint(2)), norm_out=bool(rng.randint(2)), eps=.01)
    m = bnn.build(spec)
    X, y = bnn.dataset(spec, 10, 2, case["seed"] % 1000)
    try:
        for sh in bad:
            mon.raises(AssertionError, lambda: m.train(rng.normal(size=sh), rng.normal(size=sh[0] if sh else ())), "train-rejects-shape", "X of shape %s" % (sh,))
            mon.raises(AssertionError, lambda: m.train(rng.normal(size=sh), y), "train-rejects-shape", "X of shape %s" % (sh,))
        m.train(X, y)
        Q = rng.normal(size=(4, 2))
        before = m.predict(Q)
        for sh in bad + [(2,)]:
            mon.raises(AssertionError, lambda: m.predict(rng.normal(size=sh)), "predict-rejects-shape", "X of shape %s" % (sh,))
            mon.raises(AssertionError, lambda: m.predict(rng.normal(size=sh), return_individual_predictions=True), "predict-rejects-shape", "X of shape %s" % (sh,))
        after = m.predict(Q)
        for a, b in zip(before, after):
            mon.close(b, a, "usable-after-rejection", 1e-11, 1e-12, "")
    finally:
        m.close()
