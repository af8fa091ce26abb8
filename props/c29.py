"""C29: networks, samplers and variables share a graph without affecting each other;
training again starts afresh."""
import numpy as np
import tensorflow as tf
from vlib import chains as ch

NETS = ["two", "deep", "linear", "single", "outbias"]


def cases(rng, tier):
    k = 1 if tier == "quick" else 8

    def net_spec(i):
        return dict(method=["SGHMC", "SGLD"][rng.randint(2)], net=NETS[i % 5], n_nets=int(ch.pick(rng, [1, 2, 4])), burn=int(ch.pick(rng, [1, 3, 6])),
                    sample_steps=int(ch.pick(rng, [1, 2, 3])), n_iters=30, batch_size=int(ch.pick(rng, [1, 4, 20])), seed=int(rng.randint(1 << 30)), eps=0.01,
                    norm_in=bool(rng.rand() < .7), norm_out=bool(rng.rand() < .7), kw={})

    def data():
        return dict(N=int(ch.pick(rng, [3, 8, 15])), D=int(ch.pick(rng, [1, 2, 3])), dseed=int(rng.randint(1 << 30)))
    for i in range(30 * k):
        spec = net_spec(i)
        if i % 10 == 7:
            spec["net"] = None         # the default network
        other = ch.no_noise(ch.rand_spec(rng, ch.pick(rng, ["SGHMC", "SGLD", "REL", "SVGD"]), cost="quad", dtype="float64"))
        other["seed"] = int(rng.randint(1 << 30))      # initial momenta
        yield dict(mode="bystanders", spec=spec, data=data(), other=other, seed=int(rng.randint(1 << 30)))
    for i in range(20 * k):
        n = int(ch.pick(rng, [2, 2, 3]))
        specs = [net_spec(i + j) for j in range(n)]
        for sp in specs:
            if i % 4 == 3:
                sp["net"] = None
        yield dict(mode="several", specs=specs, datas=[data() for _ in range(n)], seed=int(rng.randint(1 << 30)))
    for i in range(20 * k):
        spec = net_spec(i)
        if i % 4 >= 2:
            # ends before n_nets networks are collected
            spec.update(n_nets=int(ch.pick(rng, [6, 9])), n_iters=spec["burn"] + 1 + spec["sample_steps"] * int(rng.randint(2, 5)))
        if i % 5 == 4:
            spec["net"] = None
        yield dict(mode="again", spec=spec, datas=[data() for _ in range(3)], same=i % 2 == 1, reused=i % 4 == 0, other_dims=bool(rng.rand() < .5), seed=int(rng.randint(1 << 30)))
    for i in range(10 * k):
        spec = net_spec(0)
        spec["net"] = ["linear", "two"][i % 2]
        yield dict(mode="outside", spec=spec, data=data(), trained=bool(i % 3), seed=int(rng.randint(1 << 30)))


def run(case, mon):
    mon.key(case)
    {"bystanders": bystanders, "several": several, "again": again, "outside": outside}[case["mode"]](case, mon)


def make_data(spec, d):
    from vlib import bnn
    X, y = bnn.dataset(spec, d["N"], d["D"], d["dseed"])
    if not spec["norm_in"]:
        X = X / np.maximum(1, np.abs(X).max())
    return X, y


def networks(m):
    return [[np.array(v) for v in s] for s in m.samples]


def points(d):
    return np.random.RandomState(d["dseed"] % 9973).uniform(-2, 2, size=(6, d["D"]))


def alone(spec, d):
    """The networks and predictions of this training in a graph of its own."""
    from vlib import bnn
    X, y = make_data(spec, d)
    m = bnn.build(spec)
    try:
        m.train(X, y)
        return networks(m), predictions(m, d)
    finally:
        m.close()


def predictions(m, d):
    q = points(d)
    return [np.array(v) for v in list(m.predict(q)) + list(m.predict(q, return_individual_predictions=True))]


def alike(mon, got, want, clause, what):
    """Networks (lists of arrays) up to rounding."""
    if not mon.check(len(got) == len(want) and all([np.shape(a) for a in s] == [np.shape(b) for b in t] for s, t in zip(got, want)), clause,
                     lambda: "%s: %d networks of %s, alone %d of %s" % (what, len(got), [np.shape(a) for s in got[:1] for a in s], len(want), [np.shape(a) for s in want[:1] for a in s])):
        return
    for j, (s, t) in enumerate(zip(got, want)):
        if not all(np.all(np.isfinite(b)) and np.abs(b).max() < 1e3 for b in t):
            mon.event("diverged-chains")
            return
        for i, (a, b) in enumerate(zip(s, t)):
            if not mon.close(a, b, clause, 1e-6, 1e-8, "%s: network %d parameter %d" % (what, j, i)):
                return


def same_predictions(mon, got, want, clause, what):
    for a, b in zip(got, want):
        if not np.all(np.isfinite(b)) or np.abs(b).max() > 1e6:
            mon.event("diverged-chains")
            return
        mon.close(a, b, clause, 1e-5, 1e-7 * (1 + np.abs(b).max()), what)


def bystanders(case, mon):
    from vlib import bnn
    spec, d = case["spec"], case["data"]
    rng = np.random.RandomState(case["seed"])
    want, want_pred = alone(spec, d)
    solo = ch.Chain(case["other"])
    try:
        moves = [solo.next()[0] for _ in range(12)]
    finally:
        solo.close()
    X, y = make_data(spec, d)
    g = tf.Graph()
    with g.as_default(), tf.Session(graph=g, config=ch.session_config(None)) as s:
        late = rng.rand() < .5         # the network object made before everything else
        m = bnn.Model(spec, graph=g, session=s) if late else None
        vs = [tf.Variable(rng.normal(size=(2, 3)), name="theirs"), tf.Variable(4., trainable=False, name="counter"),
              tf.Variable(rng.normal(size=3).astype("float32"), name="single"), tf.Variable(np.arange(3), trainable=False, name="numbers")]
        s.run([v.initializer for v in vs])
        values = [rng.normal(size=v.shape.as_list()).astype(v.dtype.as_numpy_dtype) for v in vs[:3]] + [np.array([5, 6, 7])]
        for v, x in zip(vs, values):
            v.load(x, s)
        chain = ch.Chain(case["other"], graph=g, session=s, init="missing")
        tf.Variable(7.5, name="unset")
        k = 0
        ahead = int(rng.randint(6))
        for _ in range(ahead):
            for a, b in zip(chain.next()[0], moves[k]):
                mon.close(a, b, "other-chain-unaffected", 1e-7, 1e-9, "step %d before training" % k)
            k += 1
        if m is None:
            m = bnn.Model(spec, graph=g, session=s)
        own = chain.values()

        def untouched(when):
            for v, x in zip(vs, values):
                mon.same(s.run(v), x, "other-variables-unchanged", "%s %s" % (v.name, when))
            for a, b in zip(chain.values(), own):
                mon.same(a, b, "other-variables-unchanged", "parameter of another sampler %s" % when)
        untouched("by constructing the network")
        m.train(X, y)
        untouched("by training")
        alike(mon, networks(m), want, "same-networks-as-alone", "%s %s among other variables" % (spec["method"], spec["net"]))
        pred = predictions(m, d)
        same_predictions(mon, pred, want_pred, "same-predictions-as-alone", str(spec))
        untouched("by predicting")
        # the other chain goes on as if nothing had happened
        while k < len(moves):
            for a, b in zip(chain.next()[0], moves[k]):
                mon.close(a, b, "other-chain-unaffected", 1e-7, 1e-9, "%s step %d, training after step %d" % (case["other"]["kind"], k, ahead))
            k += 1
            if rng.rand() < .3:
                same_predictions(mon, predictions(m, d), want_pred, "predictions-stay", "while another chain runs")
        for v in vs:
            v.load(np.zeros_like(s.run(v)), s)
        same_predictions(mon, predictions(m, d), want_pred, "predictions-stay", "after other variables changed")
    mon.state("bystanders", spec["method"], spec["net"], case["other"]["kind"], late, ahead)


def several(case, mon):
    """Networks that share a graph and a session."""
    from vlib import bnn
    specs, datas = case["specs"], case["datas"]
    rng = np.random.RandomState(case["seed"])
    want = [alone(sp, d) for sp, d in zip(specs, datas)]
    g = tf.Graph()
    with g.as_default(), tf.Session(graph=g, config=ch.session_config(None)) as s:
        ms = [bnn.Model(sp, graph=g, session=s) for sp in specs]
        done = []
        for i in rng.permutation(len(ms)):
            X, y = make_data(specs[i], datas[i])
            ms[i].train(X, y)
            done.append(i)
            for j in done:
                what = "network %d (%s %s), trained in the order %s" % (j, specs[j]["method"], specs[j]["net"], done)
                alike(mon, networks(ms[j]), want[j][0], "same-networks-as-alone", what)
                same_predictions(mon, predictions(ms[j], datas[j]), want[j][1], "same-predictions-as-alone", what)
            for j in range(len(ms)):
                if j not in done:
                    mon.raises(ValueError, lambda: ms[j].predict(points(datas[j])), "untrained-stays-untrained", "network %d" % j)
        # chains of several networks, continued in turns
        mine = [[np.array(v) for v in s.run(m.bnn.network_params)] for m in ms] if all(hasattr(m.bnn, "network_params") for m in ms) else None
        for _ in range(3):
            i = int(rng.randint(len(ms)))
            next(ms[i].bnn.sampler)
            if mine is not None:
                for j, m in enumerate(ms):
                    now = [np.array(v) for v in s.run(m.bnn.network_params)]
                    if j != i:
                        for a, b in zip(now, mine[j]):
                            mon.same(a, b, "other-variables-unchanged", "parameter of network %d in a step of network %d" % (j, i))
                    mine[j] = now
        for j in done:
            same_predictions(mon, predictions(ms[j], datas[j]), want[j][1], "predictions-stay", "network %d" % j)
    mon.state("several", [(sp["method"], sp["net"]) for sp in specs])


def again(case, mon):
    """Training again starts afresh."""
    from vlib import bnn
    spec = case["spec"]
    datas = case["datas"]
    if case["same"]:
        datas = [datas[0]] * 3
    elif not case["other_dims"]:
        datas = [dict(d, D=datas[0]["D"]) for d in datas]
    buffers = None
    if case["reused"]:
        # other data in the same arrays
        datas = [dict(d, N=datas[0]["N"], D=datas[0]["D"]) for d in datas]
        buffers = [np.array(v) for v in make_data(spec, datas[0])]
        mon.event("trainings-on-reused-arrays", len(datas) - 1)
    m = bnn.build(spec)
    try:
        for k, d in enumerate(datas):
            X, y = make_data(spec, d)
            if buffers:
                for b, v in zip(buffers, (X, y)):
                    b[...] = v
                X, y = buffers
            m.train(X, y)
            nets, pred = alone(spec, d)
            what = "training %d of %s" % (k + 1, spec)
            alike(mon, networks(m), nets, "training-again-starts-afresh", what)
            same_predictions(mon, predictions(m, d), pred, "training-again-starts-afresh", what)
            mon.event("trainings-after-the-first", int(k > 0))
    finally:
        m.close()
    mon.state("again", spec["method"], spec["net"], case["same"])


def outside(case, mon):
    """A network over variables that were made before training: these are its parameters."""
    from vlib import bnn
    spec, d = case["spec"], case["data"]
    rng = np.random.RandomState(case["seed"])
    X, y = make_data(spec, d)
    shapes = bnn.param_shapes(spec["net"], d["D"])
    start = [rng.normal(size=q) * .5 for q in shapes]
    g = tf.Graph()
    with g.as_default(), tf.Session(graph=g, config=ch.session_config(None)) as s:
        before = tf.Variable(rng.normal(size=3), name="unrelated")
        ps = [tf.Variable(v) for v in start]
        s.run([v.initializer for v in [before] + ps])
        keep = s.run(before)

        def get_net(inputs, seed=None, dtype=tf.float64):
            return bnn.tf_forward(spec["net"], ps, inputs)
        m = bnn.Model(spec, graph=g, session=s, get_net=get_net)
        if case["trained"]:
            # something happened to them before
            for p in ps:
                p.load(s.run(p) + 1., s)
        m.train(X, y)
        # the same network, made by get_net
        ref = ownnet(spec, start, X, y)
        alike(mon, networks(m), ref, "same-networks-as-alone", "%s over existing variables" % spec)
        mon.same(s.run(before), keep, "other-variables-unchanged", "unrelated variable")
    mon.event("networks-over-existing-variables")
    mon.state("outside", spec["method"], spec["net"])


def ownnet(spec, start, X, y):
    from vlib import bnn

    def get_net(inputs, seed=None, dtype=tf.float64):
        return bnn.tf_forward(spec["net"], [tf.Variable(v) for v in start], inputs)
    m = bnn.Model(spec, get_net=get_net)
    try:
        m.train(X, y)
        return networks(m)
    finally:
        m.close()
