"""C15: samplers start from the current values, touch nothing but their own state, coexist."""
import numpy as np
from vlib import chains as ch

KINDS = ["SGHMC", "SGLD", "REL", "SVGD"]


def cases(rng, tier):
    n = 64 if tier == "quick" else 400
    for k in range(n):
        kind = KINDS[k % 4]
        steps = int(ch.pick(rng, [6, 10, 14]))
        spec = ch.no_noise(ch.rand_spec(rng, kind, dtype="float64"))
        if spec["cost"] == "batch" and kind == "SVGD":
            spec["cost"] = "quad"
        P = len(spec["shapes"])
        yield dict(mode="start", spec=spec, steps=steps,
                   initialised=[bool(x) for x in rng.rand(P) < .5],
                   assign=[[int(x) for x in np.nonzero(rng.rand(P) < .4)[0]] if rng.rand() < .5 else [] for _ in range(steps)],
                   aseed=int(rng.randint(1 << 20)), bystander_cost=bool(rng.rand() < .5), default=bool(rng.rand() < .4))
    for k in range(n // 2):
        specs = []
        for j in range(int(ch.pick(rng, [2, 2, 3]))):
            kind = KINDS[(k + j * (1 + k // 8)) % 4] if rng.rand() < .6 else KINDS[k % 4]
            sp = ch.rand_spec(rng, kind)
            sp["seed"] = int(rng.randint(1 << 30))
            if kind == "SVGD":
                sp["dtype"] = "float64"
            specs.append(sp)
        yield dict(mode="together", specs=specs, steps=int(ch.pick(rng, [6, 10])), order=int(rng.randint(1 << 20)),
                   default=bool(rng.rand() < .5), shared_params=False,
                   # how many steps the other samplers have done altogether before this one is constructed
                   late=[0] + [int(ch.pick(rng, [0, 1, 3, 5])) for _ in specs[1:]])
    for k in range(n // 4 + 4):
        spec = ch.rand_spec(rng, KINDS[k % 4], dtype="float64")
        spec["seed"] = int(rng.randint(1 << 30))
        yield dict(mode="default-session", spec=spec, steps=6,
                   how=["explicit", "with", "as_default", "interactive", "nested"][k // 4 % 5])


def preimport(mon):
    """Import the samplers while some session is the default one; it is closed later.
    No sampler may remember it."""
    import sys
    import tensorflow as tf
    if "pysgmcmc.samplers.base_classes" not in sys.modules:
        with tf.Graph().as_default(), tf.Session():
            for k in KINDS:
                ch.sampler_class(k)
        mon.event("imported-under-a-default-session")


def run(case, mon):
    preimport(mon)
    {"start": start, "together": together, "default-session": default_session}[case["mode"]](case, mon)
    mon.key(case)


def start(case, mon):
    import tensorflow as tf
    spec = case["spec"]
    kind = spec["kind"]
    g = tf.Graph()
    rng = np.random.RandomState(case["aseed"])
    with g.as_default():
        session = tf.Session(graph=g, config=ch.session_config(None))
        starts = ch.start_values(spec)
        params = [tf.Variable(v, dtype=tf.float64) for v in starts]
        lone = tf.Variable(rng.normal(size=(2, 2)), name="lone")
        counter = tf.Variable(7, name="global_step", trainable=False)
        blank = tf.Variable(rng.normal(size=(3,)), name="blank")
        session.run([lone.initializer, counter.initializer])
        lone.load(np.full((2, 2), 42.5), session)
        want = []
        for p, v, done in zip(params, starts, case["initialised"]):
            if done:
                session.run(p.initializer)
                w = np.asarray(rng.uniform(-1.5, 1.5, size=v.shape))
                p.load(w, session)
                want.append(w)
            else:
                want.append(v)
        before = [np.array(w) for w in want]

        def wrap(cost):
            # a cost that reads a variable which is no target parameter
            return cost + 0. * tf.reduce_sum(tf.cast(lone, cost.dtype)) if case["bystander_cost"] else cost
        factory = None
        if case["default"]:
            def factory(**kw):
                s = kw.pop("session")
                with s.as_default():
                    return ch.sampler_class(kind)(**kw)
        chain = ch.Chain(spec, graph=g, session=session, params=params, init=None, wrap_cost=wrap, factory=factory)
        ref = ch.Reference(spec)
        try:
            now = session.run(params)
            for i, (a, b, d) in enumerate(zip(now, before, case["initialised"])):
                mon.same(a, b, "initialised-kept" if d else "uninitialised-initialised",
                         "%s parameter %d right after construction" % (kind, i))

            def bystanders(when):
                mon.same(session.run(lone), np.full((2, 2), 42.5), "bystanders-unchanged", when)
                mon.check(session.run(counter) == 7, "bystanders-unchanged", when)
                mon.check(not session.run(tf.is_variable_initialized(blank)) if when == "construction" else True,
                          "bystanders-stay-uninitialised", when)
            bystanders("construction")
            flags = [(v, session.run(tf.is_variable_initialized(v))) for v in tf.global_variables()]
            session.run([v.initializer for v, f in flags if not f and v is not blank])
            for a, b in zip(session.run(params), before):
                mon.same(a, b, "initialised-kept", "after initialising what is missing")
            blank_flag = tf.is_variable_initialized(blank)
            oracle = ch.StepOracle(spec, mon, "step-from-current-value")
            for t in range(case["steps"]):
                for i in case["assign"][t]:
                    params[i].load(rng.uniform(-1.5, 1.5, size=starts[i].shape), session)
                    mon.event("assignments")
                old = chain.values()
                sample, cost = chain.next()
                batch = ch.make_batch(spec, t) if ch.needs_batch(spec) else None
                c, gr = ref(old, batch)
                mon.close(np.asarray(cost, float), np.asarray(c, float), "cost-at-current-value", 1e-9, 1e-9, "%s step %d" % (kind, t))
                now = chain.values()
                oracle.step(old, gr, float(chain.schedule.handed[-1]), now, t)
                for a, b in zip(sample, now):
                    mon.same(a, b, "sample-is-current-value", "step %d" % t)
                bystanders("step %d" % t)
                mon.check(not session.run(blank_flag), "bystanders-stay-uninitialised", "step %d" % t)
        finally:
            ref.close()
            session.close()


def alike(mon, a, b, clause, what):
    """Equal up to rounding: TensorFlow optimises other graphs and session types differently."""
    a, b = np.asarray(a), np.asarray(b)
    mon.check(a.dtype == b.dtype, clause, "%s: %s, %s" % (what, a.dtype, b.dtype))
    tol = 1e-7 if a.dtype == np.float64 else 5e-3
    mon.close(a.astype(np.float64), b.astype(np.float64), clause, tol, tol, what)


def solo(spec, steps, default=False):
    c = ch.Chain(spec)
    try:
        return [(c.next(), c.values()) for _ in range(steps)]
    finally:
        c.close()


def together(case, mon):
    import tensorflow as tf
    specs, steps = case["specs"], case["steps"]
    alone = [solo(s, steps) for s in specs]
    g = tf.Graph()
    with g.as_default():
        session = tf.Session(graph=g, config=ch.session_config(None))
    chains, vals = [None] * len(specs), [None] * len(specs)
    rng = np.random.RandomState(case["order"])

    def construct(j, stepped):
        chains[j] = ch.Chain(specs[j], graph=g, session=session, init=None)
        with g.as_default():
            missing = [v for v in tf.global_variables() if not session.run(tf.is_variable_initialized(v))]
            session.run([v.initializer for v in missing])
        vals[j] = chains[j].values()
        for k, c in enumerate(chains):
            if c is not None and k != j:
                for i, (a, b) in enumerate(zip(c.values(), vals[k])):
                    mon.same(a, b, "others-untouched", "constructing sampler %d changed parameter %d of sampler %d" % (j, i, k))
        if stepped:
            mon.event("constructed-while-others-run")
    try:
        left = [j for j in range(len(specs)) for _ in range(steps)]
        rng.shuffle(left)
        done = [0] * len(specs)
        for j, late in enumerate(case["late"]):
            if not late:
                construct(j, 0)
        for j in left:
            for k, late in enumerate(case["late"]):
                if chains[k] is None and (sum(done) >= late or k == j):
                    construct(k, sum(done))
            (sample, cost) = chains[j].next()
            t = done[j]
            done[j] += 1
            (s0, c0), v0 = alone[j][t]
            what = "%s (sampler %d of %s) step %d" % (specs[j]["kind"], j, [s["kind"] for s in specs], t)
            for i, (a, b) in enumerate(zip(sample, s0)):
                alike(mon, a, b, "same-chain-as-alone", "%s parameter %d" % (what, i))
            alike(mon, cost, c0, "same-chain-as-alone", "%s cost" % what)
            for k, c in enumerate(chains):
                if c is None:
                    continue
                now = c.values()
                if k != j:
                    for i, (a, b) in enumerate(zip(now, vals[k])):
                        mon.same(a, b, "others-untouched", "%s changed parameter %d of sampler %d" % (what, i, k))
                vals[k] = now
            mon.check(chains[j].sampler.n_iterations == done[j], "own-counter", what)
        kinds = [s["kind"] for s in specs]
        mon.event("two-SVGD" if kinds.count("SVGD") > 1 else "mixed" if len(set(kinds)) > 1 else "same-kind")
    finally:
        session.close()


def default_session(case, mon):
    import tensorflow as tf
    spec, steps, how = case["spec"], case["steps"], case["how"]
    want = solo(spec, steps)
    g = tf.Graph()
    used = []

    def factory(**kw):
        s = kw.pop("session")
        used.append(s)
        make = ch.sampler_class(spec["kind"])
        if how == "as_default":
            with s.as_default():
                sam = make(**kw)
        elif how == "explicit":
            # the session given counts, not the one which happens to be the default
            with bystander.as_default():
                sam = make(session=s, **kw)
        elif how == "nested":
            other = tf.Session(graph=g)
            with other.as_default():
                with s.as_default():
                    sam = make(**kw)
            other.close()
        elif how == "interactive":
            sam = make(**kw)      # the interactive session is the default one
        else:
            with s.as_default(), tf.name_scope("outer"):
                sam = make(**kw)
        return sam
    with g.as_default():
        if how == "interactive":
            session = tf.InteractiveSession(graph=g, config=ch.session_config(None))
        else:
            session = tf.Session(graph=g, config=ch.session_config(None))
        bystander = tf.Session(graph=g, config=ch.session_config(None))
    try:
        chain = ch.Chain(spec, graph=g, session=session, factory=factory)
        mon.check(chain.sampler.session is session, "default-session-is-used", how)
        with bystander.as_default() if how != "interactive" else g.as_default():
            for t in range(steps):
                sample, cost = chain.next()
                for i, (a, b) in enumerate(zip(sample, want[t][0][0])):
                    alike(mon, a, b, "default-session-chain", "%s via %s, step %d parameter %d" % (spec["kind"], how, t, i))
                for a, b in zip(chain.values(), want[t][1]):
                    alike(mon, a, b, "default-session-chain", "value in the session")
        if how != "interactive":
            # a sampler without any session is refused
            mon.check(tf.get_default_session() is None, "no-default-left", "")
    finally:
        session.close()
        bystander.close()
