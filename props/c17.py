"""C17: get_sampler builds exactly the sampler that was asked for, or refuses by name."""
import numpy as np
from vlib import chains as ch

MEMBER = {"SGHMC": "SGHMC", "SGLD": "SGLD", "REL": "RelativisticSGHMC", "SVGD": "SVGD"}
EXTRA = {"SGHMC": ["mdecay", "scale_grad"], "SGLD": ["A", "scale_grad"],
         "REL": ["mass", "speed_of_light", "D", "Bhat"], "SVGD": ["alpha", "fudge_factor"]}
COMMON = ["cost_fun", "batch_generator", "stepsize_schedule", "session", "dtype", "seed"]


def own(kind):
    return COMMON + EXTRA[kind] + (["burn_in_steps"] if kind in ch.BURNIN else []) + \
        ["particles" if kind == "SVGD" else "params"]


def cases(rng, tier):
    n = 72 if tier == "quick" else 480
    kinds = ["SGHMC", "SGLD", "REL", "SVGD"]
    for k in range(n):
        kind = kinds[k % 4]
        spec = ch.rand_spec(rng, kind)
        spec["seed"] = int(rng.randint(1 << 30))
        drop = [x for x in ("mdecay", "scale_grad", "A", "mass", "c", "D", "Bhat", "alpha", "fudge", "burn") if rng.rand() < .5]
        for d in drop:
            spec.pop(d, None)
        if rng.rand() < .3:
            spec["dtype"] = "float64"
            omit_dtype = True
        else:
            omit_dtype = False
        yield dict(mode="chain", spec=spec, steps=int(ch.pick(rng, [5, 9])), schedule=bool(rng.rand() < .6),
                   omit_dtype=omit_dtype, default_session=bool(rng.rand() < .3))
    for k in range(n // 3):
        yield dict(mode="reject", kind=kinds[k % 4], seed=int(rng.randint(1 << 20)))
    for k in range(n // 3):
        spec = ch.rand_spec(rng, kinds[k % 4], dtype="float64")
        spec["seed"] = int(rng.randint(1 << 30))
        yield dict(mode="odd", spec=spec, seed=int(rng.randint(1 << 20)))
    yield dict(mode="enum")


def run(case, mon):
    {"chain": chain, "reject": reject, "odd": odd, "enum": enum}[case["mode"]](case, mon)
    mon.key(case)


def chain(case, mon):
    from pysgmcmc.sampling import Sampler
    spec, steps = case["spec"], case["steps"]
    kind = spec["kind"]
    member = getattr(Sampler, MEMBER[kind])
    cls = ch.sampler_class(kind)
    got = {}

    def build(make):
        def factory(**kw):
            if case["omit_dtype"]:
                kw.pop("dtype")
            if case["default_session"]:
                s = kw.pop("session")
                with s.as_default():
                    return make(**kw)
            return make(**kw)
        return ch.Chain(spec, factory=factory, use_schedule=case["schedule"])

    def via(**kw):
        got["args"] = set(kw)
        return Sampler.get_sampler(member, **kw)
    a, b = build(cls), build(via)
    try:
        mon.check(type(b.sampler) is cls, "class-of-sampler", "%s gives %s" % (member, type(b.sampler)))
        for t in range(steps):
            (x, cx), (y, cy) = a.next(), b.next()
            for i, (u, v) in enumerate(zip(x, y)):
                mon.close(v, u, "same-chain-as-direct", 1e-12, 1e-12, "%s with %s: step %d parameter %d" % (kind, sorted(got["args"]), t, i))
            mon.close(cy, cx, "same-chain-as-direct", 1e-12, 1e-12, "%s cost of step %d" % (kind, t))
            if case["schedule"]:
                mon.check(b.schedule.n_next == t + 1, "given-schedule-is-used", "step %d" % t)
            if b.batches is not None:
                mon.check(b.batches.n_next == t + 1, "given-batches-are-used", "step %d" % t)
            if kind in ch.BURNIN:
                mon.check(bool(a.sampler.is_burning_in) == bool(b.sampler.is_burning_in), "same-phase", "step %d" % t)
        mon.event("omitted-arguments", len(set(own(kind)) - got["args"]))
        mon.state(kind, sorted(got["args"]))
    finally:
        a.close()
        b.close()


def odd(case, mon):
    """Odd values of single arguments have the same outcome as with the class itself."""
    from pysgmcmc.sampling import Sampler
    spec = case["spec"]
    kind = spec["kind"]
    rng = np.random.RandomState(case["seed"])
    member, cls = getattr(Sampler, MEMBER[kind]), ch.sampler_class(kind)

    def outcome(make, name, value):
        def factory(**kw):
            kw[name] = value
            return make(**kw)
        chain = None
        try:
            # a default session, should the argument be the session
            chain = ch.Chain(spec, factory=factory)
            return [chain.next() for _ in range(4)]
        except Exception as e:
            return type(e)
        finally:
            if chain is not None:
                chain.close()
    names = [n for n in own(kind) if n not in ("session", "params", "particles", "batch_generator")]
    for name in [names[i] for i in rng.permutation(len(names))[:4]]:
        for value in (None, 0, [False, 0., 1, -1, 2.5, "", (), "text"][rng.randint(8)]):
            if name == "seed" and value is None:
                continue         # no two such chains are alike
            want = outcome(cls, name, value)
            got = outcome(lambda **kw: Sampler.get_sampler(member, **kw), name, value)
            if isinstance(want, type) or isinstance(got, type):
                mon.check(want is got, "same-outcome-as-direct", lambda: "%s %s=%r: %s, directly %s" % (
                    kind, name, value, *[x.__name__ if isinstance(x, type) else "a chain" for x in (got, want)]))
                mon.event("odd-values-rejected")
                continue
            mon.event("odd-values-accepted")
            for t, ((x, cx), (y, cy)) in enumerate(zip(want, got)):
                for u, v in zip(x, y):
                    # chains may diverge
                    mon.check(np.shape(u) == np.shape(v) and np.allclose(u, v, 1e-9, 1e-12, equal_nan=True), "same-outcome-as-direct",
                              lambda: "%s %s=%r step %d: %s, directly %s" % (kind, name, value, t, np.ravel(v)[:4], np.ravel(u)[:4]))
            mon.state(kind, name, repr(value))


def reject(case, mon):
    import tensorflow as tf
    from pysgmcmc.sampling import Sampler
    kind = case["kind"]
    member = getattr(Sampler, MEMBER[kind])
    rng = np.random.RandomState(case["seed"])
    names = sorted(set(sum([own(k) for k in MEMBER], [])))
    foreign = [n for n in names if n not in own(kind)]
    g = tf.Graph()
    with g.as_default(), tf.Session(graph=g) as s:
        p = [tf.Variable([1., 2.], dtype=tf.float64), tf.Variable([0., 1.], dtype=tf.float64)]
        called = []

        def cost(ps):
            called.append(1)
            return tf.add_n([tf.reduce_sum(tf.square(x)) for x in (ps if isinstance(ps, list) else [ps])])
        good = dict(cost_fun=cost, session=s, dtype=tf.float64)
        good["particles" if kind == "SVGD" else "params"] = p

        def ops():
            return len(g.get_operations())

        def refuse(method, args, name, what):
            n = ops()
            e = mon.raises(ValueError, lambda: Sampler.get_sampler(method, **args), "rejected", what)
            if e is not None and name is not None:
                mon.check(name in str(e), "error-names-argument", "%s: message is %s" % (what, str(e)[:200]))
            mon.check(ops() == n and not called, "rejected-before-touching-the-graph", "%s added %d ops" % (what, ops() - n))

        unknown = foreign + ["unknown_argument", "stepsize", "Params", "seeds", "param", "cost", "n_iters", "burn_in", "X"]
        for name in unknown:
            value = {"params": p, "particles": p}.get(name, 1.)
            refuse(member, dict(good, **{name: value}), name, "%s with unknown argument %s" % (kind, name))
        for name in ("cost_fun", "particles" if kind == "SVGD" else "params"):
            args = dict(good)
            args.pop(name)
            refuse(member, args, name, "%s without %s" % (kind, name))
        for bad in (None, 0, 1, "SGHMC", "sghmc", "Sampler.SGHMC", MEMBER[kind], ch.sampler_class(kind), Sampler, 3.5, (), b"SGLD", True):
            refuse(bad, good, None, "method %r" % (bad,))
        # and then the valid call goes through
        n = ops()
        sam = Sampler.get_sampler(member, **good)
        mon.check(type(sam) is ch.sampler_class(kind) and ops() > n, "valid-accepted", kind)


def enum(case, mon):
    from pysgmcmc.sampling import Sampler
    names = set(m.name for m in Sampler)
    mon.check(names == set(MEMBER.values()), "members", sorted(names))
    for m in Sampler:
        got = Sampler.is_burn_in_mcmc(m)
        mon.check(got == (m.name in ("SGHMC", "SGLD")), "is-burn-in", "%s: %r" % (m, got))
        sub = issubclass(ch.sampler_class({v: k for k, v in MEMBER.items()}[m.name]),
                         __import__("pysgmcmc.samplers.base_classes", fromlist=["x"]).BurnInMCMCSampler)
        mon.check(got == sub, "is-burn-in", "%s and its class disagree" % m)
    for bad in (None, 0, 1, "SGHMC", "SGLD", 2.5, (), "test", ch.sampler_class("SGHMC")):
        mon.check(not Sampler.is_burn_in_mcmc(bad), "is-burn-in", "%r" % (bad,))
