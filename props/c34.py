"""C34: the package leaves the process, and what it is given, as it found them."""
import contextlib
import json
import logging
import os
import random
import shutil
import subprocess
import sys
import tempfile
import warnings
import numpy as np
import tensorflow as tf
from vlib import chains as ch
from vlib import data as vdata

KINDS = ["SGHMC", "SGLD", "REL", "SVGD"]
NETS = ["two", "linear", "outbias", "single", "deep", None]
SURROUNDINGS = ["plain", "session", "name-scope", "variable-scope", "device", "colocated", "reuse"]
MODULES = ["pysgmcmc.samplers", "pysgmcmc.models.bayesian_neural_network", "pysgmcmc.data_batches", "pysgmcmc.diagnostics", "pysgmcmc.sampling",
           "pysgmcmc.tensor_utils", "pysgmcmc.stepsize_schedules", "pysgmcmc.diagnostics.objective_functions"]


def cases(rng, tier):
    k = 1 if tier == "quick" else 8
    for i in range(56 * k):
        kind = KINDS[i % 4]
        yield dict(mode="chain", spec=dict(ch.rand_spec(rng, kind), seed=ch.pick(rng, [None, 0, 3, 12345])), steps=int(ch.pick(rng, [1, 5, 12])),
                   around=SURROUNDINGS[(i // 4) % 7], env=int(rng.randint(1 << 30)), fail=bool(rng.rand() < .25), trace=bool(rng.rand() < .5))
    for i in range(18 * k):
        spec = dict(method=["SGHMC", "SGLD"][i % 2], net=NETS[i % 6], n_nets=int(ch.pick(rng, [1, 3])), burn=int(ch.pick(rng, [1, 5])), sample_steps=2, n_iters=40,
                    batch_size=int(ch.pick(rng, [1, 4, 20])), seed=ch.pick(rng, [None, 0, 7]), eps=0.01, norm_in=bool(rng.rand() < .7), norm_out=bool(rng.rand() < .7))
        yield dict(mode="network", spec=spec, N=int(ch.pick(rng, [2, 12, 30])), D=int(ch.pick(rng, [1, 3])), dseed=int(rng.randint(1 << 30)),
                   around=SURROUNDINGS[int(rng.randint(6))], env=int(rng.randint(1 << 30)), fail=bool(rng.rand() < .25))
    for i in range(24 * k):
        s = vdata.rand_data(rng)
        s["seed"] = ch.pick(rng, [None, 0, int(rng.randint(1 << 30))])
        yield dict(mode="stream", data=s, gen=["plain", "shuffled"][i % 2], draws=int(ch.pick(rng, [3, 20])), env=int(rng.randint(1 << 30)))
    for i in range(24 * k):
        yield dict(mode="functions", seed=int(rng.randint(1 << 30)), env=int(rng.randint(1 << 30)))
    for i in range(12 * k):
        yield dict(mode="chains", spec=ch.rand_spec(rng, KINDS[i % 4], dtype="float64"), n=int(ch.pick(rng, [1, 2])), diag=["none", "effective", "gelman"][i % 3], env=int(rng.randint(1 << 30)))
    for i in range(16 * k):
        yield dict(mode="rejected", seed=int(rng.randint(1 << 30)), env=int(rng.randint(1 << 30)))
    for i in range(24 * k):
        yield dict(mode="arguments", kind=KINDS[i % 4], via=["class", "get_sampler"][(i // 4) % 2], n=int(ch.pick(rng, [1, 2, 4, 5, 12])), seed=int(rng.randint(1 << 30)),
                   bare_log=bool((i // 8) % 2), env=int(rng.randint(1 << 30)))
    for i in range(len(MODULES) * (1 if tier == "quick" else 2)):
        yield dict(mode="import", module=MODULES[i % len(MODULES)], seed=int(rng.randint(1 << 30)))


@contextlib.contextmanager
def unusual(seed):
    """Global settings a user may have chosen; the process is put back afterwards."""
    rng = np.random.RandomState(seed)
    old = (np.random.get_state(), random.getstate(), np.geterr(), np.get_printoptions(), list(warnings.filters), os.getcwd(),
           logging.getLogger().level, list(logging.getLogger().handlers), logging.root.manager.disable, dict(os.environ), sys.getswitchinterval())
    work = tempfile.mkdtemp(prefix="vproc")
    root = logging.getLogger()
    tempdir = tempfile.tempdir
    try:
        os.mkdir(os.path.join(work, "tmp"))
        os.mkdir(os.path.join(work, "here"))
        tempfile.tempdir = os.path.join(work, "tmp")
        os.chdir(os.path.join(work, "here"))
        np.random.seed(rng.randint(1 << 31))
        random.seed(int(rng.randint(1 << 31)))
        np.seterr(**{k: ["ignore", "warn", "print"][rng.randint(3)] for k in ("divide", "over", "under", "invalid")})
        np.set_printoptions(precision=int(rng.randint(2, 12)), suppress=bool(rng.randint(2)), threshold=int(rng.randint(3, 2000)))
        warnings.simplefilter(["ignore", "always", "once"][rng.randint(3)])
        root.setLevel([logging.WARNING, logging.INFO, logging.ERROR][rng.randint(3)])
        root.addHandler(logging.NullHandler())
        logging.disable([logging.NOTSET, logging.CRITICAL, logging.INFO][rng.randint(3)])
        os.environ["VERIF_USERS_SETTING"] = str(seed)
        sys.setswitchinterval([.005, .001][rng.randint(2)])
        np.random.normal(size=rng.randint(1, 4))
        yield
    finally:
        np.random.set_state(old[0])
        random.setstate(old[1])
        np.seterr(**old[2])
        np.set_printoptions(**{k: v for k, v in old[3].items() if k != "override_repr"})
        warnings.filters[:] = old[4]
        os.chdir(old[5])
        root.setLevel(old[6])
        root.handlers[:] = old[7]
        logging.disable(old[8])
        for k in set(os.environ) - set(old[9]):
            del os.environ[k]
        os.environ.update(old[9])
        sys.setswitchinterval(old[10])
        tempfile.tempdir = tempdir
        shutil.rmtree(work, ignore_errors=True)


@contextlib.contextmanager
def surroundings(how, g):
    """Where in a user's program the package is used."""
    with contextlib.ExitStack() as st:
        if how == "session":
            s = tf.Session(graph=g, config=ch.session_config(None))
            st.callback(s.close)
            st.enter_context(s.as_default())
        elif how == "name-scope":
            st.enter_context(g.as_default())
            st.enter_context(tf.name_scope("users/part"))
        elif how in ("variable-scope", "reuse"):
            st.enter_context(g.as_default())
            st.enter_context(tf.variable_scope("users", reuse=tf.AUTO_REUSE if how == "reuse" else None))
        elif how == "device":
            st.enter_context(g.as_default())
            st.enter_context(tf.device("/cpu:0"))
        elif how == "colocated":
            st.enter_context(g.as_default())
            v = tf.constant(1.)
            st.enter_context(tf.control_dependencies([v.op]))
        yield


def run(case, mon):
    mon.key(case)
    if case["mode"] == "import":
        return imported(case, mon)
    from vlib.process import unchanged
    bystander = tf.Graph()
    with bystander.as_default(), tf.Session(graph=bystander, config=ch.session_config(None)) as session:
        v = tf.Variable(2.5, name="users")
        tf.random_normal((2,), seed=4)
        tf.add_to_collection("users", 3)
        session.run(v.initializer)
        with unusual(case.get("env", 0)):
            # whatever is loaded on first use is not what is looked for here
            warm()
            {"chain": chain, "network": network, "stream": stream, "functions": functions, "chains": chains, "rejected": rejected,
             "arguments": arguments}[case["mode"]](
                case, mon, lambda what, graphs=(), but=(): unchanged(mon, what, [bystander] + list(graphs), but))
        mon.check(session.run(v) == 2.5, "other-graphs-unchanged", "variable of another graph")
    mon.state(case["mode"], case.get("around"), case.get("spec", {}).get("kind"), case.get("spec", {}).get("net", 0))


def unseeded(spec):
    """Streams of batches without a seed take one from numpy's global generator."""
    return ["numpy's random state"] if spec.get("seed") is None else []


WARM = []


def warm():
    if not WARM:
        WARM.append(1)
        from vlib import bnn
        for kind in KINDS:
            spec = dict(kind=kind, shapes=[[2], [2]], cost="quad", seed=1, eps=.01)
            c = ch.Chain(spec)
            c.next()
            c.close()
        m = bnn.Model(dict(method="SGHMC", net=None, n_nets=1, burn=1, sample_steps=1, n_iters=5, batch_size=2, seed=1, eps=.01))
        X, y = bnn.dataset({}, 4, 2, 3)
        m.train(X, y)
        m.predict(X)
        m.close()


def chain(case, mon, unchanged):
    from pysgmcmc.diagnostics.sample_chains import PYSGMCMCTrace
    spec = case["spec"]
    what = "%s %s, %s" % (spec["kind"], spec["cost"], case["around"])

    class Boom(Exception):
        pass
    g = tf.Graph()
    seed_of_graph = g.seed
    # the user's own list of parameters
    given = {}
    with unchanged(what + ": construction"):
        with surroundings(case["around"], g):
            c = ch.Chain(spec, graph=g)
    key = "particles" if spec["kind"] == "SVGD" else "params"
    given = list(c.params)
    try:
        mon.check(g.seed == seed_of_graph, "graph-seed-unchanged", what)
        mon.check(c.kwargs[key] is c.params and all(a is b for a, b in zip(given, c.params)) and len(c.params) == len(spec["shapes"]), "given-arguments-unchanged", "list of parameters")
        feeds = {c.feeds["extra"]: .5} if "extra" in c.feeds else {}
        mine = dict(feeds)
        with unchanged(what + ": steps"):
            for k in range(case["steps"]):
                c.next(mine if k % 2 else None)
                mon.check(set(mine) == set(feeds) and all(mine[v] == feeds[v] for v in mine), "given-arguments-unchanged",
                          lambda: "%s: feed_dict of step %d has %d entries, %d given" % (what, k, len(mine), len(feeds)))
        mon.event("steps-watched", case["steps"])
        mon.check(g.seed == seed_of_graph, "graph-seed-unchanged", what)
        if case["fail"]:
            def fault(w):
                raise Boom()
            c.schedule.fault = fault
            with unchanged(what + ": failing step"):
                mon.raises(Boom, lambda: c.next(mine), "failure-reported", what)
            mon.check(set(mine) == set(feeds), "given-arguments-unchanged", "%s: feed_dict of a failing step" % what)
            c.schedule.fault = None
            with unchanged(what + ": step after a failure"):
                c.next()
        if case["trace"] and spec["kind"] != "SVGD":
            names = ["v%d" % i for i in range(len(c.params))]
            mine = list(names)
            with unchanged(what + ": trace"):
                t = PYSGMCMCTrace.from_sampler(chain_id=0, sampler=c.sampler, n_samples=3, keep_every=2, varnames=names)
                [t.get_values(n) for n in names]
                t.point(0)
                t2 = PYSGMCMCTrace(1, [[1., 2.], [2., 3.]])
                t2[0]
            mon.check(names == mine, "given-arguments-unchanged", "names of a trace")
        # the same chain as anywhere else
        if spec.get("seed") is not None and case["around"] != "plain":
            other, one, two = ch.Chain(spec), ch.Chain(spec), None
            other.close()
            g2 = tf.Graph()
            with surroundings(case["around"], g2):
                two = ch.Chain(spec, graph=g2)
            try:
                for k in range(min(case["steps"], 6)):
                    (a, ca), (b, cb) = one.next(), two.next()
                    for u, v in zip(a, b):
                        rt = 1e-4 if spec.get("dtype") == "float32" else 1e-9
                        mon.close(u, v, "same-chain-in-all-surroundings", rt, rt, "%s step %d" % (what, k))
            finally:
                one.close()
                two.session.close()
    finally:
        c.session.close()


def network(case, mon, unchanged):
    from vlib import bnn
    spec = case["spec"]
    X, y = bnn.dataset(spec, case["N"], case["D"], case["dseed"])
    what = "network %s %s, %s" % (spec["method"], spec["net"], case["around"])
    g = tf.Graph()
    with unchanged(what + ": construction"):
        with surroundings(case["around"], g):
            m = bnn.Model(spec, graph=g)
    try:
        kept = X.copy(), y.copy()

        class Boom(Exception):
            pass
        if case["fail"]:
            inner = m.bnn.batch_generator

            def failing(**kw):
                yield next(inner(**kw))
                raise Boom()
            m.bnn.batch_generator = failing
            with unchanged(what + ": failing training", (), unseeded(spec)):
                with surroundings(case["around"], g):
                    mon.raises(Boom, lambda: m.train(X, y), "failure-reported", what)
            m.bnn.batch_generator = inner
        with unchanged(what + ": training", (), unseeded(spec)):
            with surroundings(case["around"], g):
                m.train(X, y)
        mon.check(g.seed is None, "graph-seed-unchanged", what)
        with unchanged(what + ": predictions"):
            out = m.predict(X)
            m.predict(X, return_individual_predictions=True)
        mon.event("trainings-watched")
        mon.same(X, kept[0], "given-arguments-unchanged", "X")
        mon.same(y, kept[1], "given-arguments-unchanged", "y")
        if spec.get("seed") is not None and not case["fail"]:
            plain = bnn.Model(spec)
            try:
                plain.train(X, y)
                ref = plain.predict(X)
                for u, v in zip(out, ref):
                    mon.close(u, v, "same-network-in-all-surroundings", 1e-7, 1e-7 * (1e-30 + np.abs(v).max()), what)
            finally:
                plain.close()
    finally:
        m.session.close()


def stream(case, mon, unchanged):
    s = case["data"]
    x, y = vdata.dataset(s)
    g = tf.Graph()
    with g.as_default():
        xp, yp = tf.placeholder(tf.float64), tf.placeholder(tf.float64)
    kept = x.copy(), y.copy()
    with unchanged("stream %s" % case["gen"], [g], unseeded(s)):
        it = vdata.generators()[case["gen"]](x=x, y=y, x_placeholder=xp, y_placeholder=yp, batch_size=s["b"], seed=s["seed"])
        for _ in range(case["draws"]):
            next(it)
        it.close()
    mon.event("batches-watched", case["draws"])
    mon.same(x, kept[0], "given-arguments-unchanged", "x")
    mon.same(y, kept[1], "given-arguments-unchanged", "y")


def functions(case, mon, unchanged):
    from pysgmcmc.diagnostics import objective_functions as of
    from pysgmcmc import tensor_utils as tu
    from pysgmcmc import stepsize_schedules as ss
    from pysgmcmc.models import base_model as bm
    from pysgmcmc.models import bayesian_neural_network as nn
    rng = np.random.RandomState(case["seed"])
    dims = dict(hartmann3=3, hartmann6=6, sinc=1, sin_one=1, sin_two=2, levy=1)
    for name in ["bohachevski", "branin", "camelback", "goldstein_price", "hartmann3", "hartmann6", "levy", "rosenbrock", "sinc", "sin_one", "sin_two"]:
        f = getattr(of, name)
        pt = [float(v) for v in rng.uniform(0, 1, size=dims.get(name, 2))]
        for arg in ([np.array([pt, pt])] if name == "sinc" else [pt, np.array(pt)]):
            mine = np.array(arg)
            with unchanged("objective %s" % name):
                f(arg)
            mon.check(np.array_equal(arg, mine), "given-arguments-unchanged", name)
            mon.event("functions-watched")
    for name, arg in (("banana_log_likelihood", [.5, 1.]), ("gmm1_log_likelihood", [.5]), ("gmm2_log_likelihood", [.5]), ("gmm3_log_likelihood", [.5])):
        with unchanged(name):
            of.to_negative_log_likelihood(getattr(of, name))(arg)
        mon.event("functions-watched")
    g = tf.Graph()
    A = rng.normal(size=(4, 3))
    with unchanged("tensor functions"):
        with g.as_default(), tf.Session(graph=g, config=ch.session_config(None)) as s:
            t = tf.constant(A)
            v = tf.Variable(A)
            outs = [tu.vectorize(t), tu.unvectorize(tu.vectorize(t), (4, 3)), tu.median(t), tu.safe_divide(t, t), tu.safe_sqrt(t), tu.pdist(t), tu.squareform(tu.pdist(t)),
                    nn.weight_prior_log_like([v]), nn.log_variance_prior_log_like(tf.constant(rng.normal(size=(3, 1))))]
            s.run(v.initializer)
            s.run(outs)
            tu.uninitialized_params([v], session=s)
        sched = ss.ConstantStepsizeSchedule(.1)
        next(sched)
        sched.update([A], 3.)
    kept = A.copy()
    with unchanged("normalisation"):
        B, m, sd = bm.zero_mean_unit_var_normalization(A)
        bm.zero_mean_unit_var_unnormalization(B, m, sd)
        bm.zero_mean_unit_var_normalization(np.ones((3, 2)))
    for odd in (np.inf, np.nan, 1e308, 1e-308, 0.):
        with unchanged("normalisation of %g" % odd):
            C = A.copy()
            C[1, 2] = odd
            bm.zero_mean_unit_var_normalization(C)
            bm.zero_mean_unit_var_normalization(C, m, sd)
            bm.zero_mean_unit_var_unnormalization(C, m, sd)
    mon.same(A, kept, "given-arguments-unchanged", "normalisation")
    mon.check(g.seed is None, "graph-seed-unchanged", "tensor functions")
    mon.event("functions-watched", 12)


def chains(case, mon, unchanged):
    from pysgmcmc.diagnostics.sample_chains import pymc3_multitrace
    from pysgmcmc.diagnostics import sampler_diagnostics as sd
    spec = case["spec"]
    made = []

    def get_sampler(session):
        with session.graph.as_default():
            made.append(ch.Chain(spec, graph=session.graph, session=session))
        return made[-1].sampler
    names = ["v%d" % i for i in range(len(spec["shapes"]))]
    mine = list(names)
    with unchanged("multi-chain %s of %s" % (case["diag"], spec["kind"])):
        if case["diag"] == "none":
            pymc3_multitrace(get_sampler, n_chains=case["n"], samples_per_chain=3, keep_every=2, parameter_names=names)
        elif case["diag"] == "effective":
            sd.effective_sample_sizes(get_sampler, n_chains=case["n"], samples_per_chain=3)
        else:
            sd.gelman_rubin(get_sampler, n_chains=2, samples_per_chain=3)
    mon.check(names == mine, "given-arguments-unchanged", "parameter names")
    mon.event("chains-watched", len(made))


def rejected(case, mon, unchanged):
    """Calls that are refused change nothing either."""
    from pysgmcmc.sampling import Sampler
    from pysgmcmc.data_batches import generate_batches
    from pysgmcmc.models.bayesian_neural_network import BayesianNeuralNetwork
    from pysgmcmc.diagnostics.sample_chains import PYSGMCMCTrace
    rng = np.random.RandomState(case["seed"])
    g = tf.Graph()
    with g.as_default(), tf.Session(graph=g, config=ch.session_config(None)) as s:
        p = [tf.Variable(1., dtype=tf.float64)]
        x, y = tf.placeholder(tf.float64), tf.placeholder(tf.float64)

        def cost(ps):
            return tf.reduce_sum(tf.square(ps[0]))
        X = np.ones((4, 2))
        tries = [lambda: Sampler.get_sampler("SGHMC", params=p, cost_fun=cost, session=s),
                 lambda: Sampler.get_sampler(Sampler.SGHMC, cost_fun=cost, session=s),
                 lambda: Sampler.get_sampler(Sampler.SGLD, params=p, cost_fun=cost, session=s, mdecay=.1),
                 lambda: next(generate_batches(x=X, y=np.ones(3), x_placeholder=x, y_placeholder=y)),
                 lambda: next(generate_batches(x=X, y=np.ones(4), x_placeholder=x, y_placeholder=y, batch_size=0)),
                 lambda: BayesianNeuralNetwork(session=s, n_nets=-1),
                 lambda: BayesianNeuralNetwork(session=s, burn_in_steps=-4),
                 lambda: BayesianNeuralNetwork(session=s, sampling_method=Sampler.SGHMC, batch_size=0),
                 lambda: BayesianNeuralNetwork(session=s).predict(X),
                 lambda: PYSGMCMCTrace(0, []),
                 lambda: PYSGMCMCTrace(0, [[1.]], varnames=["a"]).get_values("b")]
        with unchanged("session's graph", [g]):
            for i in rng.permutation(len(tries)):
                mon.raises(Exception, tries[i], "failure-reported", "call %d" % i)
                mon.event("refused-calls-watched")


def arguments(case, mon, unchanged):
    """Lists and dictionaries in an order of the user's own, and a log nobody has configured."""
    from pysgmcmc.sampling import Sampler
    from pysgmcmc.data_batches import generate_batches
    from pysgmcmc.diagnostics.sample_chains import PYSGMCMCTrace
    from pysgmcmc.models.bayesian_neural_network import weight_prior_log_like
    from pysgmcmc.tensor_utils import uninitialized_params
    from vlib import bnn
    kind, n, rng = case["kind"], case["n"], np.random.RandomState(case["seed"])
    if kind == "SVGD":
        n = max(n, 2)
    # TensorFlow's and the standard library's loggers install a handler when nobody has
    but = ["root logger"] if case["bare_log"] else []
    root = logging.getLogger()
    if case["bare_log"]:
        root.handlers[:] = []
        logging.disable(logging.NOTSET)
    level = root.level
    g = tf.Graph()
    with g.as_default(), tf.Session(graph=g, config=ch.session_config(None)) as s:
        names = ["p%d" % k for k in rng.permutation(n)]
        params = [tf.Variable(rng.normal(size=(2,)), name=k) for k in names]
        data, noise = tf.placeholder(tf.float64), tf.placeholder_with_default(tf.constant(0., tf.float64), ())

        def cost(ps):
            return (tf.reduce_sum(tf.square(ps)) if kind == "SVGD" else tf.add_n([tf.reduce_sum(tf.square(p)) for p in ps])) + noise
        method = dict(SGHMC=Sampler.SGHMC, SGLD=Sampler.SGLD, REL=Sampler.RelativisticSGHMC, SVGD=Sampler.SVGD)[kind]
        key = "particles" if kind == "SVGD" else "params"
        args = {key: list(params), "cost_fun": cost, "session": s, "seed": int(rng.randint(100))}
        if rng.rand() < .5:
            args["batch_generator"] = iter([{data: np.ones(2)} for _ in range(20)])
        if kind in ("SGHMC", "SGLD"):
            args["burn_in_steps"] = 2
        mine, order = dict(args), list(args)

        def intact(what):
            mon.check(list(args) == order and all(args[k] is mine[k] for k in order), "given-arguments-unchanged", "%s: dictionary of arguments" % what)
            mon.check(len(args[key]) == n and all(a is b for a, b in zip(args[key], params)), "given-arguments-unchanged",
                      lambda: "%s: list of parameters was %s, is %s" % (what, names, [getattr(p, "name", p) for p in args[key]]))
            mon.check(root.level == level, "process-settings-unchanged", lambda: "%s: level of the root logger was %d, is %d" % (what, level, root.level))
        with unchanged("%s of %d parameters" % (kind, n), (), but):
            if case["via"] == "class":
                from pysgmcmc.samplers import sghmc, sgld, relativistic_sghmc, svgd
                cls = dict(SGHMC=sghmc.SGHMCSampler, SGLD=sgld.SGLDSampler, REL=relativistic_sghmc.RelativisticSGHMCSampler, SVGD=svgd.SVGDSampler)[kind]
                sampler = cls(**args)
            else:
                sampler = Sampler.get_sampler(method, **args)
        intact("construction")
        s.run(tf.variables_initializer(uninitialized_params(tf.global_variables(), session=s)))
        feeds = {noise: 1.}
        with unchanged("steps of %s" % kind, (), but):
            for k in range(4):
                sampler.__next__(feed_dict=feeds)
        mon.check(len(feeds) == 1 and feeds.get(noise) == 1., "given-arguments-unchanged", "feed_dict")
        intact("steps")
        given = list(params)
        with unchanged("lists of variables", (), but):
            weight_prior_log_like(given)
            uninitialized_params(given, session=s)
        mon.check(len(given) == n and all(a is b for a, b in zip(given, params)), "given-arguments-unchanged", "list of variables of a function")
        if kind != "SVGD":
            labels = list(names)
            with unchanged("trace", (), but):
                t = PYSGMCMCTrace.from_sampler(chain_id=0, sampler=sampler, n_samples=3, varnames=labels)
                t.get_values(labels[-1], burn=1)
                t.point(1)
                t[0]
            mon.check(labels == names, "given-arguments-unchanged", "names of a trace")
            intact("trace")
    # constructed from lists, anonymous and named, also of bare numbers
    samples = [[float(v) for v in rng.normal(size=n)] for _ in range(5)]
    bare = [float(v) for v in rng.normal(size=5)]
    kept, kept_bare = [list(v) for v in samples], list(bare)
    with unchanged("anonymous trace", (), but):
        for t in (PYSGMCMCTrace(0, samples), PYSGMCMCTrace(1, samples, list(names)), PYSGMCMCTrace(2, bare)):
            t[0], t.point(0), t.point(4), t.get_values(t.varnames[-1], thin=2), len(t)
    mon.check(samples == kept and bare == kept_bare, "given-arguments-unchanged", "samples of a trace")
    mon.check(root.level == level, "process-settings-unchanged", lambda: "anonymous trace: level of the root logger was %d, is %d" % (level, root.level))
    if case["bare_log"]:
        with g.as_default():
            x, y = tf.placeholder(tf.float64), tf.placeholder(tf.float64)
        with unchanged("small dataset", (), but):
            next(generate_batches(x=np.ones((3, 2)), y=np.ones(3), x_placeholder=x, y_placeholder=y, batch_size=20, seed=3))
        m = bnn.Model(dict(method="SGHMC", net="linear", n_nets=1, burn=1, sample_steps=1, n_iters=5, batch_size=2, seed=1, eps=.01))
        X, Y = bnn.dataset({}, 4, 2, 3)
        with unchanged("training", (), but):
            m.train(X, Y)
            m.predict(X)
        m.close()
        mon.check(root.level == level, "process-settings-unchanged", lambda: "training: level of the root logger was %d, is %d" % (level, root.level))
        mon.check(all(type(h) in (logging.StreamHandler, logging.NullHandler) for h in root.handlers), "process-settings-unchanged", "handlers of the root logger: %s" % root.handlers)
    mon.event("argument-lists-watched")


SCRIPT = r'''
import json, os, sys, random, logging
sys.path[:0] = [%(verif)r]
os.environ["VERIF_REPO"] = %(repo)r
from vlib import env
env.load()
# what the package's dependencies do on import is theirs
import numpy as np, scipy.stats, scipy.special, arspy.ars, tensorflow as tf
from vlib import process
class Mon(object):
    seen = 0
    bad = []
    def check(self, ok, clause, detail=""):
        self.seen += 1
        if not ok:
            self.bad.append([clause, detail() if callable(detail) else detail])
mon = Mon()
import tempfile
os.mkdir(os.path.join(%(work)r, "tmp"))
os.mkdir(os.path.join(%(work)r, "here"))
tempfile.tempdir = os.path.join(%(work)r, "tmp")
os.chdir(os.path.join(%(work)r, "here"))
g = tf.Graph()
default = tf.get_default_graph()
np.random.seed(%(seed)d)
random.seed(%(seed)d)
np.seterr(under="warn", over="print")
logging.getLogger().addHandler(logging.NullHandler())
before = [k for k in sys.modules if k.startswith("pysgmcmc")]
with g.as_default():
    s = tf.Session(graph=g)
    with s.as_default():
        with process.unchanged(mon, "import of %(module)s", [g, default]):
            __import__(%(module)r)
print("RESULT " + json.dumps(dict(seen=mon.seen, bad=mon.bad, before=before)))
'''


def imported(case, mon):
    from vlib import env
    work = tempfile.mkdtemp(prefix="vproc")
    try:
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        code = SCRIPT % dict(verif=here, repo=env.REPO, module=case["module"], seed=case["seed"], work=work)
        p = subprocess.run([sys.executable, "-c", code], stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, timeout=140)
        lines = [l for l in p.stdout.splitlines() if l.startswith("RESULT ")]
        if not mon.check(p.returncode == 0 and len(lines) == 1, "import-works", lambda: "%s: exit %d\n%s" % (case["module"], p.returncode, p.stderr[-1500:])):
            return
        r = json.loads(lines[0][7:])
        if r["before"]:
            mon.inconclusive("the package was imported before: %s" % r["before"])
        mon.event("process-settings-unchanged", r["seen"])
        for clause, detail in r["bad"]:
            mon.fail(clause, detail)
        mon.event("imports-watched")
        mon.state("import", case["module"])
    finally:
        shutil.rmtree(work, ignore_errors=True)
