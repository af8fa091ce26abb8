"""Instrumented chains: build real samplers from a JSON spec, drive them, and
compute what the documented update equations say they should have done.

A spec is a dict (JSON, so that replay files can hold it):
  kind    "SGHMC" | "SGLD" | "REL" | "SVGD"
  shapes  list of parameter shapes (SVGD: list of equal 1-d shapes, one per particle)
  dtype   "float64" | "float32"
  cost    name of a cost in COSTS;  cseed: seed of its constants
  eps     stepsize (number) or list of stepsizes, one per step (the last one repeats)
  seed    sampler seed or None;  pseed: seed of the start values
  burn    burn_in_steps;  mdecay, scale_grad, A, mass, c, D, Bhat, alpha, fudge
  threads [inter, intra] or None
  cscale  factor of the cost
"""
import threading
import time

import numpy as np
import tensorflow as tf


# -- instrumented collaborators -------------------------------------------

class Schedule(object):
    """Stepsize schedule that logs every interaction; may raise on demand."""

    def __init__(self, values, log=None, name="schedule", initial=None, fault=None,
                 adapt=None):
        self.values = list(values) if isinstance(values, (list, tuple, np.ndarray)) else [values]
        self.initial_value = self.values[0] if initial is None else initial
        self.log = [] if log is None else log
        self.name = name
        self.n_next = 0
        self.handed = []
        self.updates = []
        self.fault = fault
        self.adapt = adapt

    def __iter__(self):
        return self

    def __next__(self):
        if self.fault is not None:
            self.fault("next")
        k = self.n_next
        if self.adapt is not None:
            v = self.adapt(self)
        else:
            v = self.values[min(k, len(self.values) - 1)]
        self.n_next += 1
        self.handed.append(v)
        self.log.append((self.name, "next", v))
        return v

    def update(self, *args, **kwargs):
        if self.fault is not None:
            self.fault("update")
        vals = list(args) + [kwargs[k] for k in kwargs]
        # keep copies: what was passed at the time
        self.updates.append([_copy(v) for v in vals])
        self.log.append((self.name, "update"))


def _copy(v):
    if isinstance(v, (list, tuple)):
        return [np.array(x, copy=True) for x in v]
    return np.array(v, copy=True)


class Batches(object):
    """Batch generator over a function k -> feed dict; logs, may raise."""

    def __init__(self, make, log=None, name="batches", fault=None):
        self.make, self.log, self.name, self.fault = make, ([] if log is None else log), name, fault
        self.n_next = 0
        self.handed = []
        self.same = None       # a dict: always that one, and its arrays refilled in place

    def __iter__(self):
        return self

    def __next__(self):
        if self.fault is not None:
            self.fault("next")
        b = self.make(self.n_next)
        self.n_next += 1
        self.handed.append(b)
        self.log.append((self.name, "next"))
        if self.same is None:
            return dict(b)
        for k, v in b.items():
            if np.shape(v) and k in self.same:
                self.same[k][...] = v
            else:
                self.same[k] = np.array(v)
        return self.same


# -- costs -----------------------------------------------------------------
# Each cost is f(params, K, feeds) on tensors; K draws constants of given shapes.

class Consts(object):
    """Deterministic constants for a cost, same for every build of the same spec."""

    def __init__(self, cseed, dtype):
        self.rng = np.random.RandomState([cseed, 77])
        self.dtype = np.dtype(dtype)
        self.late = tf.identity

    def u(self, shape, lo, hi):
        return tf.constant(self.rng.uniform(lo, hi, size=shape).astype(self.dtype))

    def c(self, v):
        return tf.constant(v, dtype=tf.as_dtype(self.dtype))


def _shape(p):
    return tuple(p.shape.as_list())


def cost_quad(ps, K, feeds):
    out = K.c(0.)
    for p in ps:
        out += tf.reduce_sum(0.5 * K.u(_shape(p), .5, 2.) * tf.square(p - K.u(_shape(p), -2., 2.)))
    return out


def cost_coupled(ps, K, feeds):
    """Quadratic plus strong coupling of every parameter with every other."""
    s = K.c(0.)
    out = K.c(0.)
    for p in ps:
        s += tf.reduce_sum(K.u(_shape(p), .3, 1.) * p)
        out += tf.reduce_sum(0.5 * K.u(_shape(p), .5, 2.) * tf.square(p - K.u(_shape(p), -2., 2.)))
    return out + 0.5 * tf.square(s - 1.) + tf.sin(s)


def cost_prod(ps, K, feeds):
    """Products of parameters: gradients of one are values of the others."""
    out = K.c(1.)
    for p in ps:
        out *= tf.reduce_mean(K.u(_shape(p), .5, 1.5) * p) + 0.3
    return 0.5 * tf.square(out - 2.)+ cost_quad(ps, K, feeds)


def cost_batch(ps, K, feeds):
    """Least squares on a minibatch: depends on the fed batch."""
    pred = K.c(0.)
    for p in ps:
        n = int(np.prod(_shape(p), dtype=int))
        w = tf.reshape(p, (n, 1))
        pred += tf.matmul(tf.cos(feeds["x"] * K.u((1, 1), .5, 2.)) * K.u((1, n), .5, 1.5), w)
    return tf.reduce_mean(tf.square(feeds["y"] - pred)) + 0.05 * cost_quad(ps, K, feeds)


def cost_extra(ps, K, feeds):
    """Depends on a placeholder only the caller can feed."""
    return cost_coupled(ps, K, feeds) * tf.cast(1. + 0.1 * feeds["extra"], tf.as_dtype(K.dtype))


def cost_steep(ps, K, feeds):
    out = K.c(0.)
    for p in ps:
        out += 40. * tf.reduce_sum(tf.pow(p, 4)) + tf.reduce_sum(tf.exp(2. * tf.abs(p)))
    return out


def cost_net(ps, K, feeds):
    """A small tanh network applied to fixed inputs; parameters are its flat weights."""
    x = K.u((7, 3), -2., 2.)
    h = x
    for p in ps:
        n = int(np.prod(_shape(p), dtype=int))
        d = int(h.shape[1])
        v = tf.reshape(p, (1, n))
        h = tf.tanh(tf.matmul(h, K.u((d, 4), -1., 1.)) * tf.reduce_mean(v) + tf.reduce_sum(v * K.u((1, n), .2, 1.)))
    return tf.reduce_sum(tf.square(tf.reduce_sum(h, axis=1) - K.u((7,), -1., 1.))) \
        + 0.1 * cost_quad(ps, K, feeds)


def cost_gauss(ps, K, feeds):
    """-log density of standard normals (up to a constant)."""
    return tf.add_n([0.5 * tf.reduce_sum(tf.square(p)) for p in ps])


def cost_flat(ps, K, feeds):
    """Nearly constant gradient of different sizes per element."""
    return tf.add_n([tf.reduce_sum(K.u(_shape(p), -3., 3.) * p) for p in ps])


def cost_scales(ps, K, feeds):
    """Curvatures from 1e-6 to 1e5 side by side: tiny and huge gradients."""
    out = K.c(0.)
    for p in ps:
        s = 10. ** K.rng.uniform(-6., 5., size=_shape(p))
        mu = K.u(_shape(p), -2., 2.)
        out += tf.reduce_sum(0.5 * tf.constant(np.asarray(s).astype(K.dtype)) * tf.square(p - mu))
    return out


def cost_tiny(ps, K, feeds):
    """Curvatures from 1e-8 to 1e-2."""
    out = K.c(0.)
    for p in ps:
        s = 10. ** K.rng.uniform(-8., -2., size=_shape(p))
        mu = K.u(_shape(p), -2., 2.)
        out += tf.reduce_sum(0.5 * tf.constant(np.asarray(s).astype(K.dtype)) * tf.square(p - mu))
    return out


def cost_late(ps, K, feeds):
    """Reads parameters late: in the gradient of one parameter, and in the value of the
    cost, a factor that is another parameter itself waits for something slow, while
    nothing in the gradient of that other parameter does."""
    out = cost_quad(ps, K, feeds)
    ps = [tf.convert_to_tensor(p) for p in ps]
    for i, p in enumerate(ps):
        for j, q in enumerate(ps):
            if i != j:
                s = tf.reduce_sum(K.u(_shape(q), .3, 1.) * q)
                out += tf.reduce_sum(K.u(_shape(p), .3, 1.) * K.late(tf.stop_gradient(p) * s))
                out += tf.reduce_sum(tf.stop_gradient(p) * K.late(tf.stop_gradient(s)))
    return out


COSTS = dict(late=cost_late, tiny=cost_tiny, scales=cost_scales, quad=cost_quad, coupled=cost_coupled, prod=cost_prod, batch=cost_batch,
             extra=cost_extra, steep=cost_steep, net=cost_net, gauss=cost_gauss, flat=cost_flat)


def scaled(spec, cost):
    """The spec's multiple of a cost."""
    return cost if "cscale" not in spec else cost * tf.constant(spec["cscale"], dtype=cost.dtype)


# -- delays ------------------------------------------------------------------

class Delays(object):
    """Slows down chosen parts of the cost graph (forward, gradients) by sleeping
    in a py_func.  The sleep happens where the executor may run other ops."""

    def __init__(self, seed, fwd=0.0, grad=0.0, per_param=True):
        self.rng = np.random.RandomState([seed, 5])
        self.fwd, self.grad = fwd, grad
        self.calls = 0
        self.lock = threading.Lock()

    def _sleep(self, scale):
        with self.lock:
            d = self.rng.choice([0., 0., 0.3, 1.]) * scale
            self.calls += 1
        if d:
            time.sleep(d)

    def wrap(self, tensor):
        """Identity whose value and whose gradient arrive late."""
        dtype = tensor.dtype
        fwd, grad, me = self.fwd, self.grad, self

        def slow(scale):
            def f(t):
                me._sleep(scale)
                return t
            return f

        @tf.custom_gradient
        def ident(t):
            def g(dy):
                if not grad:
                    return dy
                out = tf.py_func(slow(grad), [dy], dy.dtype)
                out.set_shape(dy.shape)
                return out
            if fwd:
                o = tf.py_func(slow(fwd), [t], dtype)
                o.set_shape(t.shape)
            else:
                o = tf.identity(t)
            return o, g
        return ident(tensor)


# -- building ------------------------------------------------------------------

def np_dtype(spec):
    return np.dtype(spec.get("dtype", "float64"))


def start_values(spec):
    rng = np.random.RandomState([spec.get("pseed", 0), 13])
    lo, hi = spec.get("prange", (-1.5, 1.5))
    return [np.asarray(rng.uniform(lo, hi, size=tuple(s)), dtype=np_dtype(spec)) for s in spec["shapes"]]


def make_batch(spec, k):
    """The k-th batch of spec's data stream: numpy arrays."""
    rng = np.random.RandomState([spec.get("cseed", 0), 99, k])
    n = 5
    x = rng.uniform(-2, 2, size=(n, 1))
    y = rng.uniform(-3, 3, size=(n, 1))
    return x.astype(np_dtype(spec)), y.astype(np_dtype(spec))


def needs_batch(spec):
    return spec["cost"] == "batch"


def needs_extra(spec):
    return spec["cost"] == "extra"


def session_config(threads):
    if not threads:
        return tf.ConfigProto(use_per_session_threads=True, inter_op_parallelism_threads=2,
                              intra_op_parallelism_threads=2)
    return tf.ConfigProto(inter_op_parallelism_threads=threads[0],
                          intra_op_parallelism_threads=threads[1],
                          use_per_session_threads=True)


def sampler_class(kind):
    from pysgmcmc import samplers as S
    return {"SGHMC": S.SGHMCSampler, "SGLD": S.SGLDSampler,
            "REL": S.RelativisticSGHMCSampler, "SVGD": S.SVGDSampler}[kind]


BURNIN = ("SGHMC", "SGLD")


def sampler_kwargs(spec):
    """Keyword arguments of the sampler that the spec sets explicitly."""
    kw = dict()
    kind = spec["kind"]
    if kind in BURNIN and "burn" in spec:
        kw["burn_in_steps"] = spec["burn"]
    names = {"SGHMC": ("mdecay", "scale_grad"), "SGLD": ("A", "scale_grad"),
             "REL": ("mass", "D", "Bhat"), "SVGD": ("alpha",)}[kind]
    for n in names:
        if n in spec:
            kw[n] = spec[n]
    if kind == "REL" and "c" in spec:
        kw["speed_of_light"] = spec["c"]
    if kind == "SVGD" and "fudge" in spec:
        kw["fudge_factor"] = spec["fudge"]
    return kw


class Chain(object):
    """One real sampler in a graph and session of its own (or given ones)."""

    def __init__(self, spec, delays=None, graph=None, session=None, batches=None,
                 schedule=None, factory=None, init="global", fault=None, log=None,
                 params=None, wrap_cost=None, use_schedule=True):
        self.spec = spec
        self.own = graph is None
        self.graph = graph or tf.Graph()
        self.log = [] if log is None else log
        self.dtype = tf.as_dtype(spec.get("dtype", "float64"))
        self.kind = spec["kind"]
        with self.graph.as_default():
            self.session = session or tf.Session(
                graph=self.graph, config=session_config(spec.get("threads")))
            self.start = start_values(spec)
            self.params = params or [tf.Variable(v, dtype=self.dtype, name="p%d" % i)
                                     for i, v in enumerate(self.start)]
            self.feeds = {}
            if needs_batch(spec):
                self.feeds["x"] = tf.placeholder(self.dtype, (None, 1))
                self.feeds["y"] = tf.placeholder(self.dtype, (None, 1))
            if needs_extra(spec):
                self.feeds["extra"] = tf.placeholder_with_default(np.float64(0.), ())
            base = COSTS[spec["cost"]]

            def cost_fun(ps):
                if self.kind == "SVGD":
                    ps = [ps]
                K = Consts(spec.get("cseed", 0), np_dtype(spec))
                if delays is not None and spec["cost"] == "late":
                    K.late = delays.wrap
                elif delays is not None:
                    ps = [delays.wrap(tf.convert_to_tensor(p)) for p in ps]
                out = scaled(spec, base(ps, K, self.feeds))
                if wrap_cost is not None:
                    out = wrap_cost(out)
                return out
            self.cost_fun = cost_fun
            self.schedule = schedule or Schedule(spec.get("eps", 0.05), self.log, fault=None)
            self.batches = batches
            if batches is None and needs_batch(spec):
                self.batches = Batches(self.feed_for, self.log)
            kw = dict(cost_fun=cost_fun, session=self.session,
                      dtype=self.dtype, seed=spec.get("seed"), **sampler_kwargs(spec))
            if use_schedule:
                kw["stepsize_schedule"] = self.schedule
            if self.batches is not None:
                kw["batch_generator"] = self.batches
            kw["particles" if self.kind == "SVGD" else "params"] = self.params
            self.kwargs = kw
            make = factory or sampler_class(self.kind)
            self.sampler = make(**kw)
            if init == "global":
                self.session.run(tf.global_variables_initializer())
            elif init == "missing":
                self.init_missing()

    def feed_for(self, k):
        x, y = make_batch(self.spec, k)
        return {self.feeds["x"]: x, self.feeds["y"]: y}

    def init_missing(self):
        with self.graph.as_default():
            vs = tf.global_variables()
            flags = self.session.run([tf.is_variable_initialized(v) for v in vs])
            self.session.run([v.initializer for v, f in zip(vs, flags) if not f])

    def next(self, feed_dict=None):
        if feed_dict is None:
            s, c = next(self.sampler)
        else:
            s, c = self.sampler.__next__(feed_dict=feed_dict)
        return self.as_list(s), c

    def as_list(self, sample):
        """Samples of a single parameter may come bare (documented)."""
        if len(self.params) == 1 and not isinstance(sample, (list, tuple)):
            return [sample]
        return list(sample)

    def values(self):
        return [np.array(v) for v in self.session.run(self.params)]

    def assign(self, values):
        for p, v in zip(self.params, values):
            p.load(v, self.session)

    def close(self):
        if self.own:
            self.session.close()


class Reference(object):
    """Cost and gradients at given parameter values, evaluated on placeholders in a
    graph without any assignment: there is no schedule that could interfere."""

    def __init__(self, spec, dtype=None):
        self.spec = spec
        self.graph = tf.Graph()
        sp = dict(spec)
        dt = np_dtype(sp)
        self.dt = dt
        with self.graph.as_default():
            shapes = spec["shapes"] if spec["kind"] != "SVGD" else spec["shapes"][:1]
            self.ph = [tf.placeholder(tf.as_dtype(dt), tuple(s)) for s in shapes]
            self.feeds = {}
            if needs_batch(spec):
                self.feeds["x"] = tf.placeholder(tf.as_dtype(dt), (None, 1))
                self.feeds["y"] = tf.placeholder(tf.as_dtype(dt), (None, 1))
            if needs_extra(spec):
                self.feeds["extra"] = tf.placeholder_with_default(np.float64(0.), ())
            self.cost = scaled(spec, COSTS[spec["cost"]](
                self.ph, Consts(spec.get("cseed", 0), dt), self.feeds))
            self.grads = [tf.convert_to_tensor(g) for g in tf.gradients(self.cost, self.ph)]
            self.session = tf.Session(graph=self.graph, config=session_config(None))

    def __call__(self, values, batch=None, extra=None):
        """-> (cost(s), list of gradients); for SVGD per particle."""
        fd = {}
        if batch is not None:
            fd[self.feeds["x"]], fd[self.feeds["y"]] = batch
        if extra is not None:
            fd[self.feeds["extra"]] = extra
        if self.spec["kind"] == "SVGD":
            cs, gs = [], []
            for v in values:
                fd[self.ph[0]] = v
                c, (g,) = self.session.run([self.cost, self.grads], fd)
                cs.append(c)
                gs.append(np.asarray(g, dtype=np.float64))
            return np.array(cs), gs
        fd.update(zip(self.ph, values))
        c, g = self.session.run([self.cost, self.grads], fd)
        return c, [np.asarray(x, dtype=np.float64) for x in g]

    def close(self):
        self.session.close()


# -- reference dynamics ---------------------------------------------------------

def sdiv(x, y, c=1e-16):
    return x / (y + 2. * np.sign(y) * c + c)


class Adaptation(object):
    """Burn-in adaptation of the mass matrix (SGHMC, SGLD)."""

    def __init__(self, shapes, burn):
        one = [np.ones(tuple(s)) for s in shapes]
        self.tau = [o.copy() for o in one]
        self.a = [o.copy() for o in one]
        self.v = [o.copy() for o in one]
        self.M = None
        self.burn = burn
        self.t = 0

    def step(self, grads):
        """Inverse masses used in this step."""
        if self.t < self.burn:
            self.M = []
            for i, g in enumerate(grads):
                tau, a, v = self.tau[i], self.a[i], self.v[i]
                r = 1. / (tau + 1.)
                self.M.append(sdiv(1., np.sqrt(np.maximum(v, 0.))))
                self.tau[i] = tau + 1. - sdiv(a * a * tau, v)
                self.a[i] = a + r * (g - a)
                self.v[i] = v + r * (g * g - v)
        self.t += 1
        return self.M


class Dynamics(object):
    """Predicts each step from the observed previous values; yields standardised
    residuals.  step(old, grads, eps, new) -> list of (mean, sigma) for new."""

    def __init__(self, spec):
        self.spec = spec
        self.kind = spec["kind"]
        sh = spec["shapes"]
        self.t = 0
        if self.kind in BURNIN:
            self.adapt = Adaptation(sh, spec.get("burn", 3000))
            self.V = [np.zeros(tuple(s)) for s in sh]
        elif self.kind == "REL":
            self.p = None
        else:
            self.hist = np.zeros((len(sh), sh[0][0]))

    def predict(self, old, grads, eps):
        s = self.spec
        out = []
        if self.kind == "SGHMC":
            md, sg = s.get("mdecay", 0.05), s.get("scale_grad", 1.0)
            M = self.adapt.step(grads)
            es = eps / np.sqrt(sg)
            for x, g, m, V in zip(old, grads, M, self.V):
                var = np.maximum(2. * es ** 2 * md * m - es ** 4, 1e-16)
                out.append((x + (V - eps ** 2 * m * g - md * V), np.sqrt(var)))
        elif self.kind == "SGLD":
            A, sg = s.get("A", 1.0), s.get("scale_grad", 1.0)
            M = self.adapt.step(grads)
            for x, g, m in zip(old, grads, M):
                out.append((x - eps * m * A * g, np.sqrt(2. * eps * m * A / sg)))
        elif self.kind == "SVGD":
            alpha, fudge = s.get("alpha", 0.9), s.get("fudge", 1e-6)
            X = np.stack(old)
            G = np.stack(grads)
            n = len(old)
            diff = X[:, None, :] - X[None, :, :]
            sq = (diff ** 2).sum(-1)
            h2 = 0.5 * np.median(sq) / np.log(n + 1.)
            k = np.exp(-sq / (2. * h2))
            phi = (k @ G - (k[:, :, None] * diff).sum(1) / h2) / n
            self.hist = alpha * self.hist + (1. - alpha) * phi ** 2
            new = X - eps * phi / (fudge + np.sqrt(self.hist))
            out = [(new[i], np.zeros_like(new[i])) for i in range(n)]
        return out

    def observe(self, old, new, eps):
        """Take the state that can be observed from what really happened."""
        if self.kind == "SGHMC":
            self.V = [np.asarray(n, float) - np.asarray(o, float) for o, n in zip(old, new)]
        self.t += 1


# relativistic: momentum is observable through the displacement

def rel_velocity(p, m, c):
    return p / (m * np.sqrt(p * p / (m * m * c * c) + 1.))


def rel_momentum(v, m, c):
    u = v / c
    return m * v / np.sqrt(1. - u * u)


def pick(rng, seq):
    return seq[rng.randint(len(seq))]


SHAPES = [
    [[]], [[1]], [[5]], [[2, 3]], [[3, 1, 2]],
    [[], []], [[3], [3]], [[2, 2], [2, 2], [4]], [[4], [], [2, 3]],
    [[2], [2], [2], [2]], [[1], [1, 1], []], [[6], [3, 2], [], [1]],
]


def rand_spec(rng, kind, cost=None, dtype=None, shapes=None, **kw):
    """A random valid spec of the given kind."""
    s = dict(kind=kind, dtype=dtype or pick(rng, ["float64", "float64", "float32"]),
             cseed=int(rng.randint(1 << 20)), pseed=int(rng.randint(1 << 20)),
             seed=pick(rng, [None, 0, 1, int(rng.randint(1 << 30))]))
    if kind == "SVGD":
        n, d = int(rng.randint(2, 8)), int(pick(rng, [1, 1, 2, 3, 5]))
        if rng.rand() < .15:
            n = int(rng.randint(8, 20))
        s["shapes"] = shapes or [[d]] * n
        s["cost"] = cost or pick(rng, ["quad", "coupled", "net"])
        s["eps"] = float(pick(rng, [0.01, 0.05, 0.1, 0.3]))
        if rng.rand() < .7:
            s["alpha"] = float(pick(rng, [0.9, 0.5, 0.99, 0.1]))
        if rng.rand() < .5:
            s["fudge"] = float(pick(rng, [1e-6, 1e-2, 0.3]))
    else:
        s["shapes"] = shapes or pick(rng, SHAPES)
        if shapes is None and rng.rand() < .08:
            s["shapes"] = [pick(rng, [[], [1], [2], [2, 2]]) for _ in range(rng.randint(8, 14))]
        s["cost"] = cost or pick(rng, ["quad", "coupled", "prod", "batch", "net"])
        s["eps"] = float(pick(rng, [0.01, 0.03, 0.1, 0.2]))
    if kind in BURNIN:
        s["burn"] = int(pick(rng, [1, 2, 3, 5, 8, 13]))
        s["scale_grad"] = float(pick(rng, [1., 2.5, 10., 100., 0.3]))
    if kind == "SGHMC" and rng.rand() < .7:
        s["mdecay"] = float(pick(rng, [0.05, 0.01, 0.2, 0.5, 0.9]))
    if kind == "SGLD" and rng.rand() < .7:
        s["A"] = float(pick(rng, [1., 0.5, 2., 3.]))
    if kind == "REL":
        s["mass"] = float(pick(rng, [1., 0.5, 2., 4.]))
        s["c"] = float(pick(rng, [1., 2., 0.6, 4.]))
        s["D"] = float(pick(rng, [1., 0.5, 2., 0.]))
        s["Bhat"] = float(pick(rng, [0., 0., 0.5, 0.8]))
        if s["D"] == 0.:
            s["Bhat"] = 0.
    s.update(kw)
    return s


def no_noise(spec):
    """The same spec with noise too small to matter."""
    s = dict(spec)
    if s["kind"] in BURNIN:
        s["scale_grad"] = 1e30
    elif s["kind"] == "REL":
        s["D"], s["Bhat"] = 0., 0.
    return s


def quiet_friction(spec):
    """Relativistic: friction D with a noise estimate Bhat that cancels (nearly) all of
    its noise, so that the friction itself shows in every digit (constant stepsize)."""
    s = dict(spec)
    s["D"] = s["D"] or 1.5
    s["Bhat"] = 2. * s["D"] / s["eps"] * (1. - (1e-13 if np_dtype(s) == np.float64 else 1e-5))
    return s


class StepOracle(object):
    """Online monitor of the update equations: feed it every step of a chain."""

    def __init__(self, spec, mon, clause):
        self.spec, self.mon, self.clause = spec, mon, clause
        self.kind = spec["kind"]
        self.dyn = Dynamics(spec)
        self.f32 = np_dtype(spec) == np.dtype("float32")
        self.z = [[] for _ in spec["shapes"]]   # standardised residuals per parameter
        self.mag = 0.
        self.p = None
        self.p0 = None
        self.beyond = False

    def step(self, old, grads, eps, new, t):
        old64 = [np.asarray(o, np.float64) for o in old]
        new64 = [np.asarray(n, np.float64) for n in new]
        if self.kind == "REL":
            return self._rel(old64, grads, eps, new64, t)
        if self.beyond or not max([np.abs(o).max() for o in old64] + [np.abs(g).max() for g in grads]) <= (1e15 if self.f32 else 1e100):
            self.beyond = True       # a diverged chain: overflows are nobody's guarantee
            self.mon.event("steps-of-diverged-chains")
            return
        pred = self.dyn.predict(old64, grads, eps)
        for i, ((mean, sigma), x, o) in enumerate(zip(pred, new64, old64)):
            resid = x - mean
            scale = np.abs(o) + np.abs(x) + np.abs(mean) + np.abs(x - o)
            if self.f32:
                tol = 3e-5 * (scale + 1.) + 8.5 * sigma
                if self.kind == "SVGD":
                    # phi is a difference of terms and is divided by its own size
                    tol = tol + 2e-3 * eps + np.abs(eps) * 2e-3
            else:
                tol = 1e-11 * (scale + 1e-3) + 8.5 * sigma
                if self.kind == "SVGD":
                    tol = tol + 1e-7 * eps
            self.mon.check(
                bool(np.all(np.isfinite(x)) and np.all(np.abs(resid) <= tol)), self.clause,
                lambda: "step %d parameter %d: new value %s, update equation gives %s +- %s (old %s, gradient %s, stepsize %s)" % (
                    t, i, x.ravel()[:6], mean.ravel()[:6], np.ravel(tol)[:3], o.ravel()[:6], np.ravel(grads[i])[:6], eps))
            if self.kind != "SVGD" and not self.f32:
                ok = sigma > 1e-10 * (scale + 1e-3)
                self.z[i].append(np.where(ok, resid / np.where(sigma > 0, sigma, 1.), np.nan))
        self.dyn.observe(old64, new64, eps)

    def _rel(self, old, grads, eps, new, t):
        s = self.spec
        m, c, D, B = (s.get("mass", 1.), s.get("c", 1.), s.get("D", 1.), s.get("Bhat", 0.))
        v = [(n - o) / eps for n, o in zip(new, old)]
        lim = [np.abs(x) <= c * (1 + (1e-4 if self.f32 else 1e-9))
               + (2e-7 if self.f32 else 4e-16) * (np.abs(o) + np.abs(n)) / eps
               for x, o, n in zip(v, old, new)]
        for i, l in enumerate(lim):
            self.mon.check(bool(np.all(l)), self.clause + "-speed-limit",
                           lambda: "step %d parameter %d moved by %s, speed limit allows %s" % (
                               t, i, (new[i] - old[i]).ravel()[:6], eps * c))
        # resolution of the momentum that can be read off the displacement
        res = []
        p = []
        for x, o, n in zip(v, old, new):
            u = np.clip(np.abs(x) / c, 0, 1)
            bad = 1. - u * u < (3e-2 if self.f32 else 1e-5)
            with np.errstate(all="ignore"):
                q = np.where(bad, np.nan, rel_momentum(np.where(bad, 0., x), m, c))
                dv = ((3e-7 if self.f32 else 1e-15) * (np.abs(o) + np.abs(n) + eps * c)) / eps
                dp = np.where(bad, np.nan, m / np.where(bad, 1., 1. - u * u) ** 1.5 * dv)
            p.append(q)
            res.append(dp)
        sig = np.sqrt(max(eps * (2. * D - eps * B), 0.))
        if self.p is not None:
            for i in range(len(new)):
                mean = self.p[i] - eps * grads[i] - D * eps * rel_velocity(self.p[i], m, c)
                r = p[i] - mean
                tol = (self.res[i] + res[i]) * 4 + 8.5 * sig \
                    + (1e-4 if self.f32 else 1e-11) * (np.abs(mean) + eps * np.abs(grads[i]))
                ok = np.isfinite(r)
                self.mon.event(self.clause + "-momentum-elements", int(ok.sum()))
                self.mon.check(bool(np.all(np.abs(r[ok]) <= tol[ok])), self.clause,
                               lambda: "step %d parameter %d: momentum %s, update equation gives %s +- %s (gradient %s, stepsize %s)" % (
                                   t, i, p[i][ok].ravel()[:6], mean[ok].ravel()[:6], tol[ok].ravel()[:3],
                                   np.ravel(grads[i])[:6], eps))
                if sig > 0 and not self.f32:
                    self.z[i].append(r / sig if np.all(ok) else np.full(r.shape, np.nan))
        else:
            self.p0 = [q + eps * g for q, g in zip(p, grads)]   # exact only if D = 0
            self.v0 = v
        self.p, self.res = p, res

    def residuals(self):
        """per parameter: array (steps, elements)."""
        return [np.array([np.ravel(r) for r in z]) if z else np.zeros((0, 0)) for z in self.z]


def drive(chain, ref, mon, n, oracle=None, extra=None, on_step=None, cost_clause=None,
          sample_clause=None, eps_of=None):
    """Run n steps of the chain under the oracles. Returns list of samples, costs."""
    spec = chain.spec
    old = chain.values()
    out = []
    for t in range(n):
        fd = None
        ex = None
        if needs_extra(spec) and extra is not None:
            ex = extra(t)          # None: not fed in this step
            fd = {} if ex is None else {chain.feeds["extra"]: float(ex)}
        sample, cost = chain.next(fd)
        batch = make_batch(spec, chain.batches.n_next - 1) if needs_batch(spec) and chain.batches else None
        eps = float(chain.schedule.handed[-1]) if chain.schedule.handed else float(spec["eps"])
        c_ref, g_ref = ref(old, batch, ex)
        now = chain.values()
        if sample_clause:
            mon.check(len(sample) == len(now), sample_clause + "-count",
                      "sample has %d entries for %d parameters" % (len(sample), len(now)))
            for i, (a, b) in enumerate(zip(sample, now)):
                mon.same(a, b, sample_clause, "step %d parameter %d: returned sample vs value in session" % (t, i))
        f32 = np_dtype(spec) == np.float32
        if cost_clause and not np.all(np.abs(c_ref) <= (1e30 if f32 else 1e200)):
            mon.event("costs-of-diverged-chains")
        elif cost_clause:
            mon.close(np.asarray(cost, np.float64), np.asarray(c_ref, np.float64), cost_clause,
                      rtol=1e-4 if f32 else 1e-9, atol=1e-4 if f32 else 1e-9,
                      detail="step %d: returned cost vs cost at the values before the step" % t)
        if oracle is not None:
            oracle.step(old, g_ref, eps, now, t)
        out.append((sample, cost))
        if on_step:
            on_step(t, old, now, cost)
        old = now
    return out
