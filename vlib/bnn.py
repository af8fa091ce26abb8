"""Bayesian neural networks under observation.

spec: method, net, n_nets, n_iters, burn, sample_steps, batch_size, seed, norm_in,
norm_out, dtype, eps, kw (further sampler arguments)
"""
import numpy as np
import tensorflow as tf

from vlib import chains as ch

DOC_DEFAULTS = dict(batch_size=20, n_nets=100, n_iters=50000, burn=1000, sample_steps=100)


def _w(rng, shape, scale):
    return rng.uniform(-scale, scale, size=shape)


def layers(net, n_inputs, seed):
    """Architecture as a list of (W, b) numpy start values; out = 2 columns."""
    rng = np.random.RandomState([0 if seed is None else seed % (1 << 31), 3, n_inputs])
    if net == "two":
        dims = [n_inputs, 6, 2]
    elif net == "deep":
        dims = [n_inputs, 5, 4, 3, 2]
    elif net == "linear":
        dims = [n_inputs, 2]
    else:
        raise KeyError(net)
    return [(_w(rng, (a, b), 1. / np.sqrt(a)), _w(rng, (b,), 0.3)) for a, b in zip(dims[:-1], dims[1:])]


def make_net(net):
    """get_net callable with the documented signature."""
    def get_net(inputs, seed=None, dtype=tf.float64):
        d = int(inputs.shape[1])
        if net == "single":
            # a single trainable variable
            rng = np.random.RandomState([0 if seed is None else seed % (1 << 31), 4, d])
            w = tf.Variable(_w(rng, (d, 2), 1.), dtype=dtype, name="w")
            return tf.matmul(inputs, w) + tf.constant([[0.1, -2.]], dtype=dtype)
        if net == "outbias":
            ls = layers("two", d, seed)[:1]
            h = inputs
            for i, (W, b) in enumerate(ls):
                h = tf.tanh(tf.matmul(h, tf.Variable(W, dtype=dtype)) + tf.Variable(b, dtype=dtype))
            rng = np.random.RandomState([0 if seed is None else seed % (1 << 31), 5])
            m = tf.matmul(h, tf.Variable(_w(rng, (6, 1), .5), dtype=dtype))
            # a scalar
            s = tf.Variable(np.log(1e-3), dtype=dtype, name="output_bias")
            return tf.concat([m, tf.ones_like(m) * s], axis=1)
        h = inputs
        ls = layers(net, d, seed)
        if net == "deep":
            # a variable that is not to be trained
            h = h * tf.Variable(1.5, dtype=dtype, name="scale", trainable=False)
        for i, (W, b) in enumerate(ls):
            h = tf.matmul(h, tf.Variable(W, dtype=dtype, name="W%d" % i)) + tf.Variable(b, dtype=dtype, name="b%d" % i)
            if i < len(ls) - 1:
                h = tf.tanh(h)
        return h
    return get_net


def forward(net, params, X, dtype=np.float64):
    """The same networks in numpy: params in the order their variables are made."""
    p = [np.asarray(v, dtype=np.float64) for v in params]
    X = np.asarray(X, dtype=np.float64)
    if net == "single":
        return X @ p[0] + np.array([[0.1, -2.]])
    if net == "outbias":
        m = np.tanh(X @ p[0] + p[1]) @ p[2]
        return np.concatenate([m, np.ones_like(m) * p[3]], axis=1)
    h = X * 1.5 if net == "deep" else X
    for i in range(0, len(p), 2):
        h = h @ p[i] + p[i + 1]
        if i < len(p) - 2:
            h = np.tanh(h)
    return h


class Model(object):
    """A real BayesianNeuralNetwork with its own graph and session."""

    def __init__(self, spec, batch_generator=None, schedule=None, threads=None, graph=None, session=None, get_net=None):
        from pysgmcmc.models.bayesian_neural_network import BayesianNeuralNetwork
        from pysgmcmc.sampling import Sampler
        self.spec = spec
        self.graph = graph or tf.Graph()
        with self.graph.as_default():
            self.session = session or tf.Session(graph=self.graph, config=ch.session_config(threads))
            kw = dict(spec.get("kw", {}))
            if batch_generator is not None:
                kw["batch_generator"] = batch_generator
            if schedule is not None:
                kw["stepsize_schedule"] = schedule
            elif "eps" in spec:
                kw["stepsize_schedule"] = ch.Schedule(spec["eps"])
            for name, arg in (("n_nets", "n_nets"), ("n_iters", "n_iters"), ("burn", "burn_in_steps"),
                              ("sample_steps", "sample_steps"), ("batch_size", "batch_size"),
                              ("seed", "seed"), ("norm_in", "normalize_input"), ("norm_out", "normalize_output")):
                if name in spec:
                    kw[arg] = spec[name]
            if "dtype" in spec:
                kw["dtype"] = tf.as_dtype(spec["dtype"])
            if spec.get("net") is not None:
                kw["get_net"] = get_net or make_net(spec["net"])
            if "method" in spec:
                kw["sampling_method"] = getattr(Sampler, spec["method"])
            self.bnn = BayesianNeuralNetwork(session=self.session, **kw)

    def train(self, X, y):
        with self.graph.as_default():
            return self.bnn.train(X, y)

    def predict(self, X, **kw):
        with self.graph.as_default():
            return self.bnn.predict(X, **kw)

    @property
    def samples(self):
        return list(self.bnn.samples)

    def close(self):
        self.session.close()


def build(spec, **kw):
    return Model(spec, **kw)


# -- training under observation ------------------------------------------------

def dataset(spec, N, D, seed, dtype="float64", ydtype=None):
    """Regression data with scales away from 0 and 1."""
    rng = np.random.RandomState([seed, 21])
    X = rng.uniform(-2., 2., size=(N, D)) * np.exp(rng.uniform(-1, 1.5, size=D)) + rng.uniform(-3, 3, size=D)
    y = np.sin(X[:, 0]) * 2. + 0.3 * X.sum(axis=1) + rng.normal(size=N) * .2 + 4.
    return X.astype(dtype), y.astype(ydtype or dtype)


def normalise(v):
    """What a normalising network trains on."""
    v = np.asarray(v, dtype=np.float64)
    m, s = v.mean(axis=0), v.std(axis=0)
    return (v - m) / np.where(s == 0, 1., s)


def param_shapes(net, D):
    if net is None:
        dims = [D, 50, 50, 50, 1]
        out = []
        for a, b in zip(dims[:-1], dims[1:]):
            out += [[a, b], [b]]
        return out + [[1, 1]]
    if net == "single":
        return [[D, 2]]
    if net == "outbias":
        return [[D, 6], [6], [6, 1], []]
    dims = dict(two=[D, 6, 2], deep=[D, 5, 4, 3, 2], linear=[D, 2])[net]
    out = []
    for a, b in zip(dims[:-1], dims[1:]):
        out += [[a, b], [b]]
    return out


def tf_forward(net, p, X):
    """The networks as functions of given parameter tensors."""
    if net == "single":
        return tf.matmul(X, p[0]) + tf.constant([[0.1, -2.]], dtype=X.dtype)
    if net == "outbias":
        m = tf.matmul(tf.tanh(tf.matmul(X, p[0]) + p[1]), p[2])
        return tf.concat([m, tf.ones_like(m) * p[3]], axis=1)
    if net is None:
        h = X
        for i in (0, 2, 4, 6):
            h = tf.matmul(h, p[i]) + p[i + 1]
            if i < 6:
                h = tf.tanh(h)
        return tf.concat([h, tf.ones_like(h) * p[8]], axis=1)
    h = X * 1.5 if net == "deep" else X
    for i in range(0, len(p), 2):
        h = tf.matmul(h, p[i]) + p[i + 1]
        if i < len(p) - 2:
            h = tf.tanh(h)
    return h


def np_forward(net, p, X):
    if net is not None:
        return forward(net, p, X)
    h = np.asarray(X, np.float64)
    p = [np.asarray(v, np.float64) for v in p]
    for i in (0, 2, 4, 6):
        h = h @ p[i] + p[i + 1]
        if i < 6:
            h = np.tanh(h)
    return np.concatenate([h, np.ones_like(h) * p[8]], axis=1)


def np_cost(out, y, params, N, b):
    """The documented negative log posterior of a batch."""
    m, s = out[:, 0], out[:, 1]
    y = np.asarray(y, np.float64).ravel()
    ll = np.sum(-(y - m) ** 2 * 0.5 / (np.exp(s) + 1e-16) - 0.5 * s) / b
    ll += np.mean(-(s - np.log(1e-6)) ** 2 / (2 * 0.01) - 0.5 * np.log(0.01)) / N
    P = sum(np.size(v) for v in params)
    ll += sum(-0.5 * np.sum(np.square(np.asarray(v, np.float64))) for v in params) / P / N
    return -ll


class CostReference(object):
    """Documented cost and its gradients at given values, in a graph without
    variables (float64)."""

    def __init__(self, net, D, N, b):
        self.graph = tf.Graph()
        with self.graph.as_default():
            self.p = [tf.placeholder(tf.float64, s) for s in param_shapes(net, D)]
            self.x = tf.placeholder(tf.float64, (None, D))
            self.y = tf.placeholder(tf.float64, (None, 1))
            o = tf_forward(net, self.p, self.x)
            m, s = o[:, :1], o[:, 1:]
            ll = tf.reduce_sum(-tf.square(self.y - m) * 0.5 / (tf.exp(s) + 1e-16) - 0.5 * s) / b
            ll += tf.reduce_mean(-tf.square(s - np.log(1e-6)) / 0.02 - 0.5 * np.log(0.01)) / N
            P = sum(int(np.prod(q, dtype=int)) for q in param_shapes(net, D))
            ll += tf.add_n([-0.5 * tf.reduce_sum(tf.square(q)) for q in self.p]) / P / N
            self.cost = -ll
            self.grads = [tf.convert_to_tensor(g) for g in tf.gradients(self.cost, self.p)]
            self.session = tf.Session(graph=self.graph, config=ch.session_config(None))

    def __call__(self, values, x, y):
        fd = dict(zip(self.p, values))
        fd[self.x], fd[self.y] = x, np.reshape(y, (-1, 1))
        c, g = self.session.run([self.cost, self.grads], fd)
        return float(c), [np.asarray(v) for v in g]

    def close(self):
        self.session.close()


def network_variables(m):
    """The network's own variables: those made first (samplers add clones of theirs)."""
    with m.graph.as_default():
        vs = tf.trainable_variables()
    net = m.spec.get("net")
    n = {"single": 1, "linear": 2, "two": 4, "deep": 8, "outbias": 4, None: 9}[net]
    return vs[:n]


class Recorder(object):
    """Batch generator wrapper and stepsize schedule of one training run; what they
    see is the whole history of the chain."""

    def __init__(self, spec, generator=None):
        self.spec = spec
        self.made = []          # arguments of each batch generator made
        self.old, self.batches, self.eps, self.new, self.costs = [], [], [], [], []
        self.generator = generator
        self.model = None
        self.schedule = ch.Schedule(spec.get("eps", 0.01), fault=self._hook)
        orig = self.schedule.update

        def update(*a, **k):
            orig(*a, **k)
            sample, cost = self.schedule.updates[-1]
            self.new.append(sample if isinstance(sample, list) else [sample])
            self.costs.append(cost)
        self.schedule.update = update

    def _hook(self, what):
        if what == "next":
            m = self.model
            vs = network_variables(m)
            self.old.append([np.array(v) for v in m.session.run(vs)])

    def make(self, x, x_placeholder, y, y_placeholder, batch_size, seed=None, **kw):
        from pysgmcmc.data_batches import generate_batches
        self.made.append(dict(x=np.array(x), y=np.array(y), batch_size=batch_size, seed=seed, extra=kw,
                              x_placeholder=x_placeholder, y_placeholder=y_placeholder))
        inner = (self.generator or generate_batches)(
            x=x, x_placeholder=x_placeholder, y=y, y_placeholder=y_placeholder, batch_size=batch_size, seed=seed)
        for b in inner:
            for k, f in self.spec.get("scale_y", ()):
                if len(self.batches) >= k:
                    b = dict(b)
                    b[y_placeholder] = b[y_placeholder] * f
            self.batches.append((np.array(b[x_placeholder]), np.array(b[y_placeholder])))
            yield b


def observed(spec, generator=None):
    r = Recorder(spec, generator)
    made = []

    def batch_generator(*a, **k):
        # a plain function, so that what it is called with is known at once
        made.append((a, k))
        return r.make(*a, **k)
    r.calls = made
    m = Model(spec, batch_generator=batch_generator, schedule=r.schedule)
    r.model = m
    return m, r
