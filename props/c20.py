"""C20: objective functions against formulas written down independently here."""
import math
import numpy as np
from vlib import chains as ch

# -- reference formulas, in plain python/numpy, dimension and domain --------------

H3A = [[3., 10., 30.], [.1, 10., 35.], [3., 10., 30.], [.1, 10., 35.]]
H3P = [[.3689, .1170, .2673], [.4699, .4387, .7470], [.1090, .8732, .5547], [.0381, .5743, .8828]]
H6A = [[10., 3., 17., 3.5, 1.7, 8.], [.05, 10., 17., .1, 8., 14.], [3., 3.5, 1.7, 10., 17., 8.], [17., 8., .05, 10., .1, 14.]]
H6P = [[.1312, .1696, .5569, .0124, .8283, .5886], [.2329, .4135, .8307, .3736, .1004, .9991],
       [.2348, .1451, .3522, .2883, .3047, .6650], [.4047, .8828, .8732, .5743, .1091, .0381]]
AL = [1., 1.2, 3., 3.2]


def hart(x, A, P):
    return -math.fsum(a * math.exp(-math.fsum(w * (xi - p) ** 2 for w, p, xi in zip(Ar, Pr, x)))
                      for a, Ar, Pr in zip(AL, A, P))


def r_branin(x):
    a, b, c, r, s, t = 1., 5.1 / (4 * math.pi ** 2), 5 / math.pi, 6., 10., 1 / (8 * math.pi)
    return a * (x[1] - b * x[0] ** 2 + c * x[0] - r) ** 2 + s * (1 - t) * math.cos(x[0]) + s


def r_camel(x):
    u, v = x
    return 4 * u ** 2 - 2.1 * u ** 4 + u ** 6 / 3 + u * v - 4 * v ** 2 + 4 * v ** 4


def r_gold(x):
    u, v = x
    a = 1 + (u + v + 1) ** 2 * (19 - 14 * u + 3 * u * u - 14 * v + 6 * u * v + 3 * v * v)
    b = 30 + (2 * u - 3 * v) ** 2 * (18 - 32 * u + 12 * u * u + 48 * v - 36 * u * v + 27 * v * v)
    return a * b


def r_levy(x):
    w = 1 + (x[0] - 1) / 4
    return math.sin(math.pi * w) ** 2 + (w - 1) ** 2 * (1 + math.sin(2 * math.pi * w) ** 2)


def s1(u):
    return .5 * math.sin(13 * u) * math.sin(27 * u) + .5


S = 0.6330131633013163
F = {
    "bohachevski": (lambda x: x[0] ** 2 + 2 * x[1] ** 2 - .3 * math.cos(3 * math.pi * x[0]) - .4 * math.cos(4 * math.pi * x[1]) + .7,
                    [(-100, 100)] * 2, [[0., 0.]], 0.),
    "branin": (r_branin, [(-5, 10), (0, 15)], [[-math.pi, 12.275], [math.pi, 2.275], [9.42478, 2.475]], 0.39788735773),
    "camelback": (r_camel, [(-3, 3), (-2, 2)], [[0.0898, -0.7126], [-0.0898, 0.7126]], -1.03162842),
    "goldstein_price": (r_gold, [(-2, 2)] * 2, [[0., -1.]], 3.),
    "hartmann3": (lambda x: hart(x, H3A, H3P), [(0, 1)] * 3, [[0.114614, 0.555649, 0.852547]], -3.8627795317627736),
    "hartmann6": (lambda x: hart(x, H6A, H6P), [(0, 1)] * 6, [[0.20169, 0.150011, 0.476874, 0.275332, 0.311652, 0.6573]], -3.322368011391339),
    "levy": (r_levy, [(-15, 10)], [[1.]], 0.),
    "rosenbrock": (lambda x: 100 * (x[1] - x[0] ** 2) ** 2 + (1 - x[0]) ** 2, [(-5, 10)] * 2, [[1, 1]], 0.),
    "sin_one": (lambda x: s1(x[0]), [(0, 1)], [[S]], 0.042926342433644127),
    "sin_two": (lambda x: s1(x[0]) * s1(x[1]), [(0, 1)] * 2, [[S, S]], 0.042926342433644127 ** 2),
}

GMM = {"gmm1_log_likelihood": (1., 1., 1.), "gmm2_log_likelihood": (2., .5, 2.), "gmm3_log_likelihood": (1 / .3, .3, 1 / .3)}


def r_gmm(x, mu, var, w):
    t = [math.log(b) - .5 * math.log(2 * math.pi * v) - .5 * (x - m) ** 2 / v for m, v, b in zip(mu, var, w)]
    m = max(t)
    return m + math.log(math.fsum(math.exp(s - m) for s in t))


def d_gmm(x, mu, var, w):
    t = [math.log(b) - .5 * math.log(2 * math.pi * v) - .5 * (x - m) ** 2 / v for m, v, b in zip(mu, var, w)]
    m = max(t)
    e = [math.exp(s - m) for s in t]
    return math.fsum(-k * (x - a) / v for k, a, v in zip(e, mu, var)) / math.fsum(e)


def r_banana(x):
    return -.5 * (.01 * x[0] ** 2 + (x[1] + .1 * x[0] ** 2 - 10) ** 2)


def d_banana(x):
    q = x[1] + .1 * x[0] ** 2 - 10
    return [-.01 * x[0] - .2 * x[0] * q, -q]


def cases(rng, tier):
    k = 1 if tier == "quick" else 6
    for rep in range(k):
        for name in F:
            yield dict(mode="function", name=name, seed=int(rng.randint(1 << 30)), n=400)
        for _ in range(3):
            yield dict(mode="banana", seed=int(rng.randint(1 << 30)))
        for name in GMM:
            yield dict(mode="gmm", name=name, seed=int(rng.randint(1 << 30)), n=25)
        for _ in range(4):
            m = int(ch.pick(rng, [1, 2, 3, 5]))
            w = rng.uniform(.1, 1., m)
            yield dict(mode="gmm", name="gaussian_mixture_model_log_likelihood", seed=int(rng.randint(1 << 30)), n=20,
                       mu=[float(x) for x in rng.uniform(-6, 6, m)], var=[float(x) for x in rng.uniform(.2, 4., m)],
                       weights=[float(x) for x in w / w.sum()])
        yield dict(mode="sinc", seed=int(rng.randint(1 << 30)))
        yield dict(mode="negate", seed=int(rng.randint(1 << 30)))


def run(case, mon):
    mon.key(case)
    from pysgmcmc.diagnostics import objective_functions as O
    rng = np.random.RandomState(case["seed"])
    {"function": function, "banana": banana, "gmm": gmm, "sinc": sinc, "negate": negate}[case["mode"]](case, mon, O, rng)


def near(a, b, rtol=1e-10, atol=1e-11):
    return abs(float(a) - b) <= atol + rtol * abs(b)


def function(case, mon, O, rng):
    name = case["name"]
    f = getattr(O, name)
    ref, dom, optima, fopt = F[name]
    lo, hi = np.array(dom, float).T
    pts = [lo + (hi - lo) * rng.rand(len(dom)) for _ in range(case["n"])]
    pts += [np.where(rng.rand(len(dom)) < .5, lo, hi) for _ in range(8)]
    pts += [np.array(o, float) + rng.normal(size=len(dom)) * s for o in optima for s in (1e-6, 1e-4, 1e-2, .1) for _ in range(10)]
    pts = [np.clip(p, lo, hi) for p in pts]
    if name not in ("sin_one", "sin_two"):
        # defined everywhere, not only on the usual box
        pts += [lo + (hi - lo) * rng.uniform(-1, 2, len(dom)) for _ in range(40)]
    if name not in ("sin_one", "sin_two", "levy"):
        # (sines and cosines of large arguments are but a small part of these)
        pts += [rng.uniform(-1, 1, len(dom)) * 10. ** rng.uniform(1, 5) for _ in range(40)]
    big = max(1., max(abs(ref(p)) for p in pts))
    for p in pts:
        want = ref([float(v) for v in p])
        for form, x in (("list", [float(v) for v in p]), ("array", np.array(p)), ("tuple", tuple(p))):
            got = f(x)
            mon.check(np.shape(got) == () and near(got, want, 1e-9, 1e-9 * min(big, 10.)), "formula",
                      lambda: "%s(%s as %s) = %r, formula gives %r" % (name, list(p), form, got, want))
        mon.check(float(f(p)) >= fopt - 1e-6 * max(1, abs(fopt)), "never-below-optimum", "%s(%s) = %r < %r" % (name, list(p), f(p), fopt))
        mon.state(name, [round(float(v), 3) for v in p])
    for o in optima:
        mon.check(np.allclose(f(o), fopt, rtol=1e-5, atol=1e-8), "optimum-attained", "%s(%s) = %r, documented %r" % (name, o, f(o), fopt))
    # look for something lower
    from scipy.optimize import minimize
    for p in pts[:12] + [np.array(o, float) for o in optima]:
        r = minimize(lambda x: float(f(np.clip(x, lo, hi))), p, method="Nelder-Mead", options=dict(maxiter=300))
        mon.check(r.fun >= fopt - 1e-6 * max(1, abs(fopt)), "never-below-optimum", "%s(%s) = %r < %r" % (name, np.clip(r.x, lo, hi), r.fun, fopt))
    # arrays of single precision
    for p in pts[:20]:
        p32 = np.asarray(p, np.float32)
        mon.check(near(f(p32), ref([float(v) for v in p32]), 2e-3, 2e-4 * big), "formula-float32", name)


def tf_eval(build, points, dtype, variable):
    """values and gradients of build(list of tensors) at each point"""
    import tensorflow as tf
    g = tf.Graph()
    out = []
    with g.as_default(), tf.Session(graph=g) as s:
        d = len(points[0])
        if variable:
            xs = [tf.Variable(0., dtype=dtype) for _ in range(d)]
            s.run(tf.global_variables_initializer())
        else:
            xs = [tf.placeholder(dtype, ()) for _ in range(d)]
        y = build(xs)
        gr = tf.gradients(y, xs)
        for p in points:
            if variable:
                for x, v in zip(xs, p):
                    x.load(v, s)
                out.append(s.run([y, gr]))
            else:
                out.append(s.run([y, gr], dict(zip(xs, p))))
    return out


def banana(case, mon, O, rng):
    f = O.banana_log_likelihood
    pts = [[float(v) for v in rng.uniform(-30, 30, 2)] for _ in range(150)] + [[0., 10.], [1e3, -1e4], [0., 0.]] + [[float(v) for v in rng.uniform(-1, 1, 2) * 10. ** rng.uniform(2, 6)] for _ in range(30)]
    mon.check(float(f((0, 10))) == 0., "optimum-attained", "banana at (0, 10)")
    for p in pts:
        want = r_banana(p)
        for x in (p, tuple(p), np.array(p)):
            mon.check(near(f(x), want), "formula", "banana%s = %r, formula %r" % (p, f(x), want))
        mon.check(f(p) <= 0, "never-below-optimum", "banana%s = %r" % (p, f(p)))
    for dtype in ("float64", "float32"):
        for variable in (True, False):
            for p, (v, g) in zip(pts[:40], tf_eval(lambda xs: f(xs), pts[:40], dtype, variable)):
                tol = 1e-10 if dtype == "float64" else 2e-3
                want, dw = r_banana(p), d_banana(p)
                mon.check(v.dtype == np.dtype(dtype) and near(v, want, tol, tol * 10), "tensorflow-value", "banana%s (%s): %r, %r" % (p, dtype, v, want))
                mon.check(all(near(a, b, tol * 5, tol * 100) for a, b in zip(g, dw)), "tensorflow-gradient", "banana%s (%s): %s, %s" % (p, dtype, g, dw))
    neg = O.to_negative_log_likelihood(f)
    for p, (v, g) in zip(pts[:10], tf_eval(lambda xs: neg(xs), pts[:10], "float64", True)):
        mon.check(near(v, -r_banana(p)), "tensorflow-value", "negative banana")


def gmm(case, mon, O, rng):
    base = getattr(O, case["name"])
    if "mu" in case:
        mu, var, w = case["mu"], case["var"], case["weights"]

        def f(x):
            return base(x, mu=mu, var=var, weights=w)
    else:
        mu, var, w = (-5., 0., 5.), GMM[case["name"]], (1 / 3.,) * 3
        f = base
    what = "%s mu=%s var=%s w=%s" % (case["name"], mu, var, w)
    pts = [float(x) for x in rng.uniform(-12, 12, case["n"])] + [0., 5., -5., 2.5, -40., 60., 300., 4e4, -7e5, 3e7]
    for x in pts:
        want = r_gmm(x, mu, var, w)
        for arg in (x, [x], (x,), np.array([x]), np.float64(x)):
            mon.check(near(f(arg), want), "formula", lambda: "%s at %r: %r, formula %r" % (what, arg, f(arg), want))
    for dtype in ("float64", "float32"):
        for variable in (True, False):
            for p, (v, g) in zip(pts, tf_eval(lambda xs: f(xs), [[x] for x in pts], dtype, variable)):
                tol = 1e-10 if dtype == "float64" else 3e-5
                want, dw = r_gmm(p, mu, var, w), d_gmm(p, mu, var, w)
                mon.check(np.shape(v) == () and v.dtype == np.dtype(dtype) and near(v, want, tol, tol), "tensorflow-value",
                          "%s at %r (%s, %s): %r, formula %r" % (what, p, dtype, "variable" if variable else "tensor", v, want))
                mon.check(near(g[0], dw, tol * 10, tol * 10 + (0 if dtype == "float64" else 2e-3)), "tensorflow-gradient", "%s at %r (%s): %r, formula %r" % (what, p, dtype, g[0], dw))
    from scipy.integrate import quad
    total = quad(lambda x: math.exp(float(f(x))), -60, 60, points=sorted(mu), limit=400)[0]
    mon.check(abs(total - 1) < 1e-6, "mixture-integrates-to-one", "%s: %r" % (what, total))


def sinc(case, mon, O, rng):
    for N, D in ((1, 1), (5, 1), (4, 3), (50, 2), (1, 7)):
        for scale in (1., 5.):
            x = rng.uniform(-scale, scale, size=(N, D))
            x.ravel()[0] = 0.5            # the removable singularity
            want = [math.fsum(1. if 10 * v == 5 else math.sin(math.pi * (10 * v - 5)) / (math.pi * (10 * v - 5)) for v in r) for r in x]
            got = np.asarray(O.sinc(x))
            mon.check(got.shape == (N,) and all(near(a, b, 1e-9, 1e-9) for a, b in zip(got, want)), "formula", "sinc%s: %s, %s" % ((N, D), got[:3], want[:3]))


def negate(case, mon, O, rng):
    seen = []

    def weird(*args, **kwargs):
        """doc of weird"""
        seen.append((args, kwargs))
        return np.float64(rng.normal())
    neg = O.to_negative_log_likelihood(weird)
    mon.check(neg.__name__ == "weird", "name-kept", neg.__name__)
    state = rng.get_state()
    for args, kw in (((), {}), ((1, 2), {}), (([1, 2],), dict(a=3)), ((), dict(x=1, y=[2])), ((None,), {})):
        st = rng.get_state()
        a = neg(*args, **kw)
        rng.set_state(st)
        b = weird(*args, **kw)
        mon.check(a == -b, "exactly-negated", "%s %s" % (args, kw))
        mon.check(seen[-2] == (args, kw), "arguments-passed-on", "%s" % (seen[-2],))
    for name in list(GMM) + list(F) + ["banana_log_likelihood"]:
        f = getattr(O, name)
        g = O.to_negative_log_likelihood(f)
        d = len(F[name][1]) if name in F else 2 if "banana" in name else 1
        mon.check(g.__name__ == f.__name__, "name-kept", name)
        for _ in range(20):
            x = [float(v) for v in rng.uniform(0, 1, d)]
            mon.check(g(x) == -f(x), "exactly-negated", name)
            mon.check(g(x=x) == -f(x=x), "exactly-negated", name)

    def fails(x):
        raise KeyError("inside")
    mon.raises(KeyError, lambda: O.to_negative_log_likelihood(fails)(1), "exactly-negated", "exceptions pass through")
    rng.set_state(state)
