"""C33: what training logs is the state of training, and logging changes nothing."""
import logging
import re
import numpy as np
from vlib import chains as ch

NETS = ["two", "linear", "outbias", "single", "deep", None]


def cases(rng, tier):
    k = 1 if tier == "quick" else 8
    for i in range(32 * k):
        spec = dict(method=["SGHMC", "SGLD"][i % 2], net=NETS[i % 6], n_nets=int(ch.pick(rng, [1, 3, 7, 200])), burn=int(ch.pick(rng, [1, 2, 5, 20])),
                    sample_steps=int(ch.pick(rng, [1, 2, 3, 7])), n_iters=int(ch.pick(rng, [30, 60])), batch_size=int(ch.pick(rng, [1, 4, 20])),
                    seed=int(rng.randint(1 << 30)), eps=0.01, norm_in=bool(rng.rand() < .7), norm_out=bool(rng.rand() < .7))
        if i % 8 == 5:
            # several reports of burn-in
            spec.update(burn=int(ch.pick(rng, [511, 512, 513, 600, 1024, 1030])), net=ch.pick(rng, ["linear", "single", "two"]), n_iters=1100, sample_steps=int(ch.pick(rng, [1, 64])), n_nets=4)
        if rng.rand() < .15:
            spec["dtype"] = "float32"
        yield dict(spec=spec, N=int(ch.pick(rng, [700, 1500, 6000])) if i % 8 == 3 else int(ch.pick(rng, [2, 5, 12, 30])), D=int(ch.pick(rng, [1, 2, 3])), dseed=int(rng.randint(1 << 30)),
                   twice=bool(rng.rand() < .3), level=ch.pick(rng, ["info", "debug"]))


class Lines(logging.Handler):
    """The reports, each with the state at the time of the report."""

    def __init__(self, state):
        super().__init__(level=logging.DEBUG)
        self.state, self.lines, self.error = state, [], None

    def emit(self, record):
        text = record.getMessage()
        m = re.match(r"\s*Iter\s+(\d+)", text)
        if not m:
            return
        d = {a: float(b) for a, b in re.findall(r"(\w+)\s*=\s*([-+\w.]+)", text)}
        self.lines.append((int(m.group(1)), d, text, self.state()))


class watching(object):
    """The reports of what happens within."""

    def __init__(self, state, level):
        self.handler, self.level = Lines(state), level

    def __enter__(self):
        root = logging.getLogger()
        self.old = root.level, logging.root.manager.disable, list(root.handlers)
        for h in self.old[2]:
            root.removeHandler(h)
        logging.disable(logging.NOTSET)
        root.setLevel(dict(info=logging.INFO, debug=logging.DEBUG)[self.level])
        root.addHandler(self.handler)
        return self.handler

    def __exit__(self, *a):
        root = logging.getLogger()
        root.removeHandler(self.handler)
        for h in self.old[2]:
            root.addHandler(h)
        root.setLevel(self.old[0])
        logging.disable(self.old[1])


def run(case, mon):
    from vlib import bnn
    mon.key(case)
    spec, N, D = case["spec"], case["N"], case["D"]
    X, y = bnn.dataset(spec, N, D, case["dseed"])
    if not spec["norm_in"]:
        X = X / np.maximum(1, np.abs(X).max())
    Xn = bnn.normalise(X) if spec["norm_in"] else X
    yn = bnn.normalise(y) if spec["norm_out"] else y
    f32 = spec.get("dtype") == "float32"
    m, quiet = bnn.build(spec), bnn.build(spec)
    try:
        def state():
            # the parameters of the network: those of its latest training
            with m.graph.as_default():
                vs = m.bnn.network_params
            return [np.array(v, np.float64) for v in m.session.run(vs)], len(m.bnn.samples)
        for rep in range(2 if case["twice"] else 1):
            with watching(state, case["level"]) as h:
                m.train(X, y)
            nets = [[np.array(v) for v in s] for s in m.samples]
            check(mon, spec, h.lines, nets, Xn, yn, f32, "training %d of %s N=%d" % (rep + 1, spec, N))
            quiet.train(X, y)
            other = [[np.array(v) for v in s] for s in quiet.samples]
            mon.check(len(other) == len(nets), "reporting-changes-nothing", "%d networks with, %d without" % (len(nets), len(other)))
            for a, b in zip(nets, other):
                for u, v in zip(a, b):
                    mon.close(u, v, "reporting-changes-nothing", 1e-5 if f32 else 1e-9, 1e-5 if f32 else 1e-9, "%s" % spec)
        mon.state(spec["method"], spec["net"], spec["burn"], spec["sample_steps"], spec["n_nets"])
    finally:
        m.close()
        quiet.close()


def check(mon, spec, lines, nets, Xn, yn, f32, what):
    from vlib import bnn
    burn, every = spec["burn"], spec["sample_steps"]
    sampling = [i for i in range(burn + 1, spec["n_iters"]) if i % every == 0][:spec["n_nets"]]
    last = sampling[-1] if len(sampling) == spec["n_nets"] else spec["n_iters"] - 1
    want = [i for i in range(0, min(burn, last) + 1) if i % 512 == 0] + sampling
    got = [l[0] for l in lines]
    mon.check(got == want, "one-report-per-interval", lambda: "%s: iterations %s, expected %s" % (what, got[:12], want[:12]))
    mon.check(len(nets) == len(sampling), "one-report-per-network", "%s: %d networks, %d reports of sampling" % (what, len(nets), len(sampling)))
    b = min(spec["batch_size"], len(Xn))
    t0 = 0.
    for i, d, text, (params, n) in lines:
        out = bnn.np_forward(spec["net"], params, Xn)
        with np.errstate(all="ignore"):
            mse = float(np.mean((out[:, 0] - yn) ** 2))
            nll = [float(bnn.np_cost(out, yn, params, len(Xn), q)) for q in (b, len(Xn))]
        rt = 2e-2 if f32 else 3e-4
        if np.isfinite(mse) and mse < 1e30:
            mon.check(abs(d.get("MSE", np.nan) - mse) <= rt * mse + 1e-12, "mse-of-the-current-network-on-all-data", lambda: "%s: %r, mean squared error is %.6g" % (what, text, mse))
        if all(np.isfinite(nll)) and max(map(abs, nll)) < 1e30:
            # up to the documented constants of the batch size
            mon.check(min(abs(d.get("NLL", np.nan) - v) - rt * abs(v) for v in nll) <= 1e-6, "nll-of-the-current-network-on-all-data", lambda: "%s: %r, cost is %s" % (what, text, nll))
        if i > burn:
            mon.check(d.get("Samples") == n, "number-of-collected-networks", lambda: "%s: %r, %d networks collected so far" % (what, text, n))
            mon.event("reports-while-sampling")
        else:
            mon.check("Samples" not in d or d["Samples"] == 0, "number-of-collected-networks", lambda: "%s: %r in burn-in" % (what, text))
            mon.event("reports-of-burn-in")
        t = d.get("Time", -1.)
        mon.check(t >= t0, "time-never-decreases", "%s: %r after %g" % (what, text, t0))
        t0 = t
