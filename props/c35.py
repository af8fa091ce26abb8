"""C35: chains, streams, trainings and predictions in concurrent threads are what they are alone."""
import hashlib
import random
import sys
import threading
import time
import numpy as np
import tensorflow as tf
from vlib import chains as ch
from vlib import data as vdata

KINDS = ["SGHMC", "SGLD", "REL", "SVGD"]
NETS = ["two", "linear", "outbias", "single", "deep", None]


def chain_job(rng, kind=None):
    kind = kind or ch.pick(rng, KINDS)
    spec = dict(ch.rand_spec(rng, kind, dtype="float64"), seed=int(rng.randint(1 << 30)))
    return dict(what="chain", spec=spec, steps=int(ch.pick(rng, [6, 12, 18])), schedule=bool(rng.rand() < .6), fed=bool(rng.rand() < .5))


def stream_job(rng, shared=None):
    s = shared or vdata.rand_data(rng)
    s = dict(s, seed=int(rng.randint(1 << 30)))
    return dict(what="stream", data=s, gen=["plain", "shuffled"][int(rng.randint(2))], draws=int(ch.pick(rng, [10, 40])), shared=shared is not None)


def net_job(rng, i):
    spec = dict(method=["SGHMC", "SGLD"][i % 2], net=NETS[i % 6], n_nets=int(ch.pick(rng, [1, 3])), burn=int(ch.pick(rng, [1, 6])), sample_steps=int(ch.pick(rng, [1, 3])), n_iters=40,
                batch_size=int(ch.pick(rng, [1, 4, 20])), seed=int(rng.randint(1 << 30)), eps=0.005, norm_in=bool(rng.rand() < .7), norm_out=bool(rng.rand() < .7))
    return dict(what="network", spec=spec, N=int(ch.pick(rng, [5, 12, 30])), D=int(ch.pick(rng, [1, 3])), dseed=int(rng.randint(1 << 30)))


def cases(rng, tier):
    k = 1 if tier == "quick" else 10
    for i in range(24 * k):
        # chains of one session, made one after the other, advanced by threads
        same = i % 3 == 0
        kind = KINDS[i % 4]
        yield dict(mode="session", jobs=[chain_job(rng, kind if same else None) for _ in range(int(ch.pick(rng, [2, 3, 5])))], finalize=bool(rng.rand() < .5), seed=int(rng.randint(1 << 30)))
    for i in range(16 * k):
        yield dict(mode="own", jobs=[chain_job(rng, KINDS[i % 4] if i % 2 else None) for _ in range(int(ch.pick(rng, [2, 4])))] + [stream_job(rng)] * (i % 3 == 0), seed=int(rng.randint(1 << 30)))
    for i in range(24 * k):
        s = vdata.rand_data(rng)
        yield dict(mode="own", jobs=[stream_job(rng, s) for _ in range(int(ch.pick(rng, [2, 4, 6])))], seed=int(rng.randint(1 << 30)))
    for i in range(12 * k):
        yield dict(mode="own", jobs=[net_job(rng, i + 2 * j * int(rng.randint(2))) for j in range(2)] + ([chain_job(rng)] if i % 2 else []), seed=int(rng.randint(1 << 30)))
    for i in range(10 * k):
        yield dict(mode="predict", job=net_job(rng, i), threads=int(ch.pick(rng, [2, 4, 6])), calls=6, seed=int(rng.randint(1 << 30)))
    for i in range(10 * k):
        yield dict(mode="trace", job=chain_job(rng, KINDS[i % 3]), threads=int(ch.pick(rng, [2, 4])), seed=int(rng.randint(1 << 30)))


class Events(object):
    """In which order the threads came by."""

    def __init__(self, seed, lazy=0.002):
        self.order, self.rngs, self.seed, self.lazy = [], {}, seed, lazy

    def __call__(self, who):
        self.order.append(who)
        r = self.rngs.setdefault(who, random.Random("%s-%s" % (self.seed, who)))
        if self.lazy and r.random() < .4:
            time.sleep(r.random() * self.lazy)

    def switches(self):
        return sum(a != b for a, b in zip(self.order, self.order[1:]))

    def digest(self):
        return hashlib.sha1(repr(self.order).encode()).hexdigest()


class Eager(object):
    """Threads change places as often as the interpreter can."""

    def __enter__(self):
        self.old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)

    def __exit__(self, *a):
        sys.setswitchinterval(self.old)


def together(work):
    """Run the callables in threads that start at the same moment -> their results."""
    gate = threading.Barrier(len(work))
    out = [None] * len(work)

    def body(i):
        try:
            gate.wait(60)
            out[i] = ("ok", work[i]())
        except BaseException as e:
            out[i] = ("error", e)
    ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(work))]
    with Eager():
        for t in ts:
            t.start()
        for t in ts:
            t.join(140)
    return out


# -- jobs: each returns a list of arrays ---------------------------------------

def make_chain(job, graph=None, session=None):
    kw = {} if job["schedule"] else dict(use_schedule=False)
    return ch.Chain(job["spec"], graph=graph, session=session, init="missing" if graph is not None else "global", **kw)


def drive_chain(job, c, tick):
    out = []
    if job["schedule"]:
        # within the steps, too
        c.schedule.fault = lambda what: tick()
    if c.batches is not None:
        c.batches.fault = lambda what: tick()
    for k in range(job["steps"]):
        tick()
        fd = {c.feeds["extra"]: .1 * k} if job["fed"] and "extra" in c.feeds else None
        s, cost = c.next(fd)
        out += [np.array(v) for v in s] + [np.array(cost)]
    out.append(np.array(c.sampler.n_iterations))
    if job["schedule"]:
        out.append(np.array([c.schedule.n_next, len(c.schedule.updates)]))
        out += [np.asarray(u[0][0]) for u in c.schedule.updates[:5] if isinstance(u[0], list)]
    return out


def do_chain(job, tick):
    c = make_chain(job)
    try:
        return drive_chain(job, c, tick)
    finally:
        c.close()


def do_stream(job, tick, arrays=None):
    s = job["data"]
    x, y = arrays or vdata.dataset(s)
    with tf.Graph().as_default():
        xp, yp = tf.placeholder(tf.float64), tf.placeholder(tf.float64)
    out = []
    for k, b in zip(range(job["draws"]), vdata.generators()[job["gen"]](x=x, y=y, x_placeholder=xp, y_placeholder=yp, batch_size=s["b"], seed=s["seed"])):
        tick()
        out += [np.array(b[xp]), np.array(b[yp])]
    return out


def do_network(job, tick):
    from vlib import bnn
    spec = job["spec"]
    X, y = bnn.dataset(spec, job["N"], job["D"], job["dseed"])
    sched = ch.Schedule(spec["eps"], fault=lambda what: tick())
    m = bnn.Model(spec, schedule=sched)
    try:
        m.train(X, y)
        out = [np.array(v) for s in m.samples for v in s]
        out += [np.array(v) for v in m.predict(X[:4] + .1)]
        return out
    finally:
        m.close()


DO = dict(chain=do_chain, stream=do_stream, network=do_network)


def run(case, mon):
    mon.key(case)
    {"session": session, "own": own, "predict": predict, "trace": trace}[case["mode"]](case, mon)


def report(case, mon, ev, n):
    mon.event("events-of-threads", len(ev.order))
    mon.event("changes-between-threads", ev.switches())
    mon.state("interleaving", ev.digest())
    mon.event("threads-run", n)


def agree(mon, job, got, want, clause, what):
    if not mon.check(got[0] == "ok", "concurrent-use-does-not-fail", lambda: "%s: %s: %s" % (what, type(got[1]).__name__, str(got[1])[:600])):
        return
    got = got[1]
    if not mon.check(len(got) == len(want), clause, "%s: %d arrays alone, %d with others" % (what, len(want), len(got))):
        return
    for i, (a, b) in enumerate(zip(got, want)):
        if job["what"] == "stream":
            mon.same(a, b, clause, "%s: array %d" % (what, i))
        else:
            scale = float(np.max(np.abs(np.where(np.isfinite(b), b, 0.)))) if np.size(b) else 0.
            mon.close(a, b, clause, 1e-7, 1e-7 * scale, "%s: array %d" % (what, i))


CLAUSE = dict(chain="concurrent-chain-is-the-chain-alone", stream="concurrent-stream-is-the-stream-alone", network="concurrent-training-is-the-training-alone")


def own(case, mon):
    """Everything of its own but the process (and the data, where shared)."""
    jobs = case["jobs"]
    alone = [DO[j["what"]](j, lambda: None) for j in jobs]
    ev = Events(case["seed"], .0003 if jobs[0]["what"] == "stream" else .002)
    arrays = vdata.dataset(jobs[0]["data"]) if jobs[0].get("shared") else None

    def work(i, j):
        if arrays is not None:
            return lambda: do_stream(j, lambda: ev(i), arrays)
        return lambda: DO[j["what"]](j, lambda: ev(i))
    res = together([work(i, j) for i, j in enumerate(jobs)])
    for i, (j, r, a) in enumerate(zip(jobs, res, alone)):
        agree(mon, j, r, a, CLAUSE[j["what"]], "thread %d of %d: %s" % (i, len(jobs), describe(j)))
    report(case, mon, ev, len(jobs))


def describe(j):
    return {"chain": lambda: "%(kind)s %(cost)s" % j["spec"], "stream": lambda: "%s %s" % (j["gen"], j["data"]), "network": lambda: str(j["spec"])}[j["what"]]()


def session(case, mon):
    """Chains of one graph and one session."""
    jobs = case["jobs"]
    runs = []
    for how in ("alone", "threads"):
        g = tf.Graph()
        s = tf.Session(graph=g, config=ch.session_config([4, 2]))
        cs = [make_chain(j, g, s) for j in jobs]
        try:
            if case["finalize"]:
                g.finalize()
            if how == "alone":
                # one after the other, in the same graph
                runs.append([drive_chain(j, c, lambda: None) for j, c in zip(jobs, cs)])
            else:
                ev = Events(case["seed"])
                runs.append(together([lambda i=i, j=j, c=c: drive_chain(j, c, lambda: ev(i)) for i, (j, c) in enumerate(zip(jobs, cs))]))
                report(case, mon, ev, len(jobs))
        finally:
            s.close()
    for i, (j, a, r) in enumerate(zip(jobs, *runs)):
        agree(mon, j, r, a, CLAUSE["chain"], "thread %d of %d in one session: %s" % (i, len(jobs), describe(j)))


def predict(case, mon):
    """One trained network asked by several threads."""
    from vlib import bnn
    job, spec = case["job"], case["job"]["spec"]
    X, y = bnn.dataset(spec, job["N"], job["D"], job["dseed"])
    m = bnn.Model(spec)
    rng = np.random.RandomState(case["seed"])
    try:
        m.train(X, y)
        asked = [[(rng.normal(size=(int(ch.pick(rng, [1, 4, 11])), job["D"])) * 2, bool(rng.rand() < .3)) for _ in range(case["calls"])] for _ in range(case["threads"])]
        want = [[[np.array(v) for v in m.predict(p, return_individual_predictions=ind)] for p, ind in qs] for qs in asked]
        ev = Events(case["seed"])

        def ask(i):
            out = []
            for p, ind in asked[i]:
                ev(i)
                out += [np.array(v) for v in m.predict(p, return_individual_predictions=ind)]
            return out
        res = together([lambda i=i: ask(i) for i in range(case["threads"])])
        for i, r in enumerate(res):
            agree(mon, job, r, [v for q in want[i] for v in q], "concurrent-predictions-are-those-alone", "thread %d of %d: %s" % (i, case["threads"], spec))
        report(case, mon, ev, case["threads"])
    finally:
        m.close()


def trace(case, mon):
    """One trace read by several threads, while its sampler goes on."""
    from pysgmcmc.diagnostics.sample_chains import PYSGMCMCTrace
    job = case["job"]
    c = make_chain(job)
    try:
        names = ["v%d" % i for i in range(len(c.params))]
        t = PYSGMCMCTrace.from_sampler(chain_id=0, sampler=c.sampler, n_samples=12, varnames=names)
        rng = np.random.RandomState(case["seed"])
        asked = [[(ch.pick(rng, names), int(rng.randint(0, 6)), int(rng.randint(1, 5))) for _ in range(10)] for _ in range(case["threads"])]
        want = [[np.array(t.get_values(*a)) for a in q] for q in asked]
        ev = Events(case["seed"], .0005)

        def ask(i):
            out = []
            for a in asked[i]:
                ev(i)
                out.append(np.array(t.get_values(*a)))
            return out

        def go_on():
            for _ in range(8):
                ev(-1)
                c.next()
            return []
        res = together([lambda i=i: ask(i) for i in range(case["threads"])] + [go_on])
        mon.check(res[-1][0] == "ok", "concurrent-use-does-not-fail", lambda: "chain behind a trace: %s" % (res[-1][1],))
        for i, r in enumerate(res[:-1]):
            agree(mon, dict(what="stream"), r, want[i], "concurrent-traces-are-those-alone", "thread %d of %d" % (i, case["threads"]))
        report(case, mon, ev, case["threads"] + 1)
    finally:
        c.close()
