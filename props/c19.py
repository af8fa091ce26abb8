"""C19: multi-chain extraction and diagnostics."""
import numpy as np
from vlib import chains as ch
from vlib import env
from props.c18 import recording

KINDS = ["SGHMC", "SGLD", "REL", "SVGD"]


def cases(rng, tier):
    n = 72 if tier == "quick" else 480
    for k in range(n):
        kind = KINDS[k % 4]
        spec = ch.rand_spec(rng, kind, dtype="float64")
        yield dict(how=["multitrace", "multitrace", "effective_n", "multitrace", "gelman_rubin", "multitrace"][(k // 4) % 6],
                   spec=spec, n_chains=int(ch.pick(rng, [1, 2, 2, 3, 4, 6])), samples=int(ch.pick(rng, [1, 3, 8])),
                   keep=int(ch.pick(rng, [1, 2, 3, 5, 14, 30])), seeds=[int(x) for x in rng.randint(1 << 30, size=4)],
                   advance=int(ch.pick(rng, [0, 0, 3, spec.get("burn", 4), spec.get("burn", 4) + 3])),
                   init=ch.pick(rng, ["none", "all", "loaded"]), names=bool(rng.rand() < .4),
                   caller=ch.pick(rng, ["bare", "session", "graph"]), extra_var=bool(rng.rand() < .4),
                   defaults=bool(rng.rand() < .1), fail=bool(rng.rand() < .08))


def alike(a, b):
    """Equal dictionaries of numbers and arrays; nan is nan."""
    return isinstance(a, dict) and set(a) == set(b) and all(
        type(a[k]) is type(b[k]) and np.array_equal(a[k], b[k], equal_nan=True) for k in b)


class GetSamplerFailed(Exception):
    pass


def run(case, mon):
    import tensorflow as tf
    caller = case["caller"]
    outer = tf.Graph()
    if caller == "bare":
        body(case, mon, tf, None)
    else:
        with outer.as_default():
            v = tf.Variable(1.5, name="callers")
            s = tf.Session(graph=outer)
            s.run(v.initializer)
            try:
                if caller == "session":
                    with s.as_default():
                        body(case, mon, tf, s)
                        mon.check(tf.get_default_session() is s, "callers-session-stays-default", "")
                else:
                    body(case, mon, tf, None)
                mon.check(s.run(v) == 1.5, "callers-session-usable", "")
            finally:
                s.close()
    mon.key(case)


def body(case, mon, tf, callers_session):
    from pysgmcmc.diagnostics.sample_chains import pymc3_multitrace
    from pysgmcmc.diagnostics import sampler_diagnostics as sd
    spec, how = case["spec"], case["how"]
    kind = spec["kind"]
    calls = []
    caller_graph = tf.get_default_graph()
    n_ops = len(caller_graph.get_operations())

    def get_sampler(session):
        i = len(calls)
        g = tf.get_default_graph()
        info = dict(session=session, graph=session.graph, default=g is session.graph, ops=len(session.graph.get_operations()),
                    default_session=tf.get_default_session() is session)
        try:
            with session.graph.as_default():
                session.run(tf.constant(1.))
            info["open"] = True
        except RuntimeError:
            info["open"] = False
        calls.append(info)
        if case["fail"] and i == case["n_chains"] - 1:
            raise GetSamplerFailed("no sampler")
        sp = dict(spec, seed=case["seeds"][i % 4], pseed=spec["pseed"] + i)
        with session.graph.as_default():
            if case["extra_var"]:
                info["extra"] = tf.Variable(2.5, name="extra")
            c = ch.Chain(sp, graph=session.graph, session=session, init=None,
                         factory=recording(ch.sampler_class(kind)))
            info["chain"], info["spec"] = c, sp
            start = None
            if case["init"] in ("all", "loaded") or case["advance"]:
                session.run(tf.global_variables_initializer())
            if case["init"] == "loaded":
                start = [v + 0.25 for v in c.start]
                c.assign(start)
                if case["extra_var"]:
                    info["extra"].load(9.5, session)
            info["start"] = start
            for _ in range(case["advance"]):
                next(c.sampler)
            info["n0"] = len(c.sampler.__dict__.get("record", []))
        return c.sampler

    names = ["q%d" % i for i in range(len(spec["shapes"]))] if case["names"] and how == "multitrace" else None
    n_chains, samples, keep = case["n_chains"], case["samples"], case["keep"]
    log = env.stub_log()
    k0 = len(log)
    result = None
    try:
        if how == "multitrace":
            kw = dict(n_chains=n_chains, samples_per_chain=samples, keep_every=keep)
            if names:
                kw["parameter_names"] = names
            if case["defaults"]:
                kw = {}
                n_chains, samples, keep, names = 2, 100, 10, None
            mt = pymc3_multitrace(get_sampler, **kw)
        else:
            f = sd.effective_sample_sizes if how == "effective_n" else sd.gelman_rubin
            kw = dict(n_chains=n_chains, samples_per_chain=samples)
            if case["defaults"]:
                kw = {}
                n_chains, samples = 2, 100
            result = f(get_sampler=get_sampler, **kw)
            mt = None
        mon.check(not (case["fail"] and n_chains == case["n_chains"]) or case["defaults"] and case["n_chains"] > 2, "failure-reaches-caller", "get_sampler raised, but a result came back")
    except GetSamplerFailed:
        mon.event("failure-reaches-caller")
        mt = False
    finally:
        mon.check(tf.get_default_graph() is caller_graph, "callers-graph-stays-default", how)
        mon.check(len(caller_graph.get_operations()) == n_ops, "callers-graph-untouched",
                  "%d ops added" % (len(caller_graph.get_operations()) - n_ops))
        if callers_session is None:
            mon.check(tf.get_default_session() is None, "no-session-left-behind", how)
    for i, c in enumerate(calls):
        mon.check(c["open"], "open-session", "call %d" % i)
        mon.check(c["default"], "own-graph-is-default", "call %d" % i)
        mon.check(c["ops"] == 0 and c["graph"] is not caller_graph, "fresh-graph", "call %d: %d ops" % (i, c["ops"]))
        mon.check(all(c["graph"] is not d["graph"] and c["session"] is not d["session"] for d in calls[:i]), "own-graph-per-chain", "call %d" % i)
        try:
            with c["graph"].as_default():
                x = tf.constant(0.)
            c["session"].run(x)
            closed = False
        except RuntimeError:
            closed = True
        mon.check(closed, "sessions-closed", "call %d" % i)
    if mt is False:
        return
    mon.check(len(calls) == n_chains, "one-call-per-chain", "%d calls for %d chains" % (len(calls), n_chains))
    if how != "multitrace":
        new = log[k0:]
        if not mon.check(len(new) == 1 and new[0]["name"] == how, "right-diagnostic", "%s called %s" % (how, [e["name"] for e in new])):
            return
        mon.check(alike(result, new[0]["copy"]), "result-unchanged", "%s, %s" % (result, new[0]["copy"]))
        mon.check(alike(new[0]["result"], new[0]["copy"]), "result-unchanged", "modified")
        mt = new[0]["multitrace"]
        keep = None
    mon.check(isinstance(mt, env.MultiTrace) or type(mt).__name__ == "MultiTrace", "multitrace-type", type(mt))
    mon.check(list(mt.chains) == list(range(n_chains)), "chains-numbered", list(mt.chains))
    for i in range(n_chains):
        tr = mt._straces[i]
        c = calls[i]
        chain, sp = c["chain"], c["spec"]
        what = "%s %s chain %d of %d, %d samples, keep_every %s, advanced %d, init %s" % (
            how, kind, i, n_chains, samples, keep, case["advance"], case["init"])
        mon.check(len(tr) == samples, "samples-per-chain", "%s: %d" % (what, len(tr)))
        want_names = names or [p.name for p in chain.params]
        mon.check(list(tr.varnames) == list(want_names), "names", "%s: %s" % (what, tr.varnames))
        rec = chain.sampler.record[c["n0"]:]
        step = keep
        if step is None:
            # the diagnostics leave the distance to pymc3_multitrace
            step = 1 if samples == 1 else max(1, len(rec) // samples)
        want = rec[0:samples * step:step][:samples]
        for p, name in enumerate(want_names):
            got = np.asarray(tr.get_values(name))
            mon.check(len(want) == samples and got.shape == (samples,) + np.shape(want[0][p])
                      and np.array_equal(got, np.array([w[p] for w in want]), equal_nan=True), "records-the-sampler",
                      lambda: "%s parameter %s: %s" % (what, name, got.ravel()[:4]))
        # the same chain on its own
        solo = ch.Chain(sp)
        try:
            if c["start"] is not None:
                solo.assign(c["start"])
            out = [solo.next()[0] for _ in range(case["advance"] + len(rec))]
        finally:
            solo.close()
        for t, (a, b) in enumerate(zip(chain.sampler.record, out)):
            for p in range(len(want_names)):
                if not mon.close(a[p], np.asarray(b[p]), "continues-from-its-state", 1e-7, 1e-7, "%s: step %d parameter %d" % (what, t, p)):
                    return
        mon.event("burnt-in-chains" if case["advance"] else "fresh-chains")
