"""C18: a trace records the chain exactly and serves it back unchanged."""
import numpy as np
from vlib import chains as ch


def cases(rng, tier):
    n = 96 if tier == "quick" else 640
    for k in range(n):
        kind = ["SGHMC", "SGLD", "REL", "SVGD"][k % 4]
        spec = ch.rand_spec(rng, kind)
        if rng.rand() < .4 and kind != "SVGD":
            spec["shapes"] = ch.pick(rng, [[[]], [[1]], [[4]], [[2, 3]], [[3, 1]]])
        if k % 12 in (4, 9):
            # more parameters than digits
            P = int(ch.pick(rng, [11, 12, 14]))
            spec = ch.rand_spec(rng, kind, cost="quad", shapes=[ch.pick(rng, [[], [2], [1, 2]]) for _ in range(P)])
        ns = int(ch.pick(rng, [1, 2, 3, 7, 12]))
        keep = int(ch.pick(rng, [1, 1, 2, 3, 5, 10, 13, 24])) if ns < 12 else int(ch.pick(rng, [1, 2, 11]))
        burn = spec.get("burn", 3)
        yield dict(mode="sampler", spec=spec, n=ns, keep=keep, before=int(ch.pick(rng, [0, 0, 1, burn - 1, burn, burn + 2])),
                   names=bool(rng.rand() < .4), chain_id=int(ch.pick(rng, [0, 1, 7, 1234])), again=bool(rng.rand() < .4),
                   keyword=bool(rng.rand() < .5))
    for k in range(n // 4):
        yield dict(mode="plain", n=int(ch.pick(rng, [1, 2, 5, 30])), shapes=ch.pick(rng, ch.SHAPES), form=["lists", "floats", "arrays", "np64"][k % 4],
                   dseed=int(rng.randint(1 << 20)), names=bool(rng.rand() < .7))


def recording(cls):
    class Recording(cls):
        def __next__(self, *a, **k):
            out = super().__next__(*a, **k)
            params, cost = out
            if not isinstance(params, (list, tuple)):
                params = [params]
            self.__dict__.setdefault("record", []).append([np.array(p, copy=True) for p in params])
            return out
    Recording.__name__ = cls.__name__
    return Recording


def read_back(mon, trace, want, names, what):
    """want: list of samples, each a list with one value per parameter."""
    n, P = len(want), len(names)
    mon.check(len(trace) == n, "length", "%s: %d, expected %d" % (what, len(trace), n))
    mon.check(list(trace.varnames) == list(names), "names", "%s: %s, expected %s" % (what, trace.varnames, names))
    if len(trace) != n or list(trace.varnames) != list(names):
        return
    # what is served is the caller's own: writing to it does not alter what was recorded
    for i, name in enumerate(names):
        for got in (trace.get_values(name), trace.get_values(name, burn=0, thin=1), trace[i], trace.get_values(name, burn=1, thin=2)):
            if isinstance(got, np.ndarray) and got.flags.writeable and got.size:
                got[...] = -12345
    for rep in range(2):       # reading twice gives the same: reading changes nothing
        for i, name in enumerate(names):
            col = [np.asarray(s[i]) for s in want]
            full = np.asarray(trace.get_values(name))
            mon.check(full.shape == (n,) + col[0].shape and np.array_equal(full, np.array(col), equal_nan=True) and full.dtype == col[0].dtype,
                      "values", lambda: "%s: parameter %s: %s, recorded from the sampler: %s" % (what, name, full.ravel()[:5], np.array(col).ravel()[:5]))
            mon.same(np.asarray(trace[i]), full, "index-agrees", "%s: trace[%d]" % (what, i))
            for burn in sorted(set([0, 1, n // 2, n - 1])):
                for thin in (1, 2, 3, max(1, n - 1), n + 4):
                    part = np.asarray(trace.get_values(name, burn=burn, thin=thin))
                    mon.same(part, np.array(col[burn::thin]), "burn-and-thin", "%s: %s burn=%d thin=%d" % (what, name, burn, thin))
            mon.same(np.asarray(trace.get_values(name, 1 if n > 1 else 0, 2)), np.array(col[1 if n > 1 else 0::2]), "burn-and-thin", "positional")
            mon.check(len(trace.get_values(name, burn=n)) == 0 and len(trace.get_values(name, burn=n + 3, thin=2)) == 0, "burn-beyond-the-end", what)
        for j in sorted(set([0, n // 2, n - 1])):
            pt = trace.point(j)
            ok = set(pt) == set(names) and all(
                np.array_equal(np.asarray(pt[name]), np.asarray(want[j][i]), equal_nan=True) and np.shape(pt[name]) == np.shape(want[j][i])
                for i, name in enumerate(names))
            mon.check(ok, "point-agrees", lambda: "%s: point(%d) = %s, recorded %s" % (what, j, pt, want[j]))
            # an index counts from the end as for the values
            back = trace.point(j - n)
            ok = set(back) == set(pt) and all(np.array_equal(np.asarray(back[name]), np.asarray(pt[name]), equal_nan=True) for name in pt)
            mon.check(ok, "point-agrees", lambda: "%s: point(%d) = %s, recorded %s" % (what, j - n, back, want[j]))
        for bad in ("FANTASY", "", names[0] + "x", names[0][:-1] if len(names[0]) > 1 else "zz", None, 0):
            if bad in names:
                continue
            mon.raises(ValueError, lambda: trace.get_values(bad), "unknown-name-refused", "%s: %r" % (what, bad))


def run(case, mon):
    mon.key(case)
    if case["mode"] == "plain":
        return plain(case, mon)
    from pysgmcmc.diagnostics.sample_chains import PYSGMCMCTrace
    spec, n, keep = case["spec"], case["n"], case["keep"]
    chain = ch.Chain(spec, factory=recording(ch.sampler_class(spec["kind"])))
    sam = chain.sampler
    try:
        for _ in range(case["before"]):
            next(sam)
        P = len(chain.params)
        # names in no particular order
        given = ["name%d" % i for i in np.random.RandomState(case["chain_id"] + P).permutation(P)] if case["names"] else None
        names = given or [p.name for p in chain.params]
        traces = []
        for rep in range(2 if case["again"] else 1):
            k0 = len(sam.__dict__.get("record", []))
            kw = {} if keep == 1 and rep else dict(keep_every=keep)
            if given:
                kw["varnames"] = given
            if case["keyword"]:
                tr = PYSGMCMCTrace.from_sampler(chain_id=case["chain_id"] + rep, sampler=sam, n_samples=n, **kw)
            else:
                tr = PYSGMCMCTrace.from_sampler(case["chain_id"] + rep, sam, n, **kw)
            rec = sam.record[k0:]
            what = "%s n_samples=%d keep_every=%d after %d steps (shapes %s)" % (spec["kind"], n, keep, k0, spec["shapes"])
            mon.check((n - 1) * keep + 1 <= len(rec) <= n * keep, "steps-taken", "%s took %d steps" % (what, len(rec)))
            want = rec[0:n * keep:keep][:n]
            mon.check(len(want) == n, "steps-taken", what)
            mon.check(tr.chain == case["chain_id"] + rep, "chain-id", what)
            traces.append((tr, want, what))
            mon.event("burn-in-traces" if spec["kind"] in ch.BURNIN and k0 < spec["burn"] else "later-traces")
            if P == 1:
                mon.event("single-parameter-traces")
            if P > 10:
                mon.event("traces-of-more-than-ten-parameters")
        total = len(sam.record)
        vals = chain.values()
        for tr, want, what in traces:
            read_back(mon, tr, want, names, what)
        mon.check(len(sam.record) == total and sam.n_iterations == total, "reading-does-not-step", what)
        for a, b in zip(chain.values(), vals):
            mon.same(a, b, "reading-does-not-step", "parameter value")
        # the chain moves on, the traces stay
        for _ in range(3):
            next(sam)
        for tr, want, what in traces:
            read_back(mon, tr, want, names, what + ", later")
    finally:
        chain.close()


def plain(case, mon):
    from pysgmcmc.diagnostics.sample_chains import PYSGMCMCTrace
    rng = np.random.RandomState(case["dseed"])
    n, form = case["n"], case["form"]
    if form == "floats":
        raw = [float(x) for x in rng.normal(size=n)]
        want = [[x] for x in raw]
    elif form == "np64":
        raw = [np.float32(x) if n % 2 else np.float64(x) for x in rng.normal(size=n)]
        want = [[x] for x in raw]
    elif form == "arrays":
        raw = [np.asarray(rng.normal(size=3)) for _ in range(n)]
        want = [list(x) for x in raw]
    else:
        raw = [[np.asarray(rng.normal(size=tuple(s))) for s in case["shapes"]] for _ in range(n)]
        want = [list(x) for x in raw]
    P = len(want[0])
    names = ["v%d" % i for i in range(P)] if case["names"] else [str(i) for i in range(P)]
    tr = PYSGMCMCTrace(chain_id=3, samples=raw, varnames=list(names) if case["names"] else None)
    mon.check(tr.chain == 3 and tr.n_vars == P, "chain-id", "n_vars %r" % tr.n_vars)
    read_back(mon, tr, want, names, "plain %s n=%d" % (form, n))
