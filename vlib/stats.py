"""Statistical oracles. Thresholds are p < 1e-10 per test, so that thousands of
tests on correct code stay silent for every seed."""
import numpy as np
from scipy import stats

P = 1e-10


def standard_normal(z, mon, clause, what="", ks=True):
    """z: iid standard normals if the property holds."""
    z = np.asarray(z, float).ravel()
    z = z[np.isfinite(z)]
    n = z.size
    if n < 50:
        return
    mon.event(clause + "-draws", n)
    q = float((z * z).sum())
    p = 2 * min(stats.chi2.cdf(q, n), stats.chi2.sf(q, n))
    mon.check(p > P, clause + "-variance",
              "%s: %d residuals have variance %.5g times the documented one (p=%.2g)" % (what, n, q / n, p))
    s = float(z.mean() * np.sqrt(n))
    mon.check(2 * stats.norm.sf(abs(s)) > P, clause + "-mean",
              "%s: mean of %d standardised residuals is %.5g (z=%.2f)" % (what, n, z.mean(), s))
    if ks and n >= 200:
        p = stats.kstest(z, "norm").pvalue
        mon.check(p > P, clause + "-normal", "%s: residuals not normal, KS p=%.3g" % (what, p))
        tails(z, mon, clause + "-tails", what)


def tails(z, mon, clause, what=""):
    """How many values lie far out (on both sides together and on each)."""
    n = z.size
    for a in (1.5, 2., 2.5, 3., 3.5, 4.):
        for nm, k, q in (("beyond +-", int((np.abs(z) > a).sum()), 2 * stats.norm.sf(a)),
                         ("above ", int((z > a).sum()), stats.norm.sf(a)), ("below -", int((z < -a).sum()), stats.norm.sf(a))):
            p = 2 * min(stats.binom.cdf(k, n, q), stats.binom.sf(k - 1, n, q))
            mon.check(p > P, clause, "%s: %d of %d residuals %s%g, expected %.4g (p=%.2g)" % (what, k, n, nm, a, n * q, p))


def uncorrelated(a, b, mon, clause, what=""):
    a, b = np.asarray(a, float).ravel(), np.asarray(b, float).ravel()
    ok = np.isfinite(a) & np.isfinite(b)
    a, b = a[ok], b[ok]
    n = a.size
    if n < 50:
        return
    mon.event(clause + "-pairs", n)
    # products of independent standard normals: mean 0, variance 1
    for nm, x, y in (("values", a, b), ("squares", (a * a - 1) / np.sqrt(2), (b * b - 1) / np.sqrt(2))):
        den = np.sqrt((x * x).sum() * (y * y).sum())
        r = float((x * y).sum() / den) if den > 0 else 0.
        if nm == "squares" and n < 1000:
            continue
        # heavy tails of the squares' products: wider limit
        lim = stats.norm.isf(P / 2) * (1. if nm == "values" else 2.)
        mon.check(abs(r) * np.sqrt(n) < lim, clause,
                  "%s: correlation of %s over %d pairs is %.4f" % (what, nm, n, r))
    mon.check(not np.any(a == b) or n < 50 or np.mean(a == b) < 0.01, clause,
              "%s: identical noise" % what)


def uniform_counts(counts, mon, clause, what=""):
    counts = np.asarray(counts, float)
    n, k = counts.sum(), counts.size
    if k < 2 or n < 20 * k:
        return
    p = stats.chisquare(counts).pvalue
    mon.event(clause + "-draws", int(n))
    mon.check(p > P, clause, "%s: counts %s not uniform (p=%.3g)" % (what, counts.astype(int).tolist()[:20], p))


def uniform_bins(values, n, bins, mon, clause, what=""):
    """values: independent draws from 0..n-1, n > bins."""
    edges = np.linspace(0, n, bins + 1).astype(int)
    counts, _ = np.histogram(values, bins=edges - .5)
    expected = len(values) * np.diff(edges) / float(n)
    q = float(((counts - expected) ** 2 / expected).sum())
    p = stats.chi2.sf(q, bins - 1)
    mon.event(clause + "-draws", len(values))
    mon.check(p > P, clause, "%s: counts %s in %d bins not uniform (p=%.3g)" % (what, counts.tolist(), bins, p))
