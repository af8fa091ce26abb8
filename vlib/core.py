"""Monitor: what a workload reports events and violations to."""
import hashlib
import json
import time


class Monitor(object):
    def __init__(self, case):
        self.case = case
        self.started = time.time()
        self.events = {}
        self.keys = set()
        self.states = set()
        self.violations = []
        self.facts = []
        self.sample = None
        self.error = None

    # -- observations ----------------------------------------------------
    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def key(self, *parts):
        """Mark this case as non-trivial under the key `parts`."""
        self.keys.add(digest(parts))

    def state(self, *parts):
        self.states.add(digest(parts))

    def fact(self, **kw):
        """Something the parent compares across workers."""
        self.facts.append(dict(kw, case=self.case))

    def inconclusive(self, why):
        self.error = "%s: %s" % (json.dumps(self.case, default=str)[:300], why)

    # -- oracles ---------------------------------------------------------
    def fail(self, clause, detail, mechanism=None):
        if len(self.violations) < 20:
            self.violations.append(dict(
                clause=clause, detail=str(detail)[:3000], case=self.case,
                mechanism=mechanism))

    def check(self, cond, clause, detail="", mechanism=None):
        """Count one evaluation of `clause`; record a violation unless `cond`."""
        self.event(clause)
        if not cond:
            self.fail(clause, detail() if callable(detail) else detail, mechanism)
        return bool(cond)

    def same(self, a, b, clause, detail=""):
        """Arrays equal in shape, dtype and every bit (nan == nan)."""
        import numpy as np
        a, b = np.asarray(a), np.asarray(b)
        ok = (a.shape == b.shape and a.dtype == b.dtype
              and np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"))
        return self.check(ok, clause, lambda: "%s: %s != %s" % (detail, show(a), show(b)))

    def close(self, a, b, clause, rtol=1e-9, atol=0.0, detail=""):
        import numpy as np
        a, b = np.asarray(a), np.asarray(b)
        ok = a.shape == b.shape and bool(np.all(np.abs(a - b) <= atol + rtol * np.abs(b))) \
            and bool(np.all(np.isfinite(a) == np.isfinite(b)))
        if a.shape == b.shape and not ok and np.array_equal(a, b, equal_nan=True):
            ok = True
        return self.check(ok, clause, lambda: "%s: observed %s, expected %s" % (
            detail, show(a), show(b)))

    def raises(self, exc, fn, clause, detail=""):
        try:
            got = fn()
        except exc as e:
            self.event(clause)
            return e
        except Exception as e:  # wrong kind
            self.check(False, clause, "%s: expected %s, got %s: %s" % (
                detail, exc, type(e).__name__, str(e)[:300]))
            return None
        self.check(False, clause, "%s: expected %s, but it was accepted (%s)" % (
            detail, exc, str(got)[:100]))
        return None

    def report(self):
        return dict(t="case", events=self.events, keys=sorted(self.keys),
                    states=sorted(self.states)[:2000], violations=self.violations,
                    facts=self.facts, sample=self.sample, error=self.error,
                    seconds=round(time.time() - self.started, 2))


def show(a):
    import numpy as np
    s = np.array2string(np.asarray(a), precision=17, threshold=20)
    return "%s%s %s" % (np.asarray(a).dtype, np.asarray(a).shape, s[:500])


def digest(obj):
    return hashlib.sha1(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]
