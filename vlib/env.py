"""Loads the code under test from the repository's working tree.

TensorFlow is used through its own v1 API as the repository's test set-up does.
`pymc3` is not installed: a stub with just the containers and function names that
pysgmcmc.diagnostics uses stands in for it (the diagnostics themselves record
their argument).  `arspy` uses the removed alias np.int when it is given a seed:
only its own reference to numpy is wrapped, numpy itself stays as it is.
"""
import logging
import os
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
INDEX = 0
WORK = None
_stub_log = []


class MultiTrace(object):
    """Like pymc3's: a collection of single traces, keyed by their `chain`."""

    def __init__(self, straces):
        self._straces = {}
        for t in straces:
            if t.chain in self._straces:
                raise ValueError("Chains are not unique.")
            self._straces[t.chain] = t
        self.straces = list(straces)

    @property
    def varnames(self):
        return self._straces[self.chains[-1]].varnames

    @property
    def chains(self):
        return sorted(self._straces)

    @property
    def nchains(self):
        return len(self._straces)

    def __len__(self):
        return len(self._straces[self.chains[-1]])

    def get_values(self, varname, burn=0, thin=1, combine=True, chains=None):
        import numpy as np
        vals = [self._straces[c].get_values(varname, burn, thin)
                for c in (self.chains if chains is None else chains)]
        return np.concatenate(vals) if combine else vals


def _effective_n(mtrace, *args, **kwargs):
    return _stub_result("effective_n", mtrace, args, kwargs)


def _gelman_rubin(mtrace, *args, **kwargs):
    return _stub_result("gelman_rubin", mtrace, args, kwargs)


def _stub_result(name, mtrace, args, kwargs):
    import copy
    import numpy as np
    k = len(_stub_log)
    # what pymc3 returns: numbers or arrays per parameter, odd ones included
    result = {v: [float(k), -1.5 * k - 1, float("nan"), float("inf"), np.array([[-2., 0.5 + k]]), 0., k + 1e-9][(k + i) % 7]
              for i, v in enumerate(mtrace.varnames)}
    _stub_log.append(dict(name=name, multitrace=mtrace, args=args, kwargs=kwargs,
                          result=result, copy=copy.deepcopy(result)))
    return result


def load(index=0, work=None):
    global INDEX, WORK
    INDEX, WORK = index, work
    if "tf_v1_api" in sys.modules:
        return
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")
    sys.path.insert(0, "/opt/vp/plugins")
    sys.path.insert(0, REPO)
    import tf_v1_api  # noqa: F401
    import tensorflow as tf
    tf.logging.set_verbosity(tf.logging.ERROR)

    import numpy as np
    import arspy.ars as ars
    if not hasattr(np, "int"):
        ns = types.SimpleNamespace(**{k: getattr(np, k) for k in dir(np)
                                      if not k.startswith("__")})
        ns.int = int
        ars.np = ns

    try:
        import pymc3  # noqa: F401
    except ImportError:
        pymc3 = types.ModuleType("pymc3")
        backends = types.ModuleType("pymc3.backends")
        base = types.ModuleType("pymc3.backends.base")
        diag = types.ModuleType("pymc3.diagnostics")
        base.MultiTrace = MultiTrace
        backends.base = base
        pymc3.backends = backends
        pymc3.diagnostics = diag
        diag.effective_n = _effective_n
        diag.gelman_rubin = _gelman_rubin
        pymc3.effective_n, pymc3.gelman_rubin = _effective_n, _gelman_rubin
        sys.modules.update({"pymc3": pymc3, "pymc3.backends": backends,
                            "pymc3.backends.base": base, "pymc3.diagnostics": diag})


def stub_log():
    return _stub_log
