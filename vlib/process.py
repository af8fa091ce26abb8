"""What a process shares between all of its libraries, and what changed in it."""
import contextlib
import gc
import io
import locale
import logging
import os
import random
import signal
import sys
import tempfile
import threading
import warnings

import numpy as np
import tensorflow as tf


def _graph(g):
    """What a user can see of a graph nobody should touch."""
    return (len(g.get_operations()), g.version, g.seed, g.finalized,
            tuple(sorted((str(k), tuple(map(id, g.get_collection_ref(k)))) for k in g.get_all_collection_keys() if g.get_collection_ref(k))))


def settings():
    """Name -> value of everything global that is compared."""
    r = np.random.get_state()
    root = logging.getLogger()
    tfl = logging.getLogger("tensorflow")
    out = {
        "numpy's random state": (r[0], r[1].tobytes()) + tuple(r[2:]),
        "python's random state": random.getstate(),
        "numpy's error handling": tuple(sorted(np.geterr().items())),
        "numpy's print options": repr(sorted((k, v) for k, v in np.get_printoptions().items())),
        "warning filters": [tuple(map(repr, f)) for f in warnings.filters],
        "warnings.showwarning": warnings.showwarning,
        "root logger": (root.level, [id(h) for h in root.handlers], root.disabled, [id(f) for f in root.filters]),
        "tensorflow's logger": (tfl.level, [id(h) for h in tfl.handlers]),
        "logging.disable": logging.root.manager.disable,
        "logger class": logging.getLoggerClass(),
        "environment": dict(os.environ),
        "working directory": os.getcwd(),
        "files in the working directory": sorted(os.listdir(".")),
        # (TensorFlow's autograph keeps its generated code there)
        "temporary files": sorted(f for f in os.listdir(tempfile.tempdir) if not f.startswith("__autograph")) if tempfile.tempdir else [],
        "umask": _umask(),
        "sys.path": list(sys.path),
        "recursion limit": sys.getrecursionlimit(),
        "thread switch interval": sys.getswitchinterval(),
        "sys.excepthook": sys.excepthook,
        "sys.stdout": (sys.stdout, sys.stderr, sys.stdin),
        "float printing": repr(0.1) + str(np.float32(.1)),
        "garbage collection": (gc.isenabled(), gc.get_threshold()),
        "threads": sorted(t.ident for t in threading.enumerate()),
        "signal handlers": [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)],
        "locale": locale.setlocale(locale.LC_ALL),
        "default graph": tf.get_default_graph(),
        "default session": tf.get_default_session(),
        "name scope": tf.get_default_graph().get_name_scope(),
        "variable scope": (tf.get_variable_scope().name, tf.get_variable_scope().reuse),
        "graph seed": tf.get_default_graph().seed,
        "keras float type": tf.keras.backend.floatx(),
        "eager execution": tf.executing_eagerly(),
        "verbosity": tf.logging.get_verbosity(),
    }
    return out


def _umask():
    u = os.umask(0o22)
    os.umask(u)
    return u


class unchanged(object):
    """Context manager: nothing global may be different afterwards; `graphs` are
    graphs of others that nothing may be added to."""

    def __init__(self, mon, what, graphs=(), but=()):
        self.mon, self.what, self.graphs, self.but = mon, what, graphs, but

    def __enter__(self):
        self.before = settings()
        self.gs = [_graph(g) for g in self.graphs]
        self.out, self.err = io.StringIO(), io.StringIO()
        self.stack = contextlib.ExitStack()
        self.stack.enter_context(contextlib.redirect_stdout(self.out))
        self.stack.enter_context(contextlib.redirect_stderr(self.err))
        self.inside = settings()["sys.stdout"]
        return self

    def __exit__(self, kind, *a):
        mon = self.mon
        mon.check(settings()["sys.stdout"] == self.inside, "process-settings-unchanged", "%s: sys.stdout, stderr or stdin replaced" % self.what)
        self.stack.close()
        if kind is not None:
            return False
        after = settings()
        for k, v in self.before.items():
            if k in self.but:
                continue
            mon.check(_same(after[k], v), "process-settings-unchanged", lambda: "%s: %s: %s before, %s after" % (self.what, k, str(v)[:300], str(after[k])[:300]))
        for g, v in zip(self.graphs, self.gs):
            mon.check(_graph(g) == v, "other-graphs-unchanged", lambda: "%s: %s before, %s after" % (self.what, str(v)[:200], str(_graph(g))[:200]))
        mon.check(not self.out.getvalue(), "nothing-printed", lambda: "%s: printed %r" % (self.what, self.out.getvalue()[:300]))
        return False


def _same(a, b):
    try:
        return bool(a == b)
    except Exception:
        return a is b
