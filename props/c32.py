"""C32: bookkeeping of models that extend BaseModel, against a recording model."""
import json
import numpy as np


def cases(rng, tier):
    for i in range(120 if tier == "quick" else 2500):
        yield dict(mode=["history", "shapes"][i % 4 == 3], D=int(rng.randint(1, 6)), n=int(rng.randint(1, 30)), dseed=int(rng.randint(1 << 30)),
                   kind=["float", "ties", "integers", "inf", "negative", "float32", "close", "huge", "tiny", "mixed", "mixed32"][i % 11], parts=int(rng.randint(1, 6)), wrapped=bool(rng.rand() < .5))


def model_class(wrapped, log):
    from pysgmcmc.models.base_model import BaseModel

    class Mine(BaseModel):
        def train(self, X, y, *args, **kwargs):
            log.append(("train", np.array(X), np.array(y), args, kwargs))
            self.X, self.y = X, y
            return "trained"

        def predict(self, X_test, *args, **kwargs):
            log.append(("predict", np.array(X_test), None, args, kwargs))
            return np.zeros(len(X_test)), np.ones(len(X_test))
        if wrapped:
            train = BaseModel._check_shapes_train(train)
            predict = BaseModel._check_shapes_predict(predict)
    return Mine


def points(rng, kind, n, D):
    X = rng.normal(size=(n, D))
    y = rng.normal(size=n)
    if kind == "ties":
        y = np.round(y)
    elif kind == "integers":
        X, y = rng.randint(-5, 5, size=(n, D)), rng.randint(-100, 100, size=n)
    elif kind == "inf":
        y[rng.randint(n)] = np.inf
    elif kind == "close":
        # all alike to many digits
        y = 10. ** rng.randint(-3, 9) * (1. + y * 10. ** -rng.randint(8, 13))
    elif kind == "huge":
        y = y * 10. ** rng.randint(100, 300)
    elif kind == "tiny":
        X, y = X * 1e-200, y * 10. ** -rng.randint(50, 300)
    elif kind in ("mixed", "mixed32"):
        # whole numbers once, any numbers another time
        if rng.rand() < .5:
            X, y = rng.randint(-5, 5, size=(n, D)), rng.randint(-100, 100, size=n)
        elif kind == "mixed32" and rng.rand() < .5:
            X, y = X.astype("float32"), y.astype("float32")
    elif kind == "negative":
        y = -np.abs(y) - 1e6
    elif kind == "float32":
        X, y = X.astype("float32"), y.astype("float32")
    return X, y


def run(case, mon):
    mon.key(case)
    {"history": history, "shapes": shapes}[case["mode"]](case, mon)


def history(case, mon):
    rng = np.random.RandomState(case["dseed"])
    log = []
    m = model_class(case["wrapped"], log)()
    other = model_class(case["wrapped"], [])()
    mon.check(m.X is None and m.y is None, "starts-empty", "%s %s" % (m.X, m.y))
    d = m.get_json_data()
    mon.check(d["X"] is None and d["y"] is None, "json-of-an-empty-model", str(d))
    all_x, all_y = None, None
    given = []
    for k in range(case["parts"]):
        X, y = points(rng, case["kind"], int(rng.randint(1, case["n"] + 1)), case["D"])
        if k and rng.rand() < .35:
            # observed before, all of it or only the points
            i = int(rng.randint(len(given)))
            X = given[i][2][0].copy()
            y = given[i][2][1].copy() if rng.rand() < .5 else points(rng, case["kind"], len(X), case["D"])[1]
            mon.event("repeated-data")
        keep = X.copy(), y.copy()
        given.append((X, y, keep))
        n = len(log)
        if k == 0:
            m.train(X, y)
            all_x, all_y = X.copy(), y.copy()
        else:
            m.update(X, y)
            all_x, all_y = np.concatenate([all_x, X]), np.concatenate([all_y, y])
        mon.check(len(log) == n + 1 and log[-1][0] == "train", "update-trains-once", "%d calls" % (len(log) - n))
        mon.same(log[-1][1], all_x, "update-appends-in-order", "X after %d parts" % k)
        mon.same(log[-1][2], all_y, "update-appends-in-order", "y after %d parts" % k)
        for X0, y0, (a, b) in given:
            mon.same(X0, a, "given-data-unchanged", "X")
            mon.same(y0, b, "given-data-unchanged", "y")
        # incumbent
        bx, by = m.get_incumbent()
        mon.check(by == all_y.min(), "incumbent-is-the-minimum", "%s, minimum %s" % (by, all_y.min()))
        hit = [i for i in range(len(all_y)) if all_y[i] == by and np.array_equal(all_x[i], bx)]
        mon.check(bool(hit), "incumbent-is-an-observed-pair", "%s %s" % (bx, by))
        # json
        d = m.get_json_data()
        mon.check(sorted(d) == ["X", "hyperparameters", "y"], "json-keys", str(sorted(d)))
        back = json.loads(json.dumps(d))
        mon.same(np.array(back["X"], dtype=all_x.dtype), all_x, "json-round-trip", "X")
        mon.same(np.array(back["y"], dtype=all_y.dtype), all_y, "json-round-trip", "y")
        mon.check(len(log) == n + 1, "queries-do-not-train", "%s" % [e[0] for e in log[n:]])
    mon.check(other.X is None and other.y is None, "models-are-separate", "another model has data")
    mon.state("history", case["kind"], case["D"], case["parts"], len(all_y))


def shapes(case, mon):
    """The shape checks let good data through, with all arguments and the result, and
    stop everything else before the model sees it."""
    rng = np.random.RandomState(case["dseed"])
    log = []
    m = model_class(True, log)()
    X, y = points(rng, case["kind"], case["n"], case["D"])
    mon.check(m.train(X, y, 3, extra="a") == "trained", "checked-train-returns-the-result", "")
    mon.check(len(log) == 1 and log[0][3] == (3,) and log[0][4] == dict(extra="a"), "checked-train-passes-arguments", str(log[0][3:]))
    mon.same(log[0][1], X, "checked-train-passes-arguments", "X")
    mean, var = m.predict(X, 1, flag=True)
    mon.check(len(mean) == len(X) and log[-1][3] == (1,) and log[-1][4] == dict(flag=True), "checked-predict-passes-arguments", str(log[-1][3:]))
    n = len(log)
    for bad_x, bad_y in ((X[:, 0], y), (X[None], y), (X, y[:, None]), (X, y[:-1]), (X[:-1], y), (X, np.append(y, y[:1])), (X[0], y), (X, y[None, :]),
                         (np.float64(3.), y), (X, np.float64(2.)), (X[:, :, None], y)):
        if np.ndim(bad_x) == 2 and np.ndim(bad_y) == 1 and len(bad_x) == len(bad_y):
            continue
        mon.raises((AssertionError, IndexError), lambda: m.train(bad_x, bad_y), "train-rejects-shapes", "%s %s" % (np.shape(bad_x), np.shape(bad_y)))
    for bad in (X[:, 0], X[None], X[0], np.float64(3.), X[:, :, None]):
        mon.raises(AssertionError, lambda: m.predict(bad), "predict-rejects-shapes", "%s" % (np.shape(bad),))
    mon.check(len(log) == n, "rejected-before-the-model-sees-it", "%s" % [e[0] for e in log[n:]])
    mon.state("shapes", case["kind"], case["D"], case["n"])
