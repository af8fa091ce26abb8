"""Datasets whose rows identify themselves, for the batch generators."""
import numpy as np

DTYPES = ["float64", "float32", "int64", "int32", "float16"]


def dataset(spec):
    """Row i of x contains i in every column (scaled per column); y[i] = label of i.
    So every row and every label of a batch says where it came from."""
    N, D = spec["N"], spec["D"]
    dt = np.dtype(spec["dtype"])
    ids = np.arange(N)
    x = np.empty((N, D), dtype=dt)
    for j in range(D):
        x[:, j] = (ids * (j + 1) + j).astype(dt)
    y = (3 * ids + 1).astype(np.dtype(spec.get("ydtype", spec["dtype"])))
    lay = spec.get("layout", "C")
    if spec.get("special") and N <= 300:
        # missing values, infinities, signed zeros and the limits of the type are data like any other
        rs = np.random.RandomState(N + 7 * D)
        for a in (x.reshape(-1), y):
            vals = ([np.nan, np.inf, -np.inf, -0.0, np.finfo(a.dtype).tiny, np.finfo(a.dtype).max]
                    if a.dtype.kind == "f" else [np.iinfo(a.dtype).max, np.iinfo(a.dtype).min])
            for i in range(len(a)):
                if rs.randint(5) == 0:
                    a[i] = vals[rs.randint(len(vals))]
    if lay == "F":
        x = np.asfortranarray(x)
    elif lay == "strided":
        big = np.full((2 * N, D), -1, dtype=dt)
        big[::2] = x
        x = big[::2]
        bigy = np.full((2 * N,), -1, dtype=y.dtype)
        bigy[::2] = y
        y = bigy[::2]
    elif lay == "readonly":
        x.setflags(write=False)
        y.setflags(write=False)
    elif lay == "column":
        # labels as the documented (N, 1) array
        y = y.reshape(-1, 1)
    elif lay == "dup":
        # duplicate rows and labels: identity is positional then
        x[:] = x % 3
        y[:] = y % 2
    return x, y


def rand_data(rng):
    N = int([1, 2, 3, 4, 5, 7, 10, 16, 21, 40, 97, 250][rng.randint(12)])
    b = int([1, 2, 3, 5, N - 1, N, N + 1, 2 * N, 20, N // 2][rng.randint(10)])
    return dict(N=N, D=int([1, 1, 2, 3, 8][rng.randint(5)]), dtype=DTYPES[rng.randint(len(DTYPES) - (N > 40))],
                ydtype=DTYPES[rng.randint(len(DTYPES) - (N > 40))],
                layout=["C", "F", "strided", "readonly", "C", "dup", "column"][rng.randint(7)],
                special=bool(rng.randint(4) == 0), b=max(1, b))


def placeholders():
    import tensorflow as tf
    g = tf.Graph()
    with g.as_default():
        return tf.placeholder(tf.float64, name="x"), tf.placeholder(tf.float64, name="y")


def generators():
    from pysgmcmc.data_batches import generate_batches, generate_shuffled_batches
    return {"plain": generate_batches, "shuffled": generate_shuffled_batches}


def row_bytes(x, y):
    """Every row with its label, by its bits (missing values compare equal to themselves)."""
    return [r.tobytes() + l.tobytes() for r, l in zip(np.ascontiguousarray(x), np.ascontiguousarray(y).ravel())]


def same_bits(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()


def check_batch(mon, batch, x, y, b, xp, yp, shuffled, what, clause=""):
    """Full oracle for one batch. Returns the start of its window or None."""
    N = x.shape[0]
    k = min(b, N)
    if not mon.check(isinstance(batch, dict) and len(batch) == 2 and xp in batch and yp in batch,
                     clause + "batch-keys", "%s: %r" % (what, getattr(batch, "keys", lambda: batch)())):
        return None
    bx, by = np.asarray(batch[xp]), np.asarray(batch[yp])
    if not mon.check(bx.shape == (k, x.shape[1]) and by.shape == (k, 1), clause + "batch-shape",
                     "%s: shapes %s %s, expected %s %s (N=%d, batch_size=%d)" % (
                         what, bx.shape, by.shape, (k, x.shape[1]), (k, 1), N, b)):
        return None
    mon.check(bx.dtype == x.dtype and by.dtype == y.dtype, clause + "batch-dtype",
              "%s: %s %s, data %s %s" % (what, bx.dtype, by.dtype, x.dtype, y.dtype))
    y = y.ravel()
    # windows the batch can be
    found = []
    if N > 300:
        # labels increase here: the window is where the smallest label is
        o = np.argsort(by.ravel(), kind="stable") if shuffled else np.arange(k)
        s = int(np.searchsorted(y, by.ravel()[o[0]]))
        if np.array_equal(by.ravel()[o], y[s:s + k]) and np.array_equal(bx[o], x[s:s + k]):
            found.append(s)
        mon.check(bool(found), clause + ("window-permutation" if shuffled else "window"), lambda: (
            "%s: labels %s... are no window of %d of %d" % (what, by.ravel()[:8], k, N)))
        mon.event("large-datasets")
        return found[0] if found else None
    key, rows = row_bytes(bx, by), row_bytes(x, y)
    if shuffled:
        want = sorted(key)
        for s in range(N - k + 1):
            if key[0] in rows[s:s + k] and sorted(rows[s:s + k]) == want:
                found.append(s)
    else:
        for s in range(N - k + 1):
            if rows[s] == key[0] and rows[s:s + k] == key:
                found.append(s)
    mon.check(bool(found), clause + ("window-permutation" if shuffled else "window"), lambda: (
        "%s: x rows %s with labels %s are no %swindow of %d of the dataset (x[i]=(i*(j+1)+j), y[i]=3i+1)" % (
            what, bx.tolist()[:8], by.ravel().tolist()[:8], "permuted " if shuffled else "", k)))
    return found[0] if found else None
