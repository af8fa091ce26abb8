"""Compares the digests of the same case across workers (thread configurations)."""


def finalize(facts, info):
    by = {}
    for f in facts:
        by.setdefault(f["k"], []).append(f)
    vs, n, configs = [], 0, 0
    for k, fs in sorted(by.items()):
        n += len(fs) - 1
        if len(set(f["threads"] for f in fs)) > 1:
            configs += 1
        if len(set(f["digest"] for f in fs)) > 1:
            vs.append(dict(clause="same-across-configurations", case=fs[0]["case"], mechanism=None,
                           detail="the same seeded chain gave %d different results: %s" % (
                               len(set(f["digest"] for f in fs)),
                               [(f["worker"], f["threads"], f["digest"], f["first"]) for f in fs])))
    return dict(violations=vs, events={"same-across-configurations": n, "cases-under-several-configurations": configs})
