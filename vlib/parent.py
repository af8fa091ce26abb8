"""Parent process: spawns workers, aggregates what their monitors observed, decides.

Standard library only; the code under test is loaded in the workers.
"""
import argparse
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

PY = os.environ.get("VERIF_PY", "/opt/venv/bin/python")
REPO = os.environ.get("VERIF_REPO", "/repo")


HANG_S = 160


def worker_env(seed, tier, index):
    env = {k: v for k, v in os.environ.items()
           if k in ("PATH", "HOME", "LANG", "LC_ALL", "TMPDIR")}
    env.setdefault("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    env.setdefault("HOME", "/root")
    env.update(
        VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_REPO=REPO,
        PYTHONDONTWRITEBYTECODE="1",
        # the hash seed is part of the configuration space: differs per worker
        PYTHONHASHSEED=str(index % 4),
        TF_USE_LEGACY_KERAS="1", TF_CPP_MIN_LOG_LEVEL="3", CUDA_VISIBLE_DEVICES="",
        TF_ENABLE_ONEDNN_OPTS="0", MPLBACKEND="Agg",
        # without these every numpy call in 8 workers starts 8 BLAS threads
        OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
    )
    return env


def load_known(here, prop):
    path = os.path.join(here, "known_findings.json")
    try:
        with open(path) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get("findings", []) if k["property"] == prop]


def matches(known, violation):
    return (violation["clause"] == known["clause"]
            and violation.get("mechanism") is not None
            and violation.get("mechanism") == known.get("mechanism"))


def main(argv, here):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=None)
    args = ap.parse_args(argv)
    prop = args.property
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    meta = importlib.import_module("props.meta").META[prop]
    t0 = time.time()

    n = args.workers or meta.get("workers", 8)
    n = max(1, min(n, 2 * (os.cpu_count() or 1)))
    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        seed, tier = rep["seed"], rep["tier"]
        n = rep.get("workers", 1) if meta.get("replay_all_workers") else 1
    soft, hard = meta["budget"][tier]

    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    procs = []
    try:
        for i in range(n):
            out = os.path.join(work, "w%d.jsonl" % i)
            cmd = [PY, "-m", "vlib.worker", prop, "--index", str(i), "--n", str(n),
                   "--soft", str(soft), "--out", out, "--work", work]
            if args.replay:
                cmd += ["--replay", os.path.abspath(args.replay)]
            log = open(os.path.join(work, "w%d.log" % i), "wb")
            p = subprocess.Popen(cmd, cwd=here, env=worker_env(seed, tier, i),
                                 stdin=subprocess.DEVNULL, stdout=log, stderr=log,
                                 start_new_session=True)
            procs.append((p, out, log))
        deadline = t0 + hard
        broken, hangs = [], []
        for i, (p, out, log) in enumerate(procs):
            try:
                rc = p.wait(timeout=max(0.1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                try:
                    os.kill(p.pid, signal.SIGUSR1)      # stacks of all threads, to its log
                    time.sleep(1)
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                hung = hang(out, os.path.join(work, "w%d.log" % i))
                if hung:
                    hangs.append(hung)
                broken.append("worker %d exceeded the watchdog of %d s" % (i, hard))
                continue
            finally:
                log.close()
            if rc != 0:
                with open(os.path.join(work, "w%d.log" % i), "rb") as f:
                    tail = f.read()[-1500:].decode("utf8", "replace")
                broken.append("worker %d ended with %s: %s" % (i, rc, tail))

        agg = dict(evaluations=0, events={}, keys=set(), samples=[], violations=[],
                   errors=[], facts=[], states=set(), skipped=0, slowest=0)
        for i, (p, out, log) in enumerate(procs):
            done = False
            if os.path.exists(out):
                with open(out) as f:
                    for line in f:
                        try:
                            r = json.loads(line)
                        except ValueError:
                            continue
                        if r["t"] == "case":
                            agg["evaluations"] += 1
                            agg["slowest"] = max(agg["slowest"], r.get("seconds", 0))
                            for k, v in r["events"].items():
                                agg["events"][k] = agg["events"].get(k, 0) + v
                            agg["keys"].update(r["keys"])
                            agg["states"].update(r.get("states", ()))
                            agg["violations"].extend(r["violations"])
                            agg["facts"].extend(dict(f, worker=i) for f in r["facts"])
                            if r.get("error"):
                                agg["errors"].append(r["error"])
                            if len(agg["samples"]) < 6 and r.get("sample"):
                                agg["samples"].append(r["sample"])
                        elif r["t"] == "end":
                            done = True
                            agg["skipped"] += r["skipped"]
            if not done and not any(b.startswith("worker %d " % i) for b in broken):
                broken.append("worker %d ended early" % i)

        agg["violations"].extend(hangs)
        fin = meta.get("finalize")
        if fin:
            mod = importlib.import_module("props." + prop.lower() + "_fin")
            extra = mod.finalize(agg["facts"], dict(workers=n, tier=tier, seed=seed,
                                                   replay=bool(args.replay)))
            agg["violations"].extend(extra["violations"])
            for k, v in extra["events"].items():
                agg["events"][k] = agg["events"].get(k, 0) + v

        return decide(here, prop, meta, agg, broken, seed, tier, n, t0, bool(args.replay))
    finally:
        for p, _, _ in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
        shutil.rmtree(work, ignore_errors=True)


def hang(out, log):
    """The violation of a worker that never came back from a case.  Cases take seconds; one
    that has made no progress for HANG_S seconds hangs (a slow sandbox is inconclusive)."""
    last = None
    try:
        with open(out) as f:
            for line in f:
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                last = r if r["t"] == "start" else None
        with open(log, "rb") as f:
            stack = f.read()[-2500:].decode("utf8", "replace")
    except OSError:
        return None
    if last is None or time.time() - last["at"] < HANG_S:
        return None
    return dict(clause="every-step-terminates", case=last["case"], mechanism=None,
                detail="no result after %d s; stacks:\n%s" % (time.time() - last["at"], stack))


def decide(here, prop, meta, agg, broken, seed, tier, n, t0, replay):
    ev = os.path.join(here, "evidence")
    os.makedirs(ev, exist_ok=True)
    known = load_known(here, prop)
    new, listed = [], {}
    for v in agg["violations"]:
        k = next((k for k in known if matches(k, v)), None)
        if k is None:
            new.append(v)
        else:
            listed[k["what"]] = listed.get(k["what"], 0) + 1

    missing = [] if replay else [
        "%s (%d < %d)" % (c, agg["events"].get(c, 0), m)
        for c, m in meta["required"].items() if agg["events"].get(c, 0) < m]

    if not replay:
        doc = dict(
            property=prop, tier=tier, seed=seed, level=meta["level"],
            coverage=dict(
                evaluations=agg["evaluations"],
                distinct_nontrivial=len(agg["keys"]),
                rule=meta["rule"],
                samples=agg["samples"] or ["(none)"],
                monitor_events=dict(sorted(agg["events"].items())),
                distinct_states_observed=len(agg["states"]),
                slowest_case_s=agg["slowest"],
                workers=n, cases_not_started_within_budget=agg["skipped"],
                inconclusive=broken + agg["errors"][:5] + missing,
                known_findings_seen=listed,
            ),
            assumptions=meta["assumptions"],
            wall_s=round(time.time() - t0, 2),
            violations=len(new),
        )
        tmp = os.path.join(ev, ".%s.%d.tmp" % (prop, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(doc, f, indent=1, default=str)
            f.write("\n")
        os.replace(tmp, os.path.join(ev, prop + ".json"))

    for what in sorted(listed):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    print("%s %s seed=%d: %d cases, %d distinct, %d monitor events, %.1f s" % (
        prop, tier, seed, agg["evaluations"], len(agg["keys"]),
        sum(agg["events"].values()), time.time() - t0))
    if new:
        seen = set()
        for v in new:
            if v["clause"] in seen or len(seen) >= 5:
                continue
            seen.add(v["clause"])
            path = os.path.join(ev, "replay-%s-%s.json" % (prop, "".join(
                c if c.isalnum() else "_" for c in v["clause"])[:40]))
            with open(path, "w") as f:
                json.dump(dict(property=prop, seed=seed, tier=tier, workers=n,
                               case=v.get("case"), clause=v["clause"],
                               detail=v["detail"]), f, indent=1, default=str)
                f.write("\n")
            print("violated clause %s: %s" % (v["clause"], str(v["detail"])[:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    problems = broken + agg["errors"] + missing
    if not replay and agg["evaluations"] == 0:
        problems.append("no case was run")
    if problems:
        print("INCONCLUSIVE property=%s" % prop)
        for p in problems[:8]:
            print("  " + p[:1500])
        return 2
    return 0
