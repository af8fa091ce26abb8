"""What each check needs from its run, and how its evidence is described.
budget: tier -> (seconds after which workers start no new case, watchdog)."""

GEN = ("cases are drawn from a seeded generator (VERIF_SEED); a case is a complete "
       "workload on the real code with monitors attached; ")
ASSUME = ["TensorFlow 2.18 in v1 graph mode on CPU, numpy and scipy compute correctly",
          "held on the executions that were observed, not proved for others"]
BUDGET = dict(quick=(420, 780), thorough=(600, 880))
META = {}


def meta(prop, required, rule, level="exploration", budget=None, assumptions=(), **kw):
    META[prop] = dict(required=required, rule=GEN + rule, level=level,
                      budget=budget or BUDGET, assumptions=ASSUME + list(assumptions), **kw)


meta("C04", {"same-seed-same-samples": 1000, "same-seed-same-costs": 500, "different-seeds-differ": 50,
             "same-across-configurations": 50, "interleaving-changes-nothing": 50},
     "a case is one seeded chain, run by every worker with its own thread pools, hash seed, global generator states, delays, repeated and interleaved with others; distinct by specification; distinct_states_observed counts distinct chains (digests)",
     finalize=True, replay_all_workers=True)
meta("C13", {"noise-variance": 30, "independent-steps": 60, "independent-elements": 30, "independent-parameters": 30,
             "independent-samplers": 10, "neighbouring-rows": 10, "seeded-chains": 10, "unseeded-chains": 5, "pairs-in-one-graph": 5},
     "a case is one or two noisy chains whose noise is recovered from the observed steps by an independent implementation of the update equation; distinct by specification")
meta("C14", {"target-mean": 30, "target-variance": 25, "target-distribution": 5, "target-correlation": 3, "svgd-spread": 8,
             "mean-shifts-with-target": 6, "chain-steps": 10000000},
     "a case is a sampler on a target with known distribution, run as 1024 parallel chains (SVGD: its particles); distinct by sampler, target and seed")
meta("C15", {"initialised-kept": 60, "uninitialised-initialised": 30, "bystanders-unchanged": 300, "bystanders-stay-uninitialised": 100,
             "step-from-current-value": 500, "assignments": 50, "same-chain-as-alone": 300, "others-untouched": 300,
             "two-SVGD": 1, "constructed-while-others-run": 10, "imported-under-a-default-session": 1, "default-session-chain": 100},
     "a case is one construction with partly initialised parameters and bystander variables, one set of samplers sharing graph and session, or one default session; distinct by specification")
meta("C16", dict([("failed-step-changes-no-parameter", 200), ("failed-step-not-counted", 100), ("fault-reaches-caller", 100),
                  ("continues-like-fault-free", 200), ("chain-goes-on", 300), ("faults-in-burn-in", 20), ("faults-outside-burn-in", 20)]
                 + [("fault-" + f, 8) for f in ("batch", "stepsize", "stop", "base", "missing-feed", "wrong-shape", "assert-cost", "assert-grad", "bad-batch")]),
     "a case is one chain with one kind of fault injected at several steps (first, last of burn-in, first after it, random), once or repeatedly; distinct_states_observed counts (sampler, fault, step, burn-in length)",
     level="fault_enumeration")
meta("C17", {"same-chain-as-direct": 500, "class-of-sampler": 50, "rejected": 300, "error-names-argument": 200,
             "rejected-before-touching-the-graph": 300, "is-burn-in": 12, "omitted-arguments": 50},
     "a case is one random subset of arguments (chain compared with direct construction), one class with every foreign, unknown or missing argument, or the enum itself; distinct_states_observed counts (class, argument set)")
meta("C18", {"values": 300, "burn-and-thin": 3000, "index-agrees": 300, "point-agrees": 300, "unknown-name-refused": 500,
             "burn-in-traces": 15, "later-traces": 15, "single-parameter-traces": 15, "traces-of-more-than-ten-parameters": 10, "reading-does-not-step": 100},
     "a case is one recorded chain or plain list of samples, read back completely, before and after the chain moved on; distinct by specification and parameters of the trace")
meta("C19", {"records-the-sampler": 100, "continues-from-its-state": 1000, "fresh-graph": 60, "sessions-closed": 60,
             "right-diagnostic": 10, "burnt-in-chains": 30, "fresh-chains": 30, "failure-reaches-caller": 1},
     "a case is one extraction or diagnostic with recording samplers, fresh, initialised, loaded or burnt-in, from different callers; distinct by specification")
meta("C20", {"formula": 5000, "never-below-optimum": 3000, "optimum-attained": 10, "tensorflow-value": 300, "tensorflow-gradient": 300,
             "mixture-integrates-to-one": 5, "exactly-negated": 200},
     "a case is one function with several hundred points of its domain, random, at its edges and near its optima; distinct by function and points; distinct_states_observed counts points (rounded)")
meta("C25", {"pdist-distances": 80, "pdist-dtype": 40, "squareform-matrix": 30, "median-value": 60, "median-even": 15, "median-odd": 15,
             "pdist-rejects": 60, "squareform-rejects": 100, "squareform-valid-accepted": 20},
     "a case is one input (shape, dtype, kind of values, constant, variable or placeholder); distinct by these")
meta("C26", {"vectorize-column": 60, "unvectorize-inverse": 100, "vectorized-variable-starts-there": 60, "divide-formula": 200,
             "divide-never-by-zero": 150, "sqrt-formula": 150, "sqrt-never-nan": 150, "uninitialized-exactly": 40, "vectorize-rejects": 9},
     "a case is one tensor (shape, dtype, values), one set of operands around the guarded singularities, or one set of variables; distinct by these")
meta("C21", {"collects-the-steps-sample": 50, "collects-exactly": 40, "number-of-steps": 40, "chain-of-the-configuration": 500, "cost-of-each-step": 300,
             "chain-is-connected": 300, "noise-of-the-configuration-variance": 10, "long-training-runs": 2, "trains-on-this-data": 80, "documented-default": 6, "networks-collected": 50, "collected-stay": 40, "data-unchanged": 80},
     "a case is one training run, every step of which is compared with the documented chain of its configuration; distinct by configuration and data; distinct_states_observed counts network parameter values")
meta("C22", {"thousands-of-test-points": 2, "mean-over-networks": 300, "population-variance": 300, "individual-means": 300, "individual-noise-variances": 300, "point-independence": 200,
             "repeated-calls-agree": 500, "changes-nothing": 300, "refuses-before-training": 20, "models-answer-for-themselves": 24, "more-than-fifty-networks": 2, "variance-not-negative": 300, "predicting-networks": 60},
     "a case is one trained model asked about seven sets of points, twice, aggregated and individually; distinct by configuration, data and points; distinct_states_observed counts collected networks")
meta("C23", {"cost-formula": 300, "likelihood-of-any-parameters": 100, "variance-prior": 80, "weight-prior": 80, "batch-size": 300},
     "a case is one training run whose every cost is compared, and whose cost tensors are evaluated at random parameters, or one prior with random arguments; distinct by configuration and data; distinct_states_observed counts cost values")
meta("C24", {"mean-zero": 80, "variance-one": 80, "spans-zero-one": 80, "unnormalisation-inverts": 300, "given-statistics-applied": 400, "input-unchanged": 600,
             "constant-columns": 10, "spread-columns": 100, "equivariant-mean": 30, "equivariant-variance": 30, "equivariant-noise": 30},
     "a case is one data set through all helpers, or one model trained on four affine images of a data set; distinct by these")
meta("C27", {"bnn-accepts": 500, "bnn-rejects-n_nets": 200, "bnn-rejects-burn_in_steps": 200, "bnn-rejects-dtype": 100, "bnn-rejects-get_net": 100, "bnn-rejects-batch_generator": 100,
             "bnn-rejects-stepsize_schedule": 150, "bnn-rejects-method": 150, "batches-reject-size": 400, "batches-reject-seed": 300, "batches-reject-lengths": 200, "batches-accept": 300,
             "sampler-rejects-batch_generator": 100, "sampler-rejects-seed": 80, "sampler-rejects-session": 80, "sampler-rejects-dtype": 80, "sampler-rejects-cost_fun": 80,
             "sampler-rejects-stepsize_schedule": 150, "sampler-rejects-burn_in_steps": 50, "sampler-accepts": 200, "train-rejects-shape": 60, "predict-rejects-shape": 60},
     "a case is one sweep over invalid values of every argument, each in an otherwise random valid configuration; distinct by seed")
meta("C28", {"constant-yields-v": 20000, "constant-never-ends": 24, "first-samples-unchanged": 200, "changed-stepsize-is-used": 40, "step-uses-own-stepsize": 1000,
             "own-schedule-consumed": 500, "others-consume-nothing": 300, "shared-schedules": 5, "separate-schedules": 15, "default-stepsize": 150,
             "default-SGHMC": 5, "default-SGLD": 5, "default-REL": 5, "default-SVGD": 5, "networks": 6},
     "a case is one schedule, one seeded chain under three schedules that differ from a step on, one set of samplers with own or shared schedules, or one sampler without; distinct by specification")
meta("C29", {"same-networks-as-alone": 200, "same-predictions-as-alone": 100, "other-variables-unchanged": 400, "other-chain-unaffected": 200,
             "training-again-starts-afresh": 200, "trainings-after-the-first": 20, "predictions-stay": 100, "networks-over-existing-variables": 5},
     "a case is one network trained among variables, samplers or networks of others, or trained again, compared with the same training in a graph of its own; distinct by configuration and data")
STEP_RULE = ("a case is one chain (sampler, parameter shapes, dtype, target, stepsizes, seed, "
             "constants); distinct means a distinct specification, non-trivial that every step of it "
             "was compared with the reference recursion; distinct_states_observed counts parameter values")
meta("C08", {"update-equation": 1000, "noise-variance": 10, "chains-with-burn-in-steps": 20,
             "chains-with-steps-after-burn-in": 20, "mode-big": 5}, STEP_RULE)
meta("C09", {"update-equation": 1000, "noise-variance": 10, "chains-with-burn-in-steps": 20,
             "chains-with-steps-after-burn-in": 20, "mode-big": 5}, STEP_RULE)
meta("C10", {"update-equation": 800, "update-equation-speed-limit": 1000, "noise-variance": 10,
             "initial-momentum-distribution": 8, "mode-steep": 10}, STEP_RULE)
meta("C11", {"update-equation": 1000}, STEP_RULE)
meta("C05", {"one-batch-per-step": 300, "one-update-per-step": 300, "burn-in-steps": 50, "other-steps": 100,
             "step-uses-batch-and-stepsize": 300, "long-chains": 4},
     "a case is one chain with instrumented batch generator, schedule and feeds, stepped across the burn-in boundary in one of five ways; distinct by specification and way of driving")
meta("C06", {"sample-is-new-value": 300, "cost-at-old-values": 300, "long-chains": 4},
     "a case is one chain; every returned sample and cost is compared with the session's values and a separately evaluated cost; distinct by specification")
meta("C07", {"simultaneous-update": 300, "delayed-ops": 300, "chains-with-delays": 20},
     "a case is one chain whose cost couples all parameters, under injected delays in forward pass and per-parameter gradients and different thread pools; distinct by specification and delays")
meta("C12", {"is-burning-in": 500, "mass-frozen-after-burn-in": 300, "frozen-elements": 500,
             "mass-adapts-during-burn-in": 10, "long-chains": 4, "default-burn-in": 1},
     "a case is one chain over the burn-in boundary whose gradients change scale there; the effective inverse mass is read off the trajectory; distinct by specification and driving pattern")
meta("C01", {"window": 2000, "window-permutation": 2000, "batch-dtype": 5000, "large-datasets": 50},
     "a case is one stream over one dataset (N, D, dtypes, memory layout, batch size, seed); distinct by these; distinct_states_observed counts windows (N, size, start, generator)")
meta("C02", {"dataset-unchanged": 2000, "earlier-batches-unchanged": 5000, "dataset-unchanged-by-training": 8},
     "a case is one interleaving of draws from 1-4 generators over shared arrays, or one training; distinct by dataset, generators and order")
meta("C03", {"reproducible-under-interference": 2000, "starts-uniform": 5, "orders-uniform": 5,
             "different-seeds-differ": 50, "global-random-state-untouched": 2000},
     "a case is one seeded stream replayed under interference, or the distribution of one long stream; distinct by dataset, seed and kind")
meta("C30", {"steps-add-no-operations": 40, "steps-in-a-finalized-graph": 800, "no-earlier-samples-kept": 80, "arrays-watched": 1500, "no-objects-accumulate": 6,
             "traces-add-no-operations": 12, "predictions-add-no-operations": 30, "predictions-in-a-finalized-graph": 600, "training-keeps-the-collected-networks-only": 30,
             "training-graph-independent-of-length": 15, "no-earlier-predictions-kept": 30, "batches-add-no-operations": 40, "no-earlier-batches-kept": 40},
     "a case is one chain, trace, training with predictions, or stream, whose graph is finalized and whose handed-out arrays are watched by weak references; distinct by configuration")
meta("C31", {"three-tanh-layers-and-a-linear-one": 200, "log-variance-independent-of-the-point": 200, "parameters": 50, "output-shape": 200, "point-independence": 60, "dtype": 50,
             "starts-with-log-variance": 80, "weights-have-variance-one-over-fan-in": 100, "biases-start-at-zero": 200, "equal-seeds-equal-start": 15, "other-seeds-other-start": 60,
             "model-starts-from-the-initialisation": 60, "model-predicts-with-it": 30},
     "a case is one default network with given input dimension, points, dtype and seed, at its start and at arbitrary parameters; distinct by these")
meta("C32", {"update-appends-in-order": 300, "incumbent-is-the-minimum": 150, "json-round-trip": 300, "given-data-unchanged": 300, "train-rejects-shapes": 200, "predict-rejects-shapes": 100,
             "rejected-before-the-model-sees-it": 25, "checked-train-passes-arguments": 50},
     "a case is one history of a model class of the check's own that extends BaseModel and records its calls; distinct by data and history")
meta("C33", {"one-report-per-interval": 32, "mse-of-the-current-network-on-all-data": 120, "nll-of-the-current-network-on-all-data": 120, "number-of-collected-networks": 120,
             "reports-while-sampling": 100, "reports-of-burn-in": 35, "reporting-changes-nothing": 200},
     "a case is one training (or two of one model) whose log lines are compared with the state of the model when they are written, and with the same training unobserved; distinct by configuration and data")
meta("C34", {"process-settings-unchanged": 3000, "other-graphs-unchanged": 200, "nothing-printed": 200, "given-arguments-unchanged": 300, "graph-seed-unchanged": 100,
             "steps-watched": 200, "trainings-watched": 18, "batches-watched": 100, "functions-watched": 300, "chains-watched": 12, "refused-calls-watched": 100, "imports-watched": 8, "argument-lists-watched": 24,
             "same-chain-in-all-surroundings": 40, "same-network-in-all-surroundings": 8},
     "a case is one use (or import) of the package between two snapshots of the process's global settings; distinct by use and settings")
meta("C35", {"concurrent-chain-is-the-chain-alone": 1000, "concurrent-stream-is-the-stream-alone": 800, "concurrent-training-is-the-training-alone": 200, "concurrent-predictions-are-those-alone": 200,
             "concurrent-traces-are-those-alone": 100, "changes-between-threads": 1500, "threads-run": 200, "concurrent-use-does-not-fail": 200},
     "a case is a set of jobs run by threads that start together, each compared with the same job alone; a state is a distinct interleaving of their steps")
