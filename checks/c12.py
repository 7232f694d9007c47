"""C12: a pipeline is scored on rows it was not trained on, or reported as failed."""
import math
import vlib

UNIT = 2520


def subsample_of(sub):
    return {"none": None, "rows": sub["v"], "frac": sub["v"] / 1000}[sub["kind"]]


def make_data(sc):
    import random
    import numpy as np
    import pandas as pd
    rng = random.Random(sc["seed"])
    n = sc["n"]
    if sc["cls"]:
        y = [k % sc["C"] for k in range(n)]
        rng.shuffle(y)
    else:
        y = [rng.randint(0, 5) for _ in range(n)]
    import recest
    base = recest.BASE if sc["base"] else 0
    index = list(range(n))
    if sc["index"] == "shuffled":
        rng.shuffle(index)
    elif sc["index"] == "text":
        index = [f"r{k}" for k in range(n)]
    elif sc["index"] == "offset":
        index = [k + 3 for k in range(n)]
    x = pd.DataFrame({"id": [float(k + 1) for k in range(n)], "noise": [rng.random() for _ in range(n)]}, index=index)
    ys = pd.Series([v + base for v in y], index=index)
    return x, (ys if sc["cls"] else ys.astype(float)), y


def number(v, scale):
    """A score as a multiple of 1/scale."""
    if math.isinf(v) or math.isnan(v):
        return dict(kind=str(float(v)), v=0)
    q = round(v * scale)
    return dict(kind="num" if abs(v * scale - q) < 1e-6 * max(1, abs(q)) else "other", v=q)


def encode(sc, evaluation, x, fault):
    import numpy as np
    import recest
    scores = []
    raw = list(evaluation.score)
    for k, s in enumerate(raw):
        if k < len(sc["metrics"]):
            d = math.log(2) if sc["metrics"][k] == "neg_log_loss" else 1 / sc["C"] if "_macro" in sc["metrics"][k] else 1
            scores.append(number(float(s) / d, sc["k"] * UNIT))
        else:
            scores.append(dict(kind="length", v=int(s)))
    base = recest.BASE if sc["base"] else 0
    pred, est = evaluation._predictions, evaluation._estimators
    out = dict(op="evaluated", failed=evaluation.error is not None, fault=fault, nopred=pred is None, noest=not est, scores=scores,
               fitness_same=evaluation.individual.fitness is not None and tuple(evaluation.individual.fitness.values) == tuple(evaluation.score),
               error_named=bool(evaluation.error) and len(str(evaluation.error)) > 3, pred=[], est=[])
    if pred is not None:
        for row in np.asarray(pred).tolist():
            if isinstance(row, list):
                out["pred"].append([int(round(-math.log2(p))) if p > 0 and abs(2.0 ** round(math.log2(p)) - p) < 1e-9 else 99 for p in row])
            else:
                out["pred"].append(int(row) - base if row == int(row) else -99)
    for e in est or []:
        m = e.steps[-1][1]
        rows = [m.raw(k + 1) for k in range(sc["n"])]
        out["est"].append(dict(train=m.train_, trainy=[int(v) - base for v in m.y_], tested=sorted(set(m.tested_)),
                               out=rows if sc["cls"] else [int(v) - base for v in rows]))
    return out


def space(sc):
    import recest
    est = recest.RecClassifier if sc["cls"] else recest.RecRegressor
    return {est: {"salt": [0, 1, 2, 3]}, recest.Keep: {"mark": [0, 1, 2]}}


def steps_of(pipeline):
    import gdrive
    return [[type(s).__name__] + [[k, gdrive.val(v)] for k, v in sorted(s.get_params(deep=False).items()) if k in ("salt", "mark")]
            for _, s in pipeline.steps]


def steps_of_ind(ind):
    return [[p["p"]] + [[k.split(".")[-1], v] for k, v in p["h"]] for p in reversed(_enc(ind))]


def _enc(ind):
    import gdrive
    return gdrive.enc_ind(ind)


def record(sc, y, ev):
    return dict(n=sc["n"], k=sc["k"], cls=sc["cls"], metrics=sc["metrics"], addlen=sc["addlen"], length=sc["length"], sub=sc["sub"], y=y,
                ev=ev, scenario=str(sc)[:500])


def direct(sc):
    import random
    from functools import partial
    import gdrive
    import recest
    from gama.genetic_programming.compilers.scikitlearn import evaluate_individual, evaluate_pipeline, compile_individual
    from gama.configuration.parser import pset_from_config
    from gama.genetic_programming.operations import create_random_expression
    from gama.utilities.metrics import scoring_to_metric
    random.seed(sc["seed"])
    pset, _ = pset_from_config(space(sc))
    fixed = [(f"f{k}", recest.Keep(mark=10 + k)) for k in range(sc["fixed"])]
    ind = gdrive.Individual(create_random_expression(pset, min_length=sc["length"], max_length=sc["length"]),
                            to_pipeline=partial(compile_individual, preprocessing_steps=fixed))
    x, ys, y = make_data(sc)
    ev = [dict(op="compiled", steps=steps_of(ind.pipeline), fixed=[["Keep", ["mark", gdrive.val(10 + k)]] for k in range(sc["fixed"])],
               individual=steps_of_ind(ind))]
    recest.Control.reset(sc["fault"], sc["kind"])
    kw = {} if sc["sub"]["kind"] == "none" else dict(subsample=subsample_of(sc["sub"]))
    e = evaluate_individual(ind, evaluate_pipeline=partial(evaluate_pipeline, x=x, y_train=ys, metrics=scoring_to_metric(sc["metrics"]), cv=sc["k"]),
                            timeout=1.0 if sc["kind"] == "timeout" and sc["fault"] else 100, add_length_to_score=sc["addlen"], **kw)
    hit = recest.Control.fault_hit
    recest.Control.reset()
    ev.append(encode(sc, e, x, hit))
    return record(sc, y, ev)


def in_fit(sc):
    """The evaluation as a search submits it, within a fit, through the (simulated) pool."""
    import random
    import gsim
    import gdrive
    import recest
    from gama.utilities.generic.async_evaluator import AsyncEvaluator
    gsim.SIM.reset([dict(k=1)])
    x, ys, y = make_data(sc)
    got = []

    def on_complete(future):
        # now, as the evaluation library may discard predictions later
        got.append(encode(sc, future.result, x, recest.Control.fault_hit))

    ev = []

    def search(s, ops, start):
        ind = next((i for i in (ops.individual() for _ in range(200)) if len(list(i.primitives)) == sc["length"]), None)
        ev.append(dict(op="compiled", steps=[t for t in steps_of(ind.pipeline) if t[0] in ("Keep", "RecClassifier", "RecRegressor")],
                       fixed=[], individual=steps_of_ind(ind)))
        gsim.SIM.on_complete = on_complete
        with AsyncEvaluator() as a:
            kw = {} if sc["sub"]["kind"] == "none" else dict(subsample=subsample_of(sc["sub"]))
            a.submit(ops.evaluate, ind, **kw)
            ops.wait_next(a)

    recest.Control.reset(sc["fault"], sc["kind"])
    random.seed(sc["seed"])
    gdrive.with_operations(search, space(sc), regression=not sc["cls"], data=(x, ys), scoring=sc["metrics"] if len(sc["metrics"]) > 1 else sc["metrics"][0],
                           regularize_length=sc["addlen"], max_eval_time=1 if sc["kind"] == "timeout" and sc["fault"] else None, max_total_time=100)
    recest.Control.reset()
    ev.append(got[0])
    return record(sc, y, ev)


def complete(rng, sc):
    sc.setdefault("k", rng.choice([2, 3, 5]))
    sc.setdefault("cls", rng.random() < 0.6)
    sc["C"] = rng.choice([3, 4]) if sc["cls"] else 1
    lo = max(sc["C"] * sc["k"], 4 * sc["C"]) + sc["C"]
    sc["n"] = rng.randint(lo, max(lo, min(9 * sc["k"], 28)))
    if sc["n"] > 9 * sc["k"]:
        sc["n"] = 9 * sc["k"]
    sc["metrics"] = rng.choice([["accuracy"], ["neg_log_loss"], ["accuracy", "neg_log_loss"], ["neg_log_loss", "accuracy"], ["recall_macro"],
                                ["precision_macro", "neg_log_loss"], ["recall_macro", "precision_macro"], ["accuracy", "recall_macro", "neg_log_loss"], ["accuracy", "neg_log_loss", "recall_macro"], ["neg_log_loss", "accuracy", "recall_macro", "precision_macro"]]) if sc["cls"] else \
        rng.choice([["neg_mean_squared_error"], ["neg_mean_absolute_error"], ["neg_mean_squared_error", "neg_mean_absolute_error"]])
    sc["base"] = not sc["cls"] and rng.random() < 0.4
    sc["addlen"] = rng.random() < 0.5
    sc["length"] = rng.randint(1, 3)
    sc["fixed"] = rng.randint(0, 2)
    sc["index"] = rng.choice(["plain", "shuffled", "text", "offset"])
    sc["seed"] = rng.randint(0, 10 ** 6)
    kind = sc["sub"]["kind"]
    train = sc["n"] - -(-sc["n"] // sc["k"]) - sc["C"]      # at least this many training rows per fold
    if kind == "rows":
        feasible = list(range(sc["C"], max(sc["C"], train - sc["C"]) + 1)) + list(range(sc["n"] - sc["n"] // sc["k"] + sc["C"] + 1, sc["n"] + 4))
        sc["sub"] = dict(kind=kind, v=rng.choice(feasible))
    elif kind == "frac":
        feasible = [v for v in (125, 250, 375, 500, 625, 750) if v * train // 1000 >= sc["C"] and train - v * train // 1000 >= sc["C"] + 1] + [1000]
        sc["sub"] = dict(kind=kind, v=rng.choice(feasible))
    if kind == "rows" and sc["cls"] and train - sc["C"] < sc["C"]:
        sc["sub"] = dict(kind="none", v=0)
    return sc


def body(ctx):
    rng = ctx.rng("e")
    paths = [p[0] for k in (2, 3) for p in ctx.model("MC_Evaluate", consts=dict(K=k), maximal=False)]
    scs = []
    for rep in range(ctx.pick(6, 60)):
        for p in paths:
            if p["fault"] and rng.random() < 0.4:
                continue
            scs.append(complete(rng, dict(k=p["k"], sub=dict(p["sub"]), fault=p["fault"], kind=rng.choice(["value", "memory", "empty"]))))
    for rep in range(ctx.pick(1500, 20000)):
        scs.append(complete(rng, dict(sub=dict(kind=rng.choice(["none", "rows", "frac"]), v=0),
                                      fault=rng.choice([0, 0, 0, rng.randint(1, 20)]), kind=rng.choice(["value", "memory", "empty"]))))
    for p in range(ctx.pick(32, 200)):
        scs.append(complete(rng, dict(sub=dict(kind=rng.choice(["none", "rows"]), v=0), fault=1 + p % 13, kind="timeout")))
    for p in range(ctx.pick(6, 40)):     # large folds, of a size that divides the unit of the scores
        s = complete(rng, dict(k=[2, 5][p % 2], cls=p % 3 > 0, sub=dict(kind="none", v=0), fault=rng.choice([0, 0, 0, 7]), kind="value"))
        s["n"] = {2: rng.choice([1260, 2520]), 5: rng.choice([900, 2100])}[s["k"]]
        if s["cls"]:
            s["metrics"] = rng.choice([["accuracy"], ["neg_log_loss", "accuracy"]])
        if p % 3 == 1:
            s["sub"] = rng.choice([dict(kind="rows", v=rng.choice([100, 300])), dict(kind="frac", v=rng.choice([125, 500]))])
        scs.append(s)
    rng.shuffle(scs)
    ctx.validate("EvaluateTrace", ctx.drive(direct, scs, each_timeout=30, per=1))
    scs = [complete(rng, dict(k=5, sub=dict(kind=rng.choice(["none", "rows", "frac"]), v=0), fault=rng.choice([0, 0, 0, rng.randint(1, 15)]),
                              kind=rng.choice(["value", "memory"]))) for _ in range(ctx.pick(200, 3000))]
    ctx.validate("EvaluateTrace", ctx.drive(in_fit, scs, each_timeout=30, per=1))


vlib.main("C12", body)
