"""C11: ensembles are built greedily and predict the weighted mean of their models."""
import vlib

FOLDS = 2


def tables(rng, sc, M):
    """Answers of every estimator: probes that single out one estimator, then random codes."""
    kind = sc["metric"]
    C = len(sc["classes"])
    off, on = {"accuracy": (0, 1), "neg_log_loss": ([8] + [0] * (C - 1), [0, 8] + [0] * (C - 2))}.get(kind, (0, 1))
    ts = []
    for m in range(M):
        for f in range(FOLDS):
            t = [on if k == m * FOLDS + f else off for k in range(M * FOLDS)]
            for _ in range(6):
                t.append(rng.randint(0, C - 1) if kind == "accuracy" else eighths(rng, C) if kind == "neg_log_loss" else rng.randint(0, 9))
            ts.append(t)
    return [ts[m * FOLDS:(m + 1) * FOLDS] for m in range(M)]


def eighths(rng, C):
    while True:
        p = [rng.randint(1, 8 - C + 1) for _ in range(C)]
        if sum(p) == 8:
            return p


def to_pred(sc, col):
    import numpy as np
    if sc["metric"] == "neg_log_loss":
        return np.array([[v / 8 for v in p] for p in col])
    if sc.get("second"):     # another metric needs probabilities: the label is the most probable class
        C = len(sc["classes"])
        return np.array([[0.7 if k == v else 0.3 / (C - 1) for k in range(C)] for v in col])
    return np.array(col) if sc["metric"] == "accuracy" else np.array(col, dtype=float) * sc.get("unit", 1)


def from_pred(sc, a):
    if a is None:
        return []
    if sc["metric"] == "neg_log_loss":
        return [[int(round(v * 8)) for v in row] for row in a.tolist()]
    if sc.get("second"):
        return [int(v) for v in a.argmax(axis=1)]
    return [int(round(v / sc.get("unit", 1))) for v in a.tolist()]


def scaled(a, scale):
    """a * scale as whole numbers, and whether it is whole."""
    import numpy as np
    b = np.asarray(a, dtype=float) * scale
    r = np.round(b)
    return r.astype(int).tolist(), bool(np.all(np.abs(b - r) < 1e-6 * np.maximum(1, np.abs(b))))


def observe(sc, model, tabs, evs, run_tables):
    """Predict every row code with model (anything with predict / predict_proba)."""
    import pickle
    import numpy as np
    import pandas as pd
    M = len(sc["score"])
    n_codes = len(tabs[0][0])
    x = pd.DataFrame({"q": [float(c) for c in range(n_codes)]})
    reg = sc["metric"] not in ("accuracy", "neg_log_loss")
    unit = sc["size"] * FOLDS * (8 if sc["metric"] == "neg_log_loss" else 1)

    def ask(m):
        lab = np.asarray(m.predict(x))
        return (lab, lab) if reg else (np.asarray(m.predict_proba(x)), lab)
    mean, lab = ask(model)
    scaled_mean, exact = scaled(mean, unit)
    probes = [scaled_mean[m * FOLDS] if reg else scaled_mean[m * FOLDS][1] for m in range(M)]
    if sc["metric"] == "neg_log_loss":
        exact = exact and all(p % 8 == 0 for p in probes)
        probes = [p // 8 for p in probes]
    evs.append(dict(op="predict", mean=scaled_mean, exact=exact, weights=probes, label=[] if reg else [int(v) for v in lab]))
    inner = getattr(model, "model", model)
    blob = pickle.dumps(inner)
    copy = pickle.loads(blob)
    again, _ = ask(model)
    xt = x
    other = np.asarray(copy.predict(xt)) if reg else np.asarray(copy.predict_proba(xt))
    def text(m):
        try:
            return str(m)
        except Exception as e:
            return None
    evs.append(dict(op="printed", works=all(text(m) is not None for m in (inner, copy))))
    copy2 = pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(inner))))
    other2 = np.asarray(copy2.predict(xt)) if reg else np.asarray(copy2.predict_proba(xt))
    evs.append(dict(op="pickled", original_same=bool(np.allclose(again, mean)),
                    copy_same=other.shape == mean.shape and bool(np.allclose(other, mean)) and bool(np.allclose(other2, mean))))


def match_rows(sc, stored):
    """Which row each stored prediction belongs to; rows with equal predictions have equal labels."""
    kept = [m for m, s in enumerate(stored) if s]
    rows, ok = [], bool(kept) and len({len(stored[m]) for m in kept}) == 1
    for k in range(len(stored[kept[0]]) if ok else 0):
        want = [stored[m][k] for m in kept]
        cand = [r for r in range(len(sc["y"])) if [sc["p"][m][r] for m in kept] == want]
        unused = [r for r in cand if r + 1 not in rows]
        if not unused:
            ok = False
            break
        rows.append(unused[0] + 1)
    return rows, ok


def finish(sc, tabs, stored, evs, given=None):
    if given is None:
        rows, ok = match_rows(sc, stored)
    else:
        rows = given
        ok = any(stored) and all(not st or st == [sc["p"][m][r - 1] for r in given] for m, st in enumerate(stored))
    evs.insert(0, dict(op="library", consistent=ok))
    return dict(metric=sc["metric"], size=sc["size"], classes=sc["classes"], y=sc["y"], rows=rows, maxrows=sc["hill"] or len(sc["y"]), folds=FOLDS,
                models=[dict(score=sc["score"][m], stored=stored[m], kept=bool(stored[m]), tables=tabs[m]) for m in range(len(sc["score"]))],
                ev=evs, scenario=str(sc)[:600])


def in_fit(sc):
    import random
    import gdrive as g
    import pandas as pd
    import recest
    from gama.postprocessing import EnsemblePostProcessing
    rng = random.Random(sc["seed"])
    M = len(sc["score"])
    tabs = tables(rng, sc, M)
    reg = sc["metric"] not in ("accuracy", "neg_log_loss")
    random.seed(sc["seed"])
    import numpy as np
    np.random.seed(sc["seed"] % 10000)
    box, evs = {}, []

    def search(s, ops, start):
        es = []
        for m in sc["order"]:
            ind = ops.individual()
            e = g.evaluation(ind, (float(sc["score"][m]),) + ((1.0,) if sc.get("second") else ()), predictions=to_pred(sc, sc["p"][m]),
                             estimators=[recest.TableModel(t, None if reg else sc["classes"]) for t in tabs[m]])
            ops.wait_next(g.Feed(g.Done(e)))
            es.append((m, e))
        box["stored"] = [from_pred(sc, next(e for k, e in es if k == m).predictions) for m in range(M)]
        s.output = [e.individual for _, e in es]

    index = list(range(len(sc["y"])))
    rng.shuffle(index)
    x = pd.DataFrame({"q": [float(k) for k in range(len(index))]}, index=index)
    y = pd.Series(sc["y"], index=index)
    cls = g.GamaRegressor if reg else g.GamaClassifier
    est = recest.RecRegressor if reg else recest.RecClassifier
    scoring = (sc["metric"], sc["second"]) if sc.get("second") else sc["metric"]
    gm = cls(search_space={est: {"salt": list(range(50))}}, scoring=scoring, search=g.ScriptSearch(search), regularize_length=False,
             post_processing=EnsemblePostProcessing(time_fraction=0.3, ensemble_size=sc["size"], hillclimb_size=sc["hill"] or None,
                                                    max_models=sc["maxmodels"] or None),
             n_jobs=1, max_total_time=600, store=sc["store"], verbosity=50, output_directory="out_%d" % rng.randint(0, 10 ** 9))
    gm.fit(x, y.astype(float) * sc.get("unit", 1) if reg else y)
    observe(sc, gm, tabs, evs, tabs)
    return finish(sc, tabs, box["stored"], evs)


def direct(sc):
    """build_fit_ensemble on a library with a given sample of rows."""
    import random
    import gdrive as g
    import numpy as np
    import pandas as pd
    import recest
    from gama.postprocessing.ensemble import build_fit_ensemble
    from gama.utilities.evaluation_library import EvaluationLibrary
    from gama.utilities.metrics import Metric
    from gama.configuration.parser import pset_from_config
    from gama.genetic_programming.operations import create_random_expression
    rng = random.Random(sc["seed"])
    M = len(sc["score"])
    tabs = tables(rng, sc, M)
    reg = sc["metric"] not in ("accuracy", "neg_log_loss")
    sample = None
    if sc["hill"] and sc["hill"] < len(sc["y"]):
        sample = rng.sample(range(len(sc["y"])), sc["hill"])
        if not reg:  # every class must be present
            while len({sc["y"][k] for k in sample}) < len(sc["classes"]):
                sample = rng.sample(range(len(sc["y"])), sc["hill"])
    lib = EvaluationLibrary(m=sc["maxmodels"] or None, n=None, sample=None if sample is None else np.array(sample), cache="c_%d" % rng.randint(0, 10 ** 9))
    pset, _ = pset_from_config({recest.RecRegressor: {"salt": list(range(50))}})
    es = []
    for m in sc["order"]:
        ind = g.Individual(create_random_expression(pset, 1, 1), to_pipeline=None)
        e = g.evaluation(ind, (float(sc["score"][m]),), predictions=to_pred(sc, sc["p"][m]),
                         estimators=[recest.TableModel(t, None if reg else sc["classes"]) for t in tabs[m]])
        lib.save_evaluation(e)
        es.append((m, e))
    stored = [from_pred(sc, next(e for k, e in es if k == m).predictions) for m in range(M)]
    index = list(range(len(sc["y"])))
    rng.shuffle(index)
    y = pd.Series(sc["y"], index=index)
    x = pd.DataFrame({"q": [float(k) for k in range(len(index))]}, index=index)
    if sc.get("down"):
        return downsampled(dict(sc, saved=es), tabs, lib, x, y)
    ens = build_fit_ensemble(x, y.astype(float) * sc.get("unit", 1) if reg else y, sc["size"], 100.0, Metric(sc["metric"]), lib)
    evs = []
    observe(sc, ens, tabs, evs, tabs)
    return finish(sc, tabs, stored, evs, [k + 1 for k in (range(len(sc["y"])) if sample is None else sample)])


def downsampled(sc, tabs, lib, x, y):
    """An ensemble that uses only some of the rows stored; the rows are recognised by the predictions it compares."""
    from gama.postprocessing.ensemble import EnsembleClassifier, EnsembleRegressor
    from gama.utilities.metrics import Metric
    reg = sc["metric"] != "neg_log_loss"
    cls = EnsembleRegressor if reg else EnsembleClassifier
    ens = cls(Metric(sc["metric"]), y.astype(float) if reg else y, evaluation_library=lib, downsample_to=sc["down"], use_top_n_only=len(sc["score"]))
    ens.build_initial_ensemble(1 if sc["size"] <= 10 else 10)
    have = sum(w for _, w in ens._models.values())
    if have < sc["size"]:
        ens.expand_ensemble(sc["size"] - have)
    ens.fit(x, y.astype(float) if reg else y, 100.0)
    used = {str(e.individual._id): from_pred(sc, e.predictions) for e in ens.model_library}
    mine = {str(e.individual._id): m for m, e in sc["saved"]}
    stored = [[] for _ in sc["score"]]
    for i, v in used.items():
        stored[mine[i]] = v
    evs = []
    sc = {k: v for k, v in sc.items() if k != "saved"}
    observe(sc, ens, tabs, evs, tabs)
    return finish(dict(sc, hill=sc["down"]), tabs, stored, evs)


def rand(rng, metric=None, models=0):
    metric = metric or rng.choice(["neg_mean_squared_error", "neg_mean_absolute_error", "accuracy", "neg_log_loss"])
    C = {"accuracy": rng.choice([2, 3, 3]), "neg_log_loss": rng.choice([2, 3])}.get(metric, 0)
    big = metric != "neg_log_loss" and rng.random() < 0.2
    M = models or (rng.randint(9, 12) if big else rng.randint(1, 5))
    n = rng.randint(max(4, 3 * C), 9)
    y = [k % C for k in range(n)] if C else [rng.randint(0, 5) for _ in range(n)]
    rng.shuffle(y)
    hill = rng.choice([0, 0, 20, rng.randint(max(2, C), n - max(1, C))])
    if metric == "neg_log_loss" and (hill == 0 or hill > 5):
        hill = min(5, n - C)
    quality = rng.random() < 0.5   # models that are mostly right make additions compete
    p = []
    for m in range(M):
        if C and metric == "accuracy":
            p.append([y[k] if quality and rng.random() < 0.6 else rng.randint(0, C - 1) for k in range(n)])
        elif C:
            p.append([eighths(rng, C) for _ in range(n)])
        else:
            p.append([max(0, y[k] + rng.randint(-2, 2)) if quality else rng.randint(0, 6) for k in range(n)])
    maxm = rng.choice([0, 0, 200, rng.randint(1, M)])
    score = rng.sample(range(40), M) if big or maxm and maxm < M else [rng.randint(0, 6) for _ in range(M)]
    # rows on which the kept models agree must have the same label: rows are recognised by the predictions
    kept = sorted(range(M), key=lambda m: -score[m])[:maxm or M]
    seen = {}
    for k in range(n):
        v = str([p[m][k] for m in kept])
        if seen.setdefault(v, y[k]) != y[k]:
            return rand(rng, metric, models)
    order = list(range(M))
    rng.shuffle(order)
    return dict(metric=metric, size=rng.randint(11, 14) if big else rng.randint(1, 7), classes=list(range(C)), y=y, hill=hill, p=p, score=score,
                maxmodels=maxm, order=order, seed=rng.randint(0, 10 ** 6), store=rng.choice(["nothing", "logs", "all", "models"]))


def body(ctx):
    rng = ctx.rng("ens")
    scs, down = [], []
    for metric in ("neg_mean_squared_error", "neg_mean_absolute_error", "accuracy", "neg_log_loss"):
        consts = dict(Metric=f'"{metric}"', MaxV=1 if metric == "accuracy" else ctx.pick(1, 2), R=ctx.pick(2, 2))
        for p in rng.sample(paths := ctx.model("MC_Ensemble", consts=consts, maximal=False), min(len(paths), ctx.pick(80, 800))):
            p = p[0]
            rows = len(p["y"])
            scs.append(dict(metric=metric, size=p["size"], classes=[0, 1] if metric in ("accuracy", "neg_log_loss") else [], y=p["y"] * 2, hill=0,
                            p=[list(r) * 2 for r in p["p"]], score=p["score"], maxmodels=0, order=[0, 1, 2], seed=rng.randint(0, 10 ** 6), store="nothing", path=True))
    for _ in range(ctx.pick(500, 8000)):
        scs.append(rand(rng))
    for k in range(ctx.pick(24, 300)):   # large ensembles of few models: large weights
        s = rand(rng, ["neg_mean_squared_error", "neg_mean_absolute_error", "accuracy"][k % 3], models=1 + k // 3 % 3)
        s["size"] = rng.choice([26, 30, 40])
        scs.append(s)
    for k in range(ctx.pick(48, 400)):   # medium ensembles of few models
        s = rand(rng, ["neg_mean_squared_error", "neg_mean_absolute_error", "accuracy"][k % 3], models=rng.randint(2, 4))
        s["size"] = 8 + k % 6
        scs.append(s)
    for k in range(ctx.pick(16, 200)):   # many models
        s = rand(rng, ["neg_mean_squared_error", "neg_mean_absolute_error", "accuracy"][k % 3], models=rng.randint(21, 27))
        s["size"] = rng.randint(2, 5)
        scs.append(s)
    for k in range(ctx.pick(60, 600)):   # only some of the stored rows are compared
        s = rand(rng, ["neg_mean_squared_error", "neg_mean_absolute_error", "neg_log_loss"][k % 3])
        while s["hill"] and s["metric"] != "neg_log_loss" or len(s["y"]) < 5:
            s = rand(rng, s["metric"])
        s["hill"], s["maxmodels"] = 0, 0
        s["down"] = rng.randint(2, min(5, len(s["y"]) - 1))
        down.append(s)
    for k in range(ctx.pick(40, 400)):   # models whose scores differ very little
        s = rand(rng, ["neg_mean_squared_error", "neg_mean_absolute_error"][k % 2])
        s["unit"] = 2.0 ** -rng.choice([8, 17, 20])
        scs.append(s)
    # rows of the model's paths may look alike: they are driven with the sample known
    a = [s for k, s in enumerate(scs) if k % 2 and "path" not in s]
    b = [s for k, s in enumerate(scs) if not k % 2 or "path" in s]
    for s in a:
        if s["metric"] == "accuracy" and rng.random() < 0.4:
            s["second"] = rng.choice(["neg_log_loss", "roc_auc"])
    rng.shuffle(a)
    runs = ctx.drive(in_fit, a, each_timeout=30, per=1)
    runs += ctx.drive(direct, b + down, each_timeout=30, per=1)
    ctx.validate("EnsembleTrace", runs)


vlib.main("C11", body)
