"""C25: metrics: higher is better, known type, right input."""
import collections
import vlib

LABELS = ["accuracy"] + [f"{m}_{a}" for m in ("precision", "recall", "f1") for a in ("macro", "micro", "weighted")]
NUMBERS = ["explained_variance", "r2", "neg_mean_absolute_error", "neg_mean_squared_log_error", "neg_median_absolute_error", "neg_mean_squared_error"]
OF = dict(labels=LABELS, binary=["roc_auc", "average_precision"], logs=["neg_log_loss"], numbers=NUMBERS)
ALL = LABELS + [f"{m}_samples" for m in ("precision", "recall", "f1")] + OF["binary"] + OF["logs"] + NUMBERS


def frac(v, name):
    """A score as an exact fraction (log 2 is the unit of logarithmic losses)."""
    import math
    from fractions import Fraction
    v = float(v)
    if not math.isfinite(v):
        return [0, 0]
    if name == "neg_log_loss":
        v /= math.log(2)
    if name == "neg_mean_squared_log_error":
        v /= math.log(2) ** 2
    f = Fraction(v).limit_denominator(30000)
    return [f.numerator, f.denominator] if abs(float(f) - v) < 1e-9 * max(1, abs(v)) else [0, 0]


def estimator(sc, shuffle=None):
    import recest
    if sc["kind"] == "numbers":
        return recest.TableModel(sc["p"], None)
    return recest.Scored(sc["q"] if sc["q"][0] else sc["p"], list(range(sc["C"])))


def table(sc):
    """Scores of one table, by every metric of its kind."""
    import numpy as np
    import pandas as pd
    import gdrive as g
    from gama.utilities.metrics import Metric
    evs = []
    n = len(sc["y"])
    y = np.array(sc["y"], dtype=float if sc["kind"] == "numbers" else int)
    x = pd.DataFrame({"q": [float(k) for k in range(n)]})
    est = estimator(sc)
    for name in sc["names"]:
        ev = dict(op="score", name=name, y=sc["y"], p=sc["p"], q=sc["q"], C=sc["C"], raised="", plain=[0, 0], maxi=[0, 0], scorer=[0, 0])
        evs.append(ev)
        try:
            m = Metric(name)
            pred = est.predict(x) if name not in OF["binary"] + OF["logs"] else est.predict_proba(x)
            if name in OF["binary"]:
                pred = pred[:, 1]
            if sc["series"]:
                y = pd.Series(np.asarray(y))
            ev["plain"] = frac(m.score(y, pred), name)
            ev["maxi"] = frac(m.maximizable_score(y, pred), name)
            ev["scorer"] = frac(m(est, x, y), name)
        except Exception as e:
            ev["raised"] = type(e).__name__ + ": " + str(e)[:100]
    return dict(ev=evs, scenario=str(sc)[:500])


def model(sc):
    """The score of a fitted AutoML object whose model is the table."""
    import numpy as np
    import pandas as pd
    import gdrive as g
    import random
    evs = []
    n = len(sc["y"])
    name = sc["name"]

    class Post(g.NoPost):
        def post_process(self, x, y, timeout, selection):
            return estimator(sc)

    def run(search, ops, start):
        ind = ops.individual()
        ind.fitness = g.Fitness((1.0, 1), 0, 0, 0)
        search.output = [ind]
    reg = sc["kind"] == "numbers"
    cls = g.GamaRegressor if reg else g.GamaClassifier
    scoring = tuple([name] + sc["others"]) if sc["others"] else name
    gm = cls(search=g.ScriptSearch(run), post_processing=Post(), n_jobs=1, max_total_time=600, store="nothing", verbosity=50, output_directory=g.new_dir(), scoring=scoring)
    # training data: any rows with the same classes
    x = pd.DataFrame({"q": [float(k % n) + 0.0 for k in range(3 * n + 12)], "z": [k * 0.37 for k in range(3 * n + 12)]})
    labels = ["lo", "mid", "up"] if sc["text"] else list(range(sc["C"]))
    ty = pd.Series([float(k % 5) for k in range(len(x))] if reg else [labels[k % sc["C"]] for k in range(len(x))])
    gm.fit(x, ty)
    ev = dict(op="model", name=name, y=sc["y"], p=sc["p"], q=sc["q"], C=sc["C"], raised="", plain=[0, 0])
    evs.append(ev)
    y = np.array(sc["y"], dtype=float) if reg else np.array([labels[v] for v in sc["y"]])
    px = pd.DataFrame({"q": [float(k) for k in range(n)], "z": [0.1 * k for k in range(n)]})
    try:
        ev["plain"] = frac(gm.score(px, pd.Series(y) if sc["series"] else y), name)
    except Exception as e:
        ev["raised"] = type(e).__name__ + ": " + str(e)[:100]
    return dict(ev=evs, scenario=str(sc)[:500])


def convert(sc):
    import random
    from gama.utilities.metrics import Metric, MetricType, scoring_to_metric
    from sklearn.metrics import get_scorer
    evs = []
    for name in sc["names"]:
        ev = dict(op="metric", name=name, raised="", type="", needs=False, known="")
        evs.append(ev)
        try:
            m = Metric(get_scorer(name)) if sc["scorer"] else Metric(name)
            ev.update(type="classification" if m.task_type == MetricType.CLASSIFICATION else "regression" if m.task_type == MetricType.REGRESSION else "?",
                      needs=bool(m.requires_probabilities), known=m.name)
        except Exception as e:
            ev["raised"] = type(e).__name__
    given = [Metric(n) if o else n for n, o in zip(sc["names"], sc["objects"])]
    shape = sc["shape"]
    given = given[0] if shape == "one" else collections.deque(given) if shape == "deque" else dict.fromkeys(given).keys() if shape == "keys" and len(set(map(id, given))) == len(set(map(str, given))) == len(given) else tuple(given) if shape == "tuple" else list(given)
    names = sc["names"][:1] if shape == "one" else sc["names"]
    ev = dict(op="convert", valid=True, names=names, got=[], raised="")
    try:
        ev["got"] = [m.name for m in scoring_to_metric(given)]
    except Exception as e:
        ev["raised"] = type(e).__name__
    evs.append(ev)
    bad = [None, 3, 0.5, len, object(), "no_such_metric", "max_error", ["accuracy", 3], [None], ("accuracy", "no_such_metric"), get_scorer, ["max_error", "accuracy"], {"accuracy": 1}.values()]
    ev = dict(op="convert", valid=False, names=[], got=[], raised="")
    try:
        scoring_to_metric(bad[sc["bad"] % len(bad)])
    except Exception as e:
        ev["raised"] = type(e).__name__
    evs.append(ev)
    return dict(ev=evs, scenario=str(sc)[:500])


def scenario(sc):
    return dict(table=table, model=model, convert=convert)[sc["what"]](sc)


def rand(rng, kind):
    n = rng.randint(4, 7 if kind != "logs" else 9)
    C = dict(labels=rng.choice([2, 3]), binary=2, logs=3, numbers=0)[kind]
    if kind == "numbers":
        y, p = [rng.choice([0, 1, 3, 7, 15]) for _ in range(n)], [rng.choice([0, 1, 3, 7, 15]) for _ in range(n)]
        if len(set(y)) < 2:
            y[0], y[1] = 1, 7
        return dict(kind=kind, y=y, p=p, q=[[] for _ in y], C=0)
    y = list(range(C)) + [rng.randrange(C) for _ in range(n - C)]
    rng.shuffle(y)
    p = [v if rng.random() < 0.5 else rng.randrange(C) for v in y] if kind == "labels" else [0] * n
    q = [[] for _ in y]
    if kind == "binary":
        unit, lo = rng.choice([(8, 0), (8, 0), (65536, 0), (65536, 32760), (65536, 65520)])    # coarse, fine, close together
        q = [[unit - v, v] for v in (lo + rng.randint(0, min(unit - lo, 16 if lo else unit)) for _ in y)]
    if kind == "logs":
        q = [rng.sample([4, 2, 2], 3) for _ in y]
    return dict(kind=kind, y=y, p=p, q=q, C=C)


def body(ctx):
    rng = ctx.rng("metrics")
    scs = []
    for kind, n in (("labels", ctx.pick(4, 5)), ("binary", ctx.pick(4, 6)), ("logs", ctx.pick(4, 5)), ("numbers", ctx.pick(3, 4))):
        paths = ctx.model("MC_Metrics", consts=dict(Kind=f'"{kind}"', N=n), maximal=False)
        for p in rng.sample(paths, min(len(paths), ctx.pick(250, 3000))):
            p = p[0]
            scs.append(dict(what="table", kind=kind, names=OF[kind], y=p["y"], p=p["p"], q=[list(v) for v in p["q"]], C=p["C"], series=rng.random() < 0.5))
        for _ in range(ctx.pick(150, 3000)):
            scs.append(dict(rand(rng, kind), what="table", names=OF[kind], series=rng.random() < 0.5))
        for k in range(ctx.pick(60, 600)):
            name = OF[kind][k % len(OF[kind])]
            others = [m for m in rng.sample(NUMBERS if kind == "numbers" else LABELS + ["neg_log_loss"], 2) if m != name] if rng.random() < 0.3 else []
            scs.append(dict(rand(rng, kind), what="model", name=name, others=others, series=rng.random() < 0.5,
                            text=kind in ("labels", "logs") and rng.random() < 0.5))
    for k in range(ctx.pick(120, 1000)):
        names = rng.sample(ALL, rng.randint(1, 5))
        names = names if k >= len(ALL) else [ALL[k]] + [n for n in names if n != ALL[k]]
        scs.append(dict(what="convert", names=names, objects=[rng.random() < 0.4 for _ in names], shape=rng.choice(["one", "tuple", "list", "deque", "keys"]), bad=k, scorer=rng.random() < 0.3))
    ctx.validate("MetricsTrace", ctx.drive(scenario, scs, each_timeout=30))


vlib.main("C25", body)
