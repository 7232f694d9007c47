"""C21: exported code rebuilds the model."""
import vlib

NAMES = ["alpha", "be ta", "it's", 'say "x"', "back\\slash", "per%cent", "{brace}", "new_line", "Ünïcode", "x", "tab\tbed", "#hash"]
LABEL_METRICS = ["accuracy", "f1_macro", "precision_macro"]
PROBA_METRICS = ["neg_log_loss", "roc_auc"]
REG_METRICS = ["neg_mean_squared_error", "r2", "neg_mean_absolute_error"]


def plain(v):
    import gdrive as g
    import numpy as np
    return g.val(v.item() if isinstance(v, np.generic) else v)


def member(ind):
    """Steps of an individual from the data to the predictor."""
    return [dict(p=n._primitive.identifier.__name__, h=sorted([t.output, plain(t.value)] for t in n._terminals)) for n in reversed(ind.primitives)]


def step(est, slots):
    """A step of the rebuilt pipeline: the configured hyperparameters, and any other that is not the default."""
    import inspect
    from sklearn.base import BaseEstimator
    params = est.get_params(deep=False)
    default = {k: p.default for k, p in inspect.signature(type(est).__init__).parameters.items() if p.default is not p.empty}
    h = []
    for k, v in params.items():
        if k in slots or k not in default or plain(v) != plain(default[k]):
            if not isinstance(v, BaseEstimator):
                h.append([k, plain(v)])
    return dict(p=type(est).__name__, h=sorted(h))


def slots_of(ind):
    return {n._primitive.identifier.__name__: {t.output for t in n._terminals} for n in ind.primitives}


def digest(a):
    import hashlib
    import numpy as np
    a = np.asarray(a, dtype=float)
    return str(a.shape) + hashlib.sha1(repr([["%.9g" % (v + 0.0) for v in row] for row in a.tolist()]).encode()).hexdigest()[:12]


def is_fitted(est):
    return any(k.endswith("_") and not k.startswith("_") for k in vars(est))


def texts(a):
    import numpy as np
    a = np.asarray(a)
    return ["%.6g" % v if a.dtype.kind == "f" else str(v) for v in a.tolist()]


def make_data(sc):
    import random
    import numpy as np
    import pandas as pd
    rng = random.Random(sc["seed"])
    n = sc["rows"]
    cols = {"q" if not sc["qname"] else sc["qname"]: [float(k) for k in range(n)]}
    for name, d in sc["layout"]:
        if d == 0:
            v = [rng.choice([rng.random() * 9, rng.random(), rng.randint(0, 5) + 0.5]) for _ in range(n)]
            if rng.random() < 0.3:
                v[rng.randrange(n)] = np.nan
            cols[name] = v
        else:
            v = ["v%d" % ((k * 5) % d if k >= d else k) for k in range(n)]
            if rng.random() < 0.3:
                v[rng.randrange(d, n)] = None
            cols[name] = pd.Categorical(v)
    x = pd.DataFrame(cols)
    if sc["task"] == "reg":
        return x, pd.Series([float((k * 7) % 11) + (k % 3) * 0.25 for k in range(n)])
    C = sc["classes"]
    return x, pd.Series([["no", "yes", "maybe"][(k * 2 + k // 3) % C] for k in range(n)])


def scenario(sc):
    import os
    import random
    import numpy as np
    import gdrive as g
    import recest
    from sklearn.base import clone
    from gama.configuration.classification import clf_config
    from gama.configuration.regression import reg_config
    from gama.postprocessing import EnsemblePostProcessing, BestFitPostProcessing
    rng = random.Random(sc["seed"])
    random.seed(sc["seed"])
    np.random.seed(sc["seed"] % 99991)
    os.makedirs("w%d" % sc["n"])
    os.chdir("w%d" % sc["n"])
    x, y = make_data(sc)
    reg = sc["task"] == "reg"
    space = dict(reg_config if reg else clf_config)
    if sc["light"]:
        space = {k: v for k, v in space.items() if isinstance(k, str) or k.__name__ in
                 ("GaussianNB", "BernoulliNB", "KNeighborsClassifier", "DecisionTreeClassifier", "LogisticRegression", "DecisionTreeRegressor", "KNeighborsRegressor",
                  "ElasticNetCV", "MinMaxScaler", "MaxAbsScaler", "Normalizer", "PCA", "PolynomialFeatures", "RobustScaler", "StandardScaler", "SelectFwe", "SelectPercentile", "Binarizer",
                  "VarianceThreshold")}
        space[recest.SaltyRegressor if reg else recest.SaltyClassifier] = {"word": ["plain", "two words", "semi;colon"], "number": [1, 2.5, -3e-7, True, None], "pair": [(1, 2), ("a", None)],
                                                                            "fn": [recest.helper_one, recest.helper_two]}
    path, file = sc["path"], "model.py"
    box = dict(model=None)

    def usable(ind, xx, yy):
        try:
            p = clone(ind.pipeline)
            p.fit(xx, yy)
            p.predict(xx)
            return True
        except Exception:
            return False

    class Single(BestFitPostProcessing):
        def post_process(self, xx, yy, timeout, selection):
            box["x"], box["y"] = xx, yy
            return super().post_process(xx, yy, timeout, selection)

    class Several(EnsemblePostProcessing):
        def post_process(self, xx, yy, timeout, selection):
            box["x"], box["y"] = xx, yy
            return super().post_process(xx, yy, timeout, selection)

    M, n = sc["members"], len(x)

    def search(s, ops, start):
        if box["kind"] == "single":
            for _ in range(40):
                ind = ops.individual()
                if sc["keep"] is not None and not usable(ind, box["sx"], box["sy"]):
                    continue
                break
            ind.fitness = g.Fitness((1.0, 1), 0, 0, 0)
            box["inds"] = [ind]
            s.output = [ind]
            return
        box["inds"] = []
        for m in range(M):
            ind = ops.individual()
            right = [rng.random() < 0.7 for _ in range(n)]
            if reg:
                on = [1.0 if k == m else 0.0 for k in range(n)]
                pred = np.array([float(y[k]) + rng.choice([-1, 0, 1, 2]) for k in range(n)])
                ests = [recest.TableModel(on)]
            else:
                C = sc["classes"]
                code = [sorted(set(y)).index(v) for v in y]
                lab = [code[k] if right[k] else rng.randrange(C) for k in range(n)]
                pred = np.array([[0.7 if c == v else 0.3 / (C - 1) for c in range(C)] for v in lab]) if sc["proba"] else np.array(lab)
                if sc["metric"] in PROBA_METRICS:
                    on = [([0, 8] if k == m else [8, 0]) + [0] * (C - 2) for k in range(n)]
                else:
                    on = [1 if k == m else 0 for k in range(n)]
                    if sc["proba"]:
                        on = [([0, 8] if v else [8, 0]) + [0] * (C - 2) for v in on]
                ests = [recest.TableModel(on, list(range(C)))]
            e = g.evaluation(ind, (float(rng.randint(0, 5)),) + ((1.0,) if sc["second"] else ()), predictions=pred, estimators=ests)
            ops.wait_next(g.Feed(g.Done(e)))
            box["inds"].append(ind)
        s.output = [box["inds"][0]]

    class Search(g.ScriptSearch):
        def dynamic_defaults(self, xx, yy, time_limit):
            box["sx"], box["sy"] = xx, yy
    gm = None

    def construct(kind):
        nonlocal gm
        cls = g.GamaRegressor if reg else g.GamaClassifier
        post = Single() if kind == "single" else Several(ensemble_size=sc["size"])
        gm = cls(search=Search(search), post_processing=post, search_space=space, scoring=(sc["metric"], sc["second"]) if sc["second"] else sc["metric"], regularize_length=False,
                 n_jobs=1, max_total_time=600, store="nothing", verbosity=50, output_directory=g.new_dir())
    fits = [p["kind"] for p in path if p["op"] == "fit"]
    construct(fits[0] if fits else "single")
    evs = []
    done = 0
    for p in path:
        if p["op"] == "begin":
            if p["file"] == "other":
                open(file, "w").write("something = 'else'\n")
            evs.append(dict(op="begin"))
        elif p["op"] == "fit":
            kind = p["kind"]
            if done and kind != box["kind"]:
                construct(kind)
            box["kind"] = kind
            done += 1
            gm.fit(x, y)
            voting = ("regressor" if reg else "soft" if sc["metric"] in PROBA_METRICS else "hard") if kind == "ensemble" else ""
            preds, z = [], ""
            inds = box["inds"]
            if kind == "single":
                weights = [1]
                models = [dict(steps=member(inds[0]), weight=1)]
                k = len(inds[0].primitives)
                preds = texts(gm.predict(x))
                z = pre_digest(inds[0].pipeline, k, box["x"], box["y"])
                # a refit under the same random numbers; the model itself if chance plays no role
                again = fit_with(clone(inds[0].pipeline), box["x"], box["y"], 5)
                again = texts(again if reg else np.array(sorted(set(y)))[again])
                if not any("random_state" in st.get_params() for _, st in inds[0].pipeline.steps) and again != preds:
                    again = ["model differs"] + preds
                preds = again
            else:
                mean = gm.predict(x) if reg else gm.predict_proba(x)[:, 1]
                weights = [int(round(float(mean[m]) * sc["size"])) for m in range(M)]
                models = [dict(steps=member(i), weight=w) for i, w in zip(inds, weights) if w]
                z = pre_digest(inds[0].pipeline, len(inds[0].primitives), box["x"], box["y"])
            box["slots"] = {}
            for i in inds:
                for name, v in slots_of(i).items():
                    box["slots"].setdefault(name, set()).update(v)
            box["model"] = dict(kind=kind, voting=voting, models=models, z=z, predictions=preds)
            evs.append(dict(op="fit", model=box["model"]))
        else:
            ev = dict(op="export", file=p["file"], exclusive=p["exclusive"], before=read(file), after="", raised="", othersChanged=False)
            others = sorted(f for f in os.listdir(".") if f != file)
            text = None
            was = answers(gm, x)
            try:
                text = gm.export_script(file if p["file"] else None, raise_if_exists=p["exclusive"])
            except Exception as e:
                ev["raised"] = type(e).__name__
            ev["after"] = read(file)
            ev["othersChanged"] = sorted(f for f in os.listdir(".") if f != file) != others
            ev["unchanged"] = was == answers(gm, x)
            if text is not None:
                ev["fromText"] = rebuild(text, box, x, y)
                if p["file"]:
                    ev["fromFile"] = rebuild(open(file).read(), box, x, y) if os.path.exists(file) else dict(error="no file")
            evs.append(ev)
    return dict(ev=evs, scenario=str(sc)[:500])


def answers(gm, x):
    """What the object tells about x, as texts."""
    out = []
    for f in ("predict", "predict_proba"):
        if hasattr(gm, f):
            try:
                out.append(digest(getattr(gm, f)(x)) if f != "predict" else texts(gm.predict(x)))
            except Exception as e:
                out.append(type(e).__name__)
    return out


def read(file):
    import hashlib
    import os
    return hashlib.sha1(open(file, "rb").read()).hexdigest() if os.path.exists(file) else "absent"


def pre_digest(pipe, k, x, y):
    """What reaches the first of the last k steps of a pipeline fitted on x, y."""
    from sklearn.base import clone
    if len(pipe.steps) == k:
        return digest(x)
    return digest(clone(pipe)[:-k].fit(x, y).transform(x))


def fit_with(pipe, x, y, seed):
    import numpy as np
    import random
    np.random.seed(seed)
    random.seed(seed)
    return pipe.fit(x, y).predict(x)


def rebuild(text, box, x, y):
    ns = {}
    out = dict(error="", kind="", voting="", models=[], z="", fitted=False, checked=False, predictions=[])
    try:
        exec(compile(text, "exported", "exec"), ns)
        pipe = ns["pipeline"]
        last = pipe.steps[-1][1]
        out["fitted"] = is_fitted(pipe) or any(is_fitted(s) for _, s in pipe.steps)
        if type(last).__name__ in ("VotingClassifier", "VotingRegressor"):
            out["kind"] = "ensemble"
            out["voting"] = "regressor" if type(last).__name__ == "VotingRegressor" else last.voting
            ws = last.weights if last.weights is not None else [1] * len(last.estimators)
            out["models"] = [dict(steps=[step(s, box["slots"].get(type(s).__name__, ())) for _, s in e.steps], weight=int(w)) for (_, e), w in zip(last.estimators, ws)]
            if len(ws) != len(last.estimators):
                out["error"] = "weights"
            out["z"] = pre_digest(pipe, 1, x, y)
        else:
            k = len(box["model"]["models"][0]["steps"])
            out["kind"] = "single"
            out["models"] = [dict(steps=[step(s, box["slots"].get(type(s).__name__, ())) for _, s in pipe.steps[-k:]], weight=1)]
            out["z"] = pre_digest(pipe, k, x, y)
            out["checked"] = True
            out["predictions"] = texts(fit_with(pipe, x, y, 5))
    except Exception as e:
        out["error"] = type(e).__name__ + ": " + str(e)[:200]
    return out


def build(rng, path, n, thorough):
    task = rng.choice(["reg", "clf"])
    classes = rng.choice([2, 3])
    metrics = REG_METRICS if task == "reg" else LABEL_METRICS + [m for m in PROBA_METRICS if m != "roc_auc" or classes == 2]
    metric = rng.choice(metrics)
    second = rng.choice(["", "", "neg_log_loss" if metric != "neg_log_loss" else "accuracy"]) if task == "clf" else ""
    ncol = rng.choice([0, 1, 2, 3, 6, 6]) if rng.random() < 0.85 else rng.randint(30, 60)
    names = rng.sample(NAMES, ncol) if ncol <= len(NAMES) else ["column_%d" % k for k in range(ncol)]
    layout = [(nm, rng.choice([0, 1, 2, 2, 3, 4, 10, 11, 12])) for nm in names]
    return dict(n=n, path=path, task=task, classes=classes, metric=metric, second=second, proba=metric in PROBA_METRICS or second in PROBA_METRICS, layout=layout,
                qname=rng.choice(["", "", "the first"]), rows=rng.randint(26, 36), members=rng.randint(1, 5), size=rng.randint(1, 8), light=rng.random() < 0.7,
                keep=True, seed=rng.randint(0, 10 ** 6))


def body(ctx):
    rng = ctx.rng("export")
    paths = ctx.model("MC_Export", maximal=False)
    rng.shuffle(paths)
    fitted = [p for p in paths if any(e["op"] == "fit" for e in p) and p[-1]["op"] == "export"]
    unfitted = [p for p in paths if not any(e["op"] == "fit" for e in p)]
    one = [[dict(op="begin", file="absent"), dict(op="fit", kind=k), dict(op="export", file=False, exclusive=False)] for k in ("single", "ensemble")]
    chosen = fitted[:ctx.pick(110, 500)] + unfitted[:ctx.pick(10, 40)] + [one[k % 2] for k in range(ctx.pick(300, 4000))]
    scs = [build(rng, p, n, ctx.thorough) for n, p in enumerate(chosen)]
    rng.shuffle(scs)
    ctx.validate("ExportTrace", ctx.drive(scenario, scs, each_timeout=90, per=8))


vlib.main("C21", body)
