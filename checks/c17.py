"""C17: predictions use the original labels."""
import vlib

KINDS = {
    "str": ["b", "c", "aa"], "numstr": ["10", "9", "-1"], "upper": ["a", "B", "Z"], "int": [3, 1, 2], "gap": [100, -3, 5], "zero": [0, 1, 2], "shift": [1, 2, 3],
    "wholefloat": [2.0, 0.0, 1.0], "bool": [True, False], "catstr": ["x", "y", "w"], "catunused": ["x", "y", "w"],
    "catorder": ["low", "mid", "high"], "catint": [7, 5, 6], "onehot": [0, 1, 2], "uint8": [1, 0, 2], "space": ["a b", "c;d", "é"], "objint": [4, 2, 9],
    "strindex": ["0", "1", "2"], "catnumstr": ["2", "11", "3"],
    "onehot2": [0, 1], "onehot12": list(range(12)), "manystr": ["k%d" % (k * 37 % 40) for k in range(40)], "manyint": [k * 7 % 15 for k in range(15)],
    "manygap": [k * k - 30 for k in range(30)], "catmany": ["c%d" % (99 - k) for k in range(26)], "longstr": ["x" * 300 + "b", "x" * 300 + "a", "x" * 299]}
FORMS = ["series", "frame", "array", "column"]


def target(sc, y):
    """The target in its form; y: label numbers in sorted order, 0 missing."""
    import numpy as np
    import pandas as pd
    kind = sc["kind"]
    labels = sorted(KINDS[kind])
    vals = [None if v == 0 else labels[v - 1] for v in y]
    if kind.startswith("onehot"):
        k = len(labels)
        return np.array([[1.0 if c == v - 1 else 0.0 for c in range(k)] for v in y]), labels
    index = sc["index"](len(y)) if callable(sc["index"]) else make_index(sc["index"], len(y), sc["seed"])
    missing = any(v == 0 for v in y)
    if kind.startswith("cat"):
        cats = KINDS[kind] + ([KINDS[kind][0] * 2 + "z"] if kind == "catunused" else [])
        s = pd.Series(pd.Categorical(vals, categories=cats, ordered=kind == "catorder"), index=index)
    elif kind in ("str", "numstr", "upper", "space", "strindex", "manystr", "longstr"):
        s = pd.Series(vals, dtype=object, index=index)
    elif kind == "objint":
        s = pd.Series(vals, dtype=object, index=index).infer_objects() if missing else pd.Series(vals, index=index)
    elif kind == "uint8":
        s = pd.Series([np.nan if v is None else v for v in vals], index=index)
        s = s if missing else s.astype("uint8")
    elif kind == "bool":
        s = pd.Series(vals, index=index)
    else:
        s = pd.Series([np.nan if v is None else v for v in vals], index=index)
        if kind in ("int", "gap", "zero", "shift", "manyint", "manygap") and not missing:
            s = s.astype("int64")
    if sc["form"] == "frame":
        return s.to_frame("target"), labels
    if sc["form"] == "array":
        return np.asarray(s), labels
    if sc["form"] == "column":
        return np.asarray(s).reshape(-1, 1), labels
    return s, labels


def make_index(kind, n, seed):
    import random
    r = random.Random(seed)
    if kind == "shuffled":
        k = list(range(n))
        r.shuffle(k)
        return k
    if kind == "dup":
        return [r.randint(0, 2) for _ in range(n)]
    if kind == "str":
        return ["r%d" % k for k in r.sample(range(n * 3), n)]
    if kind == "offset":
        return [k + 50 for k in range(n)]
    return list(range(n))


def number(v, labels):
    """The number of the label that v is (same kind of type and value), or -1."""
    import numpy as np

    def cls(a):
        if isinstance(a, (bool, np.bool_)):
            return "bool"
        if isinstance(a, str):
            return "str"
        return "number" if isinstance(a, (int, float, np.number)) else type(a).__name__
    return next((k + 1 for k, l in enumerate(labels) if cls(l) == cls(v) and l == v), -1)


def features(sc, rows, form, index, y):
    import numpy as np
    import pandas as pd
    a = np.array([[r + 0.25, (r * 7) % 5 + 0.5] for r in rows])
    if sc["hollow"] and 0 in y:        # a feature that only rows without label have
        a = np.hstack([a, [[np.nan if r > len(y) or y[r - 1] else 1.5] for r in rows]])
    if form == "array":
        return a
    return pd.DataFrame(a, columns=["q", "z", "h"][:a.shape[1]], index=make_index(index, len(rows), sc["seed"] + 1))


def scenario(sc):
    import random
    import gsim
    from gsim import SIM
    import gdrive as g
    import numpy as np
    import recest
    from gama.postprocessing import EnsemblePostProcessing, BestFitPostProcessing
    from gama.utilities.generic.async_evaluator import AsyncEvaluator
    evs = []

    def search(s, ops, start):
        s.output = []
        SIM.reset([dict(k=1, out="real") for _ in range(50)])
        with AsyncEvaluator() as pool:
            for ind in start[:2]:
                pool.submit(ops.evaluate, ind)
            for _ in start[:2]:
                fut = ops.wait_next(pool)
                s.output.append(fut.result.individual)

    def build():
        random.seed(sc["seed"])
        np.random.seed(sc["seed"])
        post = EnsemblePostProcessing(ensemble_size=3) if sc["post"] == "ensemble" else BestFitPostProcessing()
        return g.GamaClassifier(search_space={recest.MemoClassifier: {"salt": list(range(30))}}, scoring=sc["metric"], search=g.ScriptSearch(search),
                                post_processing=post, n_jobs=1, max_total_time=600, store="nothing", verbosity=50, output_directory=g.new_dir())
    gm = build()
    for f in sc["fits"]:
        y = f["y"]
        rows = list(range(1, len(y) + 1))
        t, labels = target(dict(sc, kind=f["kind"], form=f["form"], index=f["yindex"]), y)
        ev = dict(op="fit", y=y, kind=f["kind"], form=f["form"], raised="")
        evs.append(ev)
        random.seed(sc["seed"])
        try:
            gm.fit(features(sc, rows, f["x"], f["xindex"], y), t)
        except Exception as e:
            ev["raised"] = type(e).__name__ + str(e)[:100]
            break
        ask = rows + [2000, 2001, 2002, 2003]
        random.Random(sc["seed"]).shuffle(ask)
        results = []
        for part in (ask, ask[:1]):
            known = [r if r <= len(y) else 0 for r in part]
            px = features(sc, part, f["x"], f["pindex"], y)
            p = dict(op="predict", rows=known, raised="", got=[], array=True)
            try:
                res = gm.predict(px)
                p["array"] = isinstance(res, np.ndarray) and res.ndim == 1
                p["got"] = [number(v, labels) for v in res.tolist()] if res.dtype != object else [number(v, labels) for v in res]
                results.append(res)
            except Exception as e:
                p["raised"] = type(e).__name__ + str(e)[:100]
            q = dict(op="proba", rows=known, raised="", columns=0, top=[], sums=True)
            try:
                pr = np.asarray(gm.predict_proba(px))
                q.update(columns=int(pr.shape[1]), top=[int(np.argmax(v)) + 1 for v in pr], sums=bool(np.allclose(pr.sum(axis=1), 1)))
                results.append(pr)
            except Exception as e:
                q["raised"] = type(e).__name__ + str(e)[:100]
            evs += [p, q]
        if 0 in y and len(results) == 4:
            keep = [k for k, v in enumerate(y) if v]
            other = build()
            random.seed(sc["seed"])
            x0 = features(sc, rows, f["x"], f["xindex"], y)
            x1 = x0[keep] if f["x"] == "array" else x0.iloc[keep]
            t1 = t[keep] if isinstance(t, np.ndarray) else t.iloc[keep]
            other.fit(x1, t1)
            px = features(sc, ask, f["x"], f["pindex"], y)
            evs.append(dict(op="same", same=[str(v) for v in other.predict(px)] == [str(v) for v in results[0]]
                            and bool(np.allclose(np.asarray(other.predict_proba(px)), results[1]))))
    return dict(ev=evs, scenario=str({k: v for k, v in sc.items()})[:900])


def fit(rng, y, kind=None):
    kind = kind or rng.choice(list(KINDS))
    k = len(KINDS[kind])
    y = [min(v, k) for v in y]
    if len(set(y) - {0}) < 2:       # a classification task has at least two classes
        y = [v and 1 + q % 2 for q, v in enumerate(y)]
    if k > 9:
        y = [v for v in y if v == 0] + list(range(1, k + 1)) * 5 + [rng.randint(1, k) for _ in range(20)]
        rng.shuffle(y)
    if kind.startswith("onehot") or kind == "bool":
        y = [v or 1 for v in y]
    if kind.startswith("onehot"):
        y = list(range(1, k + 1)) + y
    for c in sorted(set(y) - {0}):       # enough rows of each label for the folds
        y = y + [c] * (5 - y.count(c))
    return dict(y=y, kind=kind, form=rng.choice(FORMS), yindex=rng.choice(["range", "shuffled", "dup", "str", "offset"]),
                xindex=rng.choice(["range", "shuffled", "dup", "offset"]), pindex=rng.choice(["range", "shuffled", "dup"]), x=rng.choice(["frame", "frame", "array"]))


def body(ctx):
    rng = ctx.rng("labels")
    scs = []
    pats = [p[0]["y"] for p in ctx.model("MC_Labels", maximal=False)]
    kinds = list(KINDS)
    n = ctx.pick(260, 4000)
    for k in range(n):
        fits = []
        for _ in range(rng.choice([1, 1, 2])):
            y = list(rng.choice(pats))
            # enough rows of each label present for the folds
            present = sorted(set(y) - {0})
            y = y + present * rng.randint(5, 6)
            rng.shuffle(y)
            fits.append(fit(rng, y, kinds[k % len(kinds)] if not fits else None))
        scs.append(dict(fits=fits, seed=rng.randint(0, 10 ** 6), metric=rng.choice(["accuracy", "neg_log_loss", "f1_macro"]), hollow=rng.random() < 0.3, post=rng.choice(["ensemble", "best"])))
    ctx.validate("LabelsTrace", ctx.drive(scenario, scs, per=1, each_timeout=60))


vlib.main("C17", body)
