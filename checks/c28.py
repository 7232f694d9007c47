"""C28: a row's prediction depends on that row only, however the data is given."""
import os
import random
import uuid
import vlib

N_ROWS = 12
WORDS = ["red", "green", "blue", "grey", "pink"]


def table(sc):
    """Feature columns: (name, kind, training values, values of the predicted rows); missing is None."""
    rng = random.Random(sc["seed"])
    n = sc["n"]

    def col(kind):
        if kind == "real":
            return lambda: round(rng.uniform(-50, 50), 3)
        if kind == "count":
            return lambda: rng.randint(0, 60)
        if kind == "digit":
            return lambda: rng.randint(0, 2)
        if kind == "truth":
            return lambda: rng.random() < 0.5
        if kind == "flag":
            return lambda: rng.choice(["no", "yes"])
        if kind == "word":
            return lambda: rng.choice(WORDS)
        return lambda: "w%d" % rng.randint(0, 14)
    cols = []
    for k, kind in enumerate(sc["kinds"]):
        draw = col(kind)
        train = [draw() for _ in range(n)]
        if kind in ("flag", "word", "many", "digit", "truth"):      # every level occurs in training
            levels = {"flag": ["no", "yes"], "word": WORDS, "digit": [0, 1, 2], "truth": [False, True], "many": ["w%d" % j for j in range(15)]}[kind]
            train[:len(levels)] = levels
        test = [draw() for _ in range(N_ROWS)]
        for data, share in ((train, 0.1), (test, 0.15)):
            for j in range(len(data)):
                if sc["missing"] and kind != "truth" and rng.random() < share and not (data is train and j < 15):
                    data[j] = None
        if sc["new"] and kind in ("flag", "word", "many"):
            test[rng.randrange(N_ROWS)] = "unseen"
        cols.append(("c%d" % k, kind, train, test))
    for j in range(1, N_ROWS):     # some rows are equal
        if rng.random() < 0.2:
            for c in cols:
                c[3][j] = c[3][j - 1]
    return cols


def target(sc, cols):
    rng = random.Random(sc["seed"] + 1)
    base = [sum((v or 0) if not isinstance(v, str) else len(v) * 5 + ord(v[-1]) for v in row) for row in zip(*[c[2] for c in cols])]
    if sc["reg"]:
        return [float(b) + rng.random() for b in base]
    order = sorted(base)
    cuts = [order[len(order) // 3], order[2 * len(order) // 3]]
    names = sc["labels"]
    return [names[sum(b > c for c in cuts) % len(names)] for b in base]


def frame(cols, values, index=None):
    import pandas as pd
    out = {}
    for (name, kind, train, _), vs in zip(cols, values):
        if kind in ("flag", "word", "many"):
            out[name] = pd.Series(pd.Categorical(vs), index=index)
        elif kind == "truth":
            out[name] = pd.Series(vs, index=index, dtype=bool)
        elif kind == "digit":
            out[name] = pd.Series(pd.Categorical(vs), index=index)
        else:
            out[name] = pd.Series(vs, index=index, dtype=float)
    return pd.DataFrame(out)


def text(v):
    return "" if v is None else str(v)


def write_csv(path, cols, rows, tgt, where):
    names = [c[0] for c in cols]
    at = {"first": 0, "middle": 1, "last": len(names)}[where]
    with open(path, "w") as fh:
        fh.write(",".join(names[:at] + ["target"] + names[at:]) + "\n")
        for vs, t in zip(rows, tgt):
            cells = [text(v) for v in vs]
            fh.write(",".join(cells[:at] + [text(t)] + cells[at:]) + "\n")


def write_arff(path, cols, rows, tgt, where, nominal_target):
    lines = []
    for name, kind, _, test in cols:
        levels = {"flag": ["no", "yes", "unseen"], "word": WORDS + ["unseen"], "many": ["w%d" % j for j in range(15)] + ["unseen"]}.get(kind)
        lines.append(f"@attribute {name} {'{' + ','.join(levels) + '}' if levels else 'numeric'}")
    names = [c[0] for c in cols]
    at = {"first": 0, "middle": 1, "last": len(names)}[where]
    lines.insert(at, "@attribute target " + ("{" + ",".join(sorted({str(t) for t in tgt if t is not None} | {"zzz"})) + "}" if nominal_target else "numeric"))
    with open(path, "w") as fh:
        fh.write("@relation r\n" + "\n".join(lines) + "\n@data\n")
        for vs, t in zip(rows, tgt):
            cells = ["?" if v is None else str(v) for v in vs]
            fh.write(",".join(cells[:at] + ["?" if t is None else str(t)] + cells[at:]) + "\n")


def answers(out, way):
    import numpy as np
    out = np.asarray(out)
    if way == "proba":
        return [[int(round(v * 1000000)) for v in row] for row in out.tolist()]
    return [repr(v) if isinstance(v, str) else "%.6g" % float(v) for v in out.tolist()]


def snapshot(x):
    import numpy as np
    import pandas as pd
    if isinstance(x, pd.DataFrame):
        return (list(map(repr, x.columns)), list(map(repr, x.index)), [repr(x[c].dtype) for c in x], [[repr(v) for v in x[c].tolist()] for c in x])
    if isinstance(x, np.ndarray):
        return (str(x.dtype), x.shape, [repr(v) for v in x.ravel().tolist()])
    return open(x, "rb").read()


def space(reg):
    from sklearn.linear_model import LogisticRegression, Ridge
    from sklearn.naive_bayes import GaussianNB
    from sklearn.neighbors import KNeighborsClassifier, KNeighborsRegressor
    from sklearn.preprocessing import MinMaxScaler, Normalizer, StandardScaler
    from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor
    tr = {MinMaxScaler: {}, StandardScaler: {}, Normalizer: {}}
    if reg:
        return {Ridge: {}, KNeighborsRegressor: {"n_neighbors": [1, 3]}, DecisionTreeRegressor: {"max_depth": [3, 8]}, **tr}
    return {GaussianNB: {}, LogisticRegression: {}, KNeighborsClassifier: {"n_neighbors": [1, 4]}, DecisionTreeClassifier: {"max_depth": [3, 8]}, **tr}


def as_array(cols, values, dtype):
    import numpy as np
    rows = list(zip(*values))
    if dtype == "float":
        return np.array([[float("nan") if v is None else float(v) for v in r] for r in rows])
    out = np.empty((len(rows), len(cols)), dtype=object)
    for a, r in enumerate(rows):
        for b, v in enumerate(r):
            out[a, b] = float("nan") if v is None else v
    return out


def fit(sc, cols, y):
    import gsim
    from gsim import SIM
    import gdrive as g
    import numpy as np
    import pandas as pd
    from gama.postprocessing import BestFitPostProcessing, EnsemblePostProcessing
    from gama.utilities.generic.async_evaluator import AsyncEvaluator

    def search(s, ops, start):
        done = []
        SIM.reset([dict(k=1) for _ in range(50)])
        with AsyncEvaluator() as pool:
            for ind in start[:3]:
                pool.submit(ops.evaluate, ind)
            for _ in start[:3]:
                done.append(ops.wait_next(pool).result)
        s.output = [e.individual for e in sorted(done, key=lambda e: e.score, reverse=True)]
    random.seed(sc["seed"])
    np.random.seed(sc["seed"] % 2**31)
    cls = g.GamaRegressor if sc["reg"] else g.GamaClassifier
    post = EnsemblePostProcessing(ensemble_size=3) if sc["post"] == "ensemble" else BestFitPostProcessing()
    m = cls(search_space=space(sc["reg"]), search=g.ScriptSearch(search), post_processing=post, output_directory=g.new_dir(),
            scoring="neg_mean_squared_error" if sc["reg"] else "accuracy" if sc["post"] != "ensemble" else "neg_log_loss",
            n_jobs=1, max_total_time=600, store="nothing", verbosity=50)
    values = [c[2] for c in cols]
    if sc["train"] == "frame":
        m.fit(frame(cols, values), pd.Series(y))
    elif sc["train"].startswith("array"):
        m.fit(as_array(cols, values, sc["train"][6:]), np.array(y))
    else:
        path = os.path.abspath(f"train_{uuid.uuid4().hex}.{sc['train']}")
        if sc["train"] == "csv":
            write_csv(path, cols, list(zip(*values)), y, sc["where"])
            m.fit_from_file(path, target_column="target", sep=",", header=0)
        else:
            write_arff(path, cols, list(zip(*values)), y, sc["where"], not sc["reg"])
            m.fit_from_file(path, target_column="target")
    return m


def sniffable(path, where_cols):
    import csv
    with open(path) as fh:
        head = fh.read(4096)
    try:
        return csv.Sniffer().sniff(head).delimiter == "," and csv.Sniffer().has_header(head)
    except csv.Error:
        return False


def call(m, sc, cols, y, op, rng):
    """One call: the given rows, in the given form, asked in the given way."""
    import pandas as pd
    rows, way = op["rows"], op["way"]
    if sc["reg"]:
        way = "label"
    values = [[c[3][r - 1] for r in rows] for c in cols]
    form = op["form"]
    if form == "arff" and "truth" in sc["kinds"]:
        form = "csv"
    if sc["train"].startswith("array"):
        given = as_array(cols, values, sc["train"][6:])
        if form == "strided":
            given = as_array(cols, [[v for v in vs for _ in (0, 1)] for vs in values], sc["train"][6:])[::2]
        form = "array"
    elif form in ("csv", "arff"):
        where, junk = rng.choice(["first", "middle", "last"]), rng.choice(["real", "none", "junk"])
        tgt = [{"real": rng.choice(y), "none": None, "junk": "zzz" if not sc["reg"] else -1.5}[junk] for _ in rows]
        given = os.path.abspath(f"p_{uuid.uuid4().hex}.{form}")
        if form == "csv":
            write_csv(given, cols, list(zip(*values)), tgt, where)
        else:
            write_arff(given, cols, list(zip(*values)), tgt, where, not sc["reg"])
        name = dict() if where == "last" and rng.random() < 0.5 else dict(target_column="target")
    else:
        full = frame(cols, [c[3] for c in cols])
        if form == "frame":       # a selection of rows of one frame keeps its labels
            given = full.iloc[[r - 1 for r in rows]]
        elif form == "fresh":
            given = frame(cols, values)
        else:
            index = rng.choice([list(range(100, 100 + len(rows))), ["x%d" % k for k in range(len(rows))], [7] * len(rows), list(range(len(rows)))[::-1]])
            given = frame(cols, values, index=index)
    out = dict(op="call", rows=rows, way=way, form=form, out=[], raised="", kept=True)
    before = snapshot(given)
    try:
        if isinstance(given, str):
            if way == "proba" and form == "csv" and not sniffable(given, cols):
                out["way"] = way = "label"
            if way == "label":
                kw = dict(sep=",", header=0) if form == "csv" else {}
                got = m.predict_from_file(given, **name, **kw)
            else:
                got = m.predict_proba_from_file(given, **name)
        else:
            got = m.predict(given) if way == "label" else m.predict_proba(given)
        out["out"] = answers(got, way)
        out["kept"] = snapshot(given) == before
    except Exception as e:
        out["raised"] = type(e).__name__ + " " + str(e)[:120]
    if isinstance(given, str):
        os.remove(given)
    return out


def score(m, sc, cols, y, rng):
    import pandas as pd
    nominal = not sc["reg"]
    form = rng.choice(["csv", "arff"] if "truth" not in sc["kinds"] and not (nominal and isinstance(y[0], int)) else ["csv"])
    rows = [rng.randint(1, N_ROWS) for _ in range(8)]
    tgt = (sorted(set(y)) + [rng.choice(y) for _ in rows])[:8]
    path = os.path.abspath(f"s_{uuid.uuid4().hex}.{form}")
    values = [[c[3][r - 1] for r in rows] for c in cols]
    where = rng.choice(["first", "middle", "last"])
    out = dict(op="score", raised="", file="", direct="", kept=True)
    if form == "csv":
        write_csv(path, cols, list(zip(*values)), tgt, where)
    else:
        write_arff(path, cols, list(zip(*values)), tgt, where, not sc["reg"])
    before = snapshot(path)
    try:
        out["file"] = "%.6g" % m.score_from_file(path, target_column="target", **(dict(sep=",", header=0) if form == "csv" else {}))
        out["direct"] = "%.6g" % m.score(frame(cols, values), pd.Series(tgt))
    except Exception as e:
        out["raised"] = type(e).__name__ + " " + str(e)[:120]
    out["kept"] = snapshot(path) == before
    os.remove(path)
    return out


def scenario(sc):
    rng = random.Random(sc["seed"] + 2)
    cols = table(sc)
    y = target(sc, cols)
    m = fit(sc, cols, y)
    keys = [repr([c[3][k] for c in cols]) for k in range(N_ROWS)]
    same = [keys.index(k) + 1 for k in keys]
    every = dict(rows=list(range(1, N_ROWS + 1)), form="frame", way="label")
    ops = [every, dict(every, way="proba")] + sc["ops"] + [dict(every, form="fresh"), dict(every, way="proba")]
    evs = [call(m, sc, cols, y, op, rng) for op in ops]
    if sc["train"] in ("frame", "csv", "arff"):
        evs += [score(m, sc, cols, y, rng) for _ in range(2)]
    return dict(same=same, ev=evs, scenario=str({k: v for k, v in sc.items() if k != "ops"}))


def body(ctx):
    rng = ctx.rng("p")
    paths = ctx.model("MC_RowWise")
    rng.shuffle(paths)
    at, scs = 0, []
    kinds = ["real", "count", "digit", "flag", "word", "many", "truth"]
    for k in range(ctx.pick(110, 900)):
        train = ["frame", "csv", "arff", "array_object", "array_float"][k % 5]
        ks = [rng.choice(kinds[:3] if train == "array_float" else kinds) for _ in range(rng.randint(2, 5))]
        if not any(x in ("real", "count") for x in ks):
            ks.append("real")
        if train == "arff":
            ks = [x if x != "truth" else "flag" for x in ks]
        ops = []
        for j in range(12):     # behaviours of the model, over the rows at hand
            if rng.random() < 0.6:
                for op in paths[at % len(paths)]:
                    pick = [rng.randint(1, N_ROWS) for _ in range(4)]
                    ops.append(dict(rows=[pick[r - 1] for r in op["rows"]], way=op["way"],
                                    form="frame" if op["form"] == "frame" else rng.choice(["csv", "arff", "reindexed", "fresh", "strided"])))
                at += 1
            else:
                rows = [rng.randint(1, N_ROWS) for _ in range(rng.randint(1, 15))] if rng.random() < 0.6 else rng.sample(range(1, N_ROWS + 1), N_ROWS)
                ops.append(dict(rows=rows, way=rng.choice(["label", "proba"]), form=rng.choice(["frame", "csv", "arff", "reindexed", "fresh", "strided"])))
        if k % 6 == 0:      # many rows at once
            rows = list(range(1, N_ROWS + 1)) * rng.choice([50, 100, 500])
            rng.shuffle(rows)
            ops.append(dict(rows=rows, way=rng.choice(["label", "proba"]), form=rng.choice(["frame", "csv", "reindexed", "fresh"])))
        reg = rng.random() < 0.4
        scs.append(dict(train=train, kinds=ks, reg=reg, post=rng.choice(["best", "best", "ensemble"]), n=rng.choice([36, 60]),
                        missing=rng.random() < 0.6, new=train not in ("array_float",) and rng.random() < 0.3, where=rng.choice(["first", "middle", "last"]),
                        labels=rng.choice([["no", "yes"], ["a", "b", "c"], [0, 1], [3, 1, 2]]) if train != "arff" else rng.choice([["no", "yes"], ["a", "b", "c"]]),
                        seed=rng.randint(1, 10**6), ops=ops))
    ctx.validate("RowWiseTrace", ctx.drive(scenario, scs, each_timeout=200))


vlib.main("C28", body)
