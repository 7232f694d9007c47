"""C24: categorical features are encoded by their number of values, losing no row."""
import vlib

DTYPES = ["text", "int", "float", "ordered", "unused", "bool", "mixedcase"]


def label(dtype, v):
    """The category with number v >= 1."""
    if v > 18:
        return 100 + v if dtype == "int" else v * 1.5 - 4 if dtype == "float" else "k%d" % v
    if dtype == "int":
        return [7, 3, 11, 5, 2, 19, 13, 17, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61][v - 1]
    if dtype == "float":
        return v * 1.5 - 4
    if dtype == "bool":
        return [True, False][v - 1] if v < 3 else "other%d" % v
    return ("c%d" if dtype != "mixedcase" else ["Cc%d", "cC%d"][v % 2]) % ((v * 7) % 19)


def column(f, vals, whole):
    """A categorical column (categories: those of the training data and, if whole, more)."""
    import pandas as pd
    data = [None if v == 0 else label(f["dtype"], v) for v in vals]
    cats = [label(f["dtype"], v) for v in sorted({v for v in f["vals"] + (vals if whole else []) if v})]
    if f["dtype"] == "unused":
        cats = cats + ["never"]
    if whole and f["dtype"] != "ordered":
        cats = cats[::-1]
    return pd.Categorical(data, categories=cats, ordered=f["dtype"] == "ordered")


def frame(sc, part):
    import numpy as np
    import pandas as pd
    cols = {}
    for f in sc["features"]:
        vals = f["vals"] if part == "train" else f["later"]
        if f["kind"] == "cat":
            cols[f["name"]] = column(f, vals, part != "train" and f["whole"])
        else:
            cols[f["name"]] = np.array([np.nan if v == 0 else number(v) for v in vals])
    n = len(next(iter(cols.values())))
    index = {"plain": list(range(n)), "gaps": [k * 3 + 1 for k in range(n)], "rev": list(range(n))[::-1], "text": ["r%d" % k for k in range(n)]}[sc["index"]]
    return pd.DataFrame(cols, index=index)


def number(v):
    return v * 0.375 - 3


def array(sc, part):
    """Arrays: the types are inferred; categorical features as whole numbers or texts."""
    import numpy as np
    cols = []
    for f in sc["features"]:
        vals = f["vals"] if part == "train" else f["later"]
        if f["kind"] == "num":
            cols.append([np.nan if v == 0 else number(v) for v in vals])
        elif sc["arrayof"] == "objects":
            cols.append([None if v == 0 else label("text", v) for v in vals])
        else:
            cols.append([np.nan if v == 0 else float(label("int", v)) for v in vals])
    a = np.array(cols, dtype=object if sc["arrayof"] == "objects" else float).T
    return a


def text(v):
    import pandas as pd
    if v is None or v is pd.NA or v != v:
        return "none"
    if isinstance(v, bool):
        return str(v)
    try:
        return str(float(v))
    except (TypeError, ValueError):
        return str(v)


def features(sc, x, part):
    out = []
    for k, f in enumerate(sc["features"]):
        vals = f["vals"] if part == "train" else f["later"]
        out.append(dict(name=f["name"] if sc["form"] == "frame" else str(k), kind=f["kind"], vals=vals if f["kind"] == "cat" else [0],
                        text=[text(v) for v in (x.iloc[:, k] if sc["form"] == "frame" else x[:, k])]))
    return out


def columns(sc, enc, names):
    """Output columns with the feature they belong to, and the order of the rows."""
    cols, order = [], None
    marker = names[-1]       # the last feature numbers the rows
    for c in enc.columns:
        base = str(c)
        owner = base if base in names else next((n for n in names if base.startswith(n + "_")), "?")
        cols.append(dict(name=base, feature=owner, vals=[text(v) for v in enc[c]]))
        if base == marker:
            order = [int(round(float(v) - 0.5)) for v in enc[c]]
    return cols, order or []


def with_marker(sc, x, n):
    import numpy as np
    rows = [k + 1.5 for k in range(n)]
    if sc["form"] == "frame":
        x = x.copy()
        x["zz"] = rows
        return x
    return np.concatenate([x, np.array(rows, dtype=x.dtype).reshape(-1, 1)], axis=1)


def scenario(sc):
    import gdrive as g
    import numpy as np
    import pandas as pd
    import random
    import recest
    from gama.utilities.preprocessing import basic_encoding
    random.seed(sc["seed"])
    sc["features"] = [f for f in sc["features"] if f["name"] != "zz"]
    n, m = len(sc["features"][0]["vals"]), len(sc["features"][0]["later"])
    make = frame if sc["form"] == "frame" else array
    x, px = with_marker(sc, make(sc, "train"), n), with_marker(sc, make(sc, "later"), m)
    sc["features"].append(dict(name="zz", kind="num", vals=list(range(1, n + 1)), later=list(range(1, m + 1)), dtype="", whole=False))
    names = [f["name"] for f in sc["features"]] if sc["form"] == "frame" else [str(k) for k in range(len(sc["features"]))]
    evs = []
    e = dict(op="encode", cls=sc["cls"], rows=n, features=features(sc, x, "train"), cols=[], order=[], raised="")
    p = dict(op="later", cls=sc["cls"], rows=m, features=features(sc, px, "later"), cols=[], order=[], raised="")
    evs.append(e)
    y = pd.Series([k % 2 for k in range(n)]) if sc["cls"] else pd.Series([k * 0.5 for k in range(n)])
    if sc["form"] == "frame":
        y.index = x.index

    if sc["how"] == "direct":
        try:
            enc, pipe = basic_encoding(x, sc["cls"])
            e["cols"], e["order"] = columns(sc, enc, names)
            evs.append(p)
            try:
                p["cols"], p["order"] = columns(sc, pipe.transform(px), names)
            except Exception as err:
                p["raised"] = type(err).__name__ + str(err)[:100]
        except Exception as err:
            e["raised"] = type(err).__name__ + str(err)[:100]
        return dict(ev=evs, scenario=str(sc)[:600])

    class Model:
        def predict(self, z):
            self.z = z
            return np.zeros(len(z), dtype=int)

        def predict_proba(self, z):
            self.z = z
            return np.ones((len(z), 2)) / 2

    class Post(g.NoPost):
        def post_process(self, xx, yy, timeout, selection):
            self.x = xx
            if sc["how"] == "whole":
                return selection[0].pipeline.fit(xx, yy)
            return Model()
    post = Post()

    def run(search, ops, start):
        ind = ops.individual()
        ind.fitness = g.Fitness((1.0, 1), 0, 0, 0)
        search.output = [ind]
    cls = g.GamaClassifier if sc["cls"] else g.GamaRegressor
    gm = cls(search=g.ScriptSearch(run), post_processing=post, n_jobs=1, max_total_time=600, store="nothing", verbosity=50, output_directory=g.new_dir(),
             scoring="accuracy" if sc["cls"] else "r2", search_space={recest.LookClassifier if sc["cls"] else recest.LookRegressor: {"salt": [1]}})
    recest._Look.seen.clear()
    try:
        gm.fit(x, y)
        e["cols"], e["order"] = columns(sc, post.x, names)
    except Exception as err:
        e["raised"] = type(err).__name__ + str(err)[:100]
        return dict(ev=evs, scenario=str(sc)[:600])
    if sc["how"] == "whole":
        a = dict(op="answers", raised="", rows=m, got=0, finite=True)
        for k in range(m):      # nothing is known about some rows
            if random.random() < 0.1:
                if sc["form"] == "frame":
                    px.iloc[k, :] = np.nan
                else:
                    px[k, :] = np.nan
        try:
            a["got"] = len(gm.predict(px))
            a["finite"] = all(ok for _, ok in recest._Look.seen)
        except Exception as err:
            a["raised"] = type(err).__name__ + str(err)[:100]
        evs.append(a)
    else:
        try:
            gm.predict(px)
            p["cols"], p["order"] = columns(sc, gm.model.z, names)
        except Exception as err:
            p["raised"] = type(err).__name__ + str(err)[:100]
        evs.append(p)
    return dict(ev=evs, scenario=str(sc)[:600])


def later(rng, f, m):
    d = max([v for v in f["vals"]] or [0])
    out = [rng.choice([0, rng.randint(1, max(1, d)), rng.randint(1, max(1, d)), d + 1, d + 2 if f["dtype"] != "bool" else 0]) for _ in range(m)]
    if f["kind"] == "num":
        out = [rng.randint(0, 30) for _ in range(m)]
    return out


def feature(rng, name, n, d=None, vals=None):
    """A categorical feature with d values (or the given ones), or a numeric one."""
    dtype = rng.choice(DTYPES)
    if vals is None and d is None:
        f = dict(name=name, kind="num", dtype="", whole=False, vals=[rng.choice([0] + [rng.randint(1, 40)] * 6) for _ in range(n)])
        if max(f["vals"]) == 0:
            f["vals"][0] = 4
        return f
    if vals is None:
        vals = list(range(1, d + 1)) + [rng.randint(1, d) if d else 0 for _ in range(n - d)]
        if rng.random() < 0.5:
            k = rng.randint(d, n - 1) if d < n else 0
            if d < n:
                vals[k] = 0
        rng.shuffle(vals)
    if dtype == "bool" and max(vals) > 2:
        dtype = "int"
    return dict(name=name, kind="cat", dtype=dtype, whole=rng.random() < 0.5, vals=vals)


def finish(rng, feats, form, n):
    m = rng.choice([rng.randint(1, 6), rng.randint(1, 6), n, n + 5])
    arrayof = rng.choice(["objects", "numbers"])
    if form == "array":      # without declared types: a number of values that makes it categorical, no constant column of missing values
        for f in feats:
            f["dtype"] = ""
            if f["kind"] == "cat" and arrayof == "numbers" and len(set(f["vals"]) - {0}) > 10:
                f["vals"] = [min(v, 10) for v in f["vals"]]
            if f["kind"] == "num":
                f["vals"] = [v or 7 for v in f["vals"][:2]] + f["vals"][2:]
                f["vals"][0], f["vals"][1] = 3, 5
    for f in feats:
        f["later"] = later(rng, f, m)
    rng.shuffle(feats)
    return dict(features=feats, form=form, arrayof=arrayof, index=rng.choice(["plain", "gaps", "rev", "text"]), seed=rng.randint(0, 10 ** 6))


def body(ctx):
    rng = ctx.rng("enc")
    scs = []
    for cls in (True, False):
        paths = [p[0] for p in ctx.model("MC_Encoding", consts=dict(Cls="TRUE" if cls else "FALSE"), maximal=False)]
        for p in rng.sample(paths, min(len(paths), ctx.pick(150, 2000))):
            reps = rng.randint(2, 3)       # the same column repeated, beside others
            vals = list(p["vals"]) * reps
            n = len(vals)
            feats = [feature(rng, "aa", n, vals=vals)] + [feature(rng, nm, n, d=rng.choice([None, 0, 1, 2, 3])) for nm in ("b", "c")[:rng.randint(0, 2)]]
            scs.append(dict(finish(rng, feats, "frame", n), cls=cls, how=rng.choice(["direct", "fit", "fit", "whole"])))
    for _ in range(ctx.pick(400, 6000)):
        n = rng.randint(14, 30)
        form = rng.choice(["frame", "frame", "array"])
        feats = []
        for nm in rng.sample(["a", "bb", "c3", "d e", "F"], rng.randint(1, 4)):
            d = rng.choice([None, 1, 2, 3, rng.randint(4, 9), 10, 11, rng.randint(12, 14)] + ([0] if form == "frame" else []))
            feats.append(feature(rng, nm, n, d=d))
        how = rng.choice(["direct", "fit", "fit", "whole", "whole"])
        scs.append(dict(finish(rng, feats, form, n), cls=rng.random() < 0.5, how="fit" if form == "array" and how == "direct" else how))
    for k in range(ctx.pick(12, 150)):      # wide frames, or many rows and values
        wide = k % 2 == 0
        n = rng.randint(14, 20) if wide else rng.choice([150, 300])
        feats = []
        for j in range(rng.choice([30, 105, 120]) if wide else 4):
            d = rng.choice([None, None, 2, 3, 11] if wide else [10, 11, 40, 70, 120])
            feats.append(feature(rng, "w%03d" % j, n, d=d))
        scs.append(dict(finish(rng, feats, "frame", n), cls=rng.random() < 0.5, how=rng.choice(["direct", "fit"])))
    ctx.validate("EncodingTrace", ctx.drive(scenario, scs, each_timeout=30))


vlib.main("C24", body)
