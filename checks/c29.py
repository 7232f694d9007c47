"""C29: settings take effect; what is not set has its documented default."""
import os
import random
import vlib

ROWS = 100


def data(regression, rows=ROWS):
    import pandas as pd
    x = pd.DataFrame({"id": [float(k + 1) for k in range(rows)], "z": [(k * 7 % 13) + 0.5 for k in range(rows)]})
    y = pd.Series([(k * 5 % 11) + 0.5 for k in range(rows)] if regression else [k % 2 for k in range(rows)])
    return x, y


def settings(sc, g):
    """The keyword arguments that express the configuration."""
    from gama.postprocessing import BestFitPostProcessing, EnsemblePostProcessing
    from gama.search_methods import AsyncEA, AsynchronousSuccessiveHalving, RandomSearch
    c = sc["c"]
    kw = {}
    if c["jobs"] != "unset":
        kw["n_jobs"] = {"none": None, "all": -1, "n": c["n"]}[c["jobs"]]
    if c["preset"] != "unset":
        kw["preset"] = c["preset"]
    if c["post"] == "best":
        kw["post_processing"] = BestFitPostProcessing()
    elif c["post"] == "ensemble":
        kw["post_processing"] = EnsemblePostProcessing(**({} if not c["models"] else dict(max_models=c["models"])))
    if c["length"] != "unset":
        kw["regularize_length"] = c["length"] == "on"
    if c["steps"]:
        kw["max_pipeline_length"] = c["steps"]
    if c["search"] == "ea":
        kw["search"] = AsyncEA(**{k: v for k, v in dict(population_size=c["pop"], max_n_evaluations=c["maxn"]).items() if v})
    elif c["search"] == "random":
        kw["search"] = RandomSearch()
    elif c["search"] == "asha":
        res = (lambda v: v) if c["unit"] == "rows" else (lambda v: v / 1000)
        a = {}
        if c["eta"]:
            a["reduction_factor"] = c["eta"]
        if c["min"] >= 0:
            a["minimum_resource"] = res(c["min"])
        if c["max"] >= 0:
            a["maximum_resource"] = res(c["max"])
        if c["skip"] >= 0:
            a["minimum_early_stopping_rate"] = c["skip"]
        kw["search"] = AsynchronousSuccessiveHalving(**a)
    return kw


def space(sc):
    import recest
    est = recest.RecRegressor if sc["reg"] else recest.RecClassifier
    out = {est: {"salt": list(range(400))}}
    if sc["c"]["preproc"]:
        out[recest.Keep] = {"mark": list(range(10))}
    return out


def spy(cls, method, box, name, tag):
    """Record calls of a method of a public class."""
    original = getattr(cls, method)

    def wrapper(self, *a, **k):
        if name == "search":
            box["lens"] = [len(list(i.primitives)) for i in k.get("start_candidates", a[-1] if a else [])]
        box.setdefault(name, []).append((tag, self, a, k))
        return original(self, *a, **k)
    setattr(cls, method, wrapper)
    return lambda: setattr(cls, method, original)


def construct(sc, box):
    import multiprocessing
    import warnings
    import gdrive as g
    kw = dict(max_total_time=600, store="all", verbosity=50, output_directory=g.new_dir(), **settings(sc, g))
    scoring = ["neg_mean_squared_error", "r2"] if sc["reg"] else ["accuracy", "f1_macro"]
    kw["scoring"] = tuple(scoring[:sc["c"]["metrics"]]) if sc["c"]["metrics"] > 1 else scoring[0]
    kw["config" if sc["alias"] else "search_space"] = box["space"]
    cls = g.GamaRegressor if sc["reg"] else g.GamaClassifier
    count = multiprocessing.cpu_count
    multiprocessing.cpu_count = lambda: sc["c"]["cores"]
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return cls(**kw), ""
    except Exception as e:
        return None, type(e).__name__
    finally:
        multiprocessing.cpu_count = count


def observed(sc):
    import gsim
    from gsim import SIM
    import gdrive as g
    import numpy as np
    from gama.postprocessing import BestFitPostProcessing, EnsemblePostProcessing
    from gama.search_methods import AsyncEA, AsynchronousSuccessiveHalving, RandomSearch
    random.seed(sc["seed"])
    np.random.seed(sc["seed"] % 2**31)
    box = dict(space=space(sc))
    gm, raised = construct(sc, box)
    evs = [dict(op="construct", raised=raised)]
    run = dict(c=dict(sc["c"], rows=ROWS), ev=evs, scenario=str({k: v for k, v in sc.items() if k != "sched"}))
    if gm is None:
        return run
    SIM.reset([dict(k=k) for k in sc["sched"]])
    done, sizes, arity, lens, started = [], [], [], [], []

    def on_complete(fut):
        e = fut.result
        if e is None or e._estimators is None:
            return
        done.append(SIM.num(e.individual))
        sizes.append(len(e._estimators[0].steps[-1][1].train_))
        arity.append(len(e.score))
        lens.append(len(list(e.individual.primitives)))

    SIM.on_complete = on_complete
    SIM.on_start = lambda p: started.append(p)
    undo = [spy(AsyncEA, "search", box, "search", "ea"), spy(RandomSearch, "search", box, "search", "random"),
            spy(AsynchronousSuccessiveHalving, "search", box, "search", "asha"),
            spy(BestFitPostProcessing, "post_process", box, "post", "best"), spy(EnsemblePostProcessing, "post_process", box, "post", "ensemble")]
    x, y = data(sc["reg"])
    out = dict(op="fit", raised="", workers=0, method="", post="", arity=[], startlens=[], lens=[], sizes=[], done=[], output=[], stored=0,
               allowed=len(sc["sched"]), fold=80)
    evs.append(out)
    try:
        gm.fit(x, y)
        tag, method, _, _ = box["search"][0]
        out.update(workers=len(started), method=tag, post=box["post"][0][0], arity=sorted(set(arity)), done=done, sizes=sizes, lens=lens,
                   startlens=box["lens"],
                   output=[SIM.num(i) for i in method.output],
                   stored=sum(1 for e in g.library(gm).evaluations if e.estimators))
    except Exception as e:
        out.update(raised=type(e).__name__, why=str(e)[:100])
    finally:
        for u in undo:
            u()
        SIM.on_complete = SIM.on_start = None
    return run


def offered(sc):
    """Several fits of one object, on data of different sizes: what the search is offered."""
    import gdrive as g
    import numpy as np
    import pandas as pd
    from gama.postprocessing import BestFitPostProcessing, EnsemblePostProcessing
    from sklearn.neighbors import KNeighborsClassifier, KNeighborsRegressor
    from sklearn.naive_bayes import GaussianNB
    from sklearn.linear_model import Ridge
    from sklearn.preprocessing import MinMaxScaler, PolynomialFeatures
    reg, c = sc["reg"], sc["c"]
    names = {"knn": KNeighborsRegressor if reg else KNeighborsClassifier, "other": Ridge if reg else GaussianNB, "poly": PolynomialFeatures, "scale": MinMaxScaler}
    back = {v: k for k, v in names.items()}
    seen = {}

    def search(s, ops, start):
        try:
            inds = [ops.individual() for _ in range(150)]
            inds += [ops.mutate(i) for i in inds[:50]] if not sc["single"] else []
            for i in inds + list(start):
                for k, node in enumerate(i.primitives):
                    seen.setdefault("s" if k else "p", set()).add(back[node._primitive.identifier])
        except Exception as e:
            seen["raised"] = type(e).__name__
        s.output = []

    class Best(BestFitPostProcessing):
        def post_process(self, x, y, timeout, selection):
            seen["shape"] = x.shape
            return object()

    class Ens(EnsemblePostProcessing):
        def post_process(self, x, y, timeout, selection):
            seen["shape"] = x.shape
            return object()
    cls = g.GamaRegressor if reg else g.GamaClassifier
    gm = cls(search_space={names[k]: {} for k in c["p"] + c["s"]}, search=g.ScriptSearch(search), output_directory=g.new_dir(),
             post_processing=Ens() if c["post"] == "ensemble" else Best(),
             scoring="neg_mean_squared_error" if reg else "accuracy", n_jobs=1, max_total_time=600, store="nothing", verbosity=50)
    evs = []
    for d in sc["fits"]:
        features = d["features"]
        rows = d["cells"] // features
        seen.clear()
        onehot = sc["onehot"] and 10 < features < 70
        x = pd.DataFrame(np.arange(rows * (features - 5 if onehot else features), dtype=float).reshape(rows, -1) % 17 + 0.25,
                         columns=["c%d" % k for k in range(features - 5 if onehot else features)])
        if onehot:      # a column that becomes five
            x["cat"] = pd.Series(pd.Categorical([["u", "v", "w", "x", "y"][k % 5] for k in range(rows)]))
        y = pd.Series(np.arange(rows) % 7 + 0.5 if reg else np.arange(rows) % 2)
        ev = dict(op="offer", d=dict(d, cells=rows * features), raised="", p=[], s=[])
        evs.append(ev)
        try:
            gm.fit(x, y, warm_start=None)
            if seen["shape"] != (rows, features):
                raise vlib.MachineryError(f"{seen['shape']} {rows} {features}")
            ev.update(p=sorted(seen.get("p", [])), s=sorted(seen.get("s", [])), raised=seen.get("raised", ""))
        except vlib.MachineryError:
            raise
        except Exception as e:
            ev.update(raised=type(e).__name__, why=str(e)[:100])
    return dict(c=c, ev=evs, scenario=str(sc))


def scenario(sc):
    return offered(sc) if sc["kind"] == "offer" else observed(sc)


BASE = dict(jobs="n", n=1, cores=4, preset="unset", post="unset", search="unset", length="unset", steps=0, preproc=True, metrics=1, models=0,
            pop=0, maxn=0, unit="part", eta=0, min=-1, max=-1, skip=-1)


def body(ctx):
    rng = ctx.rng("p")
    paths = ctx.model("MC_Settings")
    scs = []

    def add(c, n):
        scs.append(dict(kind="run", c=dict(BASE, **c), reg=rng.random() < 0.3, alias=rng.random() < 0.2, seed=rng.randint(1, 10**6),
                        sched=[rng.randint(1, 4) for _ in range(n)]))
    for p in rng.sample(paths, min(len(paths), ctx.pick(110, 1500))):
        add(p[0]["c"], rng.choice([3, 8]))
    for preset in ("unknown", "Simple", ""):
        for post in ("unset", "best", "ensemble"):
            add(dict(preset=preset, post=post, preproc=True), 3)
    for steps in (2, 3):
        add(dict(preproc=False, steps=steps), 3)
    for _ in range(ctx.pick(36, 400)):
        add(dict(search="ea", pop=rng.choice([0, 1, 2, 5, 60]), maxn=rng.choice([0, 1, 4, 12, 30])), rng.choice([5, 12, 25, 62]))
    for _ in range(ctx.pick(6, 60)):
        add(dict(search="random", steps=rng.choice([0, 1, 2])), rng.choice([1, 7, 30]))
    for _ in range(ctx.pick(50, 600)):
        kind = rng.choice(["none", "part", "part", "rows", "toobig"])
        c = dict(search="asha", eta=rng.choice([0, 2, 3, 4]), skip=rng.choice([-1, -1, 0, 1]))
        if kind == "part":
            c.update(min=rng.choice([-1, 100, 250, 500]), max=rng.choice([-1, 500, 750, 1000]))
        elif kind == "rows":
            c.update(unit="rows", min=rng.choice([5, 10, 20]), max=rng.choice([20, 40, 70, 80, 100]))
        elif kind == "toobig":
            c.update(unit="rows", max=rng.choice([101, 5000]))
        lo, hi, e = c.get("min", -1), c.get("max", -1), c["eta"] or 3
        if c.get("unit") == "rows" and kind == "rows" and lo * (e ** max(c["skip"], 0)) > hi:
            c["skip"] = 0
        if kind == "part" and (lo if lo >= 0 else 125) * (e ** max(c["skip"], 0)) > (hi if hi >= 0 else 1000):
            c["skip"] = 0
        add(c, rng.choice([10, 25, 40]))
    for models in (1, 3):
        add(dict(post="ensemble", models=models, search="ea"), 12)
    sizes = [dict(cells=300, features=3), dict(cells=2000, features=50), dict(cells=2040, features=51), dict(cells=1200, features=60)]
    big = [dict(cells=6000000, features=60), dict(cells=6000060, features=60), dict(cells=6000000, features=40), dict(cells=6000040, features=40)]
    for k in range(ctx.pick(40, 200)):
        fits = [rng.choice(sizes) for _ in range(rng.randint(1, 4))]
        scs.append(dict(kind="offer", fits=fits))
    for k in range(ctx.pick(8, 24)):
        fits = [rng.choice(big + sizes) for _ in range(2)]
        fits[rng.randrange(2)] = big[k % 4]
        scs.append(dict(kind="offer", fits=fits))
    for sc in scs:
        if sc["kind"] == "offer":
            sp = rng.random()
            sc.update(reg=rng.random() < 0.4, onehot=rng.random() < 0.4, single=False, seed=rng.randint(1, 10**6),
                      c=dict(BASE, post=rng.choice(["ensemble", "ensemble", "best"]), p=["knn", "other"], s=["poly", "scale"]))
            if sp < 0.15:
                sc["c"]["s"], sc["single"] = [], True
                sc["c"]["preproc"] = False
            elif sp < 0.3:
                sc["c"]["s"] = ["poly"]
            elif sp < 0.4:
                sc["c"]["p"] = ["knn"]
    rng.shuffle(scs)
    for sc in scs:
        if sc["kind"] == "run":
            sc["c"].update(p=["none"], s=["none"])
    ctx.validate("SettingsTrace", ctx.drive(scenario, scs, each_timeout=120))


vlib.main("C29", body)
