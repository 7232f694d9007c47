"""C16: fit ends with the best found pipeline, trained on all labelled rows."""
import vlib

NEG = -9999


def make(sc, g, recest, search):
    reg = sc["reg"]
    est = recest.RecRegressor if reg else recest.RecClassifier
    return (g.GamaRegressor if reg else g.GamaClassifier)(
        search_space={est: {"salt": list(range(sc.get("salts", 500)))}, recest.Keep: {"mark": list(range(20))}}, search=search,
        scoring="neg_mean_squared_error" if reg else sc["metric"], regularize_length=sc["length"], n_jobs=sc.get("workers", 1), max_total_time=600,
        store=sc["store"], verbosity=50, output_directory=g.new_dir(), preset="simple")


def data(sc):
    import numpy as np
    import pandas as pd
    n = len(sc["y"])
    ids = [v + 0.25 for v in sc["ids"]]      # not whole: whole numbers may be read as categories
    x = pd.DataFrame({"q": ids, "z": [k % 3 + 0.25 for k in range(n)]})
    if sc["strings"] and not sc["reg"]:
        y = pd.Series([None if v < 0 else "abc"[v] for v in sc["y"]], dtype=object)
    else:
        y = pd.Series([np.nan if v < 0 else float(v) for v in sc["y"]])
    if sc["form"] == "numpy":
        return x.values, y.values
    if sc["form"] == "frame":
        return x, y.to_frame()
    return x, y


def look(gm, evs, ident, numbers, out, scores, start, warm, warmafter, returned, sc):
    """What the fitted model is: found by its step's settings."""
    import numpy as np
    import recest
    last = gm.model.steps[-1][1]
    marks = [s.mark for _, s in gm.model.steps if isinstance(s, recest.Keep)]
    desc = [("RecClassifier" if not sc["reg"] else "RecRegressor", last.salt)] + [("Keep", m) for m in reversed(marks)]
    same = [k for k in range(len(out)) if ident(out[k]) == desc]
    best = sorted(same, key=lambda k: scores[k], reverse=True)
    x = np.array([[v + 0.25, 0.25] for v in sc["ids"]])
    labelled = sorted(i for i, v in zip(sc["ids"], sc["y"]) if v >= 0)
    import pandas as pd
    pred = gm.predict(x if sc["form"] == "numpy" else pd.DataFrame({"q": x[:, 0], "z": x[:, 1]}))
    own = np.asarray(last.predict(x))
    labels = np.array(sorted(set("abc"[v] for v in sc["y"] if v >= 0)), dtype=object) if sc["strings"] and not sc["reg"] else None
    want = [labels[int(k)] for k in own] if labels is not None else own.tolist()
    evs.append(dict(op="fit", raised="", returned=returned, start=start, warm=warm, warmafter=warmafter, output=[numbers(i) for i in out],
                    scores=scores, model=numbers(out[best[0]]) if best else 0, steps=bool(best), trained=sorted(last.train_), labelled=labelled,
                    predicts=[str(a) for a in pred] == [str(b) for b in want]))


def ident(ind):
    return [(p._primitive.identifier.__name__, p._terminals[0].value) for p in ind.primitives]


def scripted(sc):
    import random
    import gdrive as g
    import recest
    import stopit
    random.seed(sc["seed"])
    evs, nums, cur, keep = [], {}, {}, []

    def numbers(ind):
        keep.append(ind)
        return nums.setdefault(id(ind), len(nums) + 1)

    def fresh(ops, used):
        while True:
            ind = ops.individual()
            if str(ident(ind)) not in used:
                used.add(str(ident(ind)))
                return ind

    def search(s, ops, start):
        cur["searched"] = True
        cur["start"] = [numbers(i) for i in start]
        f = cur["fit"]
        used = set()
        s.output = []
        if f["replace"]:
            pass
        for k, v in enumerate(f["out"]):
            ind = fresh(ops, used) if not (f["reuse"] and k < len(start)) else start[k]
            used.add(str(ident(ind)))
            e = g.evaluation(ind, [float("-inf") if u == NEG else float(u) for u in v])
            s.output.append(ind)
        cur["out"] = list(s.output)
        cur["made"] = [fresh(ops, used) for _ in range(3)]
        if f["mess"]:
            start.clear()
        if f["how"] == "timeout":
            raise stopit.TimeoutException()
        if f["how"] == "kbd":
            raise KeyboardInterrupt()

    gm = make(sc, g, recest, g.ScriptSearch(search))
    x, y = data(sc)
    pool = []
    for f in sc["fits"]:
        cur.clear()
        cur.update(fit=f, searched=False)
        if f["op"] == "export":
            raised = ""
            try:
                gm.export_script(file=None)
            except Exception as e:
                raised = type(e).__name__
            evs.append(dict(op="export", raised=raised))
            continue
        if f["op"] == "badwarm":
            raised = ""
            try:
                gm.fit(x, y, warm_start=pool[:1] + ["individual"])
            except Exception as e:
                raised = type(e).__name__
            evs.append(dict(op="badwarm", raised=raised, searched=cur["searched"]))
            continue
        warm = pool[:f["nwarm"]] if f["warm"] and pool else None
        given = list(warm) if warm else []
        raised, res = "", None
        try:
            if f["seed"] % 5 == 1 and (sc["strings"] or sc["reg"]) and sc["form"] != "numpy":     # the same data from a file
                t = x.assign(t=y.iloc[:, 0] if sc["form"] == "frame" else y)
                t.to_csv("fit_%d.csv" % len(evs), index=False)
                gm.fit_from_file("fit_%d.csv" % len(evs), "t", **({} if warm is None else dict(warm_start=warm)))
                res = gm
            else:
                res = gm.fit(x, y, warm_start=warm) if warm or f["seed"] % 2 else gm.fit(x, y)
        except BaseException as e:
            raised = type(e).__name__
            sc["error"] = "".join(__import__("traceback").format_exception(e))[-700:]
        if raised:
            evs.append(dict(op="fit", raised=raised))
            break
        scores = [[NEG if v == float("-inf") else int(v) for v in i.fitness.values] for i in cur["out"]]
        look(gm, evs, ident, numbers, cur["out"], scores, cur["start"], [numbers(i) for i in given], [numbers(i) for i in (warm or [])], res is gm, sc)
        pool = cur["made"]
    return dict(ev=evs, scenario=str(sc)[:900], error=sc.get('error', ''))


def searching(sc):
    """A complete fit by a real search method (simulated pool) and BestFitPostProcessing."""
    import random
    import gsim
    from gsim import SIM
    import gdrive as g
    import recest
    import numpy as np
    from gama.search_methods import AsyncEA, RandomSearch, AsynchronousSuccessiveHalving
    random.seed(sc["seed"])
    np.random.seed(sc["seed"])
    method = {"ea": lambda: AsyncEA(population_size=4), "random": RandomSearch,
              "asha": lambda: AsynchronousSuccessiveHalving(reduction_factor=2, minimum_resource=6, maximum_resource=24)}[sc["method"]]()
    gm = make(sc, g, recest, method)
    x, y = data(sc)
    evs, nums, keep = [], {}, []
    prev = []

    def numbers(ind):
        return nums.setdefault(str(ind._id), len(nums) + 1)
    for f in sc["fits"]:
        order = []
        SIM.reset(f["sched"])
        SIM.on_submit = lambda fut: order.append(gsim.find_individual(fut))
        raised, res = "", None
        before = set(nums)
        n0 = len(nums)
        try:
            res = gm.fit(x, y)
        except BaseException as e:
            raised = type(e).__name__
        if not method.output:
            break       # nothing was found: not covered
        if raised:
            evs.append(dict(op="fit", raised=raised))
            break
        out = list(method.output)
        vals = [i.fitness.values for i in out]
        # real scores are compared by rank
        cols = [sorted({v[c] for v in vals}) for c in range(len(vals[0]))]
        scores = [[cols[c].index(v[c]) for c in range(len(v))] for v in vals]
        # the start candidates are submitted first, in order; later ones are not observed here
        look(gm, evs, ident, numbers, out, scores, [numbers(i) for i in prev], [numbers(i) for i in prev], [numbers(i) for i in prev], res is gm, sc)
        if not prev:
            evs[-1].update(start=[1000 + k for k in range(50)])
        prev = out
    return dict(ev=evs or [dict(op="export", raised="RuntimeError")], scenario=str(sc)[:900])


def base(rng, lo=8):
    n = rng.randint(lo, 14)
    y = [k % 3 for k in range(n)]
    reg = rng.random() < 0.4
    for k in rng.sample(range(n), rng.choice([0, 0, 1, 2])):
        if y.count(y[k]) > 2:
            y[k] = -1
    return dict(y=y, ids=rng.sample(range(100), n), reg=reg, strings=rng.random() < 0.4, form=rng.choice(["frame", "series", "numpy"]),
                metric=rng.choice(["accuracy", "neg_log_loss"]), length=rng.random() < 0.5, store=rng.choice(["nothing", "logs", "models", "all"]),
                seed=rng.randint(0, 10 ** 6))


def fit(rng, warm, how, out):
    return dict(op="fit", warm=warm, how=how, out=out, nwarm=rng.randint(1, 3), reuse=rng.random() < 0.3, mess=rng.random() < 0.3,
                replace=rng.random() < 0.3, seed=rng.randint(0, 99))


def body(ctx):
    rng = ctx.rng("fit")
    scs = []
    paths = ctx.model("MC_FitModel")
    for p in rng.sample(paths, min(len(paths), ctx.pick(250, 4000))):
        scs.append(dict(base(rng), fits=[fit(rng, f["warm"], f["how"], [[v] for v in f["out"]]) if f["op"] == "fit" else f for f in p]))
    for _ in range(ctx.pick(250, 5000)):
        fs = []
        dim = rng.choice([1, 2, 2, 3])
        hi = rng.choice([1, 2, 5])
        for _ in range(rng.randint(1, 4)):
            k = rng.random()
            if k < 0.15:
                fs.append(dict(op="export"))
            elif k < 0.25:
                fs.append(dict(op="badwarm"))
            else:
                fs.append(fit(rng, rng.random() < 0.4, rng.choice(["done", "done", "timeout", "kbd"]),
                              [[NEG] * dim if rng.random() < 0.15 else [rng.randint(-1, hi) for _ in range(dim)] for _ in range(rng.randint(1, 7))]))
        scs.append(dict(base(rng), fits=fs + [dict(op="export")]))
    for k in range(ctx.pick(8, 60)):     # long tables
        b = base(rng)
        n = rng.choice([1100, 2300, 5200] + ([10500] if k < 2 else []))
        b.update(y=[-1 if q % 97 == 5 else q % 3 for q in range(n)], ids=rng.sample(range(3 * n), n))
        scs.append(dict(b, fits=[fit(rng, False, "done", [[rng.randint(-1, 4)] for _ in range(rng.choice([1, 5, 60, 130]))])]))
    for k in range(ctx.pick(6, 60)):     # many pipelines found, from which the next search starts
        scs.append(dict(base(rng), fits=[fit(rng, False, "done", [[rng.randint(-1, 40)] for _ in range(rng.choice([51, 70, 130, 260]))]) for _ in range(2)]))
    ss = []
    for _ in range(ctx.pick(60, 800)):
        b = base(rng, 12)
        b["y"] = [k % 3 for k in range(len(b["y"]))] if rng.random() < 0.8 else b["y"]
        fs = []
        for _ in range(rng.choice([1, 2])):
            sched = [dict(k=rng.randint(1, 3), out="real") for _ in range(rng.randint(4, 20))] + [dict(int=rng.choice(["timeout", "kbd"]))]
            fs.append(dict(sched=sched))
        ss.append(dict(b, method=rng.choice(["ea", "random", "asha"]), fits=fs, workers=rng.randint(1, 3), salts=60))
    a = ctx.drive(scripted, scs, per=1)
    b = ctx.drive(searching, ss, per=1, each_timeout=60)
    ctx.validate("FitModelTrace", a + b)


vlib.main("C16", body)
