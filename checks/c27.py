"""C27: the pipeline that is built, evaluated and fitted is the one the individual describes."""
import random
import vlib


def cls_name(c):
    return c.__module__ + "." + c.__name__


def enc_individual(ind):
    import gdrive as g
    return [dict(p=cls_name(node._primitive.identifier), h=sorted([t.output, g.val(t.value)] for t in node._terminals))
            for node in ind.primitives]


def hyperparameters(space):
    """For each operator of the search space, the names of its configured hyperparameters."""
    return {cls_name(k): {n for n in v if n != "param_check"} for k, v in space.items() if not isinstance(k, str)}


def enc_pipeline(pipe, names, n_own):
    import gdrive as g
    out = []
    steps = [s for _, s in pipe.steps]
    for k, step in enumerate(steps):
        p, params = cls_name(type(step)), step.get_params(deep=False)
        if k < len(steps) - n_own or p not in names:
            out.append(dict(p=p, h=sorted([n, g.val(v)] for n, v in params.items()), rest=0))
        else:
            default = type(step)().get_params(deep=False)
            out.append(dict(p=p, h=sorted([n, g.val(v)] for n, v in params.items() if n in names[p]),
                            rest=sum(g.val(v) != g.val(default[n]) for n, v in params.items() if n not in names[p])))
    return out


def state(pipe, probe):
    """What the pipeline answers, and which of its steps are fitted."""
    import numpy as np
    from sklearn.exceptions import NotFittedError
    from sklearn.utils.validation import check_is_fitted
    marks = ""
    for _, step in pipe.steps:
        try:
            check_is_fitted(step)
            marks += "1"
        except (NotFittedError, TypeError):
            marks += "0"
    stateless = all(m == "0" or not any(k.endswith("_") and not k.startswith("__") for k in vars(s)) for m, (_, s) in zip(marks, pipe.steps))
    if stateless:
        return ""
    try:
        p = pipe.predict_proba(probe) if hasattr(pipe.steps[-1][1], "predict_proba") else pipe.predict(probe)
        return marks + ":" + ",".join("%.5g" % v for v in np.asarray(p, dtype=float).ravel())
    except Exception as e:
        return marks + "!" + type(e).__name__


def build_event(ind, names, n, pipes=(), probe=None):
    before = enc_individual(ind)
    out = dict(op="build", n=n, raised="", ind=before, after=before, pipe=[], states=[])
    try:
        pipe = ind.pipeline
    except Exception as e:
        return dict(out, raised=type(e).__name__ + " " + str(e)[:80]), None
    out["pipe"] = enc_pipeline(pipe, names, len(before))
    out["after"] = enc_individual(ind)
    if probe is not None:
        out["states"] = [state(p, probe) for p in list(pipes) + [pipe]]
    return out, pipe


def steps_for(pset, rng):
    """Every operator of the space with every one of its values at least once: a list of (primitive, terminals)."""
    from gama.genetic_programming.components import Primitive
    prims = [p for ps in pset.values() for p in ps if isinstance(p, Primitive)]
    out = []
    for p in prims:
        slots = list(p.input)
        longest = max([len(pset[s]) for s in slots], default=1)
        orders = {s: rng.sample(pset[s], len(pset[s])) for s in slots}
        for k in range(longest):
            out.append((p, [orders[s][k % len(orders[s])] for s in slots]))
    return out


def individuals(ops, space, seed, long=True):
    """Individuals that together have every value of every operator, in pipelines of 1 to 4 (sometimes up to 13) steps."""
    from gama.configuration.parser import pset_from_config
    from gama.genetic_programming.components import PrimitiveNode, DATA_TERMINAL
    rng = random.Random(seed)
    pset, _ = pset_from_config(space)
    steps = steps_for(pset, rng)
    first = [s for s in steps if s[0].output == "prediction"]
    rest = [s for s in steps if s[0].output != "prediction"]
    rng.shuffle(first), rng.shuffle(rest)
    pools = {True: [], False: []}

    def take(pred):
        if not pools[pred]:
            pools[pred] = list(first if pred else rest)
            rng.shuffle(pools[pred])
        return pools[pred].pop()
    count = max(len(first), len(rest))

    def length(k):
        return 0 if k == 0 else rng.choice([5, 8, 12]) if long and k % 4 == 3 else rng.choice([1, 1, 2, 3])
    for k in range(count):
        chain = [take(True)] + [take(False) for _ in range(length(k) if rest else 0)]
        node = DATA_TERMINAL
        for prim, terminals in reversed(chain):
            node = PrimitiveNode(prim, node, list(terminals))
        ind = ops.individual()
        ind.main_node = node
        yield ind


def evaluated(ops, inds, names):
    """Evaluate individuals as a search does, through the (simulated) pool."""
    import gsim
    from gama.utilities.generic.async_evaluator import AsyncEvaluator
    evs, done = [], []
    gsim.SIM.reset([dict(k=1)] * len(inds))
    before = {}

    def on_complete(future):
        e = future.result
        if e is None:
            return
        mine = before[str(e.individual._id)]
        done.append(e)
        for est in e._estimators or []:
            evs.append(dict(op="evaluated", ind=mine, after=enc_individual(e.individual), pipe=enc_pipeline(est, names, len(mine))))
    gsim.SIM.on_complete = on_complete
    with AsyncEvaluator() as pool:
        for ind in inds:
            before[str(ind._id)] = enc_individual(ind)
            pool.submit(ops.evaluate, ind)
            ops.wait_next(pool)
    gsim.SIM.on_complete = None
    return evs, done


def make_data(seed, regression, n=36):
    import numpy as np
    import pandas as pd
    rng = random.Random(seed)
    x = pd.DataFrame({"a": [rng.randint(0, 9) * 1.0 for _ in range(n)], "b": [rng.random() + seed for _ in range(n)],
                      "c": [float(rng.randint(-3, 3)) for _ in range(n)]})
    for c in x.columns:
        for k in rng.sample(range(n), 4):
            x.loc[k, c] = np.nan
    if regression:
        x["d"] = pd.Series(["k%d" % rng.randint(0, 12) for _ in range(n - 13)] + ["k%d" % k for k in range(13)], dtype="category")
    y = pd.Series([rng.random() * 10 for _ in range(n)]) if regression else pd.Series([k % 2 for k in range(n)])
    if not regression:
        x["a"] = x["a"] + y * (1 + seed)
    return x, y


def shipped(sc):
    """Build (and evaluate some of) the pipelines of a shipped search space."""
    import gsim  # noqa: first
    import gdrive as g
    if sc["space"] == "clf":
        from gama.configuration.classification import clf_config as space
    elif sc["space"] == "reg":
        from gama.configuration.regression import reg_config as space
    else:
        from gama.configuration import testconfiguration
        space = testconfiguration.clf_config
    regression = sc["space"] == "reg"
    names = hyperparameters(space)
    evs = []

    def run(search, ops, start):
        rng = random.Random(sc["seed"])
        pool = list(individuals(ops, space, sc["seed"]))
        more = [ops.individual() for _ in range(40)]
        more += [ops.mutate(ind) for ind in more]
        for k, ind in enumerate(pool + more):
            evs.append(dict(build_event(ind, names, k)[0], op="describe"))
        evs.extend(evaluated(ops, rng.sample([i for i in pool + more if len(i.primitives) <= 4], sc["evaluate"]), names)[0])
    g.with_operations(run, space, regression=regression, data=make_data(sc["seed"], regression), max_eval_time=10, store="all")
    return dict(sc, ev=evs)


def small_space(regression):
    from sklearn.ensemble import ExtraTreesClassifier, ExtraTreesRegressor
    from sklearn.linear_model import Ridge
    from sklearn.naive_bayes import GaussianNB
    from sklearn.neighbors import KNeighborsClassifier, KNeighborsRegressor
    from sklearn.preprocessing import MinMaxScaler, RobustScaler, StandardScaler
    tr = {MinMaxScaler: {}, StandardScaler: {"with_mean": [True, False]}, RobustScaler: {}}
    trees = {"n_estimators": [2, 3], "max_features": [None, 0.5], "min_impurity_decrease": [0.0, 0.01], "random_state": [0, 7],
             "bootstrap": [True], "oob_score": [False, True], "max_depth": [None, 3], "min_samples_leaf": [1, 2], "min_samples_split": [2, 4],
             "max_leaf_nodes": [None, 4], "ccp_alpha": [0.0, 0.01], "warm_start": [False], "verbose": [0], "n_jobs": [None, 1],
             "max_samples": [None, 0.5], "min_weight_fraction_leaf": [0.0, 0.125]}
    if regression:
        tr[ExtraTreesRegressor] = dict(trees, max_features=[0.5, None])
        return {"alpha": [0.01, 1.0, 100.0], Ridge: {"alpha": []}, KNeighborsRegressor: {"n_neighbors": [1, 2, 3], "weights": ["uniform", "distance"]}, **tr}
    tr[ExtraTreesClassifier] = trees
    return {GaussianNB: {"var_smoothing": [1e-9, 1e-3]}, KNeighborsClassifier: {"n_neighbors": [1, 2, 3], "weights": ["uniform", "distance"]}, **tr}


def history(sc):
    """Build and fit pipelines in the order of a behaviour of the model."""
    import pandas as pd
    import gdrive as g
    space = small_space(sc["reg"])
    names = hyperparameters(space)
    runs = []

    def run(search, ops, start):
        data = {d: make_data(d, sc["reg"]) for d in (1, 2, 3)}
        if sc["reg"]:     # the fixed steps expect encoded columns to be of the same type
            data = {d: (x.assign(d=x["d"].cat.set_categories(["k%d" % k for k in range(13)])), y) for d, (x, y) in data.items()}
        probe = data[3][0].iloc[:8].copy()
        probe.iloc[0, :3] = float("nan")
        probe.iloc[1, 1] = float("nan")
        for path in sc["paths"]:
            pool = list(individuals(ops, space, sc["seed"]))
            random.Random(sc["seed"] + len(runs)).shuffle(pool)
            inds = {}
            pipes, evs = [], []
            for op in path:
                if op["op"] == "build":
                    ind = inds.setdefault(op["i"], pool[len(inds) % len(pool)])
                    ev, pipe = build_event(ind, names, op["i"], pipes, probe)
                    evs.append(ev)
                    if pipe is None:
                        break
                    pipes.append(pipe)
                else:
                    x, y = data[op["d"]]
                    pipes[op["i"] - 1].fit(x.copy(), y.copy())
                    evs.append(dict(op="fit", q=op["i"], d=op["d"], states=[state(p, probe) for p in pipes]))
            runs.append(dict(reg=sc["reg"], path=str(path), ev=evs))
    g.with_operations(run, space, regression=sc["reg"], data=make_data(1, sc["reg"]))
    return runs


def model(sc):
    """A whole fit: evaluated pipelines and the final model."""
    import gsim  # noqa: first
    import gdrive as g
    from gama.postprocessing import BestFitPostProcessing
    space = small_space(sc["reg"])
    names = hyperparameters(space)
    evs, chosen = [], []

    def search(s, ops, start):
        pool = list(individuals(ops, space, sc["seed"]))
        es, done = evaluated(ops, pool[:sc["n"]], names)
        evs.extend(es)
        s.output = [e.individual for e in sorted(done, key=lambda e: e.score, reverse=True)]
        chosen.append((s.output[0], enc_individual(s.output[0])))
    cls = g.GamaRegressor if sc["reg"] else g.GamaClassifier
    m = cls(search_space=space, search=g.ScriptSearch(search), post_processing=BestFitPostProcessing(), output_directory=g.new_dir(),
            scoring="neg_mean_squared_error" if sc["reg"] else "accuracy", n_jobs=1, max_total_time=600, store="nothing", verbosity=50)
    m.fit(*make_data(sc["seed"] % 5, sc["reg"]))
    best, before = chosen[0]
    evs.append(dict(op="model", ind=before, after=enc_individual(best), pipe=enc_pipeline(m.model, names, len(before))))
    return dict(reg=sc["reg"], seed=sc["seed"], ev=evs)


def refit(sc):
    """Fits of one object, or of two that exchange individuals, on different data."""
    import gsim  # noqa: first
    import gdrive as g
    import pandas as pd
    from gama.postprocessing import BestFitPostProcessing
    space = small_space(sc["reg"])
    names = hyperparameters(space)
    evs, chosen, pool = [], [], []

    def search(s, ops, start):
        rng = random.Random(sc["seed"] + len(evs))
        evs.append(dict(op="newfit"))
        extra = [ops.individual() for _ in range(70)] if sc["many"] else []
        mine = [ops.individual() for _ in range(2)]
        given = rng.sample(start, min(len(start), 4))
        for k, ind in enumerate(mine + given + [ops.mutate(i) for i in given[:2] + mine] + ([ops.mate(given[0], mine[0])] if sc["mate"] and given and _matable(given[0], mine[0]) else [])):
            evs.append(dict(build_event(ind, names, k)[0], op="describe"))
        some = rng.sample(mine + given, 2)
        es, done = evaluated(ops, some, names)
        evs.extend(es)
        s.output = [e.individual for e in sorted(done, key=lambda e: e.score, reverse=True)] + given[:1]
        rng.shuffle(s.output)
        for k, i in enumerate(s.output):      # no ties
            i.fitness = g.Fitness((float(k),), None, 0, 0)
        for k, i in enumerate(extra):
            i.fitness = g.Fitness((-1.0 - k,), None, 0, 0)
        pool[:] = mine + extra + given
        s.output = extra + s.output
        best = s.output[-1]
        chosen.append((best, enc_individual(best)))
    cls = g.GamaRegressor if sc["reg"] else g.GamaClassifier
    objs = [cls(search_space=space, search=g.ScriptSearch(search), post_processing=BestFitPostProcessing(), output_directory=g.new_dir(), regularize_length=False,
                scoring="neg_mean_squared_error" if sc["reg"] else "accuracy", n_jobs=1, max_total_time=600, store="nothing", verbosity=50) for _ in range(sc["objs"])]
    for f in sc["fits"]:
        x, y = make_data(f["d"], sc["reg"])
        kind = f["columns"]
        if kind == "plain" and "d" in x:
            x = x.drop(columns="d")
        elif kind in ("other", "both"):
            x = x.assign(e=pd.Series(["m%d" % (k % 14) for k in range(len(x))], dtype="category"))
            if kind == "other" and "d" in x:
                x = x.drop(columns="d")
        m = objs[f["o"] % sc["objs"]]
        try:
            m.fit(x, y, warm_start=list(pool)) if f["warm"] and pool else m.fit(x, y)
        except Exception as e:
            evs.append(dict(op="failed " + type(e).__name__ + str(e)[:80]))
            break
        best, before = chosen[-1]
        pipe = enc_pipeline(m.model, names, len(before))
        evs.append(dict(op="model", ind=before, after=enc_individual(best), pipe=pipe))
    return dict(reg=sc["reg"], seed=sc["seed"], ev=evs, scenario=str(sc))


def _matable(a, b):
    return len(list(a.primitives)) >= 2 and len(list(b.primitives)) >= 2


def scenario(sc):
    return {"refit": refit, "shipped": shipped, "history": history, "model": model}[sc["kind"]](sc)


def body(ctx):
    rng = ctx.rng("p")
    paths = ctx.model("MC_Compile")
    scs = [dict(kind="shipped", space=s, seed=rng.randint(1, 10**6), evaluate=ctx.pick(6, 60)) for s in ("clf", "reg", "test")
           for _ in range(ctx.pick(1, 4))]
    for reg in (False, True):
        sel = rng.sample(paths, min(len(paths), ctx.pick(160, 2000)))
        for k in range(0, len(sel), 20):
            scs.append(dict(kind="history", reg=reg, paths=sel[k:k + 20], seed=rng.randint(1, 10**6)))
        scs += [dict(kind="model", reg=reg, seed=rng.randint(1, 10**6), n=rng.randint(1, 5)) for _ in range(ctx.pick(3, 20))]
        for k in range(ctx.pick(24, 300)):
            fits = [dict(d=rng.randint(1, 4), columns=rng.choice(["plain", "declared", "other", "both"]), o=rng.randint(0, 1), warm=rng.random() < 0.4)
                    for _ in range(rng.randint(2, 4))]
            scs.append(dict(kind="refit", reg=reg, seed=rng.randint(1, 10**6), objs=1 + k % 2, fits=fits, mate=rng.random() < 0.5, many=k % 4 == 3))
    ctx.validate("CompileTrace", ctx.drive(scenario, scs, each_timeout=300, per=1))


vlib.main("C27", body)
