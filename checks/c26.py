"""C26: command line options take effect as documented."""
import vlib


def table(sc, rng):
    """Three columns; the target is of the chosen kind."""
    n = 30
    def col(name, kind):
        if kind == "text":
            v = [["no", "yes", "maybe"][k % 3] for k in range(n)]
        elif kind == "few":
            v = [k % 3 for k in range(n)]
        elif kind == "many":
            v = [(k * 7) % 23 for k in range(n)]
        else:
            v = [0.25 + ((k * 5) % 13) * 1.5 for k in range(n)]
        return dict(name=name, kind={"few": "whole", "many": "whole"}.get(kind, kind), vals=v)
    t = {"first": 0, "middle": 1}.get(sc["target"], 2)
    names = ("my first", "my middle", "my last") if misleading(sc) else ("first", "middle", "last")
    return [col(nm, sc["kind"] if k == t else "real") for k, nm in enumerate(names)]


def misleading(sc):
    """The separator has to be given: another one would be recognised."""
    return sc["sep"] == "|" and sc["file"].lower() != "arff"


def write(sc, cols, path):
    rows = list(zip(*[c["vals"] for c in cols]))
    with open(path, "w") as fh:
        if sc["file"].lower() == "arff":
            fh.write("@relation t\n\n")
            for c in cols:
                fh.write("@attribute %s %s\n" % (c["name"], "{no, yes, maybe}" if c["kind"] == "text" else "numeric"))
            fh.write("\n@data\n" + "\n".join(",".join(map(str, r)) for r in rows) + "\n")
        else:
            sep = sc["sep"]
            pad = " " if misleading(sc) else ""
            fh.write(sep.join(c["name"] for c in cols) + "\n" + "\n".join(sep.join(pad + str(v) for v in r) for r in rows) + "\n")


def snapshot():
    import os
    return {os.path.relpath(os.path.join(d, f)) for d, ds, fs in os.walk(".") for f in fs + ds}


def scenario(sc):
    import inspect
    import logging
    import os
    import pickle
    import random
    import sys
    import numpy as np
    import gdrive as g
    import gama.gama as core
    from gama.search_methods import AsyncEA, RandomSearch, AsynchronousSuccessiveHalving
    from gama.utilities import cli
    from gama.utilities.metrics import scoring_to_metric
    rng = random.Random(sc["seed"])
    random.seed(sc["seed"])
    os.makedirs("w%d" % sc["n"])
    os.chdir("w%d" % sc["n"])
    cols = table(sc, rng)
    path = sc["stem"] + ("." + sc["file"] if sc["file"] != "missing" else ".csv")
    if sc["file"] != "missing":
        write(sc, cols, path)
    cmd = [path]
    sep_given = sc["file"].lower() == "csv" and sc["sep"] != ","
    reg = sc["mode"] == "regression" or (sc["mode"] == "" and (sc["kind"] in ("real", "many") or (sc["kind"] == "few" and sc["file"].lower() == "arff")))
    args = {k: sc[k] for k in ("file", "target", "kind", "mode", "metric", "minutes", "evalMinutes", "jobs", "long", "verbose", "dry", "outdir", "out", "py")}
    if misleading(sc) and sc["target"] in ("first", "middle"):
        args["target"] = "my " + sc["target"]
    if sc["metric"]:
        args["metric"] = rng.choice(["r2", "neg_mean_absolute_error"]) if reg else rng.choice(["accuracy", "f1_macro"])
    opts = []
    for flag, v in (("-sep", sc["sep"] if sep_given else ""), ("--target", args["target"]), ("-o", sc["out"]), ("-py", sc["py"]), ("--mode", sc["mode"]), ("-m", args["metric"]),
                    ("-t", sc["minutes"]), ("--time_pipeline", sc["evalMinutes"]), ("-n", sc["jobs"]), ("-outdir", sc["outdir"])):
        if v:
            opts.append([flag, v])
    for flag, v in (("--long", sc["long"]), ("-v", sc["verbose"]), ("-dry", sc["dry"])):
        if v:
            opts.append([flag])
    rng.shuffle(opts)
    at = rng.randint(0, len(opts))
    cmd = [w for o in opts[:at] for w in o] + [path] + [w for o in opts[at:] for w in o]
    ev = dict(op="cli", args=args, cols=[dict(name=c["name"], kind=c["kind"], cells=[str(v) for v in c["vals"]]) for c in cols], raised="", configs=[], fits=0, made=[],
              target="", features=[], rows=0, pickled=False, code=False, logs=False)
    box = dict(objects=[])
    real_init, real_fit = core.Gama.__init__, core.Gama.fit

    def init(self, *a, **k):
        b = inspect.signature(real_init).bind(self, *a, **k)
        b.apply_defaults()
        v = b.arguments
        box["objects"].append(self)
        m = list(scoring_to_metric(v["scoring"]))
        ev["configs"].append(dict(mode="classification" if isinstance(self, g.GamaClassifier) else "regression", metric=m[0].name if len(m) == 1 else "several", seconds=v["max_total_time"],
                                  evalSeconds=v["max_eval_time"], jobs=v["n_jobs"], short=v["regularize_length"], verbose={logging.INFO: True, logging.WARNING: False}.get(v["verbosity"], "other"),
                                  outdir=v["output_directory"] or "", store=v["store"]))
        return real_init(self, *a, **k)

    def fit(self, x, y, *a, **k):
        ev["fits"] += 1
        return real_fit(self, x, y, *a, **k)

    def search(self, operations, start_candidates):
        """Ends at once, with a pipeline that is quick to train."""
        for _ in range(3000):
            ind = operations.individual()
            if len(ind.primitives) == 1 and ind.primitives[0]._primitive.identifier.__name__ in ("GaussianNB", "KNeighborsRegressor", "DecisionTreeRegressor", "DecisionTreeClassifier") \
                    and all(t.value in (True, False) or not isinstance(t.value, int) or t.value < 20 for t in ind.terminals):
                break
        ind.fitness = g.Fitness((1.0, 1), 0, 0, 0)
        self.output = [ind]
    restore = [(c, k, c.__dict__.get(k)) for c, k in ((core.Gama, "__init__"), (core.Gama, "fit"), (g.GamaClassifier, "fit"), (g.GamaRegressor, "fit"), (AsyncEA, "search"),
                                                      (RandomSearch, "search"), (AsynchronousSuccessiveHalving, "search"))]
    fits = {c: c.fit for c in (g.GamaClassifier, g.GamaRegressor)}

    def outer(cls):
        def f(self, x, y, *a, **k):
            ev["target"], ev["features"], ev["rows"] = str(y.name), [str(c) for c in x.columns], len(x)
            box["x"] = x
            return fits[cls](self, x, y, *a, **k)
        return f
    for c in fits:
        c.fit = outer(c)
    core.Gama.__init__, core.Gama.fit = init, fit
    if fits[g.GamaRegressor] is real_fit:      # inherited
        fits[g.GamaRegressor] = fit
    for s in (AsyncEA, RandomSearch, AsynchronousSuccessiveHalving):
        s.search = search
    os.makedirs("nested")
    if sc["stale"] and not sc["dry"]:       # files of an earlier invocation, to be replaced
        for f in filter(None, (sc["out"] or "gama_model.pkl", sc["py"])):
            with open(f, "wb") as fh:
                fh.write(b"# an old file\n" * 2000)
    before = snapshot()
    sys.stdout = open(os.devnull, "w")
    try:
        if sc["call"] == "string" and not any(" " in w for w in cmd):
            cli.main(" ".join(cmd))
        elif sc["call"] == "argv":
            sys.argv = ["gama"] + cmd
            cli.main()
        else:
            cli.main(cmd)
    except (Exception, SystemExit) as e:
        ev["raised"] = type(e).__name__ + ": " + str(e)[:200]
    sys.stdout = sys.__stdout__
    for c, k, f in restore:
        if f is None:
            delattr(c, k)
        else:
            setattr(c, k, f)
    made = snapshot() - before
    if sc["stale"] and not sc["dry"]:
        made |= {f for f in (sc["out"] or "gama_model.pkl", sc["py"]) if f and b"# an old file" not in open(f, "rb").read()}
    top = {os.path.normpath(sc["outdir"])} if sc["outdir"] else set()
    dirs = {m for m in made if os.path.isdir(m)}
    for m in sorted(made):
        inside = [t for t in top if m == t or m.startswith(t + os.sep)]
        if inside:
            name = sc["outdir"] if os.path.isdir(inside[0]) else "?"
        elif sc["outdir"] and os.path.isdir(m) and (os.path.normpath(sc["outdir"]) + os.sep).startswith(m + os.sep):
            name = sc["outdir"]     # a parent of the output directory
        elif os.sep not in m and m in dirs:
            name = "a new directory"
        elif os.sep in m and not sc["outdir"] and m.split(os.sep)[0] in dirs:
            continue
        else:
            name = m
        if name not in ev["made"]:
            ev["made"].append(name)
    if not sc["outdir"] and sum(os.sep not in m for m in dirs) > 1:
        ev["made"].append("several directories")
    if not sc["dry"] and not ev["raised"]:
        od = sc["outdir"] or next((m for m in dirs if os.sep not in m), ".")
        files = [f for d, ds, fs in os.walk(od) for f in fs]
        ev["logs"] = bool(files) and all(f.endswith(".log") for f in files)
        try:
            with open(sc["out"] or "gama_model.pkl", "rb") as fh:
                m = pickle.load(fh)
            want = box["objects"][0].model
            z = np.asarray(box["x"], dtype=float)
            ev["pickled"] = repr(m) == repr(want) and list(m.predict(z)) == list(want.predict(z))
        except Exception as e:
            ev["why"] = type(e).__name__ + str(e)[:200]
        if sc["py"]:
            ns = {}
            try:
                exec(compile(open(sc["py"]).read(), "code", "exec"), ns)
                ev["code"] = type(ns["pipeline"].steps[-1][1]) is type(box["objects"][0].model.steps[-1][1])
            except Exception as e:
                ev["why"] = type(e).__name__ + str(e)[:200]
    return dict(ev=[ev], scenario=str(dict(sc, cmd=cmd))[:600])


def body(ctx):
    rng = ctx.rng("cli")
    scs = []
    for n, p in enumerate(ctx.model("MC_Cli", maximal=False)):
        sc = dict(p[0], n=n, seed=rng.randint(0, 10 ** 6), stale=rng.random() < 0.3, stem=rng.choice(["data", "my.data", "the_file"]))
        # regression on texts, or classification of a continuous target, cannot be fitted
        if not sc["dry"] and sc["mode"] == "regression" and sc["kind"] in ("text", "few"):
            sc["kind"] = "real"
        if not sc["dry"] and sc["mode"] == "classification" and sc["kind"] in ("real", "many"):
            sc["kind"] = "few"
        scs.append(sc)
    rng.shuffle(scs)
    ctx.validate("CliTrace", ctx.drive(scenario, scs, each_timeout=60, per=8))


vlib.main("C26", body)
