"""C23: several AutoML objects in one process do not influence each other."""
import copy
import hashlib
import importlib
import importlib.util
import os
import random
import re
import shutil

import gsim
from gsim import SIM
import gdrive as g
import numpy as np
import pandas as pd
import recest
import stopit
import vlib
from gama.postprocessing import BestFitPostProcessing, EnsemblePostProcessing
from gama.search_methods import AsyncEA, RandomSearch, AsynchronousSuccessiveHalving
from sklearn.preprocessing import PolynomialFeatures
import gama.configuration.classification as cc
import gama.configuration.regression as rc

# the score of the estimators in recest by metric: class shares are equal, targets constant
CONSTANT = {"accuracy": 0.5, "log_loss": -0.8369882167858358, "f1_macro": 1 / 3, "precision_macro": 0.25,
            "mean_squared_error": -4.0, "mean_absolute_error": -2.0}
CLF, REG = ["accuracy", "f1_macro", "precision_macro", "neg_log_loss"], ["neg_mean_squared_error", "neg_mean_absolute_error"]
PARTS = ["gama.configuration.testconfiguration", "gama.configuration.parser", "gama.utilities.export", "gama.logging.GamaReport", "gama.utilities.preprocessing",
         "gama.utilities.metrics", "gama.genetic_programming.compilers.scikitlearn", "gama.postprocessing.ensemble", "gama.utilities.cli"]


def pristine(module):
    spec = importlib.util.spec_from_file_location("pristine_" + module.__name__.split(".")[-1], module.__file__)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def text(config):
    return sorted((k if isinstance(k, str) else k.__name__, re.sub(" at 0x[0-9a-f]+", "", repr(sorted(v.items(), key=lambda t: t[0])) if isinstance(v, dict) else repr(v)))
                  for k, v in config.items())


PURE = [text(pristine(cc).clf_config), text(pristine(rc).reg_config)]


def dataset(d, reg, wide, form):
    n = 20
    ids = [1000 * d + k for k in range(n)]
    x = pd.DataFrame({"id": [float(v) for v in ids], "b": [float(k % 3) + 0.5 for k in range(n)]})
    if wide:
        x = pd.concat([x] + [pd.Series([k + 0.25 * j for k in range(n)], name="w%d" % j) for j in range(51)], axis=1)
    if form == "cat" and not wide:
        x["c"] = pd.Series(["u", "v", "w", "v"] * 5, dtype="category")
    y = pd.Series([2.0] * n) if reg else pd.Series([10 * d + k % 2 for k in range(n)])
    if form == "array":
        x, y = x.values, y.values
    if form == "missing" and not wide:
        x.loc[3, "b"] = None
        if not reg:
            y = y.astype(float)
            y[4:14] = None
    if form == "text" and not reg:
        y = y.astype(str)
    return x, y


def digest(d):
    out = {}
    for root, _, files in os.walk(d):
        for f in files:
            if f != "gama.log":
                p = os.path.join(root, f)
                out[p] = hashlib.sha1(open(p, "rb").read()).hexdigest()
    return out


def same(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
    return type(a) is type(b) and a.equals(b) and (list(getattr(a, "columns", [])) == list(getattr(b, "columns", []))) and list(a.index) == list(b.index) \
        and str(getattr(a, "dtypes", "")) == str(getattr(b, "dtypes", ""))


class Timed(stopit.ThreadingTimeout):
    seen = []

    def __init__(self, seconds, *a, **k):
        if SIM.mode == "worker":
            Timed.seen.append(seconds)
        super().__init__(seconds, *a, **k)


def history(sc):
    original, stopit.ThreadingTimeout = stopit.ThreadingTimeout, Timed
    home = os.getcwd()
    try:
        return _history(sc)
    finally:
        stopit.ThreadingTimeout = original
        os.chdir(home)
        for k in range(1, len(sc["objs"]) + 1):
            shutil.rmtree(os.path.join(home, "iso%d" % k), ignore_errors=True)


def _history(sc):
    random.seed(sc["seed"])
    SIM.reset([])
    objs, info, evs, spaces, cur = {}, {}, [], {}, {}
    ids = {}

    def space(key, reg):
        k = (key, reg)
        if k not in spaces:
            est = recest.TaggedRegressor if reg else recest.TaggedClassifier
            s = {est: {"salt": [10 * key + j for j in range(3)]}, recest.Keep: {"mark": [1, 2]}, PolynomialFeatures: {"degree": [2], "include_bias": [False]}}
            if key % 2:
                s = {"mark": [4, 5], **s, recest.KeepTwo: {"mark": []}}
            spaces[k] = (s, {a: dict(b) if isinstance(b, dict) else list(b) for a, b in s.items()})
        return spaces[k][0]

    def recorder(base):
        class Recording(base):
            def dynamic_defaults(self, x, y, time_limit):
                cur["limit"] = int(time_limit)
                super().dynamic_defaults(x, y, time_limit)

            def search(self, operations, start_candidates):
                cur["prims"] |= {p["p"] for _ in range(60) for p in g.enc_ind(operations.individual())}
                super().search(operations, start_candidates=start_candidates[:6])
        Recording.__name__ = base.__name__
        return Recording

    def construct(o):
        c = sc["objs"][o - 1]
        kw = dict(search_space=space(c["space"], c["reg"])) if c["space"] else {}
        if not c["plain"]:
            base = {"ea": AsyncEA, "random": RandomSearch, "asha": AsynchronousSuccessiveHalving}[c["method"]]
            kw["search"] = recorder(base)(**({"population_size": 4} if c["method"] == "ea" else {"reduction_factor": 2, "minimum_resource": 0.5} if c["method"] == "asha" else {}))
            kw["post_processing"] = EnsemblePostProcessing(time_fraction=0.3, ensemble_size=3, max_models=4, hillclimb_size=8) if c["ensemble"] else BestFitPostProcessing(time_fraction=0.1)
        else:
            kw["preset"] = "performance" if c["ensemble"] else "simple"
        gm = (g.GamaRegressor if c["reg"] else g.GamaClassifier)(
            scoring=tuple(c["scoring"]) if len(c["scoring"]) > 1 else c["scoring"][0], n_jobs=c["jobs"], max_memory_mb=c["memory"] or None, max_total_time=c["total"],
            max_eval_time=c["evaltime"], regularize_length=c["regularize"], store=c["store"], verbosity=50, output_directory="iso%d" % o, max_pipeline_length=2, **kw)
        objs[o] = gm

        def cb(e):
            cur["called"].append(o)
            cur["evals"].append(e)
            for op in cur.pop("inside", []):
                act(op)
        gm.evaluation_completed(cb)

    def fit(o, d):
        c = sc["objs"][o - 1]
        x, y = data(d, c)
        cur.update(limit=-1, prims=set(), called=[], evals=[], workers=0, stops=0)
        recest._Tagged.trained, Timed.seen = [], []
        SIM.reset([dict(k=random.randint(1, 3), out="ok")] * sc["evals"])
        SIM.mem = {0: 10}

        def started(p):
            SIM.mem[p.pid] = 40
            cur["workers"] = max(cur["workers"], len(SIM.alive()))

        def stopped(p):
            cur["stops"] += not SIM.exiting
        SIM.on_start, SIM.on_stop = started, stopped
        objs[o].fit(x, y)
        evals = cur["evals"]
        evid = {str(e.individual._id) for e in evals}
        ids.setdefault(o, set()).update(evid)
        tags, ok = set(), True
        for rows, ys, _ in recest._Tagged.trained:
            tags |= {r // 1000 for r in rows}
            if not c["reg"]:
                ok = ok and all(v % 2 == r % 2 for r, v in zip(rows, ys))
        names, lengths = set(), set()
        for e in evals:
            body = e.score[:-1] if len(e.score) > len(c["scoring"]) else e.score
            lengths.add(len(e.score) == len(c["scoring"]) + 1 and float(e.score[-1]) == -len(e.individual.primitives))
            names.add(" ".join(next((k for k, v in CONSTANT.items() if abs(v - float(s)) < 1e-6), "%.6g" % s) for s in body))
        lib = g.library(objs[o])
        logs = c["store"] in ("all", "logs")
        log = [line.split(";") for line in open(os.path.join("iso%d" % o, "evaluations.log"))][1:] if logs else []
        model = objs[o].model
        while hasattr(model, "steps"):
            model = model.steps[-1][1]
        wide = c["ensemble"] and sc["wide"] == d
        return dict(workers=cur["workers"], stopped=cur["stops"] > 0, evaltimes=sorted({int(round(t)) for t in Timed.seen}), limit=cur["limit"], tags=sorted(tags), labels=ok,
                    scores=sorted(names), lengths=sorted(lengths), salts=sorted({t.value for e in evals for t in e.individual.terminals if t.identifier.endswith(".salt")}),
                    prims=sorted(cur["prims"] | {p["p"] for e in evals for p in g.enc_ind(e.individual)}), dropped=["PolynomialFeatures"] if wide or c["gone"] else [],
                    memlog=not logs or os.path.exists(os.path.join("iso%d" % o, "memory.log")), n=len(evals), called=cur["called"],
                    library=len(lib.evaluations) if lib else len(evals), own=owned(lib, evid),
                    logown=not logs or logged(log, ids, o), model=[int(model.salt)] if isinstance(model, recest._Tagged) else [], gone=wide)

    def owned(lib, evid):
        return lib is None or {str(e.individual._id) for e in lib.evaluations} == evid

    def logged(rows, ids, o):
        flat = {f for r in rows for f in r}
        return ids[o] <= flat and not any(ids[p] & flat for p in ids if p != o)

    datas = {}

    def data(d, c):
        k = (d, c["reg"])
        if k not in datas:
            v = dataset(d, c["reg"], sc["wide"] == d, sc["forms"][(d - 1) % 2])
            datas[k] = (v, copy.deepcopy(v))
        return datas[k][0]

    def library_state(gm):
        lib = g.library(gm)
        return "" if lib is None else repr([(str(e.individual._id), e.score) for e in lib.evaluations])

    def act(op):
        o = op["o"]
        before = {k: (digest("iso%d" % k), library_state(objs[k])) for k in objs}
        extra, raised = {}, ""
        try:
            if op["op"] == "construct":
                construct(o)
            elif op["op"] == "use":
                importlib.import_module(op["part"])
            elif op["op"] == "fit":
                cur["inside"] = op.get("nested", [])
                extra = fit(o, op["d"])
            else:
                c = sc["objs"][o - 1]
                x, y = data(info[o], c)
                x = x[:7]
                p = objs[o].predict(x)
                if sc["score"] and "missing" not in sc["forms"]:
                    objs[o].score(x, y[:7])
                extra = dict(rows=len(p), asked=7, tag=info[o] if c["reg"] and all(v == 4.0 for v in p) else int(float(p[0])) // 10 if not c["reg"] and len(set(p.tolist())) == 1 else -1)
        except (gsim.Stuck, Exception) as e:
            if os.environ.get("C23_DEBUG"):
                import traceback
                traceback.print_exc()
            raised = type(e).__name__ + ": " + str(e)[:100]
        if op["op"] == "fit" and not raised:
            info[o] = op["d"]
            sc["objs"][o - 1]["gone"] |= extra.pop("gone")
        touched = [k for k in before if digest("iso%d" % k) != before[k][0]]
        changed = [k for k in before if library_state(objs[k]) != before[k][1]]
        if cur.get("nesting"):
            touched = changed = []
        evs.append(dict(op=op["op"], o=o, d=op.get("d", 0), raised=raised, spaces=[text(cc.clf_config), text(rc.reg_config)] == PURE,
                        data=all(same(a, b) for v in datas.values() for a, b in zip(*v)), caller=all(a == b and list(a) == list(b) for a, b in spaces.values()), touched=touched,
                        changed=changed, **extra))

    for op in sc["ops"]:
        act(op)
    settings = []
    for c in sc["objs"]:
        est = "TaggedRegressor" if c["reg"] else "TaggedClassifier"
        settings.append(dict(jobs=c["jobs"], memory=c["memory"], evaltime=c["evaltime"], regularize=c["regularize"], plain=c["plain"],
                             search=int((1 - (0.3 if c["ensemble"] else 0.1)) * c["total"]),
                             metrics=" ".join(m.replace("neg_", "") for m in c["scoring"]), salts=[10 * c["space"] + j for j in range(3)],
                             prims=sorted([est, "Keep", "PolynomialFeatures"] + (["KeepTwo"] if c["space"] % 2 else []))))
    return dict(objs=settings, ev=evs, scenario=str(sc)[:900])


def many(sc):
    """Very many fits of objects with different settings in one process."""
    from gama.utilities.generic.async_evaluator import AsyncEvaluator
    evs, box = [], {}

    def run(s, ops, start):
        SIM.reset([])
        with AsyncEvaluator():
            box["workers"] = len(SIM.alive())
        s.output = []
    x, y = g.toy_data()
    for k in range(sc["n"]):
        box.update(workers=0)
        raised = ""
        try:
            d = g.new_dir()
            gm = g.GamaClassifier(search_space={recest.TaggedClassifier: {}}, scoring="accuracy", search=g.ScriptSearch(run), post_processing=g.NoPost(), n_jobs=1 + k % 3,
                                  max_total_time=60, store="nothing", verbosity=50, output_directory=d)
            gm.fit(x, y)
        except BaseException as e:
            raised = type(e).__name__
        evs.append(dict(op="one", o=1, jobs=1 + k % 3, workers=box["workers"], raised=raised))
        if raised:
            break
    return dict(objs=[dict(jobs=1)], ev=evs, scenario=str(sc))


def spaces_of(sc):
    """Objects with the default search spaces, or spaces of the caller, one after the other: each offers its own space, whatever came before."""
    from sklearn.linear_model import LogisticRegression
    from sklearn.naive_bayes import GaussianNB
    from sklearn.svm import LinearSVC
    import gama.configuration.testconfiguration as tc
    fresh = dict(clf=pristine(cc).clf_config, reg=pristine(rc).reg_config)
    mine = {LinearSVC: {"C": [0.5, 1.0]}, "shared": [1, 2], GaussianNB: {}, LogisticRegression: {"C": [0.5], "penalty": ["l2"]}, recest.Keep: {"mark": [1, 2]},
            PolynomialFeatures: {"degree": [2], "include_bias": [False]}}
    given = copy.deepcopy(mine)
    test = text(tc.clf_config)
    evs = []
    random.seed(sc["seed"])
    for k, c in enumerate(sc["objs"]):
        space = dict(clf=fresh["clf"], reg=fresh["reg"], mine=given, test=pristine(tc).clf_config)[c["space"]]
        classes = [a for a in space if not isinstance(a, str)]
        proba = any(m in ("neg_log_loss", "roc_auc") for m in c["scoring"])
        want = {a.__name__ for a in classes if not (proba and hasattr(a, "predict") and not hasattr(a, "transform") and not hasattr(a(), "predict_proba"))}
        if c["wide"] and c["ensemble"]:
            want.discard("PolynomialFeatures")
        got, raised = set(), ""

        def run(s, ops, start):
            for _ in range(500):
                got.update(p["p"] for p in g.enc_ind(ops.individual()))
            s.output = []
        kw = {} if c["space"] in ("clf", "reg") else dict(search_space=mine if c["space"] == "mine" else tc.clf_config)
        d = g.new_dir()
        try:
            gm = (g.GamaRegressor if c["space"] == "reg" else g.GamaClassifier)(
                scoring=tuple(c["scoring"]) if len(c["scoring"]) > 1 else c["scoring"][0], search=g.ScriptSearch(run), n_jobs=1, max_total_time=60,
                post_processing=EnsemblePostProcessing() if c["ensemble"] else g.NoPost(), store="nothing", verbosity=50, output_directory=d, **kw)
            if c["ensemble"]:
                gm._post_processing.post_process = lambda *a, **k: None
            if c["fit"]:
                x, y = dataset(1, c["space"] == "reg", c["wide"], "frame")
                gm.fit(x, y)
        except Exception as e:
            raised = type(e).__name__ + ": " + str(e)[:100]
        shutil.rmtree(d, ignore_errors=True)
        evs.append(dict(op="offer", o=1, d=0, raised=raised, spaces=[text(cc.clf_config), text(rc.reg_config)] == PURE, data=True, caller=mine == given and list(mine) == list(given)
                        and text(tc.clf_config) == test, touched=[], changed=[], fit=c["fit"], got=sorted(got), want=sorted(want)))
    return dict(objs=[dict(jobs=1)], ev=evs, scenario=str(sc)[:500])


def obj(rng):
    reg = rng.random() < 0.35
    total = rng.choice([400, 700, 1100])
    metrics = rng.sample(REG if reg else CLF, rng.choice([1, 1, 2]))
    return dict(reg=reg, jobs=rng.randint(1, 4), memory=rng.choice([0, 0, 40, 60, 95, 120, 135, 160, 175, 1000]), total=total, evaltime=rng.choice([7, 23, 41, 97]),
                regularize=rng.random() < 0.5, scoring=metrics, space=rng.randint(1, 3), plain=rng.random() < 0.15, ensemble=rng.random() < 0.4,
                method=rng.choice(["ea", "random", "asha"]), gone=False, store=rng.choice(["all", "all", "logs", "models", "nothing"]))


def nest(path):
    ops = []
    for s in path:
        if s["inside"]:
            last = next(p for p in reversed(ops) if p["op"] == "fit")
            last.setdefault("nested", []).append(dict(op=s["op"], o=s["o"]))
        else:
            ops.append(dict(op=s["op"], o=s["o"], d=s["d"]))
    return ops


def body(ctx):
    rng = ctx.rng("iso")
    scs = []
    for n, length in ((2, ctx.pick(5, 6)), (3, ctx.pick(5, 6))):
        paths = [p for p in ctx.model("MC_Isolation", consts=dict(N=n, MaxLen=length)) if sum(s["op"] == "fit" for s in p) > 1]
        for p in rng.sample(paths, min(len(paths), ctx.pick(110, 1500))):
            ops = nest(p)
            for k in range(rng.choice([0, 0, 1, 2])):
                first = next(j for j, s in enumerate(ops) if s["op"] == "construct")
                ops.insert(rng.randint(first + 1, len(ops)), dict(op="use", o=1, part=rng.choice(PARTS)))
            scs.append(dict(ops=ops, objs=[obj(rng) for _ in range(n)]))
    for s in scs:
        for o in s["objs"]:
            o["ensemble"] &= o["method"] != "asha"
        if rng.random() < 0.4:
            for o in s["objs"]:
                o["space"] = s["objs"][0]["space"]
        s.update(seed=rng.randint(0, 10 ** 6), evals=rng.randint(7, 14), wide=rng.choice([0, 0, 0, 1]), forms=[rng.choice(["frame", "array", "cat", "missing", "text"]) for _ in range(2)],
                 score=rng.random() < 0.5)
    rng.shuffle(scs)
    spaces = []
    for _ in range(ctx.pick(24, 240)):
        objs = []
        for _ in range(rng.randint(2, 5)):
            sp = rng.choice(["clf", "clf", "reg", "mine", "mine", "test"])
            objs.append(dict(space=sp, scoring=rng.sample(REG if sp == "reg" else CLF, rng.choice([1, 1, 2])), ensemble=rng.random() < 0.5, wide=rng.random() < 0.4, fit=rng.random() < 0.7))
        spaces.append(dict(objs=objs, seed=rng.randint(0, 10 ** 6)))
    runs = ctx.drive(spaces_of, spaces, each_timeout=100, per=1)
    runs += ctx.drive(many, [dict(n=ctx.pick(1200, 5000))], each_timeout=200, fresh=True)
    ctx.validate("IsolationTrace", runs + ctx.drive(history, scs, each_timeout=60, per=1))


vlib.main("C23", body)
