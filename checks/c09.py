"""C09: the evaluation library, model-based over all short save histories."""
import os, shutil, tempfile
import vlib

gama = vlib.import_gama()
import numpy as np
from gama.utilities.evaluation_library import EvaluationLibrary, Evaluation
from gama.genetic_programming.components import Individual
from gama.configuration.parser import pset_from_config
from sklearn.naive_bayes import GaussianNB, BernoulliNB

PSET, _ = pset_from_config({"alpha": [0.1 * k for k in range(1, 9)], GaussianNB: {}, BernoulliNB: {"alpha": []}})
from sklearn.preprocessing import StandardScaler
PSET["data"] = []
NEG = -9999


def new_eval(id_, score, ok, N, dims=1):
    ind = Individual.from_string("GaussianNB(data)", PSET)
    pred = None
    if ok:
        pred = np.array([id_ * 1000 + k for k in range(N)], dtype=float)
        if dims == 2:
            pred = np.stack([pred, pred + 0.5], axis=1)
    e = Evaluation(ind, predictions=pred, score=tuple(float(s) if s != NEG else float("-inf") for s in score),
                   estimators=[("est", id_)] if ok else None, duration=1, error=None if ok else f"boom {id_}")
    return e


def scenario(sc):
    d = tempfile.mkdtemp()
    try:
        return run(sc, os.path.join(d, "cache"))
    finally:
        shutil.rmtree(d)


def run(sc, cache):
    N, m, n = sc["N"], sc["m"], sc["n"]
    kw = dict(m=None if m < 0 else m, n=None if n < 0 else n, cache=cache)
    if sc["sample"]:
        kw["sample"] = np.array(sc["sample"])
    np.random.seed(sc.get("seed", 0))
    lib = EvaluationLibrary(**kw)
    evs, ident = [], {}
    if sc["strat"]:
        raised = ""
        try:
            lib.determine_sample_indices(stratify=np.array(sc["strat"]))
        except Exception as ex:
            raised = type(ex).__name__
        evs.append(dict(op="choose", raised=raised))
    for op in sc["ops"]:
        if op["op"] == "save":
            id_ = len(ident) + 1
            ok = op["s"][0] != NEG
            e = new_eval(id_, op["s"], ok, N, sc.get("dims", 1))
            ident[id(e)] = (id_, e)
            raised = ""
            try:
                lib.save_evaluation(e)
            except Exception as ex:
                raised = type(ex).__name__
            obs, offered, recs, ids = [], [], [], []
            for x in lib.evaluations:
                i = ident[id(x)][0]
                ids.append(i)
                recs.append(dict(id=i, score=[NEG if s == float("-inf") else int(s) for s in x.score],
                                 ok=x.error is None and True))
                if x.error is not None and x.error != f"boom {i}":
                    recs[-1]["score"] = [7777]
                est, pred = x.estimators, x.predictions
                if est:
                    offered.append(i)
                if pred is not None:
                    p = pred[:, 0] if pred.ndim == 2 else pred
                    obs.append(dict(id=i, est=est[0][1] if est else 0, pred=[int(v) for v in p]))
            evs.append(dict(op="save", id=id_, score=op["s"], ok=ok, raised=raised, ids=ids, recs=recs,
                            offered=offered, obs=obs, files=len(os.listdir(cache)) if os.path.isdir(cache) else 0))
        else:
            raised, got = "", []
            try:
                got = lib.n_best(op["n"], with_pipelines=op["pipes"])
            except Exception as ex:
                raised = type(ex).__name__
            top = [ident[id(x)][0] for x in lib.evaluations if x.estimators]
            evs.append(dict(op="best", n=op["n"], pipes=op["pipes"], raised=raised, top=top,
                            ids=[ident[id(x)][0] for x in got]))
    return dict(m=m, n=n, N=N, sample=sc["sample"], strat=sc["strat"], ev=evs)


def random_scenarios(ctx, count):
    rng = ctx.rng("lib")
    out = []
    for k in range(count):
        N = rng.choice([4, 6, 10])
        mode = rng.choice(["none", "n", "n", "sample", "strat", "big"])
        n = dict(none=-1, n=rng.randint(1, N - 1), sample=3, strat=rng.randint(2, max(2, N - 2)), big=N + 5)[mode]
        strat = []
        if mode == "strat":
            strat = [j % 2 for j in range(N)]
            rng.shuffle(strat)
        dims = rng.choice([1, 2])
        nm = rng.choice([1, 2, 3])
        ops = []
        for _ in range(rng.randint(3, 14)):
            if rng.random() < 0.25:
                ops.append(dict(op="best", n=rng.choice([0, 1, 2, 3, 8]), pipes=rng.random() < 0.6))
            elif rng.random() < 0.2:
                ops.append(dict(op="save", s=[NEG] * nm))
            else:
                ops.append(dict(op="save", s=[rng.randint(-3, 3) for _ in range(nm)]))
        out.append(dict(N=N, m=rng.choice([0, 1, 2, 3, 5, -1]), n=n, dims=dims, seed=rng.randint(0, 10**6),
                        sample=rng.sample(range(N), 3) if mode == "sample" else [], strat=strat, ops=ops))
    return out


def body(ctx):
    paths = ctx.model("MC_Library")
    sc = []
    for k, p in enumerate(paths):
        m = p[0]["m"]
        ops = [dict(op="save", s=[o["s"] if o["s"] else NEG]) for o in p[1:]]
        ops += [dict(op="best", n=2, pipes=True), dict(op="best", n=9, pipes=True), dict(op="best", n=3, pipes=False)]
        sc.append(dict(N=3, m=-1 if m == 9 else m, n=[-1, 2, 50][k % 3], sample=[], strat=[], ops=ops))
    sc += random_scenarios(ctx, ctx.pick(300, 3000))
    rng = ctx.rng("large")
    for k in range(ctx.pick(8, 60)):   # many evaluations, more models than any default number
        nm = rng.choice([1, 2, 3])
        ops = [dict(op="save", s=[rng.randint(-300, 300)] + [rng.randint(-2, 2) for _ in range(nm - 1)] if rng.random() > 0.05 else [NEG] * nm)
               for _ in range(rng.choice([110, 130, 240]))]
        ops += [dict(op="best", n=n, pipes=p) for n in (1, 5, 20, 101, 110, 500) for p in (True, False)]
        sc.append(dict(N=4, m=[-1, 105, 25, 60, 210, 1, -1, 12][k % 8], n=[-1, 2][k % 2], sample=[], strat=[], dims=1, seed=rng.randint(0, 10**6), ops=ops))
    for k in range(ctx.pick(10, 80)):    # a part of many rows, of a size that is no round part of them
        N, n = [(100, 29), (100, 57), (100, 58), (50, 29), (200, 58), (200, 115), (25, 7), (140, 41), (300, 57), (90, 31)][k % 10]
        strat = [j % 2 for j in range(N)]
        rng.shuffle(strat)
        sc.append(dict(N=N, m=-1, n=n, sample=[], strat=strat if k % 3 else [], dims=rng.choice([1, 2]), seed=rng.randint(0, 10**6),
                       ops=[dict(op="save", s=[rng.randint(-3, 3)]) for _ in range(3)]))
    for k in range(ctx.pick(60, 600)):    # classes of any sizes, any number of rows to keep
        sizes = [rng.choice([1, 1, 2, 3, 7, 20]) for _ in range(rng.randint(1, 5))]
        strat = [c for c, z in enumerate(sizes) for _ in range(z)]
        rng.shuffle(strat)
        N = len(strat)
        n = rng.choice([-1, N, N + 1, max(1, N - 1), max(1, N - 2), 1, 2, rng.randint(1, N)])
        sc.append(dict(N=N, m=rng.choice([-1, 1, 2]), n=n, sample=[], strat=strat, dims=rng.choice([1, 2]), seed=rng.randint(0, 10**6),
                       ops=[dict(op="save", s=[rng.randint(-3, 3)]) for _ in range(3)]))
    ctx.validate("LibraryTrace", ctx.drive(scenario, sc))


vlib.main("C09", body)
