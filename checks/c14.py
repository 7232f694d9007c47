"""C14: the output directory."""
import vlib

BAD = {"": {}, "time0": dict(max_total_time=0), "timeneg": dict(max_total_time=-3), "timenone": dict(max_total_time=None), "eval0": dict(max_eval_time=0),
       "evalneg": dict(max_eval_time=-1), "jobs0": dict(n_jobs=0), "jobsneg": dict(n_jobs=-2)}

USER = {"notes.txt": "notes.txt", "evaluations": "evaluations", "model.pkl": "model.pkl", "mine": "mine/", ".own": ".own", "logs": "logs/"}


def snapshot(root, skip=None):
    import os
    out = {}
    for d, dirs, files in os.walk(root):
        if skip and (d == skip or d.startswith(skip + os.sep)):
            dirs[:] = []
            continue
        out[d] = "dir"
        for n in dirs:
            p = os.path.join(d, n)
            if os.path.islink(p):
                out[p] = "link " + os.readlink(p)
        for n in files:
            p = os.path.join(d, n)
            out[p] = "link " + os.readlink(p) if os.path.islink(p) else open(p, "rb").read().hex()[:4000] + str(os.stat(p).st_mtime_ns)
    return out


def diff(a, b, root):
    import os
    # a directory's own entry may appear or vanish only if it is listed
    return sorted(os.path.relpath(p, root) + (" changed" if p in a and p in b else " created" if p in b else " removed")
                  for p in set(a) | set(b) if a.get(p) != b.get(p))


def scenario(sc):
    import os
    import random
    import shutil
    import tempfile
    import gsim
    from gsim import SIM
    import gdrive as g
    from gama.postprocessing import EnsemblePostProcessing, BestFitPostProcessing
    from gama.utilities.generic.async_evaluator import AsyncEvaluator
    import numpy as np
    import recest
    import csv
    root = tempfile.mkdtemp(dir=os.getcwd())
    start_dir = os.getcwd()
    random.seed(sc["seed"])
    np.random.seed(sc["seed"])
    evs = []
    try:
        for n in ("a", "b", "home", "a/sub"):
            os.mkdir(os.path.join(root, n))
        open(os.path.join(root, "a", "keep.log"), "w").write("mine")
        open(os.path.join(root, "b", "evaluations.log"), "w").write("mine")
        os.makedirs(os.path.join(root, "cache"))
        os.makedirs(os.path.join(root, "a", "cache"))
        open(os.path.join(root, "cache", "x.pkl"), "w").write("mine")
        os.chdir(os.path.join(root, "a"))
        os.environ["HOME"] = os.path.join(root, "home")
        given, path = {"relative": ("out", os.path.join(root, "a", "out")), "absolute": (os.path.join(root, "b", "out"),) * 2,
                       "home": ("~/out", os.path.join(root, "home", "out")), "dotted": ("../b/./out", os.path.join(root, "b", "out")),
                       "slash": (os.path.join(root, "b", "out") + "/", os.path.join(root, "b", "out")),
                       "default": (None, None)}[sc["where"]]
        pre = sc["ops"][0]["pre"]
        if path is None:
            pre = "absent"
        if pre == "linked":
            os.mkdir(os.path.join(root, "b", "target"))
            open(os.path.join(root, "b", "target", "x"), "w").write("mine")
            os.symlink(os.path.join(root, "b", "target"), path)
        elif pre == "file":
            open(path, "w").write("mine")
        elif pre != "absent":
            os.mkdir(path)
            if pre == "nonempty":
                open(os.path.join(path, sc["name"]), "w").write("mine")
            elif pre == "hidden":
                open(os.path.join(path, ".hidden"), "w").write("mine")
            elif pre == "subdir":
                os.mkdir(os.path.join(path, "cache"))
        whole = snapshot(root)
        box = {"models": 0, "evaluations": 0}

        def search(s, ops, start):
            s.output = []
            SIM.reset([dict(k=1, out="real") for _ in range(50)])
            if sc["clear"]:
                pass
            with AsyncEvaluator() as pool:
                for ind in start[:sc["n"]]:
                    pool.submit(ops.evaluate, ind)
                for _ in start[:sc["n"]]:
                    fut = ops.wait_next(pool)
                    if fut.result is not None:
                        s.output.append(fut.result.individual)
                        box["models"] += 1
                        box["evaluations"] += 1

        post = EnsemblePostProcessing(ensemble_size=3) if sc["post"] == "ensemble" else BestFitPostProcessing()
        kw = dict(n_jobs=1, max_total_time=600)
        kw.update(BAD[sc["ops"][0]["bad"]])
        gm = None
        for op in sc["ops"]:
            raised = ""
            before = snapshot(root, skip=path)
            try:
                if op["op"] == "construct":
                    gm = g.GamaClassifier(search_space={recest.RecClassifier: {"salt": list(range(400))}}, scoring="accuracy", search=g.ScriptSearch(search),
                                          post_processing=post, store=op["store"], verbosity=50, output_directory=given, **kw)
                    if path is None:
                        path = gm.output_directory
                elif op["op"] == "fit":
                    box["models"] = 0
                    gm.fit(*g.toy_data(), warm_start=None)
                elif op["op"] == "cleanup":
                    gm.cleanup(op["which"])
                elif op["op"] == "user":
                    if os.path.isdir(path):
                        if op["name"].endswith("/"):
                            os.makedirs(os.path.join(path, op["name"]), exist_ok=True)
                        with open(os.path.join(path, op["name"] + ("x" if op["name"].endswith("/") else "")), "w") as fh:
                            fh.write("mine")
                elif op["op"] == "chdir":
                    os.chdir(os.path.join(root, op["to"]))
                    continue
            except Exception as e:
                raised = type(e).__name__
                sc["error"] = str(e)[:200]
            ev = dict(op, raised=raised)
            if op["op"] == "construct":
                ev["pre"] = pre
            after = snapshot(root, skip=path)
            if op["op"] == "construct" and path is None:
                after = snapshot(root)
            ev["outside"] = diff(before, after, root)
            if path and os.path.realpath(path).startswith(os.path.realpath(start_dir)) is False:
                ev["outside"].append("output elsewhere")
            listing(ev, path)
            ev["untouched"] = snapshot(root) == whole if raised else True
            ev["models"] = box["models"] if sc["post"] == "ensemble" else 0
            ev["evaluations"] = box["evaluations"]
            if op["op"] == "cleanup" and op["which"] != "evaluations":
                box["evaluations"] = 0
            if op["op"] == "fit" and sc["ops"][0]["store"] in ("nothing", "models"):
                box["evaluations"] = 0
            evs.append(ev)
            if raised and not (op["op"] == "cleanup" and ev["mine"]):
                break
    finally:
        os.chdir(start_dir)
        shutil.rmtree(root, ignore_errors=True)
    return dict(ev=evs, scenario=str(sc)[:700])


def listing(ev, path):
    import csv
    import os
    ev.update(exists=bool(path) and os.path.isdir(path), logs=[], cache=False, cached=0, other=[], mine=[], evallog=0, gamalog=False)
    if not ev["exists"]:
        return
    for n in sorted(os.listdir(path)):
        p = os.path.join(path, n)
        if n == "cache" and os.path.isdir(p):
            ev["cache"] = True
            ev["cached"] = sum(f.endswith(".pkl") for f in os.listdir(p))
            ev["other"] += [f for f in os.listdir(p) if not f.endswith(".pkl")]
        elif n.endswith(".log"):
            ev["logs"].append(n)
            if n == "evaluations.log":
                with open(p, newline="") as fh:
                    ev["evallog"] = len([row for row in csv.reader(fh, delimiter=";") if row[0] != "id"])
            if n == "gama.log":
                ev["gamalog"] = True
        elif n in USER:
            f = os.path.join(p, "x") if n + "/" in USER.values() else p
            if os.path.isfile(f) and open(f).read() == "mine":
                ev["mine"].append(n)
        else:
            ev["other"].append(n)


def body(ctx):
    rng = ctx.rng("out")
    scs = []
    paths = ctx.model("MC_Output")
    bad = [p for p in paths if len(p) == 1]
    good = [p for p in paths if len(p) > 1]
    rng.shuffle(bad)
    for p in bad[:ctx.pick(200, 10 ** 6)] + rng.sample(good, min(len(good), ctx.pick(130, 3000))):
        scs.append(extra(rng, p))
    for _ in range(ctx.pick(120, 2500)):
        ops = [dict(op="construct", pre=rng.choice(["absent", "empty"]), store=rng.choice(["nothing", "logs", "models", "all"]), bad="")]
        for _ in range(rng.randint(1, 5)):
            ops.append(rng.choice([dict(op="fit"), dict(op="fit"), dict(op="user", name=rng.choice(list(USER.values()))), dict(op="chdir", to=rng.choice(["a", "b", "home", "a/sub"])),
                                   dict(op="cleanup", which=rng.choice(["logs", "evaluations", "all"]))]))
        scs.append(extra(rng, ops))
    rng.shuffle(scs)
    ctx.validate("OutputTrace", ctx.drive(scenario, scs, per=1, each_timeout=60))


def extra(rng, ops):
    return dict(ops=ops, where=rng.choice(["relative", "absolute", "home", "dotted", "slash"] + (["default"] if ops[0]["pre"] == "absent" else [])),
                post=rng.choice(["ensemble", "best"]), n=rng.randint(1, 3), seed=rng.randint(0, 10 ** 6), clear=False,
                name=rng.choice(["x.txt", "gama.log", "cache", "a b"]))


vlib.main("C14", body)
