"""C10: saves interrupted at every executed line (and inside pickling)."""
import os, shutil, sys, tempfile
import vlib

gama = vlib.import_gama()
import numpy as np
import stopit
from gama.utilities.evaluation_library import EvaluationLibrary, Evaluation
from gama.genetic_programming.components import Individual
from gama.configuration.parser import pset_from_config
from sklearn.naive_bayes import GaussianNB

PSET, _ = pset_from_config({GaussianNB: {}})
PSET["data"] = []
NEG, N = -9999, 3
GAMA = os.path.join(os.path.abspath(vlib.REPO), "gama") + os.sep
ARMED = {"n": -1}


class Est:
    """Estimator whose pickling runs Python code, where a timeout may be raised as well."""

    def __init__(self, i):
        self.i = i

    def __getstate__(self):
        if ARMED["n"] == "pickle":
            raise stopit.TimeoutException()
        return {"i": self.i}

    def __setstate__(self, s):
        self.i = s["i"]


def interrupted(fn, k):
    """Run fn, raising the timeout before the k-th executed line of gama code.
    Returns (interrupted?, name of raised exception)."""
    count = [0]
    fired = [False]
    if k == "pickle":
        ARMED["n"] = "pickle"
        try:
            fn()
            return False, ""
        except stopit.TimeoutException:
            return True, "TimeoutException"
        except Exception as e:
            return True, type(e).__name__
        finally:
            ARMED["n"] = -1

    def local(frame, event, arg):
        if event == "line":
            count[0] += 1
            if count[0] == k and not fired[0]:
                fired[0] = True
                raise stopit.TimeoutException()
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(GAMA) else None

    old = sys.gettrace()
    sys.settrace(glob)
    try:
        fn()
        return fired[0], "" if not fired[0] else "swallowed"
    except stopit.TimeoutException:
        return True, "TimeoutException"
    except Exception as e:
        return fired[0], type(e).__name__
    finally:
        sys.settrace(old)


def one(sc, points):
    d = tempfile.mkdtemp()
    cache = os.path.join(d, "cache")
    try:
        lib = EvaluationLibrary(m=sc["m"] if sc["m"] >= 0 else None, n=sc["n"], cache=cache)
        np.random.seed(0)
        ident, evs, fired = {}, [], True
        pts = list(points)
        for op in sc["ops"]:
            i = len(ident) + 1
            ok = op["s"] != 0
            pred = np.array([i * 1000.0 + k for k in range(N)]) if ok else None
            e = Evaluation(Individual.from_string("GaussianNB(data)", PSET), predictions=pred,
                           score=(float(op["s"]) if ok else float("-inf"),),
                           estimators=[Est(i), Est(i)] if ok else None, duration=1, error=None if ok else "boom")
            ident[id(e)] = (i, e)
            was, raised = False, ""
            if op["int"]:
                p = pts.pop(0)
                was, raised = interrupted(lambda: lib.save_evaluation(e), p)
                if not was:
                    fired = False
            else:
                try:
                    lib.save_evaluation(e)
                except Exception as ex:
                    raised = type(ex).__name__
            obs, qraised = [], ""
            try:
                offered = lib.n_best(50)
            except Exception as ex:
                offered, qraised = [], type(ex).__name__
            for x in offered:
                j = ident[id(x)][0]
                try:
                    est, pred = x.estimators, x.predictions
                    complete = (len(est) == 2 and pred is not None and len(pred) in (N, sc["n"] or N)
                                and all(int(v) // 1000 == j for v in pred))
                    ei = est[0].i if est else 0
                    rows = [int(v) % 1000 for v in pred]
                except Exception:
                    complete, ei, rows = False, 0, []
                obs.append(dict(id=j, est=ei, rows=rows, complete=bool(complete),
                                score=[NEG if s == float("-inf") else int(s) for s in x.score]))
            evs.append(dict(op="save", id=i, score=[op["s"] if ok else NEG], ok=ok, int=was, raised=raised,
                            qraised=qraised, obs=obs, ids=[ident[id(x)][0] for x in lib.evaluations]))
        return dict(m=sc["m"], points=[str(p) for p in points], ev=evs), fired
    finally:
        shutil.rmtree(d)


def scenario(sc):
    runs = []
    nint = sum(o["int"] for o in sc["ops"])
    if nint == 1:
        for k in ["pickle"] + list(range(1, 200)):
            run, fired = one(sc, [k])
            runs.append(run)
            if not fired and k != "pickle":
                break
        else:
            raise RuntimeError("too many lines")
    else:
        for pts in sc["pts"]:
            runs.append(one(sc, pts)[0])
    return runs


def body(ctx):
    paths = ctx.model("MC_LibraryCrash")
    rng = ctx.rng("crash")
    single = [p for p in paths if sum(o.get("int", False) for o in p[1:]) == 1]
    multi = [p for p in paths if sum(o.get("int", False) for o in p[1:]) == 2]
    if len(single) > ctx.pick(400, 3000):
        single = rng.sample(single, ctx.pick(400, 3000))
    multi = rng.sample(multi, min(len(multi), 1500))
    sc = [dict(m=p[0]["m"], n=[None, 2][k % 2], ops=p[1:]) for k, p in enumerate(single)]
    sc += [dict(m=-1, n=None, ops=p[1:]) for p in rng.sample(single, min(30, len(single)))]
    for p in multi:
        sc.append(dict(m=p[0]["m"], n=None, ops=p[1:], pts=[[rng.randint(1, 25), rng.randint(1, 25)] for _ in range(6)]))
    runs = ctx.drive(scenario, sc)
    ctx.validate("LibraryCrashTrace", runs)


vlib.main("C10", body)
