"""C05: asynchronous successive halving under every completion order."""
import random
import gsim
from gsim import SIM
import gdrive as g
import stopit
import vlib
from gama.search_methods.asha import AsynchronousSuccessiveHalving, asha
from sklearn.naive_bayes import BernoulliNB, GaussianNB
from sklearn.preprocessing import MinMaxScaler, Binarizer

SPACE = {GaussianNB: {}, BernoulliNB: {"alpha": [0.1, 1.0]}, MinMaxScaler: {}, Binarizer: {"threshold": [0.0, 0.5]}}
LOW = -1000000


def one(ops, sc):
    ev = []
    c = sc["c"]
    SIM.reset(sc["sched"])
    starts = [ops.individual() for _ in range(sc["start"])]
    ids = [SIM.num(s) for s in starts]
    res = (lambda k: k) if c["scale"] == 1 else (lambda k: k / c["scale"])
    conf = dict(reduction_factor=c["eta"], minimum_resource=res(c["min"]), maximum_resource=res(c["max"]),
                minimum_early_stopping_rate=c["skip"])
    interrupted = [False]

    def on_submit(fut):
        ev.append(dict(op="submit", id=SIM.num(gsim.find_individual(fut))))

    def on_complete(fut):
        s, r = SIM.current, fut.result
        ind = gsim.find_individual(fut)
        sub = SIM.seen.get("subsample")
        ev.append(dict(op="complete", id=SIM.num(ind), result=r is not None, ok=s["out"] == "ok",
                       v=int(round(s["v"][0] * sc.get("unit", 1))) if s["out"] == "ok" else LOW,
                       rung=int(r.individual.meta.get("rung", -1)) if r is not None else -1,
                       res=-1 if sub is None else int(round(sub * c["scale"])),
                       full=r is not None and r.error is None))

    fresh = type(ops).individual
    count = [0]

    def individual(*a, **k):
        count[0] += 1
        if count[0] == sc.get("int_new", 0):
            interrupted[0] = True
            raise stopit.TimeoutException()
        return fresh(ops, *a, **k)

    ops.individual = individual
    SIM.on_submit, SIM.on_complete = on_submit, on_complete
    ops.evaluate = gsim.sim_evaluate
    how, output = "returned", []
    obj = AsynchronousSuccessiveHalving(**conf)
    try:
        if sc["maxfull"]:
            output = asha(ops, list(starts), max_full_evaluations=sc["maxfull"], **conf)
        else:
            obj.search(ops, list(starts))
            output = obj.output
    except stopit.TimeoutException:
        how = "timeout"
    except KeyboardInterrupt:
        how = "kbd"
    except gsim.Stuck:
        how = "stuck"
    except Exception as e:
        how = "raised " + type(e).__name__ + " " + str(e)[:60]
    finally:
        del ops.individual
    interrupted = interrupted[0] or SIM.interrupted
    ev.append(dict(op="end", how=how, expect="returned", output=[SIM.num(x) for x in output], interrupted=bool(interrupted)))
    return dict(c={k: c[k] for k in ("eta", "min", "max", "skip")}, start=ids, maxfull=sc["maxfull"], ev=ev, scenario=str(sc)[:400])


def scenario(batch):
    random.seed(batch["seed"])
    return g.with_operations(lambda search, ops, start: [one(ops, sc) for sc in batch["items"]], SPACE, n_jobs=batch["workers"])


def top(c):
    x, k = c["min"], 0
    while x < c["max"]:
        x, k = x * c["eta"], k + 1
    return k


def body(ctx):
    rng = ctx.rng("p")
    items = []
    grids = [dict(Eta=2, Min=1, Max=4, Skip=0, Workers=2), dict(Eta=2, Min=1, Max=2, Skip=0, Workers=1, MaxLen=8, Vals="{1, 2}"),
             dict(Eta=2, Min=1, Max=8, Skip=1, Workers=1, MaxLen=8, Vals="{1, 2}"),
             dict(Eta=3, Min=2, Max=9, Skip=0, Workers=2, MaxLen=6), dict(Eta=2, Min=3, Max=3, Skip=0, Workers=2, MaxLen=3)]
    for gr in grids:
        paths = ctx.model("MC_Halving", consts=gr, timeout=900)
        for p in rng.sample(paths, min(len(paths), ctx.pick(1500, 20000))):
            for k, s in enumerate(p):   # a second objective (e.g. length) never decides
                if "v" in s:
                    p[k] = dict(s, v=[s["v"][0], rng.randint(-3, 3)])
            items.append((gr["Workers"], dict(c=dict(eta=gr["Eta"], min=gr["Min"], max=gr["Max"], skip=gr["Skip"], scale=1),
                          sched=p + [dict(int=rng.choice(["timeout", "kbd"]))], start=rng.choice([0, 3, 12]), maxfull=0, cut=True)))
    for _ in range(ctx.pick(900, 9000)):
        if rng.random() < 0.5:
            c = dict(eta=rng.choice([2, 3, 4]), min=rng.randint(1, 10), max=rng.randint(10, 120), scale=1)
        else:
            c = dict(eta=rng.choice([2, 3, 4]), min=rng.choice([50, 100, 125, 250, 300]), max=rng.choice([500, 900, 1000]), scale=1000)
        c["skip"] = rng.randint(0, top(c)) if rng.random() < 0.5 else 0
        n = rng.choice([3, 10, 25, 60])
        hi = rng.choice([1, 3, 100])
        pf = rng.choice([0.0, 0.3])
        sched = [dict(k=rng.randint(1, 8), out=rng.choice(["err", "exc"]) if rng.random() < pf else "ok", v=[rng.randint(-hi, hi), rng.randint(-3, 3)])
                 for _ in range(n)]
        maxfull = rng.choice([0, 0, 1, 2])
        sc = dict(c=c, sched=sched + [dict(int=rng.choice(["timeout", "kbd"]))], start=rng.choice([0, 5, 10, 30]), maxfull=maxfull, cut=True)
        if rng.random() < 0.2:
            sc["int_new"] = rng.randint(1, 15)
        items.append((rng.choice([1, 2, 3, 5, 8]), sc))
    for _ in range(ctx.pick(16, 160)):   # long searches: large rungs
        c = dict(eta=rng.choice([2, 3, 4]), min=rng.choice([1, 10]), max=rng.choice([30, 120]), skip=0, scale=1)
        hi = rng.choice([3, 1000, 100000])
        sched = [dict(k=rng.randint(1, 4), out="err" if rng.random() < 0.03 else "ok", v=[rng.randint(-hi, hi), rng.randint(-3, 3)]) for _ in range(rng.choice([200, 320]))]
        items.append((rng.choice([1, 3]), dict(c=c, sched=sched + [dict(int="timeout")], start=rng.choice([0, 50]), maxfull=0, cut=True)))
    for _ in range(ctx.pick(60, 600)):   # run until enough full evaluations
        c = dict(eta=2, min=1, max=rng.choice([2, 4]), skip=0, scale=1)
        sched = [dict(k=rng.randint(1, 3), out="ok", v=[rng.randint(0, 9), rng.randint(-3, 3)]) for _ in range(400)]
        items.append((3, dict(c=c, sched=sched, start=5, maxfull=rng.randint(1, 3), cut=False)))
    for _, sc in items:     # scores that differ by little only
        if rng.random() < 0.3:
            sc["unit"] = rng.choice([1000, 100000, 10000000])
            sc["sched"] = [dict(s, v=[s["v"][0] / sc["unit"], s["v"][1]]) if "v" in s else s for s in sc["sched"]]
    batches = []
    for w in sorted({w for w, _ in items}):
        sel = [x for v, x in items if v == w]
        for k in range(0, len(sel), 40):
            batches.append(dict(workers=w, items=sel[k:k + 40], seed=rng.randint(0, 10**6)))
    ctx.validate("HalvingTrace", ctx.drive(scenario, batches, each_timeout=120))


vlib.main("C05", body)
