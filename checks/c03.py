"""C03: the asynchronous evolutionary search under every completion order."""
import random
import gsim
from gsim import SIM
import gdrive as g
import stopit
import vlib
from gama.search_methods.async_ea import AsyncEA
from sklearn.naive_bayes import BernoulliNB, GaussianNB
from sklearn.preprocessing import MinMaxScaler, Binarizer

SPACE = {"alpha": [k / 10 for k in range(1, 20)], GaussianNB: {}, BernoulliNB: {"alpha": []}, MinMaxScaler: {},
         Binarizer: {"threshold": [k / 10 for k in range(10)]}}


def one(ops, sc):
    """One search by the real AsyncEA with the real operators under one schedule."""
    ev = []
    sched = sc["sched"]
    SIM.reset(sched)
    starts = [ops.individual() for _ in range(sc["start"])]
    ids = [SIM.num(s) for s in starts]
    search = None
    popenc = lambda: [dict(id=SIM.num(x), v=[int(f) for f in x.fitness.values]) for x in search.output]

    def on_submit(fut):
        ind = gsim.find_individual(fut)
        ev.append(dict(op="submit", id=SIM.num(ind), origin=str(ind.meta.get("origin", ""))))

    def on_complete(fut):
        s = SIM.current
        ind = gsim.find_individual(fut)
        ev.append(dict(op="complete", id=SIM.num(ind), out=s["out"], v=s["v"] if s["out"] == "ok" else []))

    def restart():
        again = bool(SIM.current.get("again"))
        ev.append(dict(op="pop", pop=popenc(), again=again))
        return again

    search = AsyncEA(population_size=sc["size"], max_n_evaluations=sc["maxn"] or None, restart_callback=restart)
    SIM.on_submit, SIM.on_complete = on_submit, on_complete
    ops.evaluate = gsim.sim_evaluate
    how = "returned"
    try:
        search.search(ops, list(starts))
    except stopit.TimeoutException:
        how = "timeout"
    except KeyboardInterrupt:
        how = "kbd"
    except gsim.Stuck as e:
        how = "stuck"
    except Exception as e:
        how = "raised " + type(e).__name__ + " " + str(e)[:60]
    expect = "returned" if sc["maxn"] else (sched[-1]["int"] if sched and "int" in sched[-1] else "timeout")
    ev.append(dict(op="end", how=how, expect=expect, pop=popenc()))
    return dict(size=sc["size"], start=ids, maxn=sc["maxn"], ev=ev, scenario=f"workers={sc['workers']} {str(sched)[:300]}")


def scenario(batch):
    random.seed(batch["seed"])
    return g.with_operations(lambda search, ops, start: [one(ops, sc) for sc in batch["items"]], SPACE,
                             n_jobs=batch["workers"], max_pipeline_length=batch["maxlen"])


def body(ctx):
    rng = ctx.rng("p")
    items = []
    grids = [dict(Workers=2, Size=2, NStart=2, Dim=1), dict(Workers=1, Size=1, NStart=1, Dim=1),
             dict(Workers=2, Size=1, NStart=3, Dim=2, MaxN=3), dict(Workers=3, Size=3, NStart=3, Dim=1, MaxRestarts=0)]
    if ctx.thorough:
        grids = [dict(x, Vals="{1, 2}") for x in grids] + [dict(Workers=2, Size=2, NStart=2, Dim=2, MaxN=4, Vals="{1, 2}"),
                 dict(Workers=1, Size=2, NStart=2, Dim=1, MaxN=6, Vals="{1, 2}", Outs='{"err"}')]
    for gr in grids:
        paths = ctx.model("MC_EA", consts=gr, timeout=900)
        for p in rng.sample(paths, min(len(paths), ctx.pick(2500, 20000))):
            items.append(dict(workers=gr["Workers"], size=gr["Size"], start=gr["NStart"], maxn=len(p), sched=p))
    for _ in range(ctx.pick(1200, 12000)):
        n, dim = rng.randint(4, 30), rng.choice([1, 2, 2, 3, 4, 5])
        prest = rng.choice([0, 0, 0.1])
        pfail = rng.choice([0.0, 0.2, 0.6])
        hi = rng.choice([2, 4, 50])
        sched = [dict(k=rng.randint(1, 4), out=rng.choice(["err", "exc"]) if rng.random() < pfail else "ok",
                      v=[rng.randint(0, hi) for _ in range(dim)], again=rng.random() < prest) for _ in range(n)]
        maxn = n
        if rng.random() < 0.4:
            maxn = 0
            sched.append(dict(int=rng.choice(["timeout", "kbd"])))
        items.append(dict(workers=rng.randint(1, 4), size=rng.randint(1, 6), start=rng.randint(1, 8), maxn=maxn, sched=sched))
    for _ in range(ctx.pick(24, 200)):       # long searches, populations as large as the default
        n, dim = rng.randint(100, 240), rng.choice([1, 2])
        prest, pfail, hi = rng.choice([0, 0, 0.02]), rng.choice([0.0, 0.1]), rng.choice([4, 50, 10000])
        sched = [dict(k=rng.randint(1, 4), out=rng.choice(["err", "exc"]) if rng.random() < pfail else "ok",
                      v=[rng.randint(0, hi) for _ in range(dim)], again=rng.random() < prest) for _ in range(n)]
        items.append(dict(workers=rng.randint(1, 4), size=rng.choice([4, 5, 20, 50, 60]), start=rng.choice([5, 50, 70]), maxn=n, sched=sched))
    for dim in (1, 2):       # a population larger than any default
        items.append(dict(workers=2, size=260, start=270, maxn=310, sched=[dict(k=1, out="ok", v=[rng.randint(0, 10000) for _ in range(dim)], again=False) for _ in range(310)]))
        # the worst came first
        items.append(dict(workers=1, size=260, start=270, maxn=300, sched=[dict(k=1, out="ok", v=[k for _ in range(dim)], again=False) for k in range(300)]))
    batches = []
    for w in (1, 2, 3, 4):
        sel = [x for x in items if x["workers"] == w]
        for k in range(0, len(sel), 60):
            batches.append(dict(workers=w, items=sel[k:k + 60], seed=rng.randint(0, 10**6), maxlen=rng.choice([None, 2, 3])))
    ctx.validate("EATrace", ctx.drive(scenario, batches, each_timeout=120))


vlib.main("C03", body)
