"""C04: random search under every completion order."""
import random
import gsim
from gsim import SIM
import gdrive as g
import stopit
import vlib
from gama.search_methods.random_search import RandomSearch, random_search
from sklearn.naive_bayes import BernoulliNB, GaussianNB
from sklearn.preprocessing import MinMaxScaler, Binarizer

SPACE = {GaussianNB: {}, BernoulliNB: {"alpha": [0.1, 1.0]}, MinMaxScaler: {}, Binarizer: {"threshold": [0.0, 0.5]}}


def one(ops, sc):
    ev, keep = [], {}
    obj = RandomSearch()
    for part in sc["parts"]:
        SIM.reset(part["sched"])
        SIM.ids = keep     # identities are kept over the searches of one object
        starts = [ops.individual() for _ in range(part["start"])]
        direct = part["max"] > 0
        out = []
        output = lambda: [SIM.num(x) for x in (out if direct else obj.output)]
        ev.append(dict(op="begin", start=[SIM.num(s) for s in starts], max=part["max"]))

        def on_submit(fut):
            ind = gsim.find_individual(fut)
            ev.append(dict(op="submit", id=SIM.num(ind), origin=str(ind.meta.get("origin", ""))))

        def on_complete(fut):
            ev.append(dict(op="complete", id=SIM.num(gsim.find_individual(fut)), out=SIM.current["out"]))

        SIM.on_submit, SIM.on_complete = on_submit, on_complete
        SIM.on_wait = lambda: ev.append(dict(op="wait", output=output()))
        ops.evaluate = gsim.sim_evaluate
        how, ret = "returned", []
        try:
            if direct:
                ret = [SIM.num(x) for x in random_search(ops, out, starts, max_evaluations=part["max"])]
            else:
                obj.search(ops, starts)
        except stopit.TimeoutException:
            how = "timeout"
        except KeyboardInterrupt:
            how = "kbd"
        except gsim.Stuck:
            how = "stuck"
        except Exception as e:
            how = "raised " + type(e).__name__ + " " + str(e)[:60]
        last = part["sched"][-1] if part["sched"] else {}
        ev.append(dict(op="end", how=how, expect="returned" if direct else last.get("int", "timeout"), output=output(), ret=ret))
    return dict(ev=ev, scenario=str(sc)[:400])


def scenario(batch):
    random.seed(batch["seed"])
    return g.with_operations(lambda search, ops, start: [one(ops, sc) for sc in batch["items"]], SPACE, n_jobs=batch["workers"])


def body(ctx):
    rng = ctx.rng("p")
    items = []
    for gr in (dict(Workers=2, NStart=3), dict(Workers=1, NStart=1), dict(Workers=3, NStart=3, MaxRes=2), dict(Workers=2, NStart=2, MaxRes=3)):
        paths = ctx.model("MC_RandomSearch", consts=gr)
        M = gr.get("MaxRes", 0)
        for p in rng.sample(paths, min(len(paths), ctx.pick(1300, 20000))):
            done = sum(1 for s in p if s["out"] != "exc")
            if M and done < M:      # let the search reach its number
                p = p + [dict(k=1, out="ok", v=[1])] * (M - done)
            items.append((gr["Workers"], dict(parts=[dict(sched=p, start=gr["NStart"], max=M)])))
    for _ in range(ctx.pick(700, 8000)):
        parts = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            n = rng.randint(1, 20)
            sched = [dict(k=rng.randint(1, 4), out=rng.choice(["ok", "ok", "err", "exc"]), v=[rng.randint(0, 5)]) for _ in range(n)]
            done = sum(1 for s in sched if s["out"] != "exc")
            if rng.random() < 0.4 and sched[-1]["out"] != "exc":
                parts.append(dict(sched=sched, start=rng.randint(1, 6), max=done))
            else:
                parts.append(dict(sched=sched + [dict(int=rng.choice(["timeout", "kbd"]))], start=rng.randint(1, 6), max=0))
        items.append((rng.randint(1, 4), dict(parts=parts)))
    for _ in range(ctx.pick(30, 300)):       # long searches, many candidates
        n = rng.randint(110, 300)
        sched = [dict(k=rng.randint(1, 4), out=rng.choice(["ok", "ok", "ok", "err", "exc"]), v=[rng.randint(0, 1000)]) for _ in range(n)] + [dict(int=rng.choice(["timeout", "kbd"]))]
        items.append((rng.randint(1, 4), dict(parts=[dict(sched=sched, start=rng.choice([1, 50, 150]), max=0)])))
    batches = []
    for w in (1, 2, 3, 4):
        sel = [x for v, x in items if v == w]
        for k in range(0, len(sel), 50):
            batches.append(dict(workers=w, items=sel[k:k + 50], seed=rng.randint(0, 10**6)))
    ctx.validate("RandomSearchTrace", ctx.drive(scenario, batches, each_timeout=120))


vlib.main("C04", body)
