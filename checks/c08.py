"""C08: Pareto front, NSGA-II selection, parent selection, elimination."""
import random
import vlib

gama = vlib.import_gama()
from gama.utilities.generic.paretofront import ParetoFront
from gama.genetic_programming.nsga2 import nsga2, nsga2_select
from gama.genetic_programming.selection import create_from_population, eliminate_from_pareto
from gama.genetic_programming.components import Individual, Fitness
from gama.configuration.parser import pset_from_config
from sklearn.naive_bayes import BernoulliNB
from sklearn.preprocessing import MinMaxScaler, StandardScaler

PSET, _ = pset_from_config({"alpha": [0.1 * k for k in range(1, 151)], BernoulliNB: {"alpha": []},
                            MinMaxScaler: {}, StandardScaler: {}})
NAME = [t.value for t in PSET["alpha"]]


class Item:
    def __init__(self, k, v):
        self.k, self.v = k, tuple(v)


def ind(k, v):
    i = Individual.from_string(f"BernoulliNB(data, alpha={NAME[k - 1]})", PSET)
    i.fitness = Fitness(tuple(v), 0, 0, 0)
    return i


class Shell:
    """Stand-in for the operator set: records which parents it is asked to vary."""

    def __init__(self, ids):
        self.ids, self.pairs = ids, []

    def mate(self, a, b, *x, **k):
        self.pairs.append([self.ids[id(a)], self.ids[id(b)]])
        return a

    def mutate(self, a, *x, **k):
        self.pairs.append([self.ids[id(a)]])
        return a

    def individual(self, *x, **k):
        self.pairs.append([])
        return None


def front_run(points, mode):
    evs = []
    f = ParetoFront(get_values_fn=(lambda it: it.v) if mode == "objects" else None)
    half = 0
    for rep in range(2):
        for k, v in enumerate(points, 1):
            raised, ret = "", False
            try:
                ret = f.update(Item(k, v) if mode == "objects" else tuple(v))
            except Exception as e:
                raised = type(e).__name__
            evs.append(dict(op="update", v=v, mode=mode, ret=bool(ret), raised=raised,
                            front=[x.k for x in f] if mode == "objects" else [],
                            vals=[] if mode == "objects" else [list(x) for x in f]))
        if rep == 0 and len(points) < 4:
            f.clear()
            evs.append(dict(op="clear", len=len(f)))
        else:
            break
    g = ParetoFront([Item(k, v) for k, v in enumerate(points, 1)], lambda it: it.v)
    evs.append(dict(op="start", pop=points, front=[x.k for x in g]))
    return dict(ev=evs)


def select_run(points, seed, reps):
    random.seed(seed)
    evs = []
    dims = len(points[0])
    pop = [Item(k, v) for k, v in enumerate(points, 1)]
    metrics = [lambda it, m=m: it.v[m] for m in range(dims)]
    for n in range(1, len(points) + 1) if len(points) < 12 else sorted({1, 2, 3, len(points) // 3, len(points) - 2, len(points) - 1, len(points)}):
        raised, sel = "", []
        try:
            sel = [x.k for x in nsga2(pop, n, metrics)]
        except Exception as e:
            raised = type(e).__name__
        evs.append(dict(op="nsga2", pop=points, n=n, sel=sel, raised=raised))
    for what, call in [("nothing to select", lambda: nsga2(pop, 0, metrics)),
                       ("more than available", lambda: nsga2(pop, len(pop) + 1, metrics)),
                       ("pairs of too few", lambda: nsga2_select(pop[:2], 1, metrics))]:
        raised = ""
        try:
            call()
        except Exception as e:
            raised = type(e).__name__
        evs.append(dict(op="reject", what=what, raised=raised))
    if len(points) >= 3:
        raised, pairs = "", []
        try:
            pairs = [[a.k, b.k] for a, b in nsga2_select(pop, reps, metrics)]
        except Exception as e:
            raised = type(e).__name__
        evs.append(dict(op="pairs", pop=points, n=reps, pairs=uniq(pairs, reps), raised=raised))
    inds = [ind(k, v) for k, v in enumerate(points, 1)]
    ids = {id(x): k for k, x in enumerate(inds, 1)}
    if len(points) >= 3:
        for cxpb in (1.0, 0.0):
            sh, raised, out = Shell(ids), "", []
            try:
                out = create_from_population(sh, inds, reps, cxpb=cxpb, mutpb=1 - cxpb)
            except Exception as e:
                raised = type(e).__name__
            evs.append(dict(op="pairs", pop=points, n=reps, pairs=uniq([p for p in sh.pairs if p], reps) if len(out) == reps else [],
                            raised=raised))
    seen = set()
    for _ in range(reps // 2):
        raised, out = "", []
        try:
            out = [ids.get(id(x), 0) for x in eliminate_from_pareto(list(inds), 1)]
        except Exception as e:
            raised = type(e).__name__
        if (raised, tuple(out)) not in seen:
            seen.add((raised, tuple(out)))
            evs.append(dict(op="eliminate", pop=points, out=out, raised=raised))
    return dict(ev=evs)


def uniq(pairs, n):
    """Distinct pairs first, padded with the first so that the count is preserved."""
    if not pairs:
        return []
    u = [list(p) for p in sorted({tuple(p) for p in pairs})]
    return u + [u[0]] * (len(pairs) - len(u))


def scenario(sc):
    if sc["kind"] == "front":
        return front_run(sc["P"], sc["mode"])
    return select_run(sc["P"], sc["seed"], sc["reps"])


def body(ctx):
    rng = ctx.rng("p")
    sc = []
    grids = [dict(Dim=2, Vals="{0, 1, 2}", MaxLen=4), dict(Dim=1, Vals="{0, 1, 2}", MaxLen=4),
             dict(Dim=3, Vals="{0, 1}", MaxLen=4)]
    if ctx.thorough:
        grids += [dict(Dim=2, Vals="{0, 1, 2, 3}", MaxLen=4), dict(Dim=2, Vals="{0, 1}", MaxLen=6),
                  dict(Dim=1, Vals="{0, 1, 2, 3}", MaxLen=6)]
    for g in grids:
        paths = ctx.model("MC_Pareto", consts=g)
        for k, P in enumerate(paths):
            sc.append(dict(kind="front", P=P, mode=["objects", "tuples"][k % 2]))
        for P in rng.sample(paths, min(len(paths), ctx.pick(500, 6000))):
            sc.append(dict(kind="sel", P=P, seed=rng.randint(0, 10**6), reps=12))
    for _ in range(ctx.pick(700, 6000)):
        n, d = rng.randint(3, 9), rng.choice([1, 2, 2, 3, 4, 5])
        style = rng.random()
        if style < 0.5:   # distinct values per objective: crowding fully determined
            cols = [rng.sample(range(0, 40), n) for _ in range(d)]
        elif style < 0.8:  # a real trade-off front plus noise
            base = sorted(rng.sample(range(0, 40), n))
            cols = [base, list(reversed(sorted(rng.sample(range(0, 40), n))))] + [rng.sample(range(40), n) for _ in range(d)]
            cols = cols[:max(2, d)]
        else:
            cols = [[rng.randint(-2, 2) for _ in range(n)] for _ in range(d)]
        P = [list(v) for v in zip(*cols)]
        rng.shuffle(P)
        sc.append(dict(kind="front", P=P, mode=rng.choice(["objects", "tuples"])))
        sc.append(dict(kind="sel", P=P, seed=rng.randint(0, 10**6), reps=40))
    for k in range(ctx.pick(24, 200)):   # large populations: one long front, many ranks, or a bit of both
        n, d = rng.choice([30, 60, 110]), rng.choice([2, 2, 3])
        kind = ["front", "chain", "mixed", "layers"][k % 4]
        a = rng.sample(range(0, 500), n)
        if kind == "front":
            b = [500 - v for v in a]
        elif kind == "chain":
            b = list(a)
        elif kind == "mixed":
            b = rng.sample(range(0, 500), n)
        else:
            b = [10 * (v % 10) + 500 - v for v in a]
        P = [[x, y] + [rng.randint(0, 400) if kind == "mixed" else x] * (d - 2) for x, y in zip(a, b)]
        sc.append(dict(kind="front", P=P[:60], mode=["objects", "tuples"][k // 4 % 2]))
        sc.append(dict(kind="sel", P=P, seed=rng.randint(0, 10**6), reps=30))
    ctx.validate("ParetoTrace", ctx.drive(scenario, sc))


vlib.main("C08", body)
