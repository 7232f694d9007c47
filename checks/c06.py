"""C06: creation, mutation and crossover stay inside the search space and make one edit."""
import random
import vlib
import gdrive as g
from gama.configuration.parser import pset_from_config
from gama.configuration.classification import clf_config
from gama.configuration.regression import reg_config
from gama.configuration.testconfiguration import clf_config as test_config
from sklearn.naive_bayes import BernoulliNB, GaussianNB
from sklearn.tree import DecisionTreeClassifier
from sklearn.preprocessing import MinMaxScaler, Binarizer, StandardScaler, Normalizer

TINY = {"alpha": [0.1, 1.0], GaussianNB: {}, BernoulliNB: {"alpha": []}, MinMaxScaler: {},
        Binarizer: {"threshold": [0.0, 0.5]}}
SPACES = {
    "tiny": TINY,
    # exactly one replaceable step or slot, shared slots in predictor and preprocessor
    "one_slot": {GaussianNB: {}, Binarizer: {"threshold": [0.0, 0.5, 1.0]}},
    "one_pred": {BernoulliNB: {"alpha": [0.1, 1.0, 2.0], "fit_prior": [True]}, MinMaxScaler: {}, StandardScaler: {}},
    "shared": {"threshold": [0.0, 1.0, 2.0], Binarizer: {"threshold": []}, DecisionTreeClassifier:
               {"max_depth": range(1, 4), "min_samples_split": [2], "criterion": ["gini", "entropy"]}, GaussianNB: {},
               Normalizer: {"norm": ["l1", "l2", "max"]}},
    "no_prep": {GaussianNB: {}, BernoulliNB: {"alpha": [0.1, 1.0], "fit_prior": [True, False]}},
    "many": {BernoulliNB: {"alpha": [k / 4 for k in range(40)]}, GaussianNB: {}, Binarizer: {"threshold": [k / 8 for k in range(24)]}},
    "wide": {GaussianNB: {}, MinMaxScaler: {}},
    "test": test_config, "clf": clf_config, "reg": reg_config,
}
MUTS = ["mut_shrink", "mut_insert", "mut_replace_primitive", "mut_replace_terminal"]


class Recorder:
    def __init__(self):
        self.ev, self.ids, self.keep = [], {}, []

    def num(self, key):
        return self.ids.setdefault(str(key), len(self.ids) + 1)

    def watch(self, ind):
        self.keep.append((ind, g.enc_ind(ind)))
        self.num(ind._id)
        return ind

    def made(self, fn, parents, allowed, by_meta=None):
        """Call fn; parents may be unknown beforehand (by_meta: candidates looked up through meta)."""
        cand = parents if by_meta is None else by_meta
        pre = {str(p._id): (g.enc_ind(p), fitstr(p)) for p in cand}
        try:
            child = fn()
        except Exception as e:
            self.ev.append(dict(op="made", raised=type(e).__name__ + str(e)[:80]))
            return None
        named = list(child.meta.get("parents", []))
        if by_meta is not None:
            parents = [p for n in named for p in cand if p._id == n]
        e = dict(op="made", raised="", child=g.enc_ind(child), origin=str(child.meta.get("origin", "")),
                 allowed=allowed, pre=[pre[str(p._id)][0] for p in parents], post=[g.enc_ind(p) for p in parents],
                 prefit=[pre[str(p._id)][1] for p in parents], postfit=[fitstr(p) for p in parents],
                 pids=[self.num(p._id) for p in parents], fit="none" if child.fitness is None else "some",
                 named=[self.num(n) for n in named])
        known = str(child._id) in self.ids
        e["cid"] = self.num(child._id)
        if known and e["cid"] not in e["pids"]:
            e["pids"] = e["pids"] + [e["cid"]]  # an identity handed out before
        self.ev.append(e)
        return self.watch(child)

    def unchanged(self):
        self.ev.append(dict(op="unchanged", before=[b for _, b in self.keep], after=[g.enc_ind(x) for x, _ in self.keep]))
        self.keep = self.keep[-40:]


def fitstr(ind):
    return "none" if ind.fitness is None else str(ind.fitness.values)


def text(enc):
    """Pipeline text of an encoded pipeline of the tiny space."""
    s = "data"
    for step in reversed(enc):
        h = "".join(f", {k}={v.split(':', 1)[1]}" for k, v in step["h"])
        s = f"{step['p']}({s}{h})"
    return s


def scenario(sc):
    random.seed(sc["seed"])
    space = SPACES[sc["space"]]
    rec = Recorder()
    kw = dict(regression=sc["space"] == "reg", max_pipeline_length=sc["max"] or None)
    if sc["space"] == "no_prep" and not sc["max"]:
        limit = 1
    else:
        limit = sc["max"]

    def run(search, ops, start):
        pset, _ = pset_from_config(space)
        if sc["kind"] == "create":
            for _ in range(sc["n"]):
                rec.made(lambda: ops.individual(), [], ["new"])
            rec.keep = []
        elif sc["kind"] == "exhaust":
            for enc in sc["inds"]:
                a = rec.watch(g.Individual.from_string(text(enc), pset))
                a.fitness = g.Fitness((1.0,), 0, 0, 0)
                for _ in range(sc["n"]):
                    rec.made(lambda: ops.mutate(a), [a], MUTS)
                for enc2 in sc["partners"]:
                    b = rec.watch(g.Individual.from_string(text(enc2), pset))
                    if matable(a, b):
                        rec.made(lambda: ops.mate(a, b), [a, b], ["cx"])
            rec.unchanged()
        else:
            pop = [rec.watch(s) for s in start[:6]]
            if sc["kind"] == "chain":
                for k in range(sc["n"]):
                    x = random.random()
                    if x < 0.1:
                        c = rec.made(lambda: ops.individual(), [], ["new"])
                    elif x < 0.5:
                        a, b = random.sample(pop, 2)
                        c = rec.made(lambda: ops.mate(a, b), [a, b], ["cx"]) if matable(a, b) else None
                    else:
                        a = random.choice(pop)
                        c = rec.made(lambda: ops.mutate(a), [a], MUTS)
                    if c is not None:
                        if sc["seen"]:      # evaluated pipelines are not proposed again: several attempts
                            ops.wait_next(g.Feed(g.Done(g.evaluation(c.copy_as_new(), (0.5,)))))
                        pop.append(c)
                        pop = pop[-12:]
                    if k % 20 == 19:
                        rec.unchanged()
            else:  # offspring as the evolutionary search asks for it
                for k in range(sc["n"]):
                    for p in pop:
                        if p.fitness is None:
                            p.fitness = g.Fitness((random.random(), -len(p.primitives)), 0, 0, 0)
                    c = rec.made(lambda: ops.create(pop, 1)[0], [], MUTS + ["cx", "new"], by_meta=pop)
                    if c is not None:
                        if sc["seen"]:
                            ops.wait_next(g.Feed(g.Done(g.evaluation(c.copy_as_new(), (0.5,)))))
                        pop = (pop + [c])[-10:]
            rec.unchanged()

    g.with_operations(run, space, **kw)
    return dict(space=g.enc_space(space), max=limit, complete=sc.get("complete", 0), ev=rec.ev,
                scenario=f"{sc['kind']} {sc['space']} max={sc['max']} seed={sc['seed']}")


def matable(a, b):
    """Some crossover exists: both have preprocessing, or they differ in a common hyperparameter."""
    ta, tb = [(t.identifier, t.value) for n in a.primitives for t in n._terminals], \
             [(t.identifier, t.value) for n in b.primitives for t in n._terminals]
    return (len(a.primitives) > 1 and len(b.primitives) > 1) or any(i == k and v != w for i, v in ta for k, w in tb)


def body(ctx):
    rng = ctx.rng("p")
    paths = ctx.model("MC_Pipelines", maximal=False)
    sc = []
    # every pipeline of the tiny space: mutate it many times, mate it with every other
    L = ctx.pick(3, 4)
    partners = paths if not ctx.thorough else rng.sample(paths, 60)
    for p in paths:
        for part in chunks(partners, 40):
            sc.append(dict(kind="exhaust", space="tiny", max=L, inds=[p], partners=part, n=30, seed=rng.randint(0, 10**6)))
    for p in rng.sample(paths, min(len(paths), ctx.pick(12, 80))):   # parents longer than, or of, the limit
        for lim in (1, 2):
            sc.append(dict(kind="exhaust", space="tiny", max=lim, inds=[p], partners=[], n=20, seed=rng.randint(0, 10**6)))
    sc.append(dict(kind="create", space="tiny", max=3, complete=1, n=6000, seed=rng.randint(0, 10**6)))
    sc.append(dict(kind="create", space="tiny", max=2, complete=1, n=2000, seed=rng.randint(0, 10**6)))
    sc.append(dict(kind="create", space="tiny", max=1, complete=1, n=500, seed=rng.randint(0, 10**6)))
    sc.append(dict(kind="create", space="one_slot", max=3, complete=1, n=2500, seed=rng.randint(0, 10**6)))
    sc.append(dict(kind="create", space="many", max=1, complete=1, n=2000, seed=rng.randint(0, 10**6)))
    sc.append(dict(kind="create", space="wide", max=7, complete=1, n=300, seed=rng.randint(0, 10**6)))
    sc.append(dict(kind="create", space="no_prep", max=0, complete=0, n=300, seed=rng.randint(0, 10**6)))
    for s in SPACES:
        for lim in ([0] if s == "no_prep" else [0, 1, 2, 3, 4, 11]):
            if s in ("one_slot", "wide") and lim == 1:
                continue   # a single pipeline: nothing to vary
            for k in range(ctx.pick(4, 24) if lim == 11 else ctx.pick(10, 60)):
                for kind in ("chain", "offspring"):
                    sc.append(dict(kind=kind, space=s, max=lim, n=60, seen=k % 2 == 1, seed=rng.randint(0, 10**6)))
    runs = ctx.drive(scenario, sc, each_timeout=60)
    for r in runs:   # distinct creations suffice for the validator
        if r.get("complete"):
            seen, keep = set(), []
            for e in r["ev"]:
                k = str(e.get("child"))
                if k not in seen:
                    seen.add(k)
                    keep.append(e)
            r["ev"] = keep
    ctx.validate("PipelinesTrace", runs)


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


vlib.main("C06", body)
