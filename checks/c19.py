"""C19: search-space parsing offers exactly the configured choices; merging is a union."""
import vlib

POOL = ["A", "B", "Pca", "Scale", "Svc", "Nb", "Tree", "Reg"]


def classes():
    """Operators of every type, with different metaclasses."""
    import abc
    from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin, TransformerMixin
    from sklearn.utils.metaestimators import available_if

    class Base(BaseEstimator):
        def __init__(self, p=None, q=None, s=None, t=None, u=None, threshold=None, h0=None, h1=None, h2=None, h3=None, h4=None, h5=None, h6=None,
                     h7=None, h8=None, h9=None, h10=None, h11=None):
            self.p, self.q, self.s, self.t, self.u, self.threshold = p, q, s, t, u, threshold
            self.h0, self.h1, self.h2, self.h3, self.h4, self.h5 = h0, h1, h2, h3, h4, h5
            self.h6, self.h7, self.h8, self.h9, self.h10, self.h11 = h6, h7, h8, h9, h10, h11

        def fit(self, x, y=None):
            return self

    class Meta(type):
        pass

    class A(TransformerMixin, Base):
        pass

    class B(ClassifierMixin, Base):
        def predict_proba(self, x):
            return None

    class Pca(TransformerMixin, Base, metaclass=abc.ABCMeta):
        pass

    class Scale(Base, TransformerMixin):
        pass

    class Svc(ClassifierMixin, Base):
        pass

    class Nb(Base, ClassifierMixin, metaclass=abc.ABCMeta):
        def predict_proba(self, x):
            return None

    class Tree(ClassifierMixin, Base, metaclass=Meta):
        @available_if(lambda self: self.threshold == "soft")
        def predict_proba(self, x):
            return None

    class Reg(RegressorMixin, Base):
        pass
    kinds = dict(A="data", B="probabilities", Pca="data", Scale="data", Svc="labels-only", Nb="probabilities", Tree="labels-only", Reg="regressor")
    return {c.__name__: c for c in (A, B, Pca, Scale, Svc, Nb, Tree, Reg)}, kinds


def enc(config, kinds):
    from gdrive import val
    shared = {"_": []}
    ops = {"_": dict(kind="", hps={"_": []}, uses=[])}
    for k, v in config.items():
        if isinstance(k, str):
            shared[k] = [val(x) for x in v]
        elif isinstance(k, type):
            hps = {"_": []}
            uses = []
            for n, vs in v.items():
                if isinstance(vs, list) and not vs:
                    uses.append(n)
                else:
                    hps[n] = [val(x) for x in vs]
            ops[k.__name__] = dict(kind=kinds.get(k.__name__, "none"), hps=hps, uses=uses)
    return dict(shared=shared, ops=ops)


def build(entries, C, rnd):
    """entries: [(t, name, {hp: values}, uses, values)] -> configuration dictionary."""
    config = {}
    for e in entries:
        if e["t"] == "shared":
            config[e["n"]] = list(e["v"])
        else:
            hp = list(e["hps"].items()) + [(u, []) for u in e["u"]]
            rnd.shuffle(hp)
            config[C[e["n"]]] = {k: (v if k in e["hps"] else []) for k, v in hp}
    return config


def snapshot(config):
    import copy
    import numpy as np

    def freeze(v):
        if isinstance(v, dict):
            return ("d", tuple((str(k), freeze(w)) for k, w in v.items()))
        return (type(v).__name__, repr(v.tolist() if isinstance(v, np.ndarray) else v))
    return tuple((str(k), freeze(v)) for k, v in config.items())


def parsed(config):
    from gdrive import val
    from gama.configuration.parser import pset_from_config
    pset, _ = pset_from_config(config)
    out = []
    for kind in ("data", "prediction"):
        for p in pset.get(kind, []):
            slots = []
            for s in p.input:
                own = "." in s
                slots.append(dict(src="own" if own else "shared", n=s.split(".")[-1], v=[val(t.value) for t in pset.get(s, [])]))
            out.append(dict(name=p.identifier.__name__, kind=p.output, slots=slots))
    return out


def scenario(sc):
    import random
    import numpy as np
    import gdrive as g
    from gama.configuration.parser import merge_configurations
    C, kinds = classes()
    rnd = random.Random(sc["seed"])
    evs = []

    def parse(config, valid=True):
        before = snapshot(config)
        ev = dict(op="parse", valid=valid, config=enc(config, kinds), raised="", offers=[], same=True)
        try:
            ev["offers"] = parsed(config)
        except Exception as e:
            ev["raised"] = type(e).__name__
        ev["same"] = snapshot(config) == before
        evs.append(ev)

    configs = [build(e, C, rnd) for e in sc["configs"]]
    if sc["what"] == "reject":
        config = configs[0]
        bad = dict(int=3, none=None, tuple=("a", "b"), instance=C["B"](), nomixin=type("Plain", (), {}), builtin=dict, func=len)[sc["bad"]]
        items = list(config.items())
        items.insert(rnd.randint(0, len(items)), (bad, {} if rnd.random() < 0.5 else {"p": [1]}))
        parse(dict(items), valid=False)
        return dict(ev=evs, scenario=str(sc)[:700])
    if sc["what"] == "kinds":
        config = configs[0]
        before = snapshot(config)
        from gama.utilities.metrics import Metric
        scoring = tuple(Metric(m) if sc["objects"] else m for m in sc["scoring"])
        scoring = scoring[0] if len(scoring) == 1 else scoring
        ev = dict(op="kinds", config=enc(config, kinds), needed=sc["needed"], raised="", seen=[], same=True)
        try:
            def look(search, ops, start):
                seen = {i.main_node._primitive.identifier.__name__ for i in start}
                for _ in range(300):
                    seen.add(ops.individual().main_node._primitive.identifier.__name__)
                return sorted(seen)
            ev["seen"] = g.with_operations(look, config, scoring=scoring, regularize_length=sc["reg"])
        except Exception as e:
            ev["raised"] = type(e).__name__ + str(e)[:80]
        ev["same"] = snapshot(config) == before
        evs.append(ev)
        return dict(ev=evs, scenario=str(sc)[:700])
    for c in configs:
        parse(c)
    acc = configs[0]
    for c in configs[1:]:
        before = snapshot(acc), snapshot(c)
        ev = dict(op="merge", a=enc(acc, kinds), b=enc(c, kinds), merged=dict(shared={}, ops={}), raised="", same=True)
        evs.append(ev)
        try:
            m = merge_configurations(acc, c)
            ev["merged"] = enc(m, kinds)
        except Exception as e:
            ev["raised"] = type(e).__name__ + str(e)[:80]
            break
        ev["same"] = (snapshot(acc), snapshot(c)) == before
        parse(m)
        acc = m
    return dict(ev=evs, scenario=str(sc)[:700])


VALUES = [lambda r: sorted(r.sample(range(0, 9), r.randint(1, 4))), lambda r: r.sample(["a", "b", "c", "gini", "entropy", "x y"], r.randint(1, 4)),
          lambda r: [True, False][:r.randint(1, 2)], lambda r: [None] + r.sample([0.25, 0.5, 1.5, 1e-3], r.randint(0, 3)), lambda r: range(1, r.randint(2, 6)),
          lambda r: __import__("numpy").arange(0.1, 0.1 * r.randint(2, 6), 0.1), lambda r: ["sqrt", None, 0.5][:r.randint(1, 3)],
          lambda r: {"f": 1, "g": 2} if r.random() < 0.5 else {"g": None, "k": None}]


def rand_entries(r, kind_of, ops=None, needs=(), own=0.0):
    """A configuration: every shared name in use is declared somewhere; entries in random order."""
    shared = {n: VALUES[k](r) for n, k in (("s", 0), ("t", 1), ("u", 3)) if r.random() < 0.6}
    out = [dict(t="shared", n=n, v=list(v)) for n, v in shared.items()]
    names = ops or r.sample(POOL, r.randint(1, 6))
    for o in list(names) + list(needs):
        hps = {n: VALUES[kind_of[n]](r) for n in ("p", "q", "threshold") if r.random() < 0.6}
        uses = [u for u in shared if r.random() < 0.4]
        if r.random() < own:        # values of its own for a name that others share
            hps.update({n: VALUES[k](r) for n, k in (("s", 0), ("t", 1)) if n not in uses and r.random() < 0.5})
        out.append(dict(t="op", n=o, hps=hps, u=uses))
    r.shuffle(out)
    return out


def body(ctx):
    rng = ctx.rng("space")
    scs = []
    paths = ctx.model("MC_SearchSpace")
    for p in rng.sample(paths, min(len(paths), ctx.pick(2500, 40000))):
        two = [[], []]
        for e in p:
            vs = sorted(e["v"])
            two[e["w"] - 1].append(dict(t=e["t"], n=e["n"], v=vs, u=sorted(e["u"]), hps={e["p"]: vs} if e["p"] else {}))
        for k in (0, 1):        # a hyperparameter declared shared needs its list
            used = {u for e in two[k] for u in e["u"]} - {e["n"] for e in two[k] if e["t"] == "shared"}
            two[k] += [dict(t="shared", n=u, v=[7], u=[], hps={}) for u in used]
        scs.append(dict(what="merge", configs=two, seed=rng.randint(0, 10 ** 6)))
    for _ in range(ctx.pick(500, 10000)):
        n = rng.randint(1, 4)       # ranges and arrays become lists when merged, and lists merge with lists only
        kind_of = {h: rng.choice([k for k in range(len(VALUES)) if n < 3 or k not in (4, 5)]) for h in ("p", "q", "threshold")}
        scs.append(dict(what="merge", configs=[rand_entries(rng, kind_of, own=0.5 if n == 1 else 0.0) for _ in range(n)], seed=rng.randint(0, 10 ** 6)))
    # long lists of values, alone and merged
    for k in range(ctx.pick(20, 200)):
        kind = rng.choice(["int", "str", "float"])

        def big(r):
            lo = r.randint(0, 300)
            v = [lo + j for j in range(r.choice([60, 130, 260]))]
            r.shuffle(v)
            return v if kind == "int" else ["v%d" % j for j in v] if kind == "str" else [j / 8 for j in v]
        cs = []
        for _ in range(rng.randint(1, 3)):
            e = rand_entries(rng, {h: 0 for h in ("p", "q", "threshold")})
            for x in e:
                if x["t"] == "shared":
                    x["v"] = big(rng)
                else:
                    x["hps"] = {n: big(rng) for n in x["hps"]}
            cs.append(e)
        scs.append(dict(what="merge", configs=cs, seed=rng.randint(0, 10 ** 6)))
    # operators with many hyperparameters, own and shared
    for k in range(ctx.pick(30, 300)):
        cs = []
        for _ in range(rng.randint(1, 3)):
            e = rand_entries(rng, {h: 0 for h in ("p", "q", "threshold")})
            for x in e:
                if x["t"] == "op":
                    x["hps"].update({"h%d" % j: sorted(rng.sample(range(9), rng.randint(1, 3))) for j in rng.sample(range(12), rng.randint(5, 12))})
            cs.append(e)
        scs.append(dict(what="merge", configs=cs, seed=rng.randint(0, 10 ** 6)))
    for k in range(ctx.pick(60, 600)):
        kind_of = {n: rng.randrange(len(VALUES)) for n in ("p", "q", "threshold")}
        bad = ["int", "none", "tuple", "instance", "nomixin", "builtin", "func"]
        scs.append(dict(what="reject", bad=bad[k % len(bad)], configs=[rand_entries(rng, kind_of)], seed=rng.randint(0, 10 ** 6)))
    metrics = dict(accuracy=False, f1_macro=False, precision_weighted=False, recall_micro=False, neg_log_loss=True, roc_auc=True)
    for k in range(ctx.pick(60, 600)):
        kind_of = {n: rng.randrange(len(VALUES)) for n in ("p", "q", "threshold")}
        ops = rng.sample(["A", "Svc", "Tree", "Nb"], rng.randint(0, 4))
        chosen = [list(metrics)[k % len(metrics)]] + rng.sample(list(metrics), rng.choice([0, 0, 1, 2]))
        chosen = list(dict.fromkeys(chosen))
        scs.append(dict(what="kinds", configs=[rand_entries(rng, kind_of, ops, ["B"])], scoring=chosen, needed=any(metrics[m] for m in chosen),
                        objects=rng.random() < 0.3, reg=rng.random() < 0.5, seed=rng.randint(0, 10 ** 6)))
    ctx.validate("SearchSpaceTrace", ctx.drive(scenario, scs))


vlib.main("C19", body)
