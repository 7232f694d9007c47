"""C07: an already evaluated pipeline is not proposed again."""
import itertools
import os
import random
import tempfile
import vlib
import gdrive as g
from gama.genetic_programming.operator_set import OperatorSet
from gama.utilities.evaluation_library import EvaluationLibrary
from gama.configuration.parser import pset_from_config
from sklearn.naive_bayes import BernoulliNB, GaussianNB
from sklearn.preprocessing import Binarizer

SPACE = {GaussianNB: {}, BernoulliNB: {"alpha": [0.1, 1.0], "fit_prior": [True, False]}}
MANY = {BernoulliNB: {"alpha": [float(k) for k in range(1, 1300)]}, Binarizer: {"threshold": [0.5]}}


def mut_scripted(*a):
    pass


def scripted(sc):
    """The operator set with scripted operators, over a real evaluation library."""
    pset, _ = pset_from_config(MANY)
    n = sc.get("length", 0)
    data = "Binarizer(" * n + "data" + ", Binarizer.threshold=0.5)" * n
    make = lambda p: g.Individual.from_string(f"BernoulliNB({data}, BernoulliNB.alpha={float(p)})", pset)
    key = lambda ind: int(ind.main_node._terminals[0].value)
    d = tempfile.mkdtemp(dir=".")
    lib = EvaluationLibrary(m=sc["m"], cache=d)
    script, made, given = [], [0], []

    def nxt():
        made[0] += 1
        return script[min(made[0], len(script)) - 1]

    def mutate(ind, *a, **k):
        given.append([ind.pipeline_str()])
        ind.replace_terminal(0, make(nxt()).terminals[0])
        return mut_scripted

    def mate(a, b, *x, **k):
        given.append([a.pipeline_str(), b.pipeline_str()])
        return make(nxt()), b

    ops = OperatorSet(mutate=mutate, mate=mate, create_from_population=None, create_new=None, compile_=None,
                      eliminate=None, evaluate_callback=lib.save_evaluation, max_retry=sc["retry"],
                      completed_evaluations=lib.lookup)
    ev, parents = [], [make(1290), make(1291)]
    for k, s in enumerate(sc["steps"]):
        if s["op"] == "eval":
            e = g.evaluation(make(s["p"]), (k,), None if s["ok"] else "failed", [0.0], [1])
            if sc["feed"]:
                ops.wait_next(g.Feed(g.Done(e)))
            else:
                lib.save_evaluation(e)
            ev.append(dict(op="eval", p=s["p"]))
            continue
        atts = s["atts"] + sc["tail"][:max(0, sc["retry"] + 2 - len(s["atts"]))]
        script[:], made[0], given[:] = atts, 0, []
        of = [p.pipeline_str() for p in (parents[:1] if s["op"] == "mutate" else parents)]
        raised, got = "", 0
        try:
            got = key(ops.mutate(parents[0]) if s["op"] == "mutate" else ops.mate(*parents))
        except Exception as x:
            raised = type(x).__name__
        ev.append(dict(op="request", atts=atts, retry=sc["retry"], got=got, made=made[0], raised=raised, of=of, given=list(given),
                       after=[p.pipeline_str() for p in parents[:len(of)]]))
    return dict(ev=ev, scenario=str(sc)[:300])


def natural(sc):
    """The real operators inside real fits; evaluations arrive through the search's own channel."""
    random.seed(sc["seed"])
    ev = []
    names = {}

    def key(ind):
        return names.setdefault(ind.pipeline_str(), len(names) + 1)

    def run(search, ops, start):
        pset, _ = pset_from_config(SPACE)
        ev.append(dict(op="run"))
        parent = g.Individual.from_string("GaussianNB(data)", pset)
        opts = [g.Individual.from_string(f"BernoulliNB(data, BernoulliNB.alpha={a}, BernoulliNB.fit_prior={f})", pset)
                for a in (0.1, 1.0) for f in (True, False)]
        parent.fitness = g.Fitness((0.5,), 0, 0, 0)
        for (subset, ok) in sc["fits"].pop(0):
            for j in subset:
                e = g.evaluation(opts[j].copy_as_new(), (float(j),) if ok else (float("-inf"),), None if ok else "failed: x")
                ops.wait_next(g.Feed(g.Done(e)))
                ev.append(dict(op="eval", p=key(opts[j])))
            for _ in range(3):
                raised, got = "", 0
                try:
                    got = key(ops.mutate(parent))
                except Exception as x:
                    raised = type(x).__name__
                ev.append(dict(op="natural", options=[key(o) for o in opts], got=got, raised=raised))
        search.output = [parent]

    d = os.path.abspath(tempfile.mkdtemp(dir="."))
    a = g.GamaClassifier(search_space=SPACE, scoring="accuracy", n_jobs=1, max_total_time=600, store="all", verbosity=50,
                         search=g.ScriptSearch(run), post_processing=g.NoPost(), output_directory=d)
    for _ in range(len(sc["fits"])):
        a.fit(*g.toy_data())
    return dict(ev=ev, scenario=str(sc)[:300])


def scenario(sc):
    return scripted(sc) if sc["kind"] == "scripted" else natural(sc)


def body(ctx):
    rng = ctx.rng("p")
    sc = []
    for R in (1, 2, 3):
        paths = ctx.model("MC_Offspring", consts=dict(Retry=R))
        paths = [p for p in paths if any(s["op"] != "eval" for s in p)]
        for p in rng.sample(paths, min(len(paths), ctx.pick(1500, 8000))):
            sc.append(dict(kind="scripted", steps=p, retry=R, m=rng.choice([0, 1, None]), feed=rng.random() < 0.5, tail=[9, 9, 9, 9, 9]))
    for _ in range(ctx.pick(300, 5000)):
        R = rng.choice([1, 3, 5, 50])
        steps = []
        for _ in range(rng.randint(3, 14)):
            if rng.random() < 0.5:
                steps.append(dict(op="eval", p=rng.randint(1, 6), ok=rng.random() < 0.6))
            else:
                steps.append(dict(op=rng.choice(["mutate", "mate"]), atts=[rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 7]) for _ in range(R)]))
        sc.append(dict(kind="scripted", steps=steps, retry=R, m=rng.choice([0, 2, None]), feed=True,
                       tail=[rng.randint(1, 9) for _ in range(60)]))
    # long pipelines, and many evaluations
    for p in rng.sample(sc, 60):
        sc.append(dict(p, length=rng.choice([3, 8, 25])))
    for k in range(ctx.pick(4, 20)):
        n = rng.choice([300, 700, 1100])
        order = rng.sample(range(1, n + 1), n)
        steps = [dict(op="eval", p=p, ok=rng.random() < 0.8) for p in order]
        for at in range(0, len(steps), n // 8):
            seen = order[:at] or [1]
            steps.insert(at + at * 8 // n, dict(op=rng.choice(["mutate", "mate"]), atts=[rng.choice(seen), seen[0], seen[-1], rng.choice(seen), 1250, 1251]))
        steps.append(dict(op="mutate", atts=[order[0], order[-1], order[n // 2], 1250]))
        steps.append(dict(op="mate", atts=[order[1], order[-2], order[n // 3], 1251]))
        sc.append(dict(kind="scripted", steps=steps, retry=5, m=rng.choice([0, 2, 50]), feed=True, tail=[1260] * 9))
    subsets = [list(c) for n in range(0, 5) for c in itertools.combinations(range(4), n)]
    for _ in range(ctx.pick(150, 1500)):
        fits = [[(rng.choice(subsets), rng.random() < 0.6) for _ in range(rng.randint(1, 2))] for _ in range(rng.choice([1, 2, 2, 3]))]
        sc.append(dict(kind="natural", fits=fits, seed=rng.randint(0, 10**6)))
    ctx.validate("OffspringTrace", ctx.drive(scenario, sc))


vlib.main("C07", body)
